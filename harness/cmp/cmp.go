// Package cmp normalises HTML so that pages can be compared by what they say,
// not by how the templates happen to lay out whitespace between blocks.
package cmp

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"golang.org/x/net/html"
)

var block = map[string]bool{
	"html": true, "head": true, "body": true, "title": true, "meta": true,
	"h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true,
	"nav": true, "ul": true, "ol": true, "li": true, "table": true, "tr": true,
	"td": true, "dl": true, "dt": true, "dd": true, "div": true,
	"blockquote": true, "p": true, "pre": true, "section": true,
}

// exact inner edges: whitespace just inside of these is content.
var exact = map[string]bool{"p": true, "pre": true}

// Tok is a normalised token: a tag such as `<a href="x">`, `</a>`, or text
// prefixed by a `"`.
type Tok = string

// Canon normalises a reference to a page so that equivalent escapings compare
// equal.
func Canon(href string) string {
	page, frag, hasFrag := strings.Cut(href, "#")
	page, query, hasQuery := strings.Cut(page, "?")
	dec := func(s string) string {
		if d, err := url.PathUnescape(s); err == nil {
			return d
		}
		return "bad-escape:" + s
	}
	out := fmt.Sprintf("%q", dec(page))
	if hasQuery {
		out += "?" + query
	}
	if hasFrag {
		out += "#" + fmt.Sprintf("%q", dec(frag))
	}
	return out
}

// Tokens tokenizes and normalises a page.
func Tokens(page string) []Tok {
	type raw struct {
		text  bool
		s     string
		name  string
		close bool
	}
	var raws []raw
	z := html.NewTokenizer(strings.NewReader(page))
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case html.TextToken:
			if n := len(raws); n > 0 && raws[n-1].text {
				raws[n-1].s += t.Data
			} else {
				raws = append(raws, raw{text: true, s: t.Data})
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			var attrs []string
			for _, a := range t.Attr {
				v := a.Val
				if a.Key == "href" || a.Key == "src" {
					v = Canon(v)
				}
				attrs = append(attrs, fmt.Sprintf(" %s=%q", a.Key, v))
			}
			sort.Strings(attrs)
			raws = append(raws, raw{s: "<" + t.Data + strings.Join(attrs, "") + ">", name: t.Data})
		case html.EndTagToken:
			raws = append(raws, raw{s: "</" + t.Data + ">", name: t.Data, close: true})
		case html.CommentToken:
			raws = append(raws, raw{s: "<!--" + t.Data + "-->"})
		case html.DoctypeToken:
			raws = append(raws, raw{s: "<!DOCTYPE " + t.Data + ">", name: "html"})
		}
	}

	var out []Tok
	for i, r := range raws {
		if !r.text {
			out = append(out, r.s)
			continue
		}
		s := r.s
		if i > 0 {
			p := raws[i-1]
			if block[p.name] && !(exact[p.name] && !p.close) {
				s = strings.TrimLeft(s, " \t\n")
			}
		}
		if i+1 < len(raws) {
			n := raws[i+1]
			if block[n.name] && !(exact[n.name] && n.close) {
				s = strings.TrimRight(s, " \t\n")
			}
		} else {
			s = strings.TrimRight(s, " \t\n")
		}
		if i == 0 {
			s = strings.TrimLeft(s, " \t\n")
		}
		if s != "" {
			out = append(out, `"`+s)
		}
	}
	return out
}

// Diff describes the first difference between two token lists, or "".
func Diff(got, want []Tok) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	if n == len(got) && n == len(want) {
		return ""
	}
	ctx := func(ts []Tok) string {
		from, to := n-3, n+6
		if from < 0 {
			from = 0
		}
		if to > len(ts) {
			to = len(ts)
		}
		if from > to {
			from = to
		}
		return fmt.Sprintf("%q", ts[from:to])
	}
	return fmt.Sprintf("token %d differs\n   got: %s\n  want: %s", n, ctx(got), ctx(want))
}

// Text is the text of a page, without tags.
func Text(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		if strings.HasPrefix(t, `"`) {
			b.WriteString(t[1:])
		}
	}
	return b.String()
}
