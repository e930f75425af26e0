package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"unicode/utf8"

	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

var soupTokens = []string{
	"{", "}", "{", "}", "{", "}", "{{", "}}", "{{{", "}}}", "\\", "\\\\", "\\{", "\\}", "{-", "-}", "-", " ", " ", " ", "  ", "\t", "\n", "\n", "\n\n", "\n\n", "\r\n", "\r\n\r\n", "\n \n",
	"word", "two words", "a", "é", "漢字", "\u00a0", "&<>\"'", "\r", "\f", "\v",
	"\\bold", "\\italic{x}", "\\code", "\\list", "\\table", "\\table-row", "\\definitions", "\\definition{a}{b}", "\\link{a}{b}", "\\image{a}",
	"\\target{t}", "\\reference{t}", "\\reference{root}", "\\aux", "\\section", "\\section{\\title{s}}", "\\title{x}", "\\split-sections", "\\single-page", "\\table-of-contents",
	"\\include-section{index.lit}", "\\use-plugin{probe}", "\\set-partial{a}{b}", "\\styled{x}", "\\who", "\\echo", "\\echo-text", "\\node", "\\nodes", "\\texts", "\\three", "\\joined", "\\nothing", "\\nil-content",
	"\\bold{x}", "{x}", "{{x}}", "{{{x}}}", "{\n", "\n}", "{{\n", "\n}}", "{{{\n", "\n}}}", "{-x-}", "{- {- -} -}", "\\a-b", "\\-x", "\\a-", "\\A", "\\1",
	"\\inset", "\\aside", "\\deferred{z1}", "\\styled-as{bold}", "\\opt-ref{nope}",
}

// soup is a run of tokens.
func soup(r *rand.Rand, n int) string {
	out := ""
	for i := 0; i < n; i++ {
		out += soupTokens[r.Intn(len(soupTokens))]
	}
	return out
}

// mutate makes a few random edits.
func mutate(r *rand.Rand, src string, edits int) string {
	for ; edits > 0; edits-- {
		rs := []rune(src)
		if len(rs) == 0 {
			rs = []rune("x")
		}
		at := func() int { return r.Intn(len(rs) + 1) }
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		if j > i+30 {
			j = i + r.Intn(30)
		}
		switch r.Intn(6) {
		case 0: // delete
			if r.Intn(2) == 0 {
				j = min(i+1, len(rs))
			}
			src = string(rs[:i]) + string(rs[j:])
		case 1: // duplicate
			src = string(rs[:j]) + string(rs[i:])
		case 2: // move
			k := at()
			rest := append(append([]rune{}, rs[:i]...), rs[j:]...)
			if k > len(rest) {
				k = len(rest)
			}
			src = string(rest[:k]) + string(rs[i:j]) + string(rest[k:])
		default: // insert
			src = string(rs[:i]) + soupTokens[r.Intn(len(soupTokens))] + string(rs[i:])
		}
	}
	return src
}

// structural characters only
func balanced(r *rand.Rand, depth int) string {
	out := ""
	for i := r.Intn(4); i >= 0; i-- {
		switch r.Intn(9) {
		case 0, 1:
			out += pick(r, []string{"x", " ", "y z", "\n", "\n\n", "\\\\", "\\{"})
		case 2:
			out += "\\" + pick(r, []string{"bold", "node", "echo", "nodes", "joined", "code", "inset"})
			for k := r.Intn(3); k >= 0 && depth > 0; k-- {
				o := pick(r, []string{"{", "{", "{\n", "{{\n", "{{", "{ ", "{\n\n"})
				out += o + balanced(r, depth-1) + pick(r, []string{"", "\n", " "}) + strings.Repeat("}", strings.Count(o, "{"))
			}
		case 3:
			out += "\\node{{{" + strings.ReplaceAll(soup(r, r.Intn(5)), "}}}", "}}") + " }}}"
		case 4:
			out += "{" + balanced(r, depth-1) + "}"
		case 5:
			out += "{-" + soup(r, r.Intn(3)) + "-}"
		default:
			out += pick(r, []string{"w", "w w", " ", "\n"})
		}
		if depth <= 0 {
			break
		}
	}
	return out
}

func init() {
	add(&fw.Check{
		ID: "C29", Quick: 9000, Thorough: 200000,
		Rule: "a case is a document of grammar tokens in random order, of nested braces of every kind, or a valid book with up to four random edits; whether it is accepted, and everything which comes of it, must be what an independent recursive descent reading of the syntax gives; non-trivial if it has markup",
		Need: []string{"accepted", "rejected", "pages compared", "calls recorded and compared"},
		Run: func(c *fw.Ctx) {
			var b run.Book
			switch c.I % 4 {
			case 0:
				b = run.Doc("\\title{T}{root}\n\n\\use-plugin{probe}\n\n" + soup(c.R, 1+c.R.Intn(10)))
			case 1:
				b = run.Doc("\\title{T}{root}\n\n\\use-plugin{probe}\n\n" + balanced(c.R, 3) + pick(c.R, []string{"", "\n"}))
			default:
				p := gen.Everything()
				p.Levels, p.Blocks, p.Plugins = 1, 2, 80
				p.Faults = 3
				b = gen.New(c.R, p).Book()
				if c.I%4 == 2 {
					n := pick(c.R, run.Keys(b.Files))
					b.Files[n] = mutate(c.R, b.Files[n], 1+c.R.Intn(4))
				}
			}
			got, want, ok := differ(c, b)
			if !ok {
				return
			}
			if e, isErr := want.Err.(*ref.Err); isErr && e.Kind == "parse" {
				c.Count("rejected")
				if run.Classify(got.Err).Kind != "parse" {
					c.Fail("rejected with %v", got.Err)
				}
			} else {
				c.Count("accepted")
			}
			if !strings.ContainsAny(b.Files["index.lit"], "\\{") {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C05", Quick: 12000, Thorough: 150000,
		Rule: "a case is a book of random bytes, tokens, edited books, calls of every function with any number and kind of arguments, or files including each other at random (and themselves, directories, missing and empty files); it is built as HTML or text, with broken references allowed or not, and with a search index: it must be built, every page complete, or report an error which can be shown on the terminal and as a page; a panic, a crash or a runtime error is a violation; non-trivial if it has markup",
		Need: []string{"built", "errors", "books of random bytes", "books of calls", "include graphs", "self-including books reported", "text builds", "errors shown"},
		Run:  robust,
	})
}

var everyFunction = strings.Fields(`title aux section include-section split-sections single-page omit-children-from-table-of-contents
 styled set-partial use-plugin table-of-contents reference target link image code inset aside bold italic larger smaller strike
 superscript subscript list ordered-list table table-row definitions definition
 who echo echo-text nothing nothing-err nil-content nil-both both fail fail-both fail-pretty fail-pretty-both texts mixed three node nodes bad-arg bad-two
 table list definitions target aux reference echo bold joined
 multi-word-name deferred deferred-block deferred-fail deferred-wrap styled-as styled-block styled-parts opt-ref joined slow only syntax syntax-block`)

var arities = map[string]int{"title": 1, "aux": 1, "section": 1, "include-section": 1, "split-sections": 0, "single-page": 0,
	"omit-children-from-table-of-contents": 0, "styled": 1, "set-partial": 2, "use-plugin": 1, "table-of-contents": 0, "link": 2, "code": 1,
	"inset": 1, "aside": 1, "bold": 1, "italic": 1, "larger": 1, "smaller": 1, "strike": 1, "superscript": 1, "subscript": 1, "definition": 2,
	"who": 0, "echo": 1, "echo-text": 1, "nothing": 0, "nothing-err": 0, "nil-content": 0, "nil-both": 0, "both": 1, "three": 3, "node": 1,
	"multi-word-name": 1, "deferred": 1, "deferred-block": 1, "deferred-wrap": 2, "styled-as": 2, "styled-block": 2, "styled-parts": 4, "opt-ref": 2, "slow": 1, "only": 1,
	"syntax": 2, "syntax-block": 2, "mixed": 2}

// anyArg is any argument.
func anyArg(r *rand.Rand, depth int) string {
	words := []string{"", "x", "root", "index.lit", "no such", ".", "..", "/", "bold", "verbatim", "section", "1", "a b", "é", "\\\\", "{}", "{x}", "probe", "other", "go", "booklit", "%", "<b>", "T"}
	if depth <= 0 {
		return "{" + pick(r, words) + "}"
	}
	switch r.Intn(8) {
	case 0, 1:
		return "{" + pick(r, words) + "}"
	case 2:
		return "{\n" + anyCall(r, depth-1) + "\n" + pick(r, []string{"", "\n" + anyCall(r, depth-1) + "\n"}) + "}"
	case 3:
		return "{{\n  " + pick(r, words) + "x\n    " + anyCall(r, depth-1) + "\n}}"
	case 4:
		return "{{{" + pick(r, words) + pick(r, []string{"", "\n x\n"}) + "}}}"
	case 5:
		return "{a " + anyCall(r, depth-1) + " b}"
	case 6:
		return "{" + pick(r, []string{"\\nothing", "\\nil-content", "\\nil-both", "\\aux{x}", "\\aux{}", "\\who", "{\\nothing}", "\\split-sections", "\\list", "\\table", "\\definitions"}) + "}"
	}
	return "{" + anyCall(r, depth-1) + "}"
}

func anyCall(r *rand.Rand, depth int) string {
	fn := pick(r, everyFunction)
	out := "\\" + fn
	n := r.Intn(4)
	if want, ok := arities[fn]; ok && r.Intn(8) > 0 {
		n = want
	}
	for ; n > 0; n-- {
		arg := anyArg(r, depth)
		if strings.HasPrefix(arg, "{no") && r.Intn(2) == 0 || (fn == "reference" || fn == "include-section" || fn == "use-plugin") && r.Intn(3) > 0 {
			arg = "{" + map[string]string{"reference": "root", "include-section": "no such", "use-plugin": "probe"}[fn] + "}"
		}
		switch fn {
		case "table":
			arg = "{" + pick(r, []string{"\\table-row", "\\list", "\\ordered-list"}) + strings.Repeat(anyArg(r, depth-1), r.Intn(4)) + "}"
		case "definitions":
			arg = "{\\definition" + anyArg(r, depth-1) + anyArg(r, depth-1) + "}"
			if r.Intn(3) == 0 {
				arg = "{" + pick(r, []string{"\\table-row", "\\list", "\\ordered-list"}) + strings.Repeat(anyArg(r, depth-1), r.Intn(4)) + "}"
			}
		case "styled-as", "styled-block", "styled-parts", "styled":
			if n == map[string]int{"styled-as": 2, "styled-block": 2, "styled-parts": 4, "styled": 1}[fn] {
				arg = "{" + pick(r, []string{"bold", "verbatim", "italic", "inset", "section", "aside"}) + "}"
			}
		}
		out += arg
	}
	return out
}

// includeGraph is a book of files including each other at random.
func includeGraph(c *fw.Ctx) run.Book {
	r := c.R
	names := []string{"index.lit", "a.lit", "sub/b.lit", "sub/c.lit", "sub/deep/d.lit", "e.txt", "empty.lit"}
	files := map[string]string{}
	cyclic := r.Intn(2) == 0
	for i, n := range names {
		dir := strings.Count(n, "/")
		src := fmt.Sprintf("\\title{F%d}{f%d}\n\n", i, i)
		for k := r.Intn(3); k > 0; k-- {
			j := r.Intn(len(names))
			if !cyclic && j <= i {
				continue
			}
			to := strings.Repeat("../", dir) + names[j]
			switch r.Intn(12) {
			case 0:
				to = pick(r, []string{"missing.lit", ".", "..", "sub", "", "/", "nul\u0000", strings.Repeat("long", 100), " ", "a.lit/", "./" + to, "sub/../" + to})
			case 1:
				to = "sub/../" + to
			}
			call := "\\include-section{" + to + "}"
			switch r.Intn(5) {
			case 0:
				call = "\\section{\\title{in}{in" + fmt.Sprint(i, k) + "}\n\n" + call + "\n}"
			case 1:
				call = "\\bold{" + call + "}"
			}
			src += call + "\n\n"
		}
		if r.Intn(4) == 0 {
			src += "\\split-sections\n\n\\table-of-contents\n"
		}
		files[n] = src
	}
	if r.Intn(2) == 0 {
		files["empty.lit"] = pick(r, []string{"", "\n", "\n\n", " "})
	}
	return run.Book{Files: files, Root: pick(r, []string{"index.lit", "index.lit", "./index.lit", "sub/b.lit"})}
}

// gate says whether the model has nothing against running the book: circular
// titles (a known finding) and documents which take too long to parse.
func gate(c *fw.Ctx, b run.Book) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			// the model is not made for this; leave it to the real code
			c.Count("beyond the model")
			ok = true
		}
	}()
	m := b
	m.Text, m.Templates = "", nil
	want := run.Model(m, run.HTMLRender())
	return !want.Skip
}

func robust(c *fw.Ctx) {
	var b run.Book
	kind := ""
	switch c.I % 8 {
	case 0:
		kind = "books of random bytes"
		n := c.R.Intn(60)
		if c.R.Intn(10) == 0 {
			n = c.R.Intn(3000)
		}
		src := make([]byte, n)
		common := []byte("{}\\-\n\r \tab\x00\xff\xc3\xa9\xe2\x80\xef\xbb\xbf<&")
		for i := range src {
			if c.R.Intn(3) > 0 {
				src[i] = common[c.R.Intn(len(common))]
			} else {
				src[i] = byte(c.R.Intn(256))
			}
		}
		b = run.Doc(string(src))
	case 1:
		kind = "books of tokens"
		b = run.Doc(pick(c.R, []string{"", "\\title{T}{root}\n\n\\use-plugin{probe}\n\n"}) + soup(c.R, 1+c.R.Intn(20)))
	case 2, 3:
		kind = "edited books"
		p := gen.Everything()
		p.Levels = 1
		p.Faults, p.NoTitle, p.Dup = 5, 10, 3
		b = gen.New(c.R, p).Book()
		for k := c.R.Intn(3); k > 0; k-- {
			n := pick(c.R, run.Keys(b.Files))
			b.Files[n] = mutate(c.R, b.Files[n], 1+c.R.Intn(4))
		}
	case 4:
		kind = "include graphs"
		b = includeGraph(c)
	default:
		kind = "books of calls"
		src := pick(c.R, []string{"", "\\title{T}{root}\n\n", "\\title{T}{root}\n\n", "\\title{T}{root}\n\n"}) + "\\use-plugin{probe}\n\n\\use-plugin{other}\n\n\\use-plugin{chroma}\n\n"
		for k := c.R.Intn(4); k >= 0; k-- {
			src += pick(c.R, []string{"", "", "text "}) + anyCall(c.R, 3) + pick(c.R, []string{"\n\n", "\n", " ", "\n\n"})
		}
		b = run.Doc(src)
		b.Files["no such"] = "x"
	}
	b.AllowBroken = c.R.Intn(3) == 0
	b.Index = c.R.Intn(2) == 0
	if c.R.Intn(3) == 0 {
		b.Text = pick(c.R, []string{"txt", "md", "html", "x/y", ""})
		if c.R.Intn(2) == 0 {
			b.Templates = ref.ExtraTextTemplates
		}
		c.Count("text builds")
	}
	c.Input(b.String())
	if !gate(c, b) {
		c.Count("skipped: circular titles or too costly to parse")
		c.Trivial()
		return
	}
	c.Count(kind)
	c.Key(b.String())
	for _, src := range b.Files {
		if strings.Contains(src, "\\") {
			c.Sample(kind + ":\n" + b.String())
			break
		}
	}
	got := build(c, b)
	if got.Panic != "" {
		c.Fail("panic: %s", got.Panic)
		return
	}
	if got.Err != nil {
		c.Count("errors")
		msg := got.Err.Error()
		if strings.HasPrefix(msg, "harness:") {
			c.Trivial()
			return
		}
		if strings.TrimSpace(msg) == "" {
			c.Fail("an error without a message")
			return
		}
		for _, bad := range []string{"runtime error", "nil pointer", "reflect:", "reflect.Value", "index out of range", "goroutine "} {
			if strings.Contains(msg, bad) {
				if strings.Contains(msg, `"toc.tmpl" at <url>`) && untitled(got) {
					c.Count("known finding: untitled sections in a table of contents")
					return
				}
				c.Fail("a crash is reported as an error: %s", msg)
				return
			}
		}
		if strings.Contains(msg, "includes itself") {
			c.Count("self-including books reported")
		}
		if d := run.Present(got.Err); d != "" {
			c.Fail("%s (error: %s)", d, msg)
			return
		}
		c.Count("errors shown")
		return
	}
	c.Count("built")
	ext := "html"
	if b.Text != "" {
		ext = b.Text
	}
	if len(got.Pages) == 0 {
		c.Fail("built without an error, but there is no page")
		return
	}
	if got.Sec != nil {
		name := got.Sec.PrimaryTag.Name + "." + ext
		if _, ok := got.Pages[name]; !ok {
			c.Fail("built without an error, but there is no page %q: %q", name, run.Keys(got.Pages))
			return
		}
	}
	for n, p := range got.Pages {
		c.Count("complete pages", 1)
		if b.Text == "" && !strings.HasSuffix(strings.TrimSpace(p), "</html>") {
			c.Fail("page %s is cut short: ...%q", n, p[max(0, len(p)-100):])
			return
		}
		if !utf8.ValidString(p) {
			c.Fail("page %s is not valid UTF-8", n)
			return
		}
		if bytes.Contains([]byte(p), []byte("<no value>")) && !bytes.Contains([]byte(b.String()), []byte("<no value>")) {
			c.Fail("page %s has <no value>", n)
			return
		}
	}
	_ = os.Remove("x")
}

// untitled says whether there is a section without a title below the top.
func untitled(o run.Outcome) bool {
	if o.Sec == nil {
		return false
	}
	list := o.Sec.Children
	for len(list) > 0 {
		s := list[0]
		list = append(list[1:], s.Children...)
		if s.PrimaryTag.Section == nil {
			return true
		}
	}
	return false
}
