package checks

import (
	"bytes"
	"html"
	"regexp"
	"strings"

	lib "github.com/alecthomas/chroma"
	"github.com/alecthomas/chroma/lexers"
	"github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	"github.com/vito/booklit/chroma"
	"github.com/vito/booklit/render"

	"verif/fw"
	"verif/run"
)

var languages = []string{"go", "ruby", "python", "html", "json", "bash", "booklit", "text", "no-such-language", "", "sql", "rust", "javascript", "yaml", "css", "diff", "java", "lua", "c++", "make", "xml", "docker", "markdown"}

var snippets = []string{
	"package main", "func f(x int) string { return \"a<b\" }", "<script>alert(1)</script>", "&amp; & &lt;", "if (a && b || c < d) { }",
	"\"unterminated", "'q", "/* comment", "// line", "# hash", "{- lit -}", "\\title{x}", "\\\\", "<a href=\"x\">", "</span>", "</pre>", "<!-- -->", "-->",
	"key: value", "- item", "{\"a\": [1, 2.5e3, null]}", "SELECT * FROM t WHERE a <> 'b';", "$ echo \"$HOME\" | sed 's/a/b/'", "@@ -1 +1 @@", "+added", "-gone", "é漢🙂", "\t", "   ", "x", "0x1F", "::", "->", "%d", "\u00a0", "<", ">", "&", "\"", "'", "`",
}

func codeText(c *fw.Ctx, lines int) string {
	out := []string{}
	for i := 0; i < lines; i++ {
		l := ""
		for k := c.R.Intn(4); k >= 0; k-- {
			l += snippets[c.R.Intn(len(snippets))]
			if c.R.Intn(2) == 0 {
				l += " "
			}
		}
		l = strings.ReplaceAll(l, "}}}", "}} }")
		l = strings.TrimSpace(strings.ReplaceAll(l, "\u00a0", "_"))
		if l == "" {
			l = "x"
		}
		if strings.HasSuffix(l, "}") {
			l += ";"
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

var anyTag = regexp.MustCompile(`<[^<>]*>`)

// highlighted is the text of highlighted code.
func highlighted(s string) string { return html.UnescapeString(anyTag.ReplaceAllString(s, "")) }

func init() {
	add(&fw.Check{
		ID: "C25", Quick: 2000, Thorough: 100000,
		Rule: "a case is code of random pieces of many languages (or none known) in a book, highlighted in flow and as a block, with and without a style; what is shown must be the code, character by character, its markup must be the highlighter's only, and it must come as flow or block with its language; transformers must see each match once and keep all else; and the lexer for Booklit must keep every character and tell comments, verbatim text, function names and braces; non-trivial if the code is longer than a word",
		Need: []string{"code shown in flow", "code shown as a block", "characters shown", "matches transformed", "sources lexed", "comments told", "names told", "unknown languages"},
		Run:  syntaxCase,
	})
}

var hexColour = regexp.MustCompile(`color: ?(#[0-9a-f]{3,6})`)

var allowedTag = regexp.MustCompile(`^</?(span|pre|code)( (style|class|tabindex)="[-#:;.,a-zA-Z0-9 %]*")*>$`)

func syntaxCase(c *fw.Ctx) {
	lang := languages[c.R.Intn(len(languages))]
	if lang == "no-such-language" || lang == "" {
		c.Count("unknown languages")
	}
	flow := c.R.Intn(2) == 0
	code := ""
	src := ""
	if flow {
		code = pick(c.R, []string{"", "", " ", "   ", "\t"}) + codeText(c, 1) + pick(c.R, []string{"", "", " ", "  "})
		src = "{{{" + code + "}}}"
		if strings.HasPrefix(code, "-") || strings.HasPrefix(code, "{") {
			code = "x" + code
			src = "{{{" + code + "}}}"
		}
	} else {
		lines := 1 + c.R.Intn(5)
		code = codeText(c, lines)
		ls := strings.Split(code, "\n")
		indent := strings.Repeat(" ", c.R.Intn(4))
		src = "{{{\n"
		for i, l := range ls {
			if i > 0 && c.R.Intn(4) == 0 {
				src += "\n"
				ls[i] = "\n" + ls[i]
			}
			more := ""
			if i > 0 {
				more = strings.Repeat(" ", c.R.Intn(5))
			}
			ls[i] = strings.Replace(ls[i], l, more+l, 1)
			src += indent + more + l + "\n"
		}
		code = strings.Join(ls, "\n")
		src += indent + "}}}"
	}
	style, styleName := "", ""
	if c.R.Intn(3) == 0 {
		styleName = pick(c.R, []string{"monokai", "github", "vim", "dracula", "no-such-style"})
		style = "{" + styleName + "}"
	}
	doc := "\\title{T}{index}\n\n\\use-plugin{chroma}\n\n"
	call := "\\syntax{" + lang + "}" + src + style
	if flow {
		doc += "before " + call + " after\n"
	} else {
		doc += "before\n\n" + call + "\n\nafter\n"
	}
	b := run.Doc(doc)
	b.Templates = map[string]string{
		"code-flow":  `<i class="flow" lang="{{(.Partial "Language").String}}">{{.Content | render}}</i><!--end-->`,
		"code-block": `<i class="block" lang="{{(.Partial "Language").String}}">{{.Content | render}}</i><!--end-->`,
	}
	c.Input(b.String())
	out := run.Real(b)
	if out.Panic != "" || out.Err != nil {
		c.Fail("%s%v", out.Panic, out.Err)
		return
	}
	c.Key(doc)
	page := out.Pages["index.html"]
	kind := map[bool]string{true: "flow", false: "block"}[flow]
	head := `<i class="` + kind + `" lang="` + html.EscapeString(lang) + `">`
	_, rest, ok := strings.Cut(page, head)
	if !ok {
		head = strings.ReplaceAll(head, "+", "&#43;")
		_, rest, ok = strings.Cut(page, head)
	}
	if !ok {
		c.Fail("the code does not come as %s with its language: %s", head, page[strings.Index(page, "<body"):])
		return
	}
	end := strings.LastIndex(rest, "</i>")
	if i := strings.Index(rest, "</i>\n"); i >= 0 && flow == false {
		end = i
	}
	shown := rest[:end]
	if tail := rest[end:]; !strings.Contains(tail, "after") {
		c.Fail("what follows the code is lost: %q", rest)
		return
	}
	for _, tag := range anyTag.FindAllString(shown, -1) {
		if !allowedTag.MatchString(tag) {
			c.Fail("markup which is not the highlighter's: %q in %q", tag, shown)
			return
		}
	}
	if rest := anyTag.ReplaceAllString(shown, ""); strings.ContainsAny(rest, "<>") {
		c.Fail("unescaped markup in %q", shown)
		return
	}
	if l := lexers.Get(lang); l != nil {
		// some of the library's lexers change the code
		it, err := l.Tokenise(nil, code)
		if err != nil {
			fw.Bail("%s", err)
		}
		if s := lib.Stringify(it.Tokens()...); strings.TrimRight(s, "\n") != strings.TrimRight(code, "\n") {
			c.Count("changed by the library's lexer")
			c.Trivial()
			return
		}
	}
	if got := highlighted(shown); strings.TrimRight(got, "\n") != strings.TrimRight(code, "\n") {
		c.Fail("shown %q, the code is %q", got, code)
		return
	}
	// colours are those of the style
	st := styles.Fallback
	if styleName != "" {
		st = styles.Get(styleName)
	}
	has := map[string]bool{}
	for _, t := range st.Types() {
		e := st.Get(t)
		has[e.Colour.String()], has[e.Background.String()], has[e.Border.String()] = true, true, true
	}
	for _, m := range hexColour.FindAllStringSubmatch(strings.Join(anyTag.FindAllString(shown, -1), ""), -1) {
		h := m[1]
		if len(h) == 4 {
			h = "#" + h[1:2] + h[1:2] + h[2:3] + h[2:3] + h[3:4] + h[3:4]
		}
		if !has[h] {
			c.Fail("the colour %s is not of the style %q: %q", h, styleName, shown)
			return
		}
		c.Count("colours of the style")
	}
	if strings.Contains(shown, "<pre") == flow {
		c.Fail("the code is %s, but: %q", kind, shown)
		return
	}
	c.Count("code shown " + map[bool]string{true: "in flow", false: "as a block"}[flow])
	c.Count("characters shown", len(code))

	transforms(c, lang, code, flow)
	if c.Failed() {
		return
	}
	lexes(c)
}

// transforms checks transformers.
func transforms(c *fw.Ctx, lang, code string, flow bool) {
	var content booklit.Content = booklit.String(code)
	if !flow {
		ls := booklit.Preformatted{}
		for _, l := range strings.Split(code, "\n") {
			ls = append(ls, booklit.String(l))
		}
		content = ls
	}
	plugin := chroma.NewPlugin(&booklit.Section{}).(chroma.Plugin)
	text := func(x booklit.Content) (string, string) {
		eng := render.NewHTMLEngine()
		s, ok := x.(booklit.Styled)
		if !ok {
			c.Fail("highlighted code is %T", x)
			return "", ""
		}
		var buf bytes.Buffer
		// in a sequence, as a section's body
		if err := eng.RenderSection(&buf, &booklit.Section{Title: booklit.Empty, Body: s.Content, PrimaryTag: booklit.Tag{Name: "x"}}); err != nil {
			c.Fail("%s", err)
		}
		return buf.String(), string(s.Style)
	}
	plain, err := plugin.SyntaxTransform(lang, content, styles.Fallback)
	if err != nil {
		c.Fail("%s", err)
		return
	}
	want, kind := text(plain)
	if kind != map[bool]string{true: "code-flow", false: "code-block"}[content.IsFlow()] || plain.IsFlow() != content.IsFlow() {
		c.Fail("highlighted code is styled %s (flow: %v), the code's flow is %v", kind, plain.IsFlow(), content.IsFlow())
		return
	}
	patterns := []string{`[aeiou]+`, `\w`, `\s+`, `zzz`, `x*`, `t`, `[0-9]+`, `&[a-z]+;`}
	seen := []string{}
	var ts []chroma.Transformer
	for n := 1 + c.R.Intn(2); n > 0; n-- {
		ts = append(ts, chroma.Transformer{
			Pattern: regexp.MustCompile(patterns[c.R.Intn(len(patterns))]),
			Transform: func(s string) booklit.Content {
				seen = append(seen, s)
				return booklit.String(s)
			},
		})
	}
	same, err := plugin.SyntaxTransform(lang, content, styles.Fallback, ts...)
	if err != nil {
		c.Fail("%s", err)
		return
	}
	if got, _ := text(same); got != want {
		c.Fail("with transformers which change nothing: %q, without: %q", got, want)
		return
	}
	c.Count("matches transformed", len(seen))

	if c.I%3 == 0 && !marksMatches(c, plugin, lang, content, ts, plain, text) {
		return
	}

	// on a plain string
	re := ts[0].Pattern
	str := code + codeText(c, 1)
	marks := chroma.Transformer{Pattern: re, Transform: func(s string) booklit.Content {
		return booklit.Styled{Style: booklit.StyleBold, Content: booklit.String(s)}
	}}
	pieces := marks.TransformAll(str)
	got := ""
	for _, p := range pieces {
		if s, ok := p.(booklit.Styled); ok {
			got += "[" + s.Content.String() + "]"
			c.Count("matches transformed")
		} else {
			got += p.String()
		}
	}
	if wantStr := re.ReplaceAllStringFunc(str, func(s string) string { return "[" + s + "]" }); got != wantStr {
		c.Fail("transforming %q by %s: %q, want %q", str, re, got, wantStr)
	}
}

// marksMatches tells whether transformers which mark their matches mark all of them.
func marksMatches(c *fw.Ctx, plugin chroma.Plugin, lang string, content booklit.Content, ts []chroma.Transformer, plain booklit.Content, text func(booklit.Content) (string, string)) bool {
	// transformers which mark what they see, the later ones in what is left
	raw := ""
	var flat func(x booklit.Content)
	flat = func(x booklit.Content) {
		switch x := x.(type) {
		case booklit.Sequence:
			for _, k := range x {
				flat(k)
			}
		case booklit.Styled:
			raw += x.Content.String()
		default:
			raw += x.String()
		}
	}
	flat(plain.(booklit.Styled).Content)
	left := booklit.Sequence{booklit.String(raw)}
	for i := range ts {
		style := []booklit.Style{booklit.StyleBold, booklit.StyleItalic}[i]
		ts[i].Transform = func(s string) booklit.Content {
			return booklit.Styled{Style: style, Content: booklit.String(s)}
		}
		var next booklit.Sequence
		for _, x := range left {
			str, ok := x.(booklit.String)
			if !ok {
				next = append(next, x)
				continue
			}
			last := 0
			for _, m := range ts[i].Pattern.FindAllStringIndex(string(str), -1) {
				next = append(next, str[last:m[0]], ts[i].Transform(string(str[m[0]:m[1]])))
				last = m[1]
			}
			next = append(next, str[last:])
		}
		left = next
	}
	for i, x := range left {
		if str, ok := x.(booklit.String); ok {
			left[i] = booklit.Styled{Style: "raw-html", Content: str}
		} else {
			c.Count("matches marked")
		}
	}
	res, err := plugin.SyntaxTransform(lang, content, styles.Fallback, ts...)
	if err != nil {
		c.Fail("%s", err)
		return false
	}
	got, _ := text(res)
	if want, _ := text(booklit.Styled{Content: left}); got != want && (len(ts) == 1 || !ts[1].Pattern.MatchString("")) {
		c.Fail("with transformers which mark what they match: %q, want %q", got, want)
		return false
	}
	return true
}

// lexes checks the lexer for Booklit.
func lexes(c *fw.Ctx) {
	var src strings.Builder
	var kinds []string
	add := func(kind, s string) {
		src.WriteString(s)
		for range s {
			kinds = append(kinds, kind)
		}
	}
	words := func() string {
		return pick(c.R, []string{"word", "two words", "a\nb", "x-y", "é", "- dash", "<b>", "end."})
	}
	last := ""
	for k := 1 + c.R.Intn(8); k > 0; k-- {
		n := c.R.Intn(6)
		switch {
		case n == 0 && last != "{":
			s := pick(c.R, []string{"{", "{", "}"})
			// no run of braces, nor one which opens a comment
			add("brace", s)
			last = "{"
			add("text", " ")
		case n == 1:
			add("name", "\\"+pick(c.R, []string{"bold", "title", "a-b-c", "x"}))
			add("text", " ")
			c.Count("names told")
			last = ""
		case n == 2:
			inner := words()
			if c.R.Intn(2) == 0 {
				inner += "{- " + words() + " -}" + words()
			}
			if c.R.Intn(3) == 0 {
				inner += " { } \\bold }} "
			}
			add("comment", "{- "+inner+" -}")
			c.Count("comments told")
			add("text", " ")
			last = ""
		case n == 3:
			add("verbatim", "{{{"+words()+pick(c.R, []string{"", " \\bold{x} ", " { ", " }} x", "{- x"})+"}}}")
			add("text", " ")
			last = ""
		default:
			add("text", words()+" ")
			last = ""
		}
	}
	s := src.String()
	it, err := chroma.Booklit.Tokenise(nil, s)
	if err != nil {
		c.Fail("lexing %q: %s", s, err)
		return
	}
	got := ""
	var gotKinds []string
	for _, t := range it.Tokens() {
		got += t.Value
		k := "?" + t.Type.String()
		switch t.Type {
		case lib.Text:
			k = "text"
		case lib.Keyword:
			k = "name"
		case lib.CommentMultiline:
			k = "comment"
		case lib.StringDouble:
			k = "verbatim"
		case lib.NameBuiltin:
			k = "brace"
		}
		for range t.Value {
			gotKinds = append(gotKinds, k)
		}
	}
	if strings.TrimRight(got, "\n") != strings.TrimRight(s, "\n") {
		c.Fail("lexing %q yields the text %q", s, got)
		return
	}
	rs := []rune(s)
	for i := range rs {
		if i < len(gotKinds) && gotKinds[i] != kinds[i] {
			c.Fail("lexing %q: character %d (%q) is %s, want %s", s, i, string(rs[i]), gotKinds[i], kinds[i])
			return
		}
	}
	// and any text at all
	raw := soup(c.R, 1+c.R.Intn(60))
	raw = strings.ReplaceAll(strings.ToValidUTF8(raw, "?"), "\r", "")
	it, err = chroma.Booklit.Tokenise(nil, raw)
	if err != nil {
		c.Fail("lexing %q: %s", raw, err)
		return
	}
	if got := lib.Stringify(it.Tokens()...); strings.TrimRight(got, "\n") != strings.TrimRight(raw, "\n") {
		c.Fail("lexing %q yields the text %q", raw, got)
		return
	}
	c.Count("sources lexed", 2)
}
