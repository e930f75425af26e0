package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"verif/cmp"
	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// build builds a book with the real code in a fresh scratch directory.
func build(c *fw.Ctx, b run.Book) run.Outcome {
	c.Scratch()
	return run.Real(b)
}

// same compares two outcomes which are to be the same.
func same(a, b run.Outcome) string {
	if a.Panic != "" || b.Panic != "" {
		return "panic: " + a.Panic + b.Panic
	}
	if (a.Err == nil) != (b.Err == nil) {
		return fmt.Sprintf("error: %v, the other: %v", a.Err, b.Err)
	}
	if a.Err != nil {
		return ""
	}
	if d := run.DiffKeys(b.Pages, a.Pages); d != "" {
		return d
	}
	for _, n := range run.Keys(a.Pages) {
		if a.Pages[n] != b.Pages[n] {
			x, y := a.Pages[n], b.Pages[n]
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			return fmt.Sprintf("page %s differs at byte %d:\n   %q\n   the other:\n   %q", n, i, around(x, i), around(y, i))
		}
	}
	return ""
}

func around(s string, i int) string {
	from, to := i-80, i+120
	if from < 0 {
		from = 0
	}
	if to > len(s) {
		to = len(s)
	}
	return s[from:to]
}

var nodeLoc = regexp.MustCompile(`@\d+:\d+`)

// unlocated drops the locations which probes put in pages.
func unlocated(o run.Outcome) run.Outcome {
	pages := map[string]string{}
	for n, p := range o.Pages {
		pages[n] = nodeLoc.ReplaceAllString(p, "@")
	}
	o.Pages = pages
	return o
}

// pick picks a random element.
func pick(r *rand.Rand, ss []string) string { return ss[r.Intn(len(ss))] }

// prose generates a paragraph along with the tokens it is to become.
type prose struct {
	r     *rand.Rand
	chars []rune
}

func (p *prose) word() string {
	n := 1 + p.r.Intn(8)
	out := make([]rune, n)
	for i := range out {
		out[i] = p.chars[p.r.Intn(len(p.chars))]
	}
	if out[0] == '-' {
		out[0] = 'd'
	}
	return string(out)
}

var proseStyles = map[string][2]string{
	"italic": {"<em>", "</em>"}, "bold": {"<strong>", "</strong>"},
	"superscript": {"<sup>", "</sup>"}, "subscript": {"<sub>", "</sub>"},
	"code": {"<code>", "</code>"},
}

// inline returns source and expected HTML.
func (p *prose) inline(depth int) (string, string) {
	// a brace or dash right after the brace of an argument means something else
	src := p.word()
	want := ref.Esc(src)
	for n := 1 + p.r.Intn(4); n > 0; n-- {
		switch k := p.r.Intn(12); {
		case k < 5:
			w := p.word()
			src, want = src+w, want+ref.Esc(w)
		case k < 7:
			c := pick(p.r, []string{"\\", "{", "}"})
			src, want = src+"\\"+c, want+c
		case k < 9 && src != "" && n > 1:
			s := pick(p.r, []string{" ", "  ", "\t", "     ", " \t "})
			src, want = src+s, want+s
		case k < 10 && depth > 0:
			if strings.HasSuffix(src, "}") {
				src, want = src+".", want+"."
			}
			switch p.r.Intn(3) {
			case 0:
				src += "{}"
			case 1:
				w := strings.ReplaceAll(p.word(), "-", "d") + pick(p.r, []string{"", " x", "  "})
				src, want = src+"{"+w+"}", want+ref.Esc(w)
			default:
				st := pick(p.r, run.Keys(proseStyles))
				in, out := p.inline(depth - 1)
				src, want = src+"{\\"+st+"{"+in+"}}", want+proseStyles[st][0]+out+proseStyles[st][1]
			}
		case depth > 0:
			st := pick(p.r, run.Keys(proseStyles))
			in, out := p.inline(depth - 1)
			src, want = src+"\\"+st+"{"+in+"}", want+proseStyles[st][0]+out+proseStyles[st][1]
		default:
			w := p.word()
			src, want = src+w, want+ref.Esc(w)
		}
	}
	// white space at the edges may go
	w := p.word()
	return src + w, want + ref.Esc(w)
}

func init() {
	add(&fw.Check{
		ID: "C01", Quick: 4000, Thorough: 60000,
		Rule: "a case is a document of prose generated together with the text it must show (words, escapes, spaces, groups, styles, line and paragraph breaks, lines of up to hundreds of kB), built and compared exactly; half of the cases are compared with the reference model instead",
		Need: []string{"paragraphs compared", "lines compared", "documents with a line of more than 64 kB"},
		Run: func(c *fw.Ctx) {
			if c.I%2 == 1 {
				p := gen.Profile{
					Inline: gen.Weights("text:6 escape:3 spaces:3 tab interp:2 styled:4 wrapped:2 verb"), Block: gen.Weights("para:6 styledblock inset list mixed"),
					Blocks: 6, Lines: 5, Words: 5, Depth: 4, Charset: pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode}),
				}
				g := gen.New(c.R, p)
				b := g.Book()
				if _, _, ok := differ(c, b); ok {
					seen(c, g)
				}
				return
			}
			p := &prose{r: c.R, chars: []rune(pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode, gen.ASCII + gen.Markup + gen.Unicode}))}
			src, want := "\\title{x}{index}\n", `<html><body><h1 class="section-header"><a id="index"></a>x</h1>`
			long := c.I%60 == 0
			for n := 1 + c.R.Intn(6); n > 0; n-- {
				src += "\n"
				if c.R.Intn(3) == 0 {
					src += strings.Repeat("\n", 1+c.R.Intn(3))
				}
				want += "<p>"
				for l := c.R.Intn(5); l >= 0; l-- {
					s, w := p.inline(3)
					if long && l == 0 {
						long = false
						x := strings.Repeat(p.word()+" ", 66000/2)
						s, w = x+s, ref.Esc(x)+w
						c.Count("documents with a line of more than 64 kB")
					}
					src += pick(c.R, []string{"", "", "  ", "\t", "        "}) + s + "\n"
					want += w
					if l > 0 {
						want += " "
					}
					c.Count("lines compared")
				}
				want += "</p>"
				c.Count("paragraphs compared")
			}
			if c.R.Intn(3) == 0 {
				src = strings.TrimSuffix(src, "\n")
			}
			b := run.Doc(src)
			if len(src) < 20000 {
				c.Input(b.String())
			}
			got := build(c, b)
			if got.Err != nil || got.Panic != "" {
				c.Fail("prose does not build: %v %s", got.Err, got.Panic)
				return
			}
			page := got.Pages["index.html"]
			i := strings.Index(page, "<body>")
			if i < 0 {
				c.Fail("the page has no body: %s", page)
				return
			}
			if d := cmp.Diff(cmp.Tokens("<html>"+page[i:]), cmp.Tokens(want+"</body></html>")); d != "" {
				c.Fail("prose is not kept: %s", d)
				return
			}
			c.Key(src)
			if len(src) < 400 {
				c.Sample(src)
			}
		},
	})

	add(&fw.Check{
		ID: "C02", Quick: 1500, Thorough: 30000,
		Rule: "a case is a book with marks between words, at line ends, in arguments, titles and preformatted text, and between blocks; it is built with the marks removed and with random (nested, multi-line, unbalanced-looking) comments in their place, pages and function calls must be the same, and both must agree with the reference model; non-trivial if at least one comment was put in",
		Need: []string{"comments inserted in lines", "comments inserted between blocks", "books built alike with and without"},
		Run: func(c *fw.Ctx) {
			p := gen.Everything()
			p.Inline = gen.Weights("text:8 mark:12 escape spaces interp styled:4 wrapped:1 verb refas target aux who probe")
			p.Block = gen.Weights("para:8 pre:3 verb list:2 table defs inset toc gapmark:2")
			p.Faults, p.CRLF, p.Comments = 0, 0, 0
			p.Charset = gen.ASCII
			g := gen.New(c.R, p)
			b := g.Book()
			plain, full := b, b
			plain.Files, full.Files = map[string]string{}, map[string]string{}
			n := 0
			for _, name := range run.Keys(b.Files) {
				src := b.Files[name]
				plain.Files[name] = strings.NewReplacer(gen.Mark, "", gen.GapMark+"\n", "", gen.GapMark, "").Replace(src)
				var out strings.Builder
				for _, ch := range src {
					switch string(ch) {
					case gen.Mark:
						if c.R.Intn(2) == 0 {
							out.WriteString(comment(c, g))
							c.Count("comments inserted in lines")
							n++
						}
					case gen.GapMark:
						if c.R.Intn(2) == 0 {
							out.WriteString(comment(c, g))
							c.Count("comments inserted between blocks")
							n++
						}
					default:
						out.WriteRune(ch)
					}
				}
				full.Files[name] = out.String()
			}
			_, want, ok := differ(c, full)
			if !ok {
				return
			}
			with := build(c, full)
			without := build(c, plain)
			if d := same(unlocated(without), unlocated(with)); d != "" {
				c.Fail("comments make a difference: %s", d)
				return
			}
			if want.Err == nil {
				c.Count("books built alike with and without")
			}
			if n == 0 {
				c.Trivial()
			}
			if g, w := calls(with.Log), calls(without.Log); g != w {
				c.Fail("comments make a difference to the calls:\n%s\n--- without:\n%s", g, w)
			}
		},
	})

	add(&fw.Check{
		ID: "C03", Quick: 1500, Thorough: 30000,
		Rule: "a case is a book of all constructs built with LF, and again with all or a random subset of its line ends as CRLF; pages and the search index must be byte-identical, and errors must be the same at the same place; both also agree with the reference model; non-trivial if a line end was changed",
		Need: []string{"books built alike", "errors alike", "line ends changed", "syntax broken", "error: parse"},
		Run: func(c *fw.Ctx) {
			p := gen.Everything()
			p.CRLF = 0
			p.Block["pre"], p.Block["verb"], p.Block["comment"] = 4, 4, 3
			p.Block["fault"] = 1
			p.Inline["node"] = 0
			g := gen.New(c.R, p)
			b := g.Book()
			if c.I%5 == 4 {
				// break the syntax anywhere, at ends of lines above all
				name := pick(c.R, run.Keys(b.Files))
				src := b.Files[name]
				at := c.R.Intn(len(src) + 1)
				if n := strings.IndexByte(src[at:], '\n'); n >= 0 && c.R.Intn(2) == 0 {
					at += n
				}
				bad := pick(c.R, []string{"\\", "\\bold{", "}", "{", "{{", "{{{", "{-", "-}", "}}", "\\A", "\n}\n", "{\n", "}\n"})
				b.Files[name] = src[:at] + bad + src[at:]
				c.Count("syntax broken")
			}
			crlf := b
			crlf.Files = map[string]string{}
			n := 0
			for k, v := range b.Files {
				crlf.Files[k] = v
				n += strings.Count(v, "\n")
			}
			if run.Model(b, run.HTMLRender()).Skip {
				c.Trivial()
				return
			}
			g.CRLF(crlf)
			c.Count("line ends changed", n)
			c.Input(crlf.String())
			lf := build(c, b)
			if _, _, ok := differ(c, crlf); !ok && c.Failed() {
				return
			}
			got := build(c, crlf)
			if d := same(lf, got); d != "" {
				c.Fail("line ends make a difference: %s", d)
				return
			}
			if lf.Err != nil {
				g, w := run.Classify(got.Err), run.Classify(lf.Err)
				if g.Kind != w.Kind || g.File != w.File || g.Loc != w.Loc || g.Len != w.Len {
					c.Fail("errors differ with line ends: %s at %v, with LF %s at %v", got.Err, g.Loc, lf.Err, w.Loc)
				}
				c.Count("errors alike")
			}
			if got.Err == nil && n == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C04", Quick: 6000, Thorough: 60000,
		Rule: "even cases are blocks of preformatted or verbatim text generated with the lines they must show (indentation by spaces or tabs, blank lines, deeper lines, braces and escapes, inline, at any nesting of blocks inside of each other), odd ones are books of such blocks compared with the reference model",
		Need: []string{"preformatted blocks compared", "verbatim blocks compared", "inline verbatim compared", "nested blocks compared", "preformatted"},
		Run: func(c *fw.Ctx) {
			if c.I%2 == 1 {
				p := gen.Profile{
					Inline: gen.Weights("text:4 escape:2 spaces:2 tab:2 interp styled verb:4 mark:0"), Block: gen.Weights("para pre:6 verb:6 list inset tableblock"),
					Blocks: 6, Lines: 3, Words: 3, Depth: 4, Charset: gen.ASCII + "<>&", Comments: 10, CRLF: 20,
				}
				g := gen.New(c.R, p)
				if _, _, ok := differ(c, g.Book()); ok {
					seen(c, g)
				}
				return
			}
			preCase(c)
		},
	})

	add(&fw.Check{
		ID: "C22", Quick: 6000, Thorough: 50000,
		Rule: "a case is a document of lists, ordered lists, tables, definitions, insets and asides with inline or block items of any number and nesting; half are generated along with the structure they must have, half are compared with the reference model; non-trivial if at least one structure has an item",
		Need: []string{"lists", "tables", "definitions", "structures compared", "error: failed"},
		Run: func(c *fw.Ctx) {
			if c.I%2 == 1 {
				p := gen.Profile{
					Inline: gen.Weights("text:6 styled:2 aux escape link interp"), Block: gen.Weights("para:2 list:6 table:2 tablevar:2 tableblock:2 defs:4 inset:2 styledblock pre verb fault:1 toc"),
					Blocks: 4, Lines: 2, Words: 2, Depth: 4, Charset: gen.ASCII, Faults: 4, Before: 12,
				}
				g := gen.New(c.R, p)
				if _, _, ok := differ(c, g.Book()); ok {
					seen(c, g)
				}
				return
			}
			s := &structs{r: c.R}
			src, want := "\\title{x}{index}\n\n", `<html><body><h1 class="section-header"><a id="index"></a>x</h1>`
			for i := 1 + c.R.Intn(3); i > 0; i-- {
				sr, w := s.block(3)
				src += sr + "\n\n"
				want += w
			}
			if c.I%4 == 0 {
				// in an included section, and in an inline section
				src = "\\title{x}{index}\n\n\\section{\n\\title{y}{y}\n\n" + strings.TrimPrefix(src, "\\title{x}{index}\n\n") + "}\n"
				want = `<html><body><h1 class="section-header"><a id="index"></a>x</h1><h2 class="section-header"><a id="y"></a><span class="section-number">1 </span>y</h2>` +
					strings.TrimPrefix(want, `<html><body><h1 class="section-header"><a id="index"></a>x</h1>`)
			}
			b := run.Doc(src)
			c.Input(b.String())
			if ref.Parse(src).Cost > run.MaxCost {
				c.Trivial()
				return
			}
			got := build(c, b)
			if got.Err != nil || got.Panic != "" {
				c.Fail("structures do not build: %v %s", got.Err, got.Panic)
				return
			}
			page := got.Pages["index.html"]
			if i := strings.Index(page, "<body>"); i >= 0 {
				page = "<html>" + page[i:]
			}
			if d := cmp.Diff(cmp.Tokens(page), cmp.Tokens(want+"</body></html>")); d != "" {
				c.Fail("structure is not kept: %s", d)
				return
			}
			c.Count("structures compared", s.n)
			c.Key(src)
			if len(src) < 400 {
				c.Sample(src)
			}
		},
	})
}

// calls are recorded calls without their locations.
func calls(log []string) string {
	out := []string{}
	for _, l := range log {
		if _, rest, ok := strings.Cut(l, " "); ok {
			l = rest
		}
		out = append(out, nodeLoc.ReplaceAllString(l, "@"))
	}
	return strings.Join(out, "\n")
}

func comment(c *fw.Ctx, g *gen.Gen) string {
	switch c.R.Intn(6) {
	case 0:
		return "{--}"
	case 1:
		return "{- {-{- x -}-} \n\n -}"
	case 2:
		return "{- \\title{no} \\undefined{a}{b} }}} {{{ -}"
	case 3:
		return "{-\n\\section{\n\n}\n-}"
	}
	return g.Comment()
}

// Wholes are lines that could be taken for something else than text.
var Wholes = []string{
	"{- x -}", "{--}", "{- x", "-}", "\\title{x}", "\\section{", "}", "\\include-section{x.lit}", "\\use-plugin{x}",
	"\\", "\\\\", "# x", "// x", "/* x */", "% x", "; x", "-- x", "<!-- x -->", "---", "***", "> x", "* x", "- x", "1. x",
	"```", "~~~", "|x|y|", "x: y", "#!/bin/sh", "%YAML", "\f", "{{", "}}", "{{x}}", "{% x %}", "<% x %>", "${x}", "[x](y)", "==x==", "x  ", "x\t",
	"&amp;", "&lt;b&gt;", "<br>", "\\n", "\\t", "\\{", "\\}", "\\x{\\y{z}}", "$ go build", "http://x.test/y?z=1&a=2", "\u00a0", "\u200b", "\ufeff",
}

// preCase is a block of preformatted or verbatim text with known lines.
func preCase(c *fw.Ctx) {
	r := c.R
	chars := []rune("abcXYZ019.,:;&<>\"'-=")
	word := func() string {
		out := ""
		for n := 1 + r.Intn(6); n > 0; n-- {
			out += string(chars[r.Intn(len(chars))])
		}
		return out
	}
	var lines func(verb bool, base string, depth int, first bool) (src, want []string)
	styles := map[string][2]string{"bold": {"<strong>", "</strong>"}, "italic": {"<em>", "</em>"}}
	lines = func(verb bool, base string, depth int, first bool) (src, want []string) {
		for n := 1 + r.Intn(5); n > 0; n-- {
			extra := ""
			if !first {
				extra = strings.Repeat(pick(r, []string{" ", "\t", "  "}), r.Intn(5))
				if r.Intn(6) == 0 {
					// a blank line
					src, want = append(src, ""), append(want, "")
					continue
				}
			}
			first = false
			if !verb && depth > 0 && r.Intn(5) == 0 {
				// a block inside of the line
				st := pick(r, run.Keys(styles))
				inBase := strings.Repeat(pick(r, []string{" ", "\t"}), r.Intn(8))
				s, w := lines(false, inBase, depth-1, true)
				pre := word()
				src = append(src, base+extra+pre+"\\"+st+"{{")
				for _, l := range s {
					src = append(src, l)
				}
				post := word()
				src = append(src, inBase+"}}"+post)
				want = append(want, extra+ref.Esc(pre)+styles[st][0]+strings.Join(w, "\n")+styles[st][1]+ref.Esc(post))
				c.Count("nested blocks compared")
				continue
			}
			s, w := "", ""
			for m := 1 + r.Intn(4); m > 0; m-- {
				x := word()
				s, w = s+x, w+ref.Esc(x)
				switch k := r.Intn(8); {
				case k == 0:
					sp := pick(r, []string{" ", "   ", "\t"})
					s, w = s+sp+"x", w+sp+"x"
				case k == 1 && verb:
					v := pick(r, []string{"{", "}", "{{", "}}", "\\", "\\bold{x}", "{- x -}", "{-", "-}", "\\\\", "{{{"})
					s, w = s+v+"x", w+ref.Esc(v)+"x"
				case k == 1:
					v := pick(r, []string{"\\", "{", "}"})
					s, w = s+"\\"+v, w+v
				case k == 2 && !verb:
					s, w = s+"\\bold{"+x+"}", w+"<strong>"+ref.Esc(x)+"</strong>"
				case k == 3 && !verb:
					s += "{- gone -}"
				}
			}
			if verb && r.Intn(6) == 0 {
				// what would mean something on a line of its own elsewhere
				s = pick(r, Wholes)
				w = ref.Esc(s)
				c.Count("lines that look like syntax")
			}
			src, want = append(src, base+extra+s), append(want, extra+w)
		}
		return src, want
	}
	src := "\\title{x}{index}\n\n"
	want := `<html><body><h1 class="section-header"><a id="index"></a>x</h1>`
	for n := 1 + r.Intn(3); n > 0; n-- {
		verb := r.Intn(2) == 0
		base := strings.Repeat(pick(r, []string{" ", "\t", "  ", " \t"}), r.Intn(4))
		if verb && r.Intn(3) == 0 {
			x := word() + pick(r, []string{" ", "  ", "{", "}x", "\\", "{- a -}", "\\bold{x} ", "}}x"}) + word()
			if r.Intn(3) == 0 {
				x = pick(r, []string{" ", "  ", "\t"}) + x + pick(r, []string{" ", "  "})
			}
			src += "a \\code{{{" + x + "}}} b\n\n"
			want += "<p>a <code>" + ref.Esc(x) + "</code> b</p>"
			c.Count("inline verbatim compared")
			continue
		}
		s, w := lines(verb, base, 2, true)
		end := pick(r, []string{"", base, "  "})
		if verb {
			src += "\\code{{{\n" + strings.Join(s, "\n") + "\n" + end + "}}}\n\n"
			c.Count("verbatim blocks compared")
		} else {
			src += "\\code{{\n" + strings.Join(s, "\n") + "\n" + end + "}}\n\n"
			c.Count("preformatted blocks compared")
		}
		want += "<pre>" + strings.Join(w, "\n") + "</pre>"
		c.Count("lines compared", len(w))
	}
	b := run.Doc(src)
	c.Input(b.String())
	if ref.Parse(src).Cost > run.MaxCost {
		c.Trivial()
		return
	}
	got := build(c, b)
	if got.Err != nil || got.Panic != "" {
		c.Fail("preformatted text does not build: %v %s", got.Err, got.Panic)
		return
	}
	page := got.Pages["index.html"]
	if i := strings.Index(page, "<body>"); i >= 0 {
		page = "<html>" + page[i:]
	}
	if d := cmp.Diff(cmp.Tokens(page), cmp.Tokens(want+"</body></html>")); d != "" {
		c.Fail("preformatted text is not kept: %s", d)
		return
	}
	c.Key(src)
	if len(src) < 400 {
		c.Sample(src)
	}
}

// structs generates structures along with their HTML.
type structs struct {
	r *rand.Rand
	n int
	w int
}

func (s *structs) word() string {
	s.w++
	return fmt.Sprintf("w%d%s", s.w, pick(s.r, []string{"", "&", "<", "'", "."}))
}

// item is an argument with its braces.
func (s *structs) item(depth int) (string, string) {
	switch k := s.r.Intn(6); {
	case k < 3 || depth == 0:
		w := s.word()
		if s.r.Intn(4) == 0 {
			return "{\\bold{" + w + "}}", "<strong>" + ref.Esc(w) + "</strong>"
		}
		return "{" + w + "}", ref.Esc(w)
	case k == 3:
		a, b := s.word(), s.word()
		return "{\n  " + a + "\n\n  " + b + "\n}", "<p>" + ref.Esc(a) + "</p><p>" + ref.Esc(b) + "</p>"
	case k == 4:
		a := s.word()
		return "{\n" + a + "\n}", "<p>" + ref.Esc(a) + "</p>"
	default:
		src, want := s.block(depth - 1)
		return "{\n" + src + "\n}", want
	}
}

func (s *structs) block(depth int) (string, string) {
	src, want := s.bare(depth)
	if s.r.Intn(8) == 0 {
		// with a call which has no result just before, or after it
		s.w++
		nothing := fmt.Sprintf("\\set-partial{N%d}{x}", s.w)
		if s.r.Intn(3) == 0 {
			return src + "\n" + nothing, want
		}
		return nothing + "\n" + src, want
	}
	return src, want
}

func (s *structs) bare(depth int) (string, string) {
	s.n++
	switch k := s.r.Intn(6); k {
	case 0, 1:
		name, tag := "list", "ul"
		if k == 1 {
			name, tag = "ordered-list", "ol"
		}
		src, want := "\\"+name, "<"+tag+">"
		for n := s.r.Intn(5); n > 0; n-- {
			a, b := s.item(depth)
			src, want = src+a, want+"<li>"+b+"</li>"
		}
		return src, want + "</" + tag + ">"
	case 2, 3:
		src, want := "\\table", "<table>"
		for n := s.r.Intn(4); n > 0; n-- {
			row := "\\table-row"
			want += "<tr>"
			for m := s.r.Intn(4); m > 0; m-- {
				a, b := s.item(depth)
				row, want = row+a, want+"<td>"+b+"</td>"
			}
			want += "</tr>"
			src += pick(s.r, []string{"{" + row + "}", "{\n  " + row + "\n}"})
		}
		return src, want + "</table>"
	case 4:
		src, want := "\\definitions", "<dl>"
		for n := s.r.Intn(4); n > 0; n-- {
			a, b := s.item(0)
			x, y := s.item(depth)
			def := "\\definition" + a + x
			src += pick(s.r, []string{"{" + def + "}", "{\n  " + def + "\n}"})
			want += "<dt>" + b + "</dt><dd>" + y + "</dd>"
		}
		return src, want + "</dl>"
	default:
		a, b := s.item(depth)
		if s.r.Intn(2) == 0 {
			return "\\inset" + a, s.alone(a, b, `<div style="margin: 0 2em 1em" class="inset">`, "</div>")
		}
		return "\\aside" + a, s.alone(a, b, `<blockquote class="aside">`, "</blockquote>")
	}
}

// alone is styled content on a line of its own: in a paragraph if it flows.
func (s *structs) alone(src, want, pre, post string) string {
	if strings.HasPrefix(src, "{\n") {
		return pre + want + post
	}
	return "<p>" + pre + want + post + "</p>"
}
