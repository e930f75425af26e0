// Package gen generates books.
package gen

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"verif/ref"
	"verif/run"
)

// Profile says what kind of books to generate.
type Profile struct {
	// Inline and Block are weights of the constructs to use.
	Inline, Block map[string]int
	// Blocks is the number of blocks per section; Lines per paragraph; Words
	// per line.
	Blocks, Lines, Words int
	// Depth limits the nesting of inline and block constructs.
	Depth int
	// Sections limits the number of sections per level, Levels the levels.
	Sections, Levels int
	// Full has as many sections as there may be.
	Full bool
	// Wide has one section below the root with ten or more of its own.
	Wide bool
	// Includes is the percentage of sections in files of their own.
	Includes int
	// Split, Single, Omit, TOC, NoTitle are percentages per section.
	Split, Single, Omit, TOC, NoTitle int
	// Charset of words.
	Charset string
	// OddTags makes tags of special characters.
	OddTags bool
	// TameTags makes them of as many letters instead.
	TameTags bool
	// RichTitles is the percentage of titles which are more than words.
	RichTitles int
	// ExtraTags is the percentage of titles with more than one tag.
	ExtraTags int
	// DefaultTags is the percentage of titles without a tag of their own.
	DefaultTags int
	// TitleBits is the percentage of titles with awkward characters.
	TitleBits int
	// TitleBlocks is the percentage of titles with lists and tables.
	TitleBlocks int
	// DefaultRefs is the percentage of default tags which may be referenced.
	DefaultRefs int
	// NearTags is the percentage of unknown tags which are misspelled ones.
	NearTags int
	// SameTitles is the percentage of sections with one of a few titles, and no
	// tag.
	SameTitles int
	// Repeat is the percentage of flags which are given twice.
	Repeat int
	// Faults is the percentage of books with something wrong in them.
	Faults int
	// Dup is the percentage of tags which are defined before.
	Dup int
	// Comments is the percentage of gaps between blocks with a comment.
	Comments int
	// CRLF is the percentage of books with some CRLF line endings.
	CRLF int
	// Plugins is the percentage of sections using probe plugins.
	Plugins int
	// LateUse is the percentage of sections using a plugin after some of their
	// content or sections.
	LateUse int
	// Before is the percentage of blocks with calls without results on the lines
	// just before or after them.
	Before int
	// OddPaths is the percentage of includes with a path written another way.
	OddPaths int
	// Restyle is the percentage of styled sections which are styled again.
	Restyle int
	// Twice is the percentage of sections which are one of a few files, each
	// included again and again.
	Twice int
	// SameNames is the percentage of included files with a common name, in a
	// directory of their own.
	SameNames int
	// Partials is the percentage of sections with partials.
	Partials int
	// TagParts has targets in partials too.
	TagParts bool
	// Styles are section styles to use.
	Styles []string
	// Custom are content styles to use.
	Custom []string
	// StylePct is the percentage of sections with one.
	StylePct int
}

// Charsets.
const (
	ASCII   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789.,:;!?-_'\"()"
	Plain   = "abcdefghijklmnopqrstuvwxyz"
	Markup  = "abcdexyz<>&\"'`=/%#;?+:-!$()[]*~^|@,"
	Unicode = "aé漢字ßøж🙂\u00a0\u200b\u2028́zq"
)

// Gen is the state of generating one book.
type Gen struct {
	R       *rand.Rand
	P       Profile
	Tags    []string // tags which exist
	Plain   []string // tags of targets whose title is their name
	wide    bool
	noTag   int // in content whose targets are not collected
	noRef   int // in a title, where references might be circular
	counter int
	Marked  map[int]string // tags of references by the number in their display
	files   map[string]string
	// Seen counts constructs.
	Seen  map[string]int
	probe bool // probe plugin in use in the current section
	other bool // and other
	order []string
	last  []string // words to repeat
}

// New prepares.
func New(r *rand.Rand, p Profile) *Gen {
	return &Gen{R: r, P: p, files: map[string]string{}, Marked: map[int]string{}, Seen: map[string]int{}}
}

func (g *Gen) pct(p int) bool { return p > 0 && g.R.Intn(100) < p }

// N is a number from 1 to n.
func (g *Gen) N(n int) int {
	if n <= 1 {
		return 1
	}
	return 1 + g.R.Intn(n)
}

// Pick picks one.
func (g *Gen) Pick(ss ...string) string { return ss[g.R.Intn(len(ss))] }

func (g *Gen) weighted(m map[string]int) string {
	total := 0
	keys := run.Keys(m)
	for _, k := range keys {
		total += m[k]
	}
	if total == 0 {
		return ""
	}
	n := g.R.Intn(total)
	for _, k := range keys {
		if n -= m[k]; n < 0 {
			return k
		}
	}
	return ""
}

// Word is a word which needs no escaping.
func (g *Gen) Word() string {
	cs := g.P.Charset
	if cs == "" {
		cs = Plain
	}
	if len(g.last) > 0 && g.R.Intn(8) == 0 {
		return g.last[g.R.Intn(len(g.last))]
	}
	if k := g.R.Intn(12 * len(charRefs)); k < len(charRefs) && (cs[0] == 'k' || strings.ContainsRune(cs, '&')) {
		// what looks like a character reference or is escaped already
		if cs[0] == 'k' {
			return strings.Repeat("k", len(charRefs[k]))
		}
		return charRefs[k]
	}
	rs := []rune(cs)
	n := g.N(7)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[g.R.Intn(len(rs))]
	}
	// a leading dash might open a comment inside of braces
	if out[0] == '-' {
		out[0] = 'd'
	}
	if len(g.last) < 4 {
		g.last = append(g.last, string(out))
	} else {
		g.last[g.counter%4] = string(out)
	}
	return string(out)
}

var charRefs = []string{"&amp;", "&lt;b&gt;", "&#60;", "&copy", "&nbsp;", "%20", "&quot;x", "&#x3c;script&#x3e;", "&amp;amp;", "</", "]]>", "<!--", "x-->", "&", ";"}

// Words are n words with single spaces.
func (g *Gen) Words(n int) string {
	ws := []string{}
	for i := 0; i < n; i++ {
		ws = append(ws, g.Word())
	}
	return strings.Join(ws, " ")
}

// NewTag makes a unique tag, unless duplicates are asked for.
func (g *Gen) NewTag(prefix string) string {
	if g.pct(g.P.Dup) && len(g.Tags) > 0 {
		return g.Tags[g.R.Intn(len(g.Tags))]
	}
	g.counter++
	t := fmt.Sprintf("%s%d", prefix, g.counter)
	if g.P.OddTags || g.P.TameTags {
		odd := []string{" ", "#", "%", "?", "&", "+", ":", "\"", "'", "<", ">", "=", ";", ",", "~", "é", "漢", ".", "%41", "..", "@", "!", "*", "(", "$", "|", "^", "`", "[", "]"}
		for i := g.R.Intn(4); i > 0; i-- {
			o := odd[g.R.Intn(len(odd))]
			if g.P.TameTags {
				o = "x"
			}
			if g.R.Intn(2) == 0 {
				t = t + o
			} else {
				t = o + t
			}
		}
	}
	g.Tags = append(g.Tags, t)
	return t
}

const (
	// Mark is where a comment may go inside of a line, GapMark on a line of
	// its own.
	Mark, GapMark = "\x03", "\x04"

	refMark   = "\x01" // any tag
	plainMark = "\x02" // a tag whose title holds no references
	wantMark  = "\x05" // around a number, for Marked
)

// Inline is the source of inline content.
func (g *Gen) Inline(depth int) string {
	kind := "text"
	if depth > 0 {
		kind = g.weighted(g.P.Inline)
	}
	g.Seen["inline:"+kind]++
	in := func() string { return g.InlineSeq(depth-1, g.N(2)) }
	if g.noTag > 0 && strings.HasPrefix(kind, "target") && !g.pct(g.P.Faults) {
		kind = "text"
	}
	switch kind {
	case "escape":
		return g.Pick(`\\`, `\{`, `\}`, `\{\}`, `\\\\`, `\{{}\}`)
	case "spaces":
		return g.Word() + strings.Repeat(" ", g.N(3)) + g.Word()
	case "tab":
		return g.Word() + "\t" + g.Word()
	case "interp":
		if g.R.Intn(4) == 0 {
			return "{}"
		}
		if depth > 1 && g.R.Intn(2) == 0 {
			return "{\\" + g.Pick("bold", "italic", "code") + "{" + in() + "}}"
		}
		return "{" + g.Word() + "}"
	case "styled":
		return "\\" + g.Pick("code", "italic", "bold", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside") + "{" + in() + "}"
	case "wrapped":
		return "\\" + g.Pick("italic", "bold") + "{" + g.InlineSeq(depth-1, 2) + "\n" + g.Pick("", "  ", "\t", "      ") + g.InlineSeq(depth-1, 1) + "}"
	case "verb":
		return "\\code{{{" + g.Verbatim(false) + "}}}"
	case "link":
		return "\\link{" + in() + "}{" + g.URL() + "}"
	case "ref":
		if g.noRef > 0 {
			return "\\reference{" + plainMark + "}"
		}
		return "\\reference{" + refMark + "}"
	case "marked":
		if g.noRef > 0 {
			return g.Word()
		}
		g.counter++
		return fmt.Sprintf("\\reference{%s%d%s}{LINK%d %s}", wantMark, g.counter, wantMark, g.counter, g.Words(1))
	case "custom":
		if len(g.P.Custom) == 0 {
			return g.Word()
		}
		style := g.P.Custom[g.R.Intn(len(g.P.Custom))]
		tagged := g.untagged
		if g.P.TagParts {
			tagged = func(f func() string) string { return f() }
		}
		return g.ifProbe(tagged(func() string {
			switch g.R.Intn(3) {
			case 0:
				return "\\styled-as{" + style + "}{" + in() + "}"
			case 1:
				return "\\styled-block{" + style + "}{" + in() + "}"
			}
			part := func() string {
				return g.Pick("", "{}", "\\nil-content", "\\nothing", in(), in(), in())
			}
			return "\\styled-parts{" + style + "}{" + in() + "}{" + part() + "}{" + part() + "}"
		}))
	case "toc":
		return "\\table-of-contents"
	case "refas":
		return "\\reference{" + refMark + "}{" + g.untagged(in) + "}"
	case "target":
		t := g.NewTag("t")
		g.Plain = append(g.Plain, t)
		return "\\target{" + t + "}"
	case "target2":
		return "\\target{" + g.NewTag("t") + "}{" + g.untagged(in) + "}"
	case "target3":
		return "\\target{" + g.NewTag("t") + "}{" + g.untagged(in) + "}{" + g.untagged(in) + "}"
	case "image":
		if g.R.Intn(2) == 0 {
			return "\\image{" + g.URL() + "}"
		}
		return "\\image{" + g.URL() + "}{" + g.Words(g.N(3)) + "}"
	case "aux":
		return "\\aux{" + in() + "}"
	case "auxmark":
		g.counter++
		return fmt.Sprintf("\\aux{AUX%d %s}", g.counter, in())
	case "comment":
		return g.Word() + g.Comment() + g.Word()
	case "mark":
		// where a comment may go or not
		return g.Word() + Mark + g.Pick(g.Word(), "")
	case "rawwho":
		return g.Pick("\\who", "\\only{x}")
	case "only":
		if g.other {
			return "\\only{" + g.Word() + "}"
		}
		return g.Word()
	case "who":
		return g.ifProbe(g.Pick("\\who", "\\who", "\\shared"))
	case "pair":
		// takes one argument in one plugin, and two in the other
		first := ""
		for _, p := range g.order {
			first = g.Pick(p, first)
		}
		if len(g.order) > 0 && g.R.Intn(4) > 0 {
			first = g.order[0]
		}
		if first == "" {
			return g.Word()
		}
		return g.untagged(func() string {
			switch f := g.Pick("pair", "span"); {
			case f == "pair" && first[0] == 'p':
				return "\\pair{" + in() + "}"
			case f == "pair":
				return "\\pair{" + in() + "}{" + in() + "}"
			case first[0] == 'p':
				return "\\span" + g.Pick("", "{"+in()+"}", "{"+in()+"}{"+in()+"}")
			}
			return "\\span{" + in() + "}"
		})
	case "probe":
		return g.ifProbe(g.untagged(func() string { return g.ProbeCall(depth) }))
	case "lazy":
		g.counter++
		switch g.R.Intn(5) {
		case 0:
			id := g.counter
			return g.ifProbe(fmt.Sprintf("\\deferred-wrap{z%dq}{%s}", id, g.untagged(in)))
		default:
			return g.ifProbe(fmt.Sprintf("\\deferred{z%dq}", g.counter))
		}
	case "optref":
		if g.R.Intn(2) == 0 {
			return g.ifProbe("\\opt-ref{" + refMark + "}{" + g.untagged(in) + "}")
		}
		return g.ifProbe("\\opt-ref{no-such-tag}{" + g.untagged(in) + "}")
	case "twin":
		// different content whose text is the same
		style := g.Pick("code", "code", "bold", "inset")
		w := g.Words(1)
		wrap := func() string {
			switch g.R.Intn(4) {
			case 0:
				return "\\bold{" + w + "}"
			case 1:
				return w
			}
			return "\\link{" + w + "}{" + g.URL() + "}"
		}
		return "\\" + style + "{" + wrap() + "} \\" + style + "{" + wrap() + "}"
	case "stall":
		return g.ifProbe(fmt.Sprintf("\\stall{%d}", g.R.Intn(300)))
	case "text", "":
		return g.Words(g.N(g.P.Words))
	}
	panic("unknown inline kind " + kind)
}

func (g *Gen) inTitle(f func() string) string {
	g.noRef++
	defer func() { g.noRef-- }()
	return f()
}

// untagged is for content which may be dropped, so that its targets are too.
func (g *Gen) untagged(f func() string) string {
	g.noTag++
	defer func() { g.noTag-- }()
	return g.inTitle(f)
}

func (g *Gen) ifProbe(s string) string {
	if g.probe {
		return s
	}
	return g.Word()
}

// ProbeCall is a call of a probe function.
func (g *Gen) ProbeCall(depth int) string {
	in := func() string {
		switch g.R.Intn(8) {
		case 0:
			return ""
		case 1:
			return "\\nothing"
		case 2:
			return "{}"
		case 3:
			return "\\nil-content"
		}
		return g.InlineSeq(depth-1, g.N(2))
	}
	args := func() string {
		out := ""
		for i := g.R.Intn(4); i > 0; i-- {
			out += "{" + in() + "}"
		}
		return out
	}
	switch g.R.Intn(15) {
	case 0:
		return "\\echo{" + in() + "}"
	case 1:
		return "\\echo-text{" + in() + "}"
	case 2:
		return "\\texts" + args()
	case 3:
		return "\\mixed{" + in() + "}" + args()
	case 4:
		return "\\three{" + in() + "}{" + in() + "}{" + in() + "}"
	case 5:
		return "\\node{" + in() + "}"
	case 6:
		return "\\nodes" + args()
	case 7:
		if g.R.Intn(3) == 0 {
			return "\\a-name-of-many-words-such-as-no-one-would-write-down{" + in() + "}"
		}
		return "\\multi-word-name{" + in() + "}"
	case 8:
		return "\\joined" + args()
	case 9:
		return "\\both{" + in() + "}"
	case 10:
		return g.Pick("\\nothing", "\\nothing-err", "\\nil-content", "\\nil-both", "\\who", "\\shared", "\\shared")
	case 11:
		return "\\styled-as{" + g.Pick("bold", "italic", "verbatim", "strike") + "}{" + in() + "}"
	case 12:
		return "\\echo{{{" + g.Verbatim(false) + "}}}"
	case 13:
		return "\\texts{\\who}{\\echo-text{" + in() + "}}"
	default:
		return "\\echo{\\echo{" + in() + "}\\who}"
	}
}

// Fault is a call which fails.
func (g *Gen) Fault(depth int) string {
	in := func() string { return g.untagged(func() string { return g.InlineSeq(depth-1, 1) }) }
	fs := []string{
		"\\undefined-fn", "\\undefined{" + in() + "}", "\\bold", "\\bold{a}{b}", "\\title{again}", "\\title{again}{with-tag}",
		"\\use-plugin{no-such-plugin}", "\\include-section{no-such-file.lit}", "\\include-section", "\\link{a}",
		"\\reference{no-such-tag}", "\\reference{no-such-tag}{" + in() + "}", "\\target", "\\section", "\\set-partial{X}",
		"\\table{not a row}", "\\definitions{nothing}", "\\definitions{\\list{a}}", "\\definitions{\\list}", "\\definitions{\\table-row}", "\\definitions{\\definition{a}{b}}{\\ordered-list{c}}", "\\table{\\table-row{a}}{b}", "\\definitions{\\list{a}{b}{c}}",
		"\\section{\\undefined-in-section}", "\\split-sections{x}", "\\bold{\\undefined-inside{" + in() + "}}",
		"\\section{\\title{x}\n\n\\title{y}}",
		"\\section{\\title{\\aux{" + in() + "}}\n\n\\title{y}}",
		"\\section{\n\\title{" + g.Pick("\\target{"+g.NewTag("t")+"}", "\\aux{x}", "\\image{x.png}", "\\inset{}", "{}", "\\list", "\\reference{no-such-tag}") + "}\n\n" + g.Words(2) + "\n\n\\title{" + g.Word() + "}\n}",
	}
	if g.probe {
		fs = append(fs, "\\fail{x}", "\\fail{"+g.Word()+"}", "\\fail-both{x}", "\\fail-pretty{x}", "\\fail-pretty-both{x}", "\\bad-arg{1}", "\\bad-return", "\\bad-two",
			"\\bad-first", "\\bad-three", "\\three{a}{b}", "\\three{a}{b}{c}{d}", "\\mixed", "\\deferred-fail{z}", "\\echo", "\\who{x}",
			"\\bold{x \\fail{deep} y}", "\\section{\n\\title{t}\n\n\\fail{in-section}\n}", "\\styled-as{no-such-style}{x}", "\\only{x}")
	}
	return g.Pick(fs...)
}

// URL is a link target.
func (g *Gen) URL() string {
	return g.Pick(
		"https://example.com/"+g.Pick("", "a", "b?c=d&e=f", "x#y", "%20", "a b", "é"),
		"http://localhost:80/", "mailto:a@b.c", "foo.html", "#frag", "../up", "/abs/path", "//host/x",
		"javascript:alert(1)", "JaVaScRiPt:alert(1)", "data:text/html,<b>x</b>", "vbscript:x", "tel:+1", "ftp://x/",
		"\"><script>alert(1)</script>", "' onload='x", "x y\tz", "", g.Word(), " ", " "+g.Word(), g.Word()+g.Pick(" ", "\t", "\u00a0", "  "),
	)
}

// InlineSeq is adjacent inline content.
func (g *Gen) InlineSeq(depth, n int) string {
	out := ""
	for i := 0; i < n; i++ {
		if i > 0 && g.R.Intn(3) > 0 {
			out += " "
		}
		next := g.Inline(depth)
		if out != "" && next != "" && !g.pct(g.P.Faults/4) {
			// keep it from being taken for an argument or more of a name
			last, first := out[len(out)-1], next[0]
			if last == '}' && first == '{' || last == '-' && first == '}' {
				out += "."
			} else if first == '{' || first == '-' || first >= 'a' && first <= 'z' {
				if i := strings.LastIndexByte(out, '\\'); i >= 0 && strings.Trim(out[i+1:], "abcdefghijklmnopqrstuvwxyz-") == "" {
					out += "."
				}
			}
		}
		out += next
	}
	return out
}

// Comment is a comment, possibly nested or spanning lines.
func (g *Gen) Comment() string {
	out := "{-"
	for i := g.R.Intn(4); i > 0; i-- {
		switch g.R.Intn(9) {
		case 0:
			out += g.Comment()
		case 1:
			out += "\n" + g.Word()
		case 2:
			out += "\n\n"
		case 3:
			out += " \\bold{x} "
		case 4:
			out += "{ } }} {{ "
		case 5:
			out += "- }"
		case 6:
			out += "\\undefined-function{ "
		default:
			out += " " + g.Words(2) + " "
		}
	}
	return out + "-}"
}

// Verbatim is text for a verbatim argument.
func (g *Gen) Verbatim(block bool) string {
	line := func() string {
		out := ""
		for i := g.R.Intn(4); i >= 0; i-- {
			out += g.Pick(g.Word(), " ", "{", "\\bold{x}", "}x", "}}x", "{-", "-}", "\\", "\\\\", "{{", "{{{x", "  ", "&<>", "\t")
		}
		if block && g.R.Intn(12) == 0 {
			// what would mean something on a line of its own elsewhere
			return g.Pick("{- x -}", "{--}", "{- x", "-}", "\\title{x}", "\\section{", "\\include-section{x}", "\\", "# x", "// x", "---")
		}
		if strings.HasSuffix(out, "}") {
			out += "x"
		}
		return strings.ReplaceAll(out, "}}}", "}}x")
	}
	if !block {
		return line()
	}
	return g.indented(line)
}

func (g *Gen) indented(line func() string) string {
	base := strings.Repeat(g.Pick(" ", "  ", "\t"), g.R.Intn(4))
	out := "\n"
	for i := g.N(4); i > 0; i-- {
		switch g.R.Intn(6) {
		case 0:
			out += "\n" // an empty line
		case 1:
			out += base + strings.Repeat(" ", g.R.Intn(5)) + line() + "\n"
		case 2:
			out += strings.Repeat(" ", g.R.Intn(3)) + line() + "\n"
		default:
			out += base + line() + "\n"
		}
	}
	return out + g.Pick("", "  ", "\t")
}

// Line is a line of a paragraph.
func (g *Gen) Line() string {
	s := g.InlineSeq(g.P.Depth, g.N(3))
	if strings.Trim(s, " \t") == "" {
		s = g.Word()
	}
	return s
}

// Para is a paragraph, without a blank line at its end.
func (g *Gen) Para() string {
	out, line := "", ""
	for i := g.N(g.P.Lines); i > 0; i-- {
		if line == "" || strings.Contains(line, "\\") || g.R.Intn(8) > 0 {
			line = g.Line()
		}
		out += g.Pick("", "", "", " ", "  ", "\t", "    ") + line + "\n"
	}
	return out
}

// Paras is the source of a block argument, with its braces.
func (g *Gen) Paras(depth int) string {
	if depth <= 0 || g.R.Intn(2) == 0 {
		return "{" + g.InlineSeq(1, g.N(2)) + "}"
	}
	out := "{\n"
	for i := g.N(2); i > 0; i-- {
		out += g.Block(depth - 1)
		if i > 1 {
			out += "\n"
		}
	}
	return out + g.Pick("", "", "  ") + "}"
}

// Block is the source of a block, with a line break at its end.
func (g *Gen) Block(depth int) string {
	out := g.block(depth)
	if g.pct(g.P.Before) {
		g.Seen["block:with nothing"]++
		nothing := func() string {
			g.counter++
			return fmt.Sprintf("\\set-partial{N%d}{x}", g.counter) + g.Pick("", "", " ") + "\n"
		}
		switch g.R.Intn(3) {
		case 0:
			out += nothing()
		case 1:
			out = nothing() + out + nothing()
		default:
			out = nothing() + out
		}
	}
	return out
}

func (g *Gen) block(depth int) string {
	kind := "para"
	if depth > 0 {
		kind = g.weighted(g.P.Block)
	}
	g.Seen["block:"+kind]++
	args := func(n int) string {
		out := ""
		for ; n > 0; n-- {
			out += g.Paras(depth)
		}
		return out
	}
	switch kind {
	case "para", "":
		return g.Para()
	case "pre":
		n := g.R.Intn(2)
		return "\\" + g.Pick("code", "inset", "code") + "{{" + g.indented(func() string {
			if n > 0 && depth > 1 && g.R.Intn(5) == 0 {
				n--
				return "\\bold{{" + g.indented(func() string { return g.Words(2) }) + "}}" + g.Pick("", " "+g.Word())
			}
			return g.InlineSeq(g.P.Depth-1, g.N(2))
		}) + "}}\n"
	case "verb":
		return "\\" + g.Pick("code", "inset", "code") + "{{{" + g.Verbatim(true) + "}}}\n"
	case "list":
		return "\\" + g.Pick("list", "ordered-list") + args(g.R.Intn(4)) + "\n"
	case "table":
		out := "\\table"
		for i := g.R.Intn(4); i > 0; i-- {
			out += "{\\" + g.Pick("table-row", "list", "definition") + args(2) + "}"
		}
		return out + "\n"
	case "tablevar":
		out := "\\table"
		for i := g.R.Intn(4); i > 0; i-- {
			out += "{\\" + g.Pick("table-row", "list") + args(g.R.Intn(5)) + "}"
		}
		return out + "\n"
	case "tableblock":
		out := "\\table"
		for i := g.N(3); i > 0; i-- {
			out += "{\n  \\table-row" + args(g.N(3)) + "\n}"
		}
		return out + "\n"
	case "defs":
		out := "\\definitions"
		for i := g.R.Intn(4); i > 0; i-- {
			if g.pct(g.P.Faults) {
				out += "{\\" + g.Pick("ordered-list", "table-row", "list") + args(g.R.Intn(4)) + "}"
				continue
			}
			out += "{\\" + g.Pick("definition", "table-row", "list") + args(2) + "}"
		}
		return out + "\n"
	case "inset":
		return "\\" + g.Pick("inset", "aside") + args(1) + "\n"
	case "insetonly":
		return "\\inset" + args(1) + "\n"
	case "styledblock":
		return "\\" + g.Pick("bold", "italic", "code", "larger") + args(1) + "\n"
	case "mixed":
		// blocks and lines in one paragraph
		out := ""
		for i := 1 + g.N(3); i > 0; i-- {
			switch g.R.Intn(3) {
			case 0:
				out += g.Para()
			case 1:
				out += g.Pick("", g.Word()+" ") + strings.TrimSuffix(g.Block(depth-1), "\n") + g.Pick("", " "+g.Word()) + "\n"
			default:
				out += g.Block(depth - 1)
			}
		}
		return out
	case "toc":
		return "\\table-of-contents\n"
	case "comment":
		return g.Comment() + "\n"
	case "side":
		return g.Pick("\\omit-children-from-table-of-contents\n", "\\styled{section}\n")
	case "probe":
		if g.probe {
			return g.untagged(func() string { return g.ProbeCall(depth) }) + "\n"
		}
		return g.Para()
	case "lazy":
		if g.probe {
			g.counter++
			return fmt.Sprintf("\\deferred-block{z%dq}\n", g.counter)
		}
		return g.Para()
	case "targetline":
		return "\\target{" + g.NewTag("t") + "}{" + g.Words(2) + "}{\n" + g.untagged(g.Para) + "}\n" + g.Para()
	case "gapmark":
		return GapMark + "\n"
	case "fault":
		return g.Fault(depth) + "\n"
	case "echoblock":
		if g.probe {
			return "\\" + g.Pick("echo", "both") + g.untagged(func() string { return args(1) }) + "\n"
		}
		return g.Para()
	}
	panic("unknown block kind " + kind)
}

// Gap is what comes between blocks: at least one blank line.
func (g *Gen) Gap() string {
	out := "\n"
	if g.P.Inline["mark"] > 0 && g.R.Intn(4) == 0 {
		out += GapMark + "\n"
		if g.R.Intn(2) == 0 {
			out += "\n"
		}
	}
	if g.pct(g.P.Comments) {
		out += g.Comment() + "\n"
		if g.R.Intn(2) == 0 {
			out += "\n"
		}
	}
	if g.R.Intn(4) == 0 {
		out += "\n"
	}
	return out
}

// Title is a \title line.
func (g *Gen) Title() string {
	if g.pct(g.P.SameTitles) {
		return "\\title{" + g.Pick("Notes", "notes", "An Overview", "1.0") + "}\n"
	}
	g.counter++
	words := fmt.Sprintf("%s x%d", g.Words(g.N(2)), g.counter)
	for g.pct(g.P.TitleBits) && len(words) < 40 {
		bit := g.Pick(" & ", "  ", "\t", "É", "\u212a", "\u0130", "A-B", " - ", "--", "_", "Ç ", "漢 ", "'s ", " (x) ", "1.2 ", "/", "AbC", "\u00a0", " ", "# ", "? ")
		if g.R.Intn(2) == 0 {
			words = "w" + bit + words
		} else {
			words += bit
		}
	}
	plain := true
	if g.pct(g.P.RichTitles) {
		words = g.inTitle(func() string { return g.InlineSeq(g.P.Depth, g.N(3)) }) + fmt.Sprintf(" x%d", g.counter)
		plain = false
	}
	if g.pct(g.P.TitleBlocks) {
		in := func() string { return "{" + g.inTitle(func() string { return g.InlineSeq(g.P.Depth-1, 1) }) + "}" }
		switch g.R.Intn(5) {
		case 0:
			words = "\\list" + in() + in() + " " + words
		case 1:
			words = "\\ordered-list" + in() + " " + words
		case 2:
			words = "\\table{\\table-row" + in() + in() + "} " + words
		case 3:
			words = "\\definitions{\\definition" + in() + in() + "} " + words
		default:
			words = "\\inset" + in() + " " + words
		}
		plain = false
	}
	out := "\\title{" + words + "}"
	if !g.pct(g.P.DefaultTags) {
		n := 1
		if g.pct(g.P.ExtraTags) {
			n = 1 + g.N(3)
		}
		for ; n > 0; n-- {
			out += "{" + g.NewTag("s") + "}"
		}
	} else if t := ref.DefaultTag(ref.Str(words)); plain && t != "" && !strings.ContainsAny(t, "{}\\") && g.pct(g.P.DefaultRefs) {
		g.Tags = append(g.Tags, t)
	}
	return out + "\n"
}

// Body is the contents of a section.
func (g *Gen) Body(level int, dir string) string {
	probe, other, order := g.probe, g.other, g.order
	defer func() { g.probe, g.other, g.order = probe, other, order }()

	out := ""
	use := func(p string) string {
		g.order = append(g.order[:len(g.order):len(g.order)], p)
		g.other = g.other || p[0] == 'o'
		g.probe = g.probe || p[0] == 'p'
		return "\\use-plugin{" + p + "}\n"
	}
	titled := !g.pct(g.P.NoTitle)
	if titled {
		out += g.Title()
	}
	if g.pct(g.P.Plugins) {
		out += g.Pick("\n", "")
		if g.R.Intn(6) == 0 {
			out += use(g.Pick("other", "other-b"))
		}
		out += use(g.Pick("probe", "probe-b"))
		if g.R.Intn(3) == 0 {
			out += use(g.Pick("other", "other-b", "probe", "probe-b"))
		}
	}

	parts := []string{}
	flags := []string{}
	if g.pct(g.P.Split) {
		flags = append(flags, "\\split-sections\n")
	}
	if g.pct(g.P.Single) {
		flags = append(flags, "\\single-page\n")
	}
	if g.pct(g.P.Omit) {
		flags = append(flags, "\\omit-children-from-table-of-contents\n")
	}
	if g.pct(g.P.StylePct) && len(g.P.Styles) > 0 {
		flags = append(flags, "\\styled{"+g.P.Styles[g.R.Intn(len(g.P.Styles))]+"}\n")
		if g.pct(g.P.Restyle) {
			flags = append(flags, "\\styled{"+g.P.Styles[g.R.Intn(len(g.P.Styles))]+"}\n")
		}
	}
	if g.pct(g.P.TOC) {
		parts = append(parts, "\\table-of-contents\n")
	}
	for g.pct(g.P.Partials) && len(parts) < 6 {
		tagged := g.untagged
		if g.P.TagParts {
			tagged = func(f func() string) string { return f() }
		}
		parts = append(parts, "\\set-partial{"+g.Pick("A", "B", "Side-Bar")+"}"+tagged(func() string {
			if g.R.Intn(8) == 0 {
				return "{}"
			}
			return g.Paras(1)
		})+"\n")
	}
	for i := g.N(g.P.Blocks); i > 0; i-- {
		parts = append(parts, g.Block(g.P.Depth))
	}
	if level > 0 && g.P.Sections > 0 {
		n := g.R.Intn(g.P.Sections + 1)
		if g.P.Full {
			n = g.P.Sections
		}
		if g.P.Wide && level < g.P.Levels && !g.wide {
			g.wide = true
			n = 10 + g.R.Intn(4)
		}
		for i := n; i > 0; i-- {
			parts = append(parts, g.Section(level-1, dir))
			if g.pct(g.P.LateUse) {
				parts = append(parts, use(g.Pick("other", "other-b", "probe", "probe-b")))
				for g.pct(40) {
					parts = append(parts, g.Block(g.P.Depth))
				}
			}
		}
	}
	if g.pct(g.P.LateUse) {
		parts = append(parts, use(g.Pick("other", "other-b", "probe", "probe-b")), g.Block(g.P.Depth))
	}
	for _, f := range flags {
		if g.pct(g.P.Repeat) {
			flags = append(flags, f)
		}
	}
	// flags go anywhere
	for _, f := range flags {
		if g.R.Intn(2) == 0 {
			out += f
		} else {
			i := g.R.Intn(len(parts) + 1)
			parts = append(parts[:i], append([]string{f}, parts[i:]...)...)
		}
	}
	if out == "" && len(parts) == 0 {
		return g.Para()
	}
	for i, p := range parts {
		if i > 0 || out != "" {
			out += g.Gap()
		}
		out += p
	}
	return out
}

// Section is an inline or included section.
func (g *Gen) Section(level int, dir string) string {
	if g.pct(g.P.Twice) {
		name := fmt.Sprintf("twice%d.lit", g.R.Intn(2))
		g.files[dir+name] = g.Pick("", "\n") + g.Pick("\\title{Twice}{twice}\n\n", "\\title{Twice}\n\n", "") + g.Words(2) + "\n"
		g.Seen["include again"]++
		return "\\include-section{" + name + "}\n" + g.Pick("", "\n\\include-section{"+name+"}\n", "\\include-section{"+name+"}\n")
	}
	if g.pct(g.P.Includes) {
		probe, other, order := g.probe, g.other, g.order
		g.probe, g.other, g.order = false, false, nil // included sections do not inherit plugins
		g.counter++
		sub := g.Pick("", "", "sub/", "deep/er/")
		name := fmt.Sprintf("%sf%d.lit", sub, g.counter)
		if g.pct(g.P.SameNames) {
			sub = fmt.Sprintf("d%d/", g.counter)
			name = sub + "part.lit"
		}
		body := g.Body(level, dir+sub)
		for g.R.Intn(4) == 0 {
			body = g.Gap() + g.Pick("", "{- x\n\n -}\n\n") + body
		}
		g.probe, g.other, g.order = probe, other, order
		g.files[dir+name] = body
		g.Seen["include"]++
		if g.pct(g.P.OddPaths) {
			g.Seen["include with an odd path"]++
			name = g.Pick("/", "./", "//", "none/../", ".//./") + name
		}
		return "\\include-section{" + name + "}\n"
	}
	g.Seen["section"]++
	return "\\section{\n" + g.Body(level, dir) + g.Pick("", "", "  ") + "}\n"
}

// Book generates a book.
func (g *Gen) Book() run.Book {
	root := g.Body(g.P.Levels, "")
	if g.R.Intn(4) == 0 {
		root = g.Gap() + root
	}
	if g.R.Intn(4) == 0 {
		root = strings.TrimRight(root, "\n")
	}
	g.files["index.lit"] = root
	b := run.Book{Files: g.files, Root: "index.lit"}
	for _, n := range run.Keys(b.Files) {
		src := b.Files[n]
		for strings.Contains(src, refMark) {
			t := "no-such-tag"
			if len(g.Tags) > 0 && !g.pct(g.P.Faults) {
				t = g.Tags[g.R.Intn(len(g.Tags))]
			}
			if t == "no-such-tag" && len(g.Tags) > 0 && g.pct(g.P.NearTags) {
				t = g.near(g.Tags[g.R.Intn(len(g.Tags))])
			}
			src = strings.Replace(src, refMark, t, 1)
		}
		for strings.Contains(src, wantMark) {
			t := "no-such-tag"
			if len(g.Tags) > 0 {
				t = g.Tags[g.R.Intn(len(g.Tags))]
			}
			i := strings.Index(src, wantMark)
			j := i + 1 + strings.Index(src[i+1:], wantMark)
			var k int
			_, _ = fmt.Sscan(src[i+1:j], &k)
			g.Marked[k] = t
			src = src[:i] + t + src[j+1:]
		}
		for strings.Contains(src, plainMark) {
			if len(g.Plain) == 0 {
				src = strings.Replace(src, "\\reference{"+plainMark+"}", ".nothing", 1)
				continue
			}
			src = strings.Replace(src, plainMark, g.Plain[g.R.Intn(len(g.Plain))], 1)
		}
		b.Files[n] = src
	}
	if len(g.Tags) == 0 {
		for n, src := range b.Files {
			b.Files[n] = strings.ReplaceAll(src, "\\reference{no-such-tag}", ".nothing")
		}
	}
	if g.pct(g.P.CRLF) {
		g.CRLF(b)
	}
	return b
}

// near is a misspelled tag.
func (g *Gen) near(t string) string {
	rs := []rune(t)
	for n := g.N(2); n > 0; n-- {
		i := g.R.Intn(len(rs))
		switch g.R.Intn(5) {
		case 4:
			rs[i] = unicode.ToUpper(rs[i])
		case 0:
			rs = append(rs[:i:i], append([]rune{'q'}, rs[i:]...)...)
		case 1:
			if len(rs) > 1 {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		case 2:
			rs[i] = 'q'
		default:
			rs = append(rs, 's')
		}
	}
	return string(rs)
}

// CRLF changes some or all line endings.
func (g *Gen) CRLF(b run.Book) {
	mode := g.R.Intn(3)
	for _, n := range run.Keys(b.Files) {
		if mode == 2 && g.R.Intn(2) == 0 {
			continue
		}
		var out strings.Builder
		for _, c := range b.Files[n] {
			if c == '\n' && (mode != 1 || g.R.Intn(2) == 0) {
				out.WriteByte('\r')
			}
			out.WriteRune(c)
		}
		b.Files[n] = out.String()
	}
}

// Weights makes a table of weights of "name:weight" or "name" words.
func Weights(s string) map[string]int {
	out := map[string]int{}
	for _, w := range strings.Fields(s) {
		name, num, ok := strings.Cut(w, ":")
		n := 1
		if ok {
			_, _ = fmt.Sscan(num, &n)
		}
		out[name] = n
	}
	return out
}

// Everything is a profile which uses everything.
func Everything() Profile {
	return Profile{
		Inline:      Weights("text:10 escape spaces tab interp styled:4 wrapped:1 verb:2 link:1 ref:2 refas:2 target:1 target2:1 target3:1 image aux comment:2 probe:3 who lazy optref twin"),
		Block:       Weights("para:8 pre:2 verb:2 list:2 table defs inset styledblock toc comment probe lazy targetline echoblock tableblock mixed"),
		Blocks:      4,
		Lines:       3,
		Words:       3,
		Depth:       3,
		Sections:    2,
		Levels:      2,
		Includes:    30,
		Split:       30,
		Single:      10,
		Omit:        10,
		TOC:         20,
		NoTitle:     0,
		Charset:     ASCII,
		RichTitles:  30,
		ExtraTags:   30,
		DefaultTags: 0,
		Comments:    15,
		CRLF:        10,
		Plugins:     50,
		Partials:    20,
	}
}
