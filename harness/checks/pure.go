package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/cmp"
	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// self is the path of this program, to be run as the booklit command.
func self() string {
	exe, err := os.Executable()
	if err != nil {
		fw.Bail("%s", err)
	}
	return exe
}

// booklitCmd is the booklit command with the probes linked in.
func booklitCmd(args ...string) *exec.Cmd {
	return exec.Command(self(), append([]string{"booklit"}, args...)...)
}

func init() {
	add(&fw.Check{
		ID: "C16", Quick: 500, Thorough: 15000,
		Rule: "a case is a book using everything; it is built twice in this process, in a fresh process with other settings, and its loaded sections are rendered again and again, in random order, by fresh and used engines (HTML and text in turn), with everything turned to text and looked up in between: all bytes of all pages, of the index, and the error if there is one must be the same; non-trivial if it has references or targets",
		Need: []string{"builds in a fresh process", "pages rendered again", "sections turned to text", "errors repeated", "pages of the project's documentation built again"},
		Run:  pureCase,
	})
	add(&fw.Check{
		ID: "C27", Quick: 5000, Thorough: 300000,
		Rule: "a case is a random tree of content made by the API, and its parts joined in random ways; its text, whether it is flow content, what it renders as, and what is left without auxiliary content are compared with the model, before and after each other, so that none changes it; non-trivial if it has several pieces",
		Need: []string{"trees", "joins", "pieces joined again", "pieces rendered", "block content", "flow content"},
		Run:  contentCase,
	})
}

func pureCase(c *fw.Ctx) {
	if c.I == 0 {
		c.Input("the project's documentation, docs/lit/index.lit")
		if r := ownDocs("one"); r.code != 0 {
			c.Fail("does not build: %s", r)
			return
		}
		if r := ownDocs("two"); r.code != 0 {
			c.Fail("does not build again: %s", r)
			return
		}
		one, _ := run.ReadTree("one")
		two, _ := run.ReadTree("two")
		if d := run.DiffKeys(two, one); d != "" {
			c.Fail("built again: %s", d)
			return
		}
		for _, n := range run.Keys(one) {
			if one[n] != two[n] {
				c.Fail("built again, %s differs", n)
				return
			}
		}
		c.Count("pages of the project's documentation built again", len(one))
		c.Key("docs")
		return
	}
	p := gen.Everything()
	p.OddTags = c.I%3 == 0
	p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
	p.TOC, p.Partials = 40, 50
	if c.I%6 == 5 {
		p.Faults, p.Block["fault"] = 30, 1
		if c.I%12 == 5 {
			p.Faults, p.NearTags, p.Block["fault"] = 8, 90, 0
		}
	}
	if c.I%4 == 1 {
		p.Dup = 20
	}
	b := gen.New(c.R, p).Book()
	b.Index = true
	b.AllowBroken = c.I%5 == 0
	if c.I%12 == 3 {
		// which of them is reported first?
		src := b.Files[b.Root] + "\n\n"
		for i := 0; i < 3+c.R.Intn(4); i++ {
			src += fmt.Sprintf("\\set-partial{P%d}{\\target{ambiguous}{no %d}}\n\n", c.R.Intn(20), i)
		}
		b.Files[b.Root] = src + "\\reference{ambiguous}\n"
		c.Count("partials with the same tag")
	}
	if c.I%3 == 2 {
		b.Text = pick(c.R, []string{"txt", "md"})
		if c.R.Intn(2) == 0 {
			b.Templates = ref.ExtraTextTemplates
		}
	}
	c.Input(b.String())
	if !gate(c, b) {
		c.Trivial()
		return
	}
	raw := func() map[string]string {
		out, _ := run.ReadTree("out")
		return out
	}
	first := build(c, b)
	firstRaw := raw()
	second := build(c, b)
	if d := same(second, first); d != "" {
		c.Fail("a second build: %s", d)
		return
	}
	if first.Panic != "" {
		c.Fail("panic: %s", first.Panic)
		return
	}
	if first.Err != nil {
		if first.Err.Error() != second.Err.Error() || shown(first.Err) != shown(second.Err) {
			c.Fail("a second build reports another error:\n%s\nat first:\n%s", shown(second.Err), shown(first.Err))
			return
		}
		c.Count("errors repeated")
	}
	if d := run.DiffLog(second.Log, first.Log); d != "" {
		c.Fail("a second build calls other functions: %s", d)
		return
	}
	diffRaw := func(when string) bool {
		now := raw()
		if d := run.DiffKeys(now, firstRaw); d != "" {
			c.Fail("%s: %s", when, d)
			return false
		}
		for n := range now {
			if now[n] != firstRaw[n] {
				c.Fail("%s: %s differs:\n%q\nat first:\n%q", when, n, now[n], firstRaw[n])
				return false
			}
		}
		return true
	}
	if first.Err == nil && !diffRaw("a second build") {
		return
	}
	c.Key(b.String())
	if !strings.Contains(b.String(), "\\reference") && !strings.Contains(b.String(), "\\target") {
		c.Trivial()
	}

	// a fresh process
	if c.I%3 == 0 {
		_ = os.RemoveAll("out")
		args := []string{"-i", b.Root, "-o", "out", "--save-search-index"}
		if b.AllowBroken {
			args = append(args, "--allow-broken-references")
		}
		if b.Text != "" {
			args = append(args, "--text-file-extension", b.Text)
			if b.Templates != nil {
				args = append(args, "--text-templates", "tmpl")
			}
		}
		cmd := booklitCmd(args...)
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+c.R.Intn(8)), pick(c.R, []string{"GOGC=1", "GOGC=off", "LANG=tr_TR.UTF-8", "TZ=Asia/Tokyo"}))
		out, err := cmd.CombinedOutput()
		if (err != nil) != (first.Err != nil) {
			c.Fail("a fresh process: %v\n%s\nbut here: %v", err, clipped(string(out)), first.Err)
			return
		}
		if err == nil && !diffRaw("a fresh process") {
			return
		}
		c.Count("builds in a fresh process")
	}
	if first.Err != nil || first.Sec == nil {
		return
	}

	// again from what was loaded
	booklit.AllowBrokenReferences = b.AllowBroken
	defer func() { booklit.AllowBrokenReferences = false }()
	sec, err := (&load.Processor{}).LoadFile(b.Root, run.Factories)
	if err != nil {
		c.Fail("loading again: %s", err)
		return
	}
	var pages []*booklit.Section
	var all []*booklit.Section
	var walk func(s *booklit.Section)
	walk = func(s *booklit.Section) {
		all = append(all, s)
		if s.Parent == nil || s.Parent.SplitSections {
			pages = append(pages, s)
		}
		for _, k := range s.Children {
			walk(k)
		}
	}
	walk(sec)
	summary := func(s *booklit.Section) string {
		out := s.PrimaryTag.Name + "|" + s.Number() + "|" + s.Title.String() + "|" + s.Body.String() + "|"
		for _, t := range s.Tags {
			out += t.Name + "=" + t.Title.String() + ","
			if t.Content != nil {
				out += t.Content.String()
			}
		}
		return out
	}
	texts := map[*booklit.Section]string{}
	found := map[*booklit.Section]string{}
	used, err := b.Engine()
	if err != nil {
		fw.Bail("%s", err)
	}
	ext := used.FileExtension()
	for k := 0; k < 3*len(all)+6; k++ {
		s := all[c.R.Intn(len(all))]
		switch c.R.Intn(6) {
		case 0:
			t := summary(s)
			if old, ok := texts[s]; ok && old != t {
				c.Fail("section %s turns to the text %q, it was %q", s.PrimaryTag.Name, t, old)
				return
			}
			texts[s] = t
			c.Count("sections turned to text")
		case 1:
			// another engine in between
			other := run.Book{Text: "other"}
			if b.Text != "" {
				other.Text = ""
			}
			e, err := other.Engine()
			if err != nil {
				fw.Bail("%s", err)
			}
			_ = e.RenderSection(&bytes.Buffer{}, s)
		case 2:
			booklit.StripAux(s.Title)
			booklit.StripAux(s.Body)
			_ = s.FindTag("nothing")
			_ = s.SimilarTags("nothing")
			_ = s.HasAnchors()
			_ = s.AnchorTags()
			_ = s.Body.IsFlow()
			now := lookups(s, all)
			if old, ok := found[s]; ok && old != now {
				c.Fail("looking things up from section %s gives\n%s\nit was\n%s", s.PrimaryTag.Name, now, old)
				return
			}
			found[s] = now
			c.Count("lookups repeated")
		default:
			s = pages[c.R.Intn(len(pages))]
			e := used
			if c.R.Intn(3) == 0 {
				if e, err = b.Engine(); err != nil {
					fw.Bail("%s", err)
				}
			}
			var buf bytes.Buffer
			if err := e.RenderSection(&buf, s); err != nil {
				c.Fail("rendering %s again: %s", s.PrimaryTag.Name, err)
				return
			}
			name := s.PrimaryTag.Name + "." + ext
			if buf.String() != firstRaw[name] && unique(pages, name, ext) {
				c.Fail("%s rendered again differs:\n%q\nat first:\n%q", name, buf.String(), firstRaw[name])
				return
			}
			c.Count("pages rendered again")
		}
	}
}

// unique says whether only one page has the name.
func unique(pages []*booklit.Section, name, ext string) bool {
	n := 0
	for _, s := range pages {
		if s.PrimaryTag.Name+"."+ext == name {
			n++
		}
	}
	return n == 1
}

// shown is how an error is shown.
func shown(err error) string {
	out := err.Error()
	if p, ok := err.(booklit.PrettyError); ok {
		var buf bytes.Buffer
		p.PrettyPrint(&buf)
		out += "\n" + buf.String()
		buf.Reset()
		_ = p.PrettyHTML(&buf)
		out += "\n" + buf.String()
	}
	return out
}

// tree makes the same content for the real code and the model.
type tree struct {
	c *fw.Ctx
	g *gen.Gen
	n int
}

func (t *tree) words() string {
	if t.c.R.Intn(12) == 0 {
		return pick(t.c.R, []string{"", " ", "\n", "<b>", "a & b"})
	}
	t.n++
	return fmt.Sprintf("%s%d", t.g.Words(t.g.N(2)), t.n)
}

func (t *tree) many(depth int) ([]booklit.Content, []ref.C) {
	var a []booklit.Content
	var m []ref.C
	for i := t.c.R.Intn(4); i > 0; i-- {
		x, y := t.content(depth)
		a, m = append(a, x), append(m, y)
	}
	return a, m
}

func (t *tree) content(depth int) (booklit.Content, ref.C) {
	r := t.c.R
	if depth <= 0 {
		w := t.words()
		return booklit.String(w), ref.Str(w)
	}
	depth--
	switch r.Intn(15) {
	case 13:
		// different content whose text is the same
		w := t.words()
		a, m := booklit.Sequence{}, ref.Seq{}
		for i := 2 + r.Intn(2); i > 0; i-- {
			style := pick(r, []string{"verbatim", "verbatim", "bold"})
			u := pick(r, []string{"http://x/", "http://y/", "z"})
			a = append(a, booklit.Styled{Style: booklit.Style(style), Content: booklit.Link{Content: booklit.String(w), Target: u}})
			m = append(m, ref.Styled{Style: style, Content: ref.Link{Content: ref.Str(w), Target: u}})
		}
		return a, m
	case 0, 1:
		w := t.words()
		return booklit.String(w), ref.Str(w)
	case 2:
		a, m := t.many(depth)
		return booklit.Sequence(a), ref.Seq(m)
	case 3:
		a, m := t.many(depth)
		var p booklit.Paragraph
		var q ref.Para
		for i := range a {
			p = append(p, booklit.Sequence{a[i]})
			q = append(q, ref.Seq{m[i]})
		}
		return p, q
	case 4:
		a, m := t.many(depth)
		var p booklit.Preformatted
		for i := range a {
			p = append(p, a[i])
		}
		return p, ref.Pre(m)
	case 5, 6:
		x, y := t.content(depth)
		style := pick(r, []string{"bold", "italic", "verbatim", "strike", "larger", "inset", "aside"})
		block := r.Intn(4) == 0
		return booklit.Styled{Style: booklit.Style(style), Block: block, Content: x}, ref.Styled{Style: style, Block: block, Content: y}
	case 7:
		x, y := t.content(depth)
		return booklit.Link{Content: x, Target: "http://x/"}, ref.Link{Content: y, Target: "http://x/"}
	case 8:
		w := t.words()
		return booklit.Image{Path: "p.png", Description: w}, ref.Image{Path: "p.png", Desc: w}
	case 9:
		a, m := t.many(depth)
		o := r.Intn(2) == 0
		return booklit.List{Items: a, Ordered: o}, ref.List{Items: m, Ordered: o}
	case 10:
		var rows [][]booklit.Content
		var mrows [][]ref.C
		for i := r.Intn(3); i > 0; i-- {
			a, m := t.many(depth)
			rows, mrows = append(rows, a), append(mrows, m)
		}
		return booklit.Table{Rows: rows}, ref.Table{Rows: mrows}
	case 11:
		var ds booklit.Definitions
		var ms ref.Defs
		for i := r.Intn(3); i > 0; i-- {
			x, y := t.content(depth)
			u, v := t.content(depth)
			ds, ms = append(ds, booklit.Definition{Subject: x, Definition: u}), append(ms, [2]ref.C{y, v})
		}
		return ds, ms
	case 12:
		x, y := t.content(depth)
		return booklit.Aux{Content: x}, ref.Aux{Content: y}
	default:
		x, y := t.content(depth)
		if r.Intn(2) == 0 {
			return booklit.LazyBlock(func() (booklit.Content, error) { return x, nil }), &ref.Lazy{Block: true, Fn: func() (ref.C, error) { return y, nil }}
		}
		return booklit.LazyFlow(func() (booklit.Content, error) { return x, nil }), &ref.Lazy{Fn: func() (ref.C, error) { return y, nil }}
	}
}

// lookups is what is found from a section.
func lookups(s *booklit.Section, all []*booklit.Section) string {
	names := func(ts []booklit.Tag) string {
		out := ""
		for _, t := range ts {
			out += t.Name + "@" + t.Section.Number() + "#" + t.Anchor + " "
		}
		return out + "\n"
	}
	at := func(s *booklit.Section) string {
		if s == nil {
			return "none\n"
		}
		return s.Number() + "\n"
	}
	out := names(s.AnchorTags()) + names(s.SimilarTags("s1")) + names(s.SimilarTags("t12")) + at(s.Next()) + at(s.Prev()) + at(s.Top()) + at(s.NextSibling())
	for _, o := range all {
		for _, t := range o.Tags {
			out += names(s.FindTag(t.Name))
		}
		if len(out) > 4000 {
			break
		}
	}
	return out + fmt.Sprint(s.Depth(), s.PageDepth(), s.HasAnchors(), s.SplitSectionsPrevented())
}

func contentCase(c *fw.Ctx) {
	t := &tree{c: c, g: gen.New(c.R, gen.Profile{Charset: pick(c.R, []string{gen.Plain, gen.Markup}), Words: 2})}
	eng := render.NewHTMLEngine()
	check := func(what string, x booklit.Content, m ref.C) bool {
		ops := []func() bool{
			func() bool {
				if g, w := x.String(), ref.Text(m); g != w {
					c.Fail("%s: the text is %q, want %q", what, g, w)
					return false
				}
				return true
			},
			func() bool {
				if g, w := x.IsFlow(), ref.IsFlow(m); g != w {
					c.Fail("%s: flow content: %v, want %v", what, g, w)
					return false
				}
				if x.IsFlow() {
					c.Count("flow content")
				} else {
					c.Count("block content")
				}
				return true
			},
			func() bool { return renders(c, eng, what, x, m) },
			func() bool { return renders(c, eng, what+" without aux", booklit.StripAux(x), ref.Strip(m)) },
		}
		for _, i := range c.R.Perm(len(ops)) {
			if !ops[i]() {
				return false
			}
		}
		// nothing changed it
		return ops[0]() && ops[2]()
	}
	x, m := t.content(4)
	c.Count("trees")
	c.Input(fmt.Sprintf("%#v", m))
	c.Key(fmt.Sprintf("%#v", m))
	if !check("tree", x, m) {
		return
	}
	// pieces put together
	var pieces []booklit.Content
	var models []ref.C
	for i := 1 + c.R.Intn(5); i > 0; i-- {
		if c.R.Intn(6) == 0 {
			pieces, models = append(pieces, nil), append(models, nil)
			continue
		}
		a, b := t.content(2)
		pieces, models = append(pieces, a), append(models, b)
	}
	want := models[0]
	for _, p := range models[1:] {
		want = ref.Join(want, p)
	}
	c.Input(fmt.Sprintf("%#v", models))
	if t.n < 2 {
		c.Trivial()
	}
	joined := booklit.Append(pieces[0], pieces[1:]...)
	c.Count("joins")
	if want == nil {
		if joined != nil {
			c.Fail("nothing joined is %#v", joined)
		}
		return
	}
	if joined == nil {
		c.Fail("pieces joined are nothing")
		return
	}
	if !check("pieces joined", joined, want) {
		return
	}
	// whatever is joined may be joined again, with all of it in use still
	xs, ms := append(pieces, joined), append(models, want)
	for i := c.R.Intn(8); i > 0; i-- {
		j := c.R.Intn(len(xs))
		a, am := xs[j], ms[j]
		var more []booklit.Content
		for k := 1 + c.R.Intn(3); k > 0; k-- {
			l := c.R.Intn(len(xs))
			more = append(more, xs[l])
			am = ref.Join(am, ms[l])
		}
		a = booklit.Append(a, more...)
		if (a == nil) != (am == nil) || a != nil && len(a.String()) > 4000 {
			break
		}
		xs, ms = append(xs, a), append(ms, am)
		c.Count("pieces joined again")
	}
	for i, x := range xs {
		if x == nil {
			continue
		}
		if g, w := x.String(), ref.Text(ms[i]); g != w {
			c.Fail("after more was joined, a piece is %q, want %q", g, w)
			return
		}
	}
	i := c.R.Intn(len(xs))
	if xs[i] != nil {
		check("a piece", xs[i], ms[i])
	}
}

// renders checks what content renders as.
func renders(c *fw.Ctx, eng render.Engine, what string, x booklit.Content, m ref.C) bool {
	sec := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
	sec.SetTitle(booklit.String("T"), ast.Location{}, "t")
	sec.Body = x
	var buf bytes.Buffer
	if err := eng.RenderSection(&buf, sec); err != nil {
		c.Fail("%s: %s", what, err)
		return false
	}
	ms := &ref.Sec{Title: ref.Str("T"), Body: m}
	ms.Primary = ref.Tag{Name: "t", Title: ref.Str("T"), Sec: ms}
	want, err := run.HTMLRender().PageHTML(ms)
	if err != nil {
		fw.Bail("%s", err)
	}
	if d := cmp.Diff(cmp.Tokens(buf.String()), cmp.Tokens(want)); d != "" {
		c.Fail("%s renders wrong: %s", what, d)
		return false
	}
	c.Count("pieces rendered")
	return true
}
