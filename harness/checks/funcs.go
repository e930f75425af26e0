package checks

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/cmp"
	"verif/fw"
	"verif/gen"
	"verif/plug"
	"verif/ref"
	"verif/run"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// plainly is text as one sees it, blanks aside.
func plainly(s string) string {
	return strings.Join(strings.Fields(ansi.ReplaceAllString(s, "")), " ")
}

// told says whether the message and the error page say what went wrong.
func told(c *fw.Ctx, err error) string {
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	shown := ""
	for _, t := range cmp.Tokens(rec.Body.String()) {
		if strings.HasPrefix(t, "\"") {
			shown += " " + t[1:]
		}
	}
	shown = plainly(shown)
	var pretty booklit.PrettyError
	if !errors.As(err, &pretty) {
		if says := plainly(err.Error()); !strings.Contains(shown, says) {
			return fmt.Sprintf("the error page does not say %q: %q", says, clipped(shown))
		}
		c.Count("plain messages checked")
		return ""
	}
	var buf bytes.Buffer
	pretty.PrettyPrint(&buf)
	out := plainly(buf.String())
	g := run.Classify(err)
	says := map[string]string{}
	switch g.Kind {
	case "undefined":
		says["the function"] = g.Fn
	case "failed":
		says["the function"] = g.Fn
		var inner booklit.PrettyError
		if !errors.As(g.Plugin, &inner) {
			says["the function's error"] = g.Msg
		}
	case "unknown-tag", "ambiguous":
		says["the tag"] = g.Tag
	case "parse":
		var p booklit.ParseError
		errors.As(err, &p)
		says["the parser's message"] = p.Err.Error()
	case "title-twice":
		says["where the first title is"] = fmt.Sprint(g.Other[0].Loc.Line)
	}
	for _, k := range run.Keys(says) {
		w := plainly(says[k])
		if !strings.Contains(out, w) {
			return fmt.Sprintf("the message does not say %s (%q): %q", k, w, clipped(out))
		}
		if !strings.Contains(shown, w) {
			return fmt.Sprintf("the error page does not say %s (%q): %q", k, w, clipped(shown))
		}
		c.Count("messages checked")
	}
	return ""
}

// printed checks the message for an error against where it should point.
func printed(c *fw.Ctx, b run.Book, err error, want *ref.Err) string {
	var pretty booklit.PrettyError
	if !errors.As(err, &pretty) {
		if d := told(c, err); d != "" {
			return d
		}
		if want.File != "" && want.Loc.Line > 0 && want.Kind != "plain" && want.Kind != "arity" {
			return fmt.Sprintf("the error %q does not say where it is", err)
		}
		return ""
	}
	var buf bytes.Buffer
	pretty.PrettyPrint(&buf)
	out := ansi.ReplaceAllString(buf.String(), "")

	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := rec.Body.String()
	if strings.Contains(page, "failed to render error page") {
		return "the error page failed: " + page[strings.Index(page, "failed to render"):]
	}
	c.Count("error pages checked")
	if d := told(c, err); d != "" {
		return d
	}
	toks := cmp.Tokens(page)
	structure := skeleton(toks)
	if strings.Contains(structure, "<script") || strings.Contains(structure, "onerror") {
		return "the error page holds markup of the document"
	}

	head := fmt.Sprintf("%s:%d: ", want.File, want.Loc.Line)
	if !strings.HasPrefix(out, head) {
		return fmt.Sprintf("the message does not start with %q: %q", head, out)
	}
	ats := []ref.At{{File: want.File, Loc: want.Loc}}
	ats = append(ats, run.Classify(err).Other...)
	pos := 0
	for i, at := range ats {
		lines := strings.Split(b.Files[at.File], "\n")
		if at.Loc.Line < 1 || at.Loc.Line > len(lines) {
			return fmt.Sprintf("there is no such line: %v", at)
		}
		line := strings.TrimSuffix(lines[at.Loc.Line-1], "\r")
		if len(line) > 60000 {
			c.Count("annotated lines longer than 60 kB")
		}
		// the message shows the line and points at the characters
		prefix := fmt.Sprintf("% 4d| ", at.Loc.Line)
		j := strings.Index(out[pos:], prefix+line+"\n")
		if j < 0 {
			return fmt.Sprintf("the message does not show line %d (%q): %q", at.Loc.Line, clipped(line), clipped(out))
		}
		if i > 0 && want.Kind == "ambiguous" {
			if !strings.Contains(out[pos:pos+j], at.File) {
				return fmt.Sprintf("the message does not name the file %q: %q", at.File, clipped(out))
			}
		}
		margin := len(out[pos:pos+j]) - 1 - strings.LastIndex(out[pos:pos+j], "\n")
		pos += j + len(prefix) + len(line) + 1
		carets, _, _ := strings.Cut(out[pos:], "\n")
		n := strings.Count(carets, "^")
		if wantLen := map[bool]int{true: want.Len, false: n}[i == 0]; n != wantLen || n == 0 && want.Kind != "ambiguous" {
			return fmt.Sprintf("the message points at %q below %q, want %d characters", carets, clipped(line), wantLen)
		}
		if pad := margin + len(prefix) + at.Loc.Col - 1; carets != strings.Repeat(" ", pad)+strings.Repeat("^", n) {
			return fmt.Sprintf("the message points at %q below %q, want column %d", carets, clipped(line), at.Loc.Col)
		}
		// and so does the error page
		if line != "" {
			rs := []rune(line)
			from := min(max(at.Loc.Col-1, 0), len(rs))
			to := min(from+n, len(rs))
			wantHTML := `<pre class="line">` + esc(string(rs[:from])) + `<span class="annotated">` + esc(string(rs[from:to])) + `</span>` + esc(string(rs[to:])) + `</pre>`
			part := cmp.Tokens(wantHTML)
			at0 := where(toks, part)
			if at0 < 0 {
				return fmt.Sprintf("the error page does not annotate %q in %q:\n%s", string(rs[from:to]), clipped(line), clipped(page[strings.Index(page, "<body>"):]))
			}
			// at its place: the same line may be shown for others
			named := false
			for ; at0 >= 0 && !named; at0 = where(toks, part, at0+1) {
				before := fmt.Sprint(toks[max(0, at0-9):at0])
				named = strings.Contains(before, fmt.Sprint(at.Loc.Line)) && strings.Contains(before, at.File)
			}
			if !named {
				return fmt.Sprintf("the error page does not say that %q is line %d of %s:\n%s", clipped(line), at.Loc.Line, at.File, clipped(page[strings.Index(page, "<body>"):]))
			}
		}
		c.Count("locations checked")
	}
	for _, t := range want.Simil {
		if !strings.Contains(out, "- "+t+"\n") || !contains(toks, cmp.Tokens("<code>"+esc(t)+"</code>")) {
			return fmt.Sprintf("the message does not suggest the similar tag %q: %q", t, clipped(out))
		}
		c.Count("suggestions checked")
	}
	return ""
}

func esc(s string) string { return html.EscapeString(s) }

func clipped(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// contains says whether the tokens occur in a row.
func contains(all, part []cmp.Tok) bool { return where(all, part) >= 0 }

// where is where the tokens occur in a row, or -1.
func where(all, part []cmp.Tok, from ...int) int {
	for i := append(from, 0)[0]; i+len(part) <= len(all); i++ {
		if cmp.Diff(all[i:i+len(part)], part) == "" {
			return i
		}
	}
	return -1
}

// skeleton is the tags and attribute names of a page.
func skeleton(ts []cmp.Tok) string {
	var b strings.Builder
	for _, t := range ts {
		if strings.HasPrefix(t, `"`) {
			continue
		}
		b.WriteString(attrValue.ReplaceAllString(t, `=""`) + "\n")
	}
	return b.String()
}

var attrValue = regexp.MustCompile(`="(\\.|[^"\\])*"`)

func init() {
	add(&fw.Check{
		ID: "C06", Quick: 4000, Thorough: 40000,
		Rule: "a case is a book with several sections using up to four plugins in random order, whose probe functions record every call with its location and arguments (text, content, syntax, variadic) and return content, nothing or errors; the recorded calls and the pages must be the model's, in order and exactly once; non-trivial if a probe was called",
		Need: []string{"calls recorded and compared", "error: undefined", "error: failed", "error: arity"},
		Run: func(c *fw.Ctx) {
			p := gen.Profile{
				Inline: gen.Weights("text:6 probe:14 who:2 pair:2 styled:2 escape verb interp:2 comment ref:1 refas lazy:1 optref:1 target:1 aux"),
				Block:  gen.Weights("para:6 probe:6 list pre echoblock:4 lazy table"),
				Blocks: 5, Lines: 3, Words: 2, Depth: 4, Sections: 2, Levels: 2, Includes: 30,
				Plugins: 85, LateUse: 15, Faults: 8, Charset: gen.ASCII, Comments: 10, CRLF: 10,
			}
			if c.I%3 == 0 {
				p.Block["fault"] = 2
			}
			g := gen.New(c.R, p)
			b := g.Book()
			_, want, ok := differ(c, b)
			if !ok {
				return
			}
			seen(c, g)
			if len(want.Log) == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C07", Quick: 3000, Thorough: 60000,
		Rule: "a case is a book into which one to three failing calls are put at random places (arguments of any depth, blocks, titles, other files, behind comments, multi-byte text, tabs, CRLF and very long lines); the reported kind, file, line, column and length must be the model's, and the printed message and the error page must show that line and point at those characters; non-trivial if an error was reported",
		Need: []string{"locations checked", "error pages checked", "error: undefined", "error: failed", "error: unknown-tag", "error: ambiguous", "error: title-twice", "error: parse", "annotated lines longer than 60 kB", "parse error locations checked", "suggestions checked"},
		Run: func(c *fw.Ctx) {
			p := gen.Everything()
			p.Blocks = 3
			p.Charset = pick(c.R, []string{gen.ASCII, gen.Unicode, gen.Markup + gen.Unicode})
			p.Block["fault"] = 4
			p.Faults = 10
			if c.R.Intn(2) == 0 {
				p.Dup = 25
				p.Block["fault"] = 0
			}
			p.CRLF = 20
			g := gen.New(c.R, p)
			b := g.Book()
			if c.I%5 == 0 {
				brokenSyntax(c, b)
				return
			}
			if c.I%40 == 1 {
				// the failing call on a line of its own, which is very long
				long := strings.Repeat("é x ", 20000)
				b.Files["index.lit"] = strings.TrimRight(b.Files["index.lit"], "\n") + "\n\n" + long + "\\no-such-function{" + long + "}\n"
			}
			if c.I%40 == 3 {
				// the failing call far down in a file
				n := []int{95, 990, 9990, 29990}[c.R.Intn(4)]
				b.Files["index.lit"] = strings.TrimRight(b.Files["index.lit"], "\n") + strings.Repeat("\n", n) +
					strings.Repeat("\n{- -}", c.R.Intn(20)) + "\n\nfar \\no-such-function{down}\n"
			}
			got, want, ok := differ(c, b)
			if !ok {
				return
			}
			if want.Err == nil {
				c.Trivial()
				return
			}
			w, isErr := want.Err.(*ref.Err)
			if !isErr || w.Loc.Line == 0 {
				return
			}
			if d := printed(c, b, got.Err, w); d != "" {
				c.Fail("%s", d)
			}
		},
	})

	add(&fw.Check{
		ID: "C19", Quick: 240, Thorough: 10000, Race: true,
		Rule: "a case is a book with lazy content (in text, titles, lists, references, included sections, shared between places); it is loaded, rendered twice, as HTML or text, and again by several goroutines at once, each with an engine of its own; every generator runs at most once overall, exactly once if it is on a page, never while loading; with the race detector; non-trivial if a generator ran",
		Need: []string{"generators", "generators run", "concurrent renders", "values forced by several goroutines at once", "failures repeated"},
		Run:  lazyCase,
	})

	add(&fw.Check{
		ID: "C20", Quick: 2500, Thorough: 40000,
		Rule: "a case is a tree of inline and included sections in nested directories, each using plugins, styles and partials or not; which functions are defined where, which implementation answers, which file an include means, and which style and partials each section is rendered with must be the model's; non-trivial with two sections or more",
		Need: []string{"include", "section", "error: undefined", "pages compared", "partials observed"},
		Run: func(c *fw.Ctx) {
			p := gen.Profile{
				Inline: gen.Weights("text:6 who:6 only:4 rawwho:1 styled ref"),
				Block:  gen.Weights("para:6"),
				Blocks: 3, Lines: 2, Words: 2, Depth: 2, Sections: 3, Levels: 3, Includes: 50, SameNames: 50,
				Plugins: 50, LateUse: 25, Charset: gen.Plain, Partials: 40, TagParts: c.I%2 == 0, Styles: []string{"fancy", "boxed"}, StylePct: 30, Split: 20, OddPaths: 15, Restyle: 25,
			}
			if c.I%4 > 0 {
				delete(p.Inline, "rawwho")
			}
			g := gen.New(c.R, p)
			b := g.Book()
			b.Templates = SectionTemplates
			b.Links = c.I%5 == 2
			if b.Links {
				c.Count("books with symbolic links")
			}
			c.Input(b.String())
			c.Scratch()
			want := run.Model(b, sectionRender())
			if want.Skip {
				c.Trivial()
				return
			}
			got := run.Real(b)
			if d := run.Diff(b, got, want); d != "" {
				c.Fail("%s", d)
				return
			}
			observe(c, b, want)
			seen(c, g)
			if want.Err == nil {
				for _, s := range want.Sec.All() {
					c.Count("partials observed", len(s.Partials))
				}
				if len(want.Sec.All()) < 2 {
					c.Trivial()
				}
			}
		},
	})
}

// brokenSyntax breaks a book's syntax at a known place.
func brokenSyntax(c *fw.Ctx, b run.Book) {
	name := pick(c.R, run.Keys(b.Files))
	src := b.Files[name]
	// a stray brace, or an unknown escape, right after a character outside of
	// any braces is where parsing ends
	lines := strings.Split(strings.ReplaceAll(src, "\r\n", "\n"), "\n")
	for len(lines) > 0 && strings.TrimSpace(lines[len(lines)-1]) == "" {
		lines = lines[:len(lines)-1]
	}
	src = strings.Join(lines, "\n") + "\n\n"
	if !ref.Parse(src).OK {
		c.Trivial()
		return
	}
	pre := pick(c.R, []string{"", "abc", "é漢 x ", "\\bold{x} y", "\\\\ ", "\tx\t", strings.Repeat("long ", c.R.Intn(5000))})
	bad := pick(c.R, []string{"}", "\\", "\\ ", "\\A", "\\1", "}}", "{", "{x", "{{"})
	b.Files[name] = src + pre + bad + pick(c.R, []string{"", " more", "\n\nmore\n", "\r\n"})
	line := strings.Count(src, "\n") + 1
	c.Input(b.String())
	want := run.Model(b, run.HTMLRender())
	if want.Skip {
		c.Trivial()
		return
	}
	w, _ := want.Err.(*ref.Err)
	got := build(c, b)
	if got.Err == nil {
		if want.Err == nil {
			c.Trivial()
			return
		}
		c.Fail("broken syntax is not reported")
		return
	}
	if d := run.DiffErr(got.Err, want.Err); d != "" {
		c.Fail("%s", d)
		return
	}
	if w == nil || w.Kind != "parse" || w.File != name {
		return
	}
	c.Count("error: parse")
	c.Key(b.String())
	g := run.Classify(got.Err)
	// anything before is fine, so the error is at or after this place, and what
	// parsed last is before the bad character or right at it
	if g.Loc.Line != line {
		if bad[0] == '{' && g.Loc.Line >= line {
			return // it may go on
		}
		c.Fail("parse error at line %d, the bad syntax is on line %d", g.Loc.Line, line)
		return
	}
	if bad == "}" || bad == "}}" || bad == "\\" || bad == "\\A" || bad == "\\1" || bad == "\\ " {
		col := len([]rune(pre)) + 1
		if g.Loc.Col < col || g.Loc.Col > col+1 {
			c.Fail("parse error at column %d, the bad syntax is at column %d", g.Loc.Col, col)
			return
		}
	}
	c.Count("parse error locations checked")
	if d := printed(c, b, got.Err, &ref.Err{Kind: "parse", File: name, Loc: g.Loc, Len: 1}); d != "" {
		c.Fail("%s", d)
	}
}

func lazyCase(c *fw.Ctx) {
	p := gen.Everything()
	p.Inline = gen.Weights("text:6 lazy:10 styled:3 refas:2 ref target2 aux interp optref")
	p.Block = gen.Weights("para:6 lazy:4 list:2 table defs echoblock inset pre toc")
	p.Plugins, p.CRLF, p.Faults = 100, 0, 0
	p.Blocks = 3
	if c.I%2 == 0 {
		for _, k := range []string{"refas", "ref", "optref"} {
			delete(p.Inline, k)
		}
	}
	g := gen.New(c.R, p)
	b := g.Book()
	if c.I%8 == 3 || c.I%16 == 6 {
		b = run.Doc("\\title{x}{index}\n\\use-plugin{probe}\n\n\\deferred{a}\n\n\\deferred-fail{f} \\deferred{b}\n\n\\section{\n\\title{\\deferred{t}}{s}\n\n\\deferred-wrap{c}{\\deferred-fail{g}}\n}\n")
	}
	if c.I%4 == 3 {
		b.Text = pick(c.R, []string{"txt", "md"})
	}
	got, want, ok := differ(c, b)
	if !ok {
		return
	}
	c.Count("generators", len(want.World.Log))
	if len(got.Early) > 0 {
		c.Fail("lazy content was generated while loading: %q", got.Early)
		return
	}
	check := func(when string, forces map[string]int) bool {
		for id, n := range forces {
			if n > 1 {
				c.Fail("lazy content %s was generated %d times %s", id, n, when)
				return false
			}
		}
		return true
	}
	if !check("in one build", got.Forces) {
		return
	}
	// what shows on a page was generated
	for _, page := range got.Pages {
		for _, m := range lazyShown.FindAllStringSubmatch(page, -1) {
			if got.Forces[m[1]] != 1 {
				c.Fail("lazy content %s shows, and was generated %d times", m[1], got.Forces[m[1]])
				return
			}
			c.Count("generators run")
		}
	}
	if got.Sec == nil {
		return
	}

	// again, and by several goroutines with engines of their own
	c.Scratch()
	if err := run.WriteFiles(b.Files); err != nil {
		fw.Bail("%s", err)
	}
	plug.ForceMu.Lock()
	plug.Forces = map[string]int{}
	plug.Phase = "load"
	plug.ForceMu.Unlock()
	sec, err := (&load.Processor{}).LoadFile(b.Root, run.Factories)
	if err != nil {
		c.Fail("loading again: %s", err)
		return
	}
	plug.ForceMu.Lock()
	plug.Phase = "render"
	plug.ForceMu.Unlock()
	lazies := []*booklit.Lazy{}
	results := []string{}
	for i := 0; i < 4; i++ {
		i := i
		fail := i%2 == 1
		results = append(results, fmt.Sprintf("value %d", i))
		if fail {
			results[i] = fmt.Sprintf("failed %d", i)
		}
		lazies = append(lazies, booklit.LazyFlow(func() (booklit.Content, error) {
			plug.ForceMu.Lock()
			plug.Forces[fmt.Sprintf("own%d", i)]++
			plug.ForceMu.Unlock()
			runtime.Gosched()
			if fail {
				return nil, fmt.Errorf("failed %d", i)
			}
			return booklit.String(fmt.Sprintf("value %d", i)), nil
		}))
	}
	// lazy content may give other lazy content, which is used elsewhere too
	for i := 4; i < 8; i++ {
		i := i
		of := c.R.Intn(i)
		inner := lazies[of]
		results = append(results, results[of])
		lazies = append(lazies, booklit.LazyFlow(func() (booklit.Content, error) {
			plug.ForceMu.Lock()
			plug.Forces[fmt.Sprintf("own%d", i)]++
			plug.ForceMu.Unlock()
			return inner, nil
		}))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	outs := make([]string, 6)
	bad := make([]string, 6)
	for i := range outs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for j, l := range lazies {
				v, err := l.Force()
				for in, ok := v.(*booklit.Lazy); ok; in, ok = v.(*booklit.Lazy) {
					v, err = in.Force()
				}
				if results[j][0] == 'f' {
					if err == nil || err.Error() != results[j] {
						bad[i] = fmt.Sprintf("forcing a failing generator gave %v, %v", v, err)
					}
				} else if err != nil || v == nil || v.String() != results[j] {
					bad[i] = fmt.Sprintf("forcing a generator gave %v, %v", v, err)
				}
				var page bytes.Buffer
				var eng render.Engine = render.NewHTMLEngine()
				if (i+j)%3 == 0 {
					eng = render.NewTextEngine("txt")
				}
				err = eng.RenderSection(&page, &booklit.Section{Title: booklit.Empty, Body: l})
				if results[j][0] == 'f' {
					if err == nil || !strings.Contains(err.Error(), results[j]) {
						bad[i] = fmt.Sprintf("rendering a failing generator gave %v: %s", err, page.String())
					}
				} else if err != nil || !strings.Contains(page.String(), results[j]) {
					bad[i] = fmt.Sprintf("rendering a generator gave %v: %s", err, page.String())
				}
			}
			// references remember what they resolved to, so only trees without
			// them may be rendered by several goroutines
			if !strings.Contains(b.String(), "ref") {
				var buf bytes.Buffer
				err := render.NewHTMLEngine().RenderSection(&buf, sec)
				outs[i] = fmt.Sprint(buf.String(), err)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range outs {
		if bad[i] != "" {
			c.Fail("%s", bad[i])
			return
		}
		if outs[i] != outs[0] {
			c.Fail("renders of the same section differ:\n%s\n---\n%s", clipped(outs[0]), clipped(outs[i]))
			return
		}
	}
	c.Count("values forced by several goroutines at once", len(lazies))
	c.Count("failures repeated", len(lazies)/2)
	c.Count("concurrent renders", len(outs))
	var first, second bytes.Buffer
	e1 := render.NewHTMLEngine().RenderSection(&first, sec)
	e2 := render.NewHTMLEngine().RenderSection(&second, sec)
	if first.String() != second.String() || fmt.Sprint(e1) != fmt.Sprint(e2) {
		c.Fail("rendering twice differs: %v %v", e1, e2)
		return
	}
	plug.ForceMu.Lock()
	defer plug.ForceMu.Unlock()
	check("over several renders", plug.Forces)
	_ = os.Remove("x")
}

var lazyShown = regexp.MustCompile(`lazy (z\d+q)`)
