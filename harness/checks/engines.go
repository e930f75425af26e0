package checks

import (
	"bytes"
	"fmt"
	"html/template"
	"os"
	"path/filepath"
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	htmlassets "github.com/vito/booklit/render/html"
	textassets "github.com/vito/booklit/render/text"

	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// names of the bundled templates a user may override
var htmlNames = strings.Fields("page section toc list table definitions string sequence paragraph preformatted link reference target image bold italic larger smaller strike superscript subscript inset aside verbatim")
var textNames = strings.Fields("page section toc string sequence paragraph preformatted inset")

// customTemplates are templates for styles of the monitors' own.
var customTemplates = map[string]string{
	"parts": `<div data-t="parts">{{with .Partial "A"}}<b class="pa">{{. | render}}</b>{{else}}<b class="none"></b>{{end}}{{with .Partial "B"}}<b class="pb">{{. | render}}</b>{{end}}{{.Content | render}}</div>`,
	"kind":  `<i class="{{if .IsFlow}}flow{{else}}block{{end}}">{{.Content.String}}</i>`,
	"plain": `<i class="plain">{{.Content | stripAux | render}}</i>`,
	"raw":   `<i class="raw">{{.Content | rawHTML}}</i>`,
	"rawu":  `<a href="{{.Content | rawURL}}">{{.Content | render}}</a>`,
	"fancy": `<div class="fancy"><h{{headerDepth .}} id="{{.PrimaryTag.Name}}">{{.Number}}|{{.Title | stripAux | render}}</h{{headerDepth .}}>` +
		`<a href="{{.PrimaryTag | url}}">self</a>{{range .Tags}}<a class="t" href="{{. | url}}">{{.Name}}</a>{{end}}` +
		`{{with walkContext . .Top}}<b class="w">{{.Current.PrimaryTag.Name}}|{{.Section.PrimaryTag.Name}}</b>{{end}}` +
		`{{with .Partial "A"}}<b class="pa">{{. | render}}</b>{{end}}{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</div>`,
	"fancy-page": `<html><body class="fancy-page"><p>{{.Style}}</p>{{. | render}}</body></html>`,
	"nopage":     `<div class="nopage" id="{{.PrimaryTag.Name}}">{{.Body | render}}</div>`,
}

func customRender(marks, empty map[string]bool) *ref.Render {
	part := func(r *ref.Render, ps map[string]ref.C, name, cls string) (string, bool, error) {
		p, ok := ps[name]
		if !ok || ref.FalsyContent(p) {
			return "", false, nil
		}
		in, err := r.HTML(p)
		return `<b class="` + cls + `">` + in + `</b>`, true, err
	}
	hrefURL := template.Must(template.New("").Parse(`<a href="{{.}}">`))
	return &ref.Render{
		Ext: "html", Mark: marks, Empty: empty,
		Style: map[string]func(r *ref.Render, s ref.Styled) (string, error){
			"parts": func(r *ref.Render, s ref.Styled) (string, error) {
				a, ok, err := part(r, s.Partials, "A", "pa")
				if err != nil {
					return "", err
				}
				if !ok {
					a = `<b class="none"></b>`
				}
				b, _, err := part(r, s.Partials, "B", "pb")
				if err != nil {
					return "", err
				}
				in, err := r.HTML(s.Content)
				return `<div data-t="parts">` + a + b + in + `</div>`, err
			},
			"kind": func(r *ref.Render, s ref.Styled) (string, error) {
				k := "block"
				if ref.IsFlow(s) {
					k = "flow"
				}
				return `<i class="` + k + `">` + ref.Esc(ref.Text(s.Content)) + `</i>`, nil
			},
			"plain": func(r *ref.Render, s ref.Styled) (string, error) {
				in, err := r.HTML(ref.Strip(s.Content))
				return `<i class="plain">` + in + `</i>`, err
			},
			"raw": func(r *ref.Render, s ref.Styled) (string, error) {
				return `<i class="raw">` + ref.Text(s.Content) + `</i>`, nil
			},
			"rawu": func(r *ref.Render, s ref.Styled) (string, error) {
				in, err := r.HTML(s.Content)
				var buf bytes.Buffer
				_ = hrefURL.Execute(&buf, template.URL(ref.Text(s.Content)))
				return buf.String() + in + `</a>`, err
			},
		},
		SecStyle: map[string]func(r *ref.Render, s *ref.Sec) (string, error){
			"fancy": func(r *ref.Render, s *ref.Sec) (string, error) {
				d := s.PageDepth() + 1
				if d > 6 {
					d = 6
				}
				title, err := r.HTML(ref.Strip(s.Title))
				if err != nil {
					return "", err
				}
				top := s
				for top.Parent != nil {
					top = top.Parent
				}
				url := func(anchor string) string {
					return ref.PageURL(s.URL("html", anchor))
				}
				out := fmt.Sprintf(`<div class="fancy"><h%d id="%s">%s|%s</h%d><a href="%s">self</a>`, d, ref.Esc(s.Primary.Name), s.Number(), title, d, url(""))
				for _, t := range s.Tags {
					out += `<a class="t" href="` + url(t.Anchor) + `">` + ref.Esc(t.Name) + `</a>`
				}
				out += `<b class="w">` + ref.Esc(s.Primary.Name+"|"+top.Primary.Name) + `</b>`
				a, _, err := part(r, s.Partials, "A", "pa")
				if err != nil {
					return "", err
				}
				body, err := r.HTML(s.Body)
				if err != nil {
					return "", err
				}
				out += a + body
				if !s.Split {
					for _, k := range s.Children {
						in, err := r.SecHTML(k)
						if err != nil {
							return "", err
						}
						out += in
					}
				}
				return out + "</div>", nil
			},
			"nopage": func(r *ref.Render, s *ref.Sec) (string, error) {
				in, err := r.HTML(s.Body)
				return `<div class="nopage" id="` + ref.Esc(s.Primary.Name) + `">` + in + `</div>`, err
			},
		},
		PageStyle: map[string]func(r *ref.Render, s *ref.Sec) (string, error){
			"fancy": func(r *ref.Render, s *ref.Sec) (string, error) {
				in, err := r.SecHTML(s)
				return `<html><body class="fancy-page"><p>fancy</p>` + in + `</body></html>`, err
			},
		},
	}
}

// bundled is the source of a bundled template, if there is one.
func bundled(name string, text bool) string {
	names, asset := htmlassets.AssetNames(), htmlassets.MustAsset
	if text {
		names, asset = textassets.AssetNames(), textassets.MustAsset
	}
	for _, n := range names {
		if filepath.Base(n) == name+".tmpl" {
			return strings.TrimRight(string(asset(n)), "\n")
		}
	}
	return ""
}

// empties are templates which render nothing.
var empties = []string{"", "\n\n", "{{/* nothing */}}", `{{define "unused"}}x{{end}}`, `{{""}}`, "{{- /* nothing */ -}}\n"}

// marked overrides some bundled templates with ones which mark their output, or
// render nothing.
func marked(c *fw.Ctx, names []string, text bool) (map[string]string, map[string]bool, map[string]bool) {
	out, marks, empty := map[string]string{}, map[string]bool{}, map[string]bool{}
	some := c.R.Intn(3) == 0
	for _, n := range names {
		if some && n != "sequence" && c.R.Intn(8) == 0 {
			empty[n] = true
			out[n] = pick(c.R, empties)
			continue
		}
		if c.R.Intn(5) > 0 {
			continue
		}
		marks[n] = true
		if n == "sequence" {
			// how content is grouped is no concern of ours
			delete(marks, n)
			out[n] = "{{range .Contents}}{{. | render}}{{end}}"
			continue
		}
		if n == "string" {
			// nor is where it is split into strings, so mark every byte
			out[n] = `{{printf "%x" .String}}`
			continue
		}
		if text {
			open, closing := ref.TextMarks(n)
			out[n] = open + bundled(n, true) + closing
		} else {
			out[n] = ref.Opening(n) + bundled(n, false) + ref.Closing(n)
		}
		if !text && c.R.Intn(3) == 0 {
			out[n] += "\n\n"
		}
	}
	return out, marks, empty
}

func init() {
	add(&fw.Check{
		ID: "C24", Quick: 1800, Thorough: 30000,
		Rule: "a case is a book rendered with user templates: some override bundled ones (marking their output), some are for styles of content and sections, with partials, and use the template functions; what each template was used for and got must be the model's, for HTML and for text; or a directory of templates which is edited, broken, repaired, emptied and set back in time while one engine keeps loading it, which must render as a fresh one does; non-trivial if a template was overridden",
		Need: []string{"templates overridden", "templates overridden by empty ones", "marks on pages", "reloads compared", "broken templates reported", "error: template", "text pages compared", "pages compared to the byte"},
		Run: func(c *fw.Ctx) {
			if c.I%4 == 3 {
				reloadCase(c)
				return
			}
			if c.I%16 == 8 || c.I%16 == 10 {
				exactCase(c)
				return
			}
			p := gen.Everything()
			p.Plugins, p.StylePct, p.Partials = 80, 30, 50
			p.TagParts = c.I%3 == 0
			p.Styles = []string{"fancy", "nopage"}
			p.Restyle = 25
			p.Custom = []string{"parts", "kind", "plain", "raw", "rawu"}
			p.Inline["custom"] = 6
			p.Block["side"] = 0
			p.Charset = pick(c.R, []string{gen.Plain, gen.ASCII})
			text := c.I%4 == 2
			if text {
				p.Custom = []string{"parts", "kind"}
				p.Charset = gen.Markup
			}
			if c.I%9 == 0 {
				p.Styles = append(p.Styles, "no-such-template")
				p.Custom = append(p.Custom, "no-such-template")
			}
			b := gen.New(c.R, p).Book()
			var marks, empty map[string]bool
			if text {
				b.Text = pick(c.R, []string{"txt", "md", "html"})
				b.Templates, marks, empty = marked(c, textNames, true)
				for n, t := range ref.ExtraTextTemplates {
					b.Templates[n] = t
				}
				for _, n := range []string{"parts", "kind"} {
					b.Templates[n] = "<" + n + ">{{.Content | render}}</" + n + ">"
				}
				for _, n := range []string{"fancy", "nopage"} {
					b.Templates[n] = "SECTION {{.Style}} {{.Number}} {{.Title | render}}\n\n{{.Body | render}}\n\n{{if not .SplitSections}}{{range .Children}}\n{{. | render}}\n{{end}}{{end}}"
				}
				b.Templates["fancy-page"] = "PAGE {{.Style}}\n{{. | render}}END"
				if empty["inset"] {
				} else if marks["inset"] {
					b.Templates["inset"] = "[inset:<inset>{{.Content | render}}</inset>:inset]"
				} else {
					b.Templates["inset"] = "<inset>{{.Content | render}}</inset>"
				}
				b.TextRender = &ref.TextRender{Extra: true, Mark: marks, Empty: empty, Styled: map[string]bool{"parts": true, "kind": true, "fancy": true, "nopage": true, "inset": true}, StyledPage: map[string]bool{"fancy": true}}
			} else {
				b.Templates, marks, empty = marked(c, htmlNames, false)
				for n, t := range customTemplates {
					b.Templates[n] = t
				}
			}
			c.Input(b.String() + fmt.Sprintf("--- overridden: %q, by empty ones: %q\n", run.Keys(marks), run.Keys(empty)))
			c.Scratch()
			want := run.Model(b, customRender(marks, empty))
			if want.Skip {
				c.Trivial()
				return
			}
			got := run.Real(b)
			if d := run.Diff(b, got, want); d != "" {
				c.Fail("%s", d)
				return
			}
			if _, ok := want.Err.(ref.ErrTemplate); ok {
				c.Count("error: template")
			}
			c.Count("templates overridden", len(marks))
			c.Count("templates overridden by empty ones", len(empty))
			for _, page := range got.Pages {
				c.Count("marks on pages", strings.Count(page, "data-t=")+strings.Count(page, "]"))
				if text {
					c.Count("text pages compared")
				}
			}
			c.Key(b.String() + fmt.Sprint(run.Keys(marks), run.Keys(empty)))
			if len(marks)+len(empty) == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C23", Quick: 6000, Thorough: 50000,
		Rule: "a case is a book of words, markup, preformatted and nested content rendered as text with any file extension, with only the bundled templates or with some for links, lists, tables and styles; names and text of all files must be the model's up to blank lines (text is not escaped, sections are numbered, insets indented, URLs use the extension), and what has no template is an error; non-trivial if a page was compared",
		Need: []string{"text pages compared", "characters of text compared", "missing templates reported", "books of several pages"},
		Run: func(c *fw.Ctx) {
			p := gen.Everything()
			p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
			p.Split = 40
			extra := c.I%2 == 0
			if !extra {
				p.Inline = gen.Weights("text:10 escape spaces tab interp wrapped:1 target:1 comment aux:2 lazy:1")
				p.Block = gen.Weights("para:8 pre:2 toc comment lazy insetonly:3")
				p.Inline["target"] = 0
				p.Inline["wrapped"] = 0
				if c.I%10 == 1 {
					p.Inline["styled"], p.Block["list"] = 1, 1
				}
				if c.I%10 == 3 {
					p.Custom = []string{"parts", "no-such"}
					p.Inline["custom"] = 1
				}
			}
			b := gen.New(c.R, p).Book()
			b.Text = pick(c.R, []string{"txt", "md", "rst", "html", "x.y", "TXT", "é"})
			if extra {
				b.Templates = ref.ExtraTextTemplates
			}
			got, want, ok := differ(c, b)
			if !ok {
				return
			}
			if _, ok := want.Err.(ref.ErrTemplate); ok {
				c.Count("missing templates reported")
			}
			if want.Err != nil {
				c.Trivial()
				return
			}
			for n, t := range got.Pages {
				c.Count("text pages compared")
				c.Count("characters of text compared", len(t))
				if !strings.HasSuffix(n, "."+b.Text) {
					c.Fail("page %q does not have the extension %q", n, b.Text)
				}
			}
			if len(got.Pages) > 1 {
				c.Count("books of several pages")
			}
		},
	})
}

// exactCase compares all bytes of pages rendered with user templates only.
func exactCase(c *fw.Ctx) {
	text := c.R.Intn(2) == 0
	space := func() string {
		return pick(c.R, []string{"", "", " ", "  ", "\t", "\n", " \n ", "\n\n", "\r\n", "\u00a0", "\n\t", "x "})
	}
	pre, post := map[string]string{}, map[string]string{}
	files := map[string]string{}
	tmpl := func(n, body string) {
		pre[n], post[n] = space(), space()
		files[n] = pre[n] + body + post[n] + pick(c.R, []string{"", "\n", "\n\n"})
		post[n] = strings.TrimRight(post[n], "\n")
	}
	ask := func(names ...string) string {
		out := ""
		for _, n := range names {
			out += fmt.Sprintf(`{{with .Partial %q}}({{. | render}}){{else}}-{{end}}`, n)
		}
		return out
	}
	asked := []string{"A", "a", "B", "b", "C", "", "A ", "AB", "side-bar", "Side-Bar", "SideBar"}
	c.R.Shuffle(len(asked), func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
	answer := func(parts map[string]string) string {
		out := ""
		for _, n := range asked {
			if p, ok := parts[n]; ok {
				out += "(" + p + ")"
			} else {
				out += "-"
			}
		}
		return out
	}
	wrap := func(n, s string) string { return pre[n] + s + post[n] }
	tmpl("page", "{{. | render}}")
	tmpl("section", ask(asked...)+"[{{.Body | render}}]{{range .Children}}{{. | render}}{{end}}")
	tmpl("boxed", "boxed"+ask(asked...)+"[{{.Body | render}}]{{range .Children}}{{. | render}}{{end}}")
	tmpl("paragraph", "{{range $i, $l := .}}{{if $i}}|{{end}}{{$l | render}}{{end}}")
	tmpl("bold", "{{.Content | render}}")
	tmpl("ask", ask(asked...)+"{{.Content | render}}")
	files["sequence"] = "{{range .Contents}}{{. | render}}{{end}}"
	files["string"] = "{{.String}}"
	n := 0
	word := func() string { n++; return fmt.Sprintf("w%d", n) }
	var inline func(depth int) (string, string)
	inline = func(depth int) (string, string) {
		if depth > 0 {
			switch c.R.Intn(4) {
			case 0:
				src, out := inline(depth - 1)
				return "\\bold{" + src + "}", wrap("bold", out)
			case 1:
				src, out := inline(depth - 1)
				a, b := word(), word()
				switch c.R.Intn(4) {
				case 0:
					return "\\styled-parts{ask}{" + src + "}{" + a + "}{" + b + "}", wrap("ask", answer(map[string]string{"A": a, "B": b})+out)
				case 1:
					return "\\styled-parts{ask}{" + src + "}{\\bold{" + a + "}}{" + b + "}", wrap("ask", answer(map[string]string{"A": wrap("bold", a), "B": b})+out)
				}
				return "\\styled-as{ask}{" + src + "}", wrap("ask", answer(nil)+out)
			case 2:
				s1, o1 := inline(depth - 1)
				s2, o2 := inline(depth - 1)
				return s1 + " " + s2, o1 + " " + o2
			}
		}
		w := word()
		return w, w
	}
	para := func() (string, string) {
		src, out := "", ""
		for i := c.R.Intn(3); i >= 0; i-- {
			s, o := inline(2)
			if out != "" {
				src += "\n"
				out += "|"
			}
			src += s
			out += o
		}
		return src + "\n\n", wrap("paragraph", out)
	}
	var section func(level int) (string, string)
	section = func(level int) (string, string) {
		src, body, kids, name := "", "", "", "section"
		parts := map[string]string{}
		if c.R.Intn(3) == 0 {
			name = "boxed"
			src += "\\styled{boxed}\n\n"
		}
		for _, p := range []string{"A", "b", "Side-Bar", "C"} {
			if c.R.Intn(3) == 0 {
				w := word()
				src += "\\set-partial{" + p + "}{" + w + "}\n\n"
				parts[p] = w
			}
		}
		for i := c.R.Intn(3); i >= 0; i-- {
			s, o := para()
			src += s
			body += o
			if level > 0 && c.R.Intn(2) == 0 {
				s, o := section(level - 1)
				src += "\\section{\n\\title{" + word() + "}{" + word() + "}\n\n\\use-plugin{probe}\n\n" + s + "}\n\n"
				kids += o
			}
		}
		first := ""
		if name == "boxed" {
			first = "boxed"
		}
		return src, wrap(name, first+answer(parts)+"["+body+"]"+kids)
	}
	dir := dirName(c, "tmpl")
	src, want := section(2)
	src = "\\title{T}{index}\n\n\\use-plugin{probe}\n\n" + src
	want = wrap("page", want)
	story := "--- index.lit\n" + src
	for _, n := range run.Keys(files) {
		mustWrite(dir+"/"+n+".tmpl", files[n])
		story += fmt.Sprintf("--- tmpl/%s.tmpl\n%q\n", n, files[n])
	}
	c.Input(story + fmt.Sprintf("--- text: %v\n", text))
	c.Key(story)
	mustWrite("index.lit", src)
	sec, err := (&load.Processor{}).LoadFile("index.lit", run.Factories)
	if err != nil {
		c.Fail("%s", err)
		return
	}
	var buf bytes.Buffer
	if text {
		e := render.NewTextEngine("txt")
		if err = e.LoadTemplates(dir); err == nil {
			err = e.RenderSection(&buf, sec)
		}
	} else {
		e := render.NewHTMLEngine()
		if err = e.LoadTemplates(dir); err == nil {
			err = e.RenderSection(&buf, sec)
		}
	}
	if err != nil || buf.String() != want {
		c.Fail("the page rendered with the templates is\n%q %v\nwant\n%q", buf.String(), err, want)
		return
	}
	c.Count("pages compared to the byte")
}

// reloadCase edits a directory of templates while an engine keeps loading it.
func reloadCase(c *fw.Ctx) {
	p := gen.Everything()
	p.Plugins, p.Faults = 50, 0
	p.Levels, p.Blocks = 1, 3
	b := gen.New(c.R, p).Book()
	c.Input(b.String())
	if !gate(c, b) {
		c.Trivial()
		return
	}
	if err := run.WriteFiles(b.Files); err != nil {
		fw.Bail("%s", err)
	}
	sec, err := (&load.Processor{}).LoadFile(b.Root, run.Factories)
	if err != nil {
		// as the model said
		c.Trivial()
		return
	}
	text := c.R.Intn(3) == 0
	type engine interface {
		render.Engine
		LoadTemplates(string) error
	}
	fresh := func() engine {
		if text {
			return render.NewTextEngine("txt")
		}
		return render.NewHTMLEngine()
	}
	names := htmlNames
	base := map[string]string{}
	if text {
		names = textNames
		base = ref.ExtraTextTemplates
	}
	names = append(append([]string{}, names...), "unused")
	often := []string{"string", "section", pick(c.R, names)}
	dir := dirName(c, "tmpl")
	_ = os.MkdirAll(dir, 0755)
	k := newClock(c)
	write := func(n, src string) { k.write(dir+"/"+n+".tmpl", src) }
	for n, t := range base {
		write(n, t)
	}
	old := fresh()
	story := ""
	asset := func(n string) string { return bundled(n, text) }
	mine, broken := map[string]bool{}, map[string]bool{}
	for step := 0; step < 7; step++ {
		for k := c.R.Intn(3); k >= 0; k-- {
			n := names[c.R.Intn(len(names))]
			if c.R.Intn(2) == 0 {
				n = often[c.R.Intn(len(often))]
			}
			switch c.R.Intn(7) {
			case 0:
				if base[n] == "" && mine[n] {
					_ = os.Remove(dir + "/" + n + ".tmpl")
					delete(mine, n)
					delete(broken, n)
					story += "remove " + n + "; "
				}
			case 1:
				write(n, pick(c.R, []string{"{{", "{{.Foo", "{{nofunc}}", "{{if}}", "{{end}}"}))
				mine[n], broken[n] = true, true
				story += "break " + n + "; "
			case 3:
				write(n, pick(c.R, empties))
				mine[n] = true
				delete(broken, n)
				story += "empty " + n + "; "
			case 2:
				write("new"+fmt.Sprint(step), "x")
				story += "add; "
				if n := dir + "/unreadable.tmpl"; c.R.Intn(4) == 0 {
					// until it is mended
					if c.R.Intn(2) == 0 {
						_ = os.Mkdir(n, 0755)
					} else {
						_ = os.Symlink("nowhere", n)
					}
					broken["unreadable"] = true
					story += "unreadable; "
				}
			default:
				write(n, fmt.Sprintf("v%d%s", step, asset(n)))
				mine[n] = true
				delete(broken, n)
				story += fmt.Sprintf("write %s v%d; ", n, step)
			}
		}
		if c.R.Intn(4) == 0 {
			continue
		}
		f := fresh()
		e1, e2 := f.LoadTemplates(dir), old.LoadTemplates(dir)
		story += "load; "
		if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
			c.Fail("loading the templates says %v, for a fresh engine it says %v\nafter: %s", e2, e1, story)
			return
		}
		if named := e1 != nil; named || len(broken) > 0 {
			named = false
			for n := range broken {
				named = named || e1 != nil && strings.Contains(e1.Error(), n)
			}
			if !named {
				c.Fail("loading the templates says %v, of which %q are broken\nafter: %s", e1, run.Keys(broken), story)
				return
			}
		}
		if e1 != nil {
			c.Count("broken templates reported")
			// mend it now and then
			if c.R.Intn(2) == 0 {
				broken = map[string]bool{}
				_ = os.Remove(dir + "/unreadable.tmpl")
				for _, n := range run.Keys(mine) {
					write(n, "mended"+asset(n))
					story += "mend " + n + "; "
				}
			}
			continue
		}
		var walk func(s *booklit.Section) bool
		walk = func(s *booklit.Section) bool {
			var a, z bytes.Buffer
			e1, e2 := f.RenderSection(&a, s), old.RenderSection(&z, s)
			if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() || a.String() != z.String() {
				c.Fail("rendering says %v, for a fresh engine %v, and the page is\n%q\nfor a fresh engine\n%q\nafter: %s", e2, e1, z.String(), a.String(), story)
				return false
			}
			c.Count("reloads compared")
			for _, k := range s.Children {
				if !walk(k) {
					return false
				}
			}
			return true
		}
		if !walk(sec) {
			return
		}
	}
	c.Key(story)
}
