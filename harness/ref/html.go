package ref

import (
	"bytes"
	"fmt"
	"html"
	"html/template"
	"strings"
)

// Templates of the default HTML output which are overridden or added.
// Overrides are functions so that the monitors' own templates can be modelled.
type Render struct {
	Ext string
	// Mark are the names of templates whose output is marked.
	Mark map[string]bool
	// Empty are the names of templates which are overridden by empty ones.
	Empty map[string]bool
	// Style renders content with a style which is not built in.
	Style map[string]func(r *Render, c Styled) (string, error)
	// SecStyle renders a section with a style.
	SecStyle map[string]func(r *Render, s *Sec) (string, error)
	// PageStyle renders a page of a section with a style ("" for page.tmpl).
	PageStyle map[string]func(r *Render, s *Sec) (string, error)
}

// ErrTemplate is a missing template.
type ErrTemplate struct{ Name string }

func (e ErrTemplate) Error() string { return "template '" + e.Name + ".tmpl' not found" }

// Esc escapes text.
func Esc(s string) string {
	return html.EscapeString(strings.ReplaceAll(s, "\x00", "\uFFFD"))
}

var hrefTmpl = template.Must(template.New("").Parse(`<a href="{{.}}"></a>`))
var srcTmpl = template.Must(template.New("").Parse(`<img src="{{.}}"/>`))

// Href is a URL as an attribute value, with unsafe ones neutralised.
func Href(s string) string {
	var b bytes.Buffer
	_ = hrefTmpl.Execute(&b, s)
	return strings.TrimSuffix(strings.TrimPrefix(b.String(), `<a href="`), `"></a>`)
}

func src(s string) string {
	var b bytes.Buffer
	_ = srcTmpl.Execute(&b, s)
	return strings.TrimSuffix(strings.TrimPrefix(b.String(), `<img src="`), `"/>`)
}

// PageHTML renders the page of a section.
func (r *Render) PageHTML(s *Sec) (string, error) {
	if s.Style != "" {
		if f, ok := r.PageStyle[s.Style]; ok {
			return f(r, s)
		}
	}
	if f, ok := r.PageStyle[""]; ok {
		return f(r, s)
	}
	if r.Empty["page"] {
		return "", nil
	}
	head := `<!DOCTYPE html><html><head><meta http-equiv="content-type" content="text/html; charset=utf-8" /><title>` +
		Esc(Text(s.Title)) + `</title></head><body>`
	body, err := r.SecHTML(s)
	if err != nil {
		return "", err
	}
	return r.mark("page", head+body+"</body></html>"), nil
}

// SecHTML renders a section.
func (r *Render) SecHTML(s *Sec) (string, error) {
	if s.Style != "" && s.Style != "section" {
		if f, ok := r.SecStyle[s.Style]; ok {
			return f(r, s)
		}
		return "", ErrTemplate{s.Style}
	}
	if f, ok := r.SecStyle[""]; ok {
		return f(r, s)
	}
	if r.Empty["section"] {
		return "", nil
	}
	depth := s.PageDepth() + 1
	if depth > 6 {
		depth = 6
	}
	title, err := r.HTML(s.Title)
	if err != nil {
		return "", err
	}
	num := ""
	if s.Parent != nil {
		num = `<span class="section-number">` + s.Number() + ` </span>`
	}
	out := fmt.Sprintf(`<h%d class="section-header"><a id="%s"></a>%s%s</h%d>`, depth, Esc(s.Primary.Name), num, title, depth)
	body, err := r.HTML(s.Body)
	if err != nil {
		return "", err
	}
	out += "\n" + body + "\n"
	if !s.Split {
		for _, c := range s.Children {
			sub, err := r.SecHTML(c)
			if err != nil {
				return "", err
			}
			out += "\n" + sub + "\n"
		}
	}
	return r.mark("section", out), nil
}

// FalsyContent says whether a template takes the content for nothing.
func FalsyContent(c C) bool {
	switch c := c.(type) {
	case Str:
		return c == ""
	case Seq:
		return len(c) == 0
	case Para:
		return len(c) == 0
	case Pre:
		return len(c) == 0
	case Defs:
		return len(c) == 0
	}
	return c == nil
}

func (r *Render) wrap(pre string, c C, post string) (string, error) {
	in, err := r.HTML(c)
	return pre + in + post, err
}

func (r *Render) each(cs []C, sep, pre, post string) (string, error) {
	var b strings.Builder
	for i, c := range cs {
		if i > 0 {
			b.WriteString(sep)
		}
		s, err := r.HTML(c)
		if err != nil {
			return "", err
		}
		b.WriteString(pre + s + post)
	}
	return b.String(), nil
}

var styles = map[string][2]string{
	"italic":      {"<em>", "</em>"},
	"bold":        {"<strong>", "</strong>"},
	"larger":      {`<span style="font-size: 120%">`, "</span>"},
	"smaller":     {`<span style="font-size: 80%">`, "</span>"},
	"strike":      {`<span style="text-decoration: line-through">`, "</span>"},
	"superscript": {"<sup>", "</sup>"},
	"subscript":   {"<sub>", "</sub>"},
	"inset":       {`<div style="margin: 0 2em 1em" class="inset">`, "</div>"},
	"aside":       {`<blockquote class="aside">`, "</blockquote>"},
}

// PageURL is the URL of a tag, as an attribute value would hold it.
func PageURL(page, frag string) string {
	u := urlEscape(page, "-_.~")
	if frag != "" {
		u += "#" + urlEscape(frag, "-_.~")
	}
	return u
}

// HTML renders content with the default templates.
func (r *Render) HTML(c C) (string, error) {
	if r.Empty[TemplateOf(c)] {
		return "", nil
	}
	out, err := r.html(c)
	if err != nil {
		return "", err
	}
	return r.mark(TemplateOf(c), out), nil
}

// Opening and Closing are put around the output of marked templates.
func Opening(name string) string {
	return fmt.Sprintf("<%s data-t=\"%s\">", marking(name), name)
}

// Closing is the other.
func Closing(name string) string { return "</" + marking(name) + ">" }

func marking(name string) string {
	switch name {
	case "page", "section", "toc", "list", "table", "definitions":
		return "div"
	}
	return "span"
}

func (r *Render) mark(name, out string) string {
	if !r.Mark[name] || name == "string" {
		return out
	}
	return Opening(name) + out + Closing(name)
}

// TemplateOf is the name of the template of some content.
func TemplateOf(c C) string {
	switch c := c.(type) {
	case Str:
		return "string"
	case Seq:
		return "sequence"
	case Para:
		return "paragraph"
	case Pre:
		return "preformatted"
	case Styled:
		return c.Style
	case Link:
		return "link"
	case *Ref:
		return "reference"
	case Target:
		return "target"
	case Image:
		return "image"
	case List:
		return "list"
	case Table:
		return "table"
	case Defs:
		return "definitions"
	}
	return ""
}

func (r *Render) html(c C) (string, error) {
	switch c := c.(type) {
	case Str:
		if r.Mark["string"] {
			return fmt.Sprintf("%x", string(c)), nil
		}
		return Esc(string(c)), nil
	case Seq:
		return r.each(c, "", "", "")
	case Para:
		in, err := r.each(c, " ", "", "")
		return "<p>" + in + "</p>", err
	case Pre:
		return r.each(c, "\n", "", "")
	case Aux:
		return r.HTML(c.Content)
	case Styled:
		if f, ok := r.Style[c.Style]; ok {
			return f(r, c)
		}
		if c.Style == "verbatim" {
			if IsFlow(c) {
				return r.wrap("<code>", c.Content, "</code>")
			}
			return r.wrap("<pre>", c.Content, "</pre>")
		}
		if c.Style == "raw-html" {
			return Text(c), nil
		}
		w, ok := styles[c.Style]
		if !ok {
			return "", ErrTemplate{c.Style}
		}
		return r.wrap(w[0], c.Content, w[1])
	case Link:
		return r.wrap(`<a href="`+Href(c.Target)+`">`, c.Content, "</a>")
	case *Ref:
		c.enter()
		defer c.leave()
		tag, err := c.resolve()
		if err != nil {
			return "", err
		}
		if tag == nil {
			return r.HTML(Strip(c.Content))
		}
		display := c.Content
		if display == nil {
			display = tag.Title
		}
		page, frag := tag.Sec.URL(r.Ext, tag.Anchor)
		return r.wrap(`<a href="`+PageURL(page, frag)+`">`, Strip(display), "</a>")
	case Target:
		return `<a id="` + Esc(c.Tag) + `"></a>`, nil
	case Image:
		return `<img src="` + src(c.Path) + `" alt="` + Esc(c.Desc) + `" />`, nil
	case List:
		tag := "ul"
		if c.Ordered {
			tag = "ol"
		}
		in, err := r.each(c.Items, "", "<li>", "</li>")
		return "<" + tag + ">" + in + "</" + tag + ">", err
	case Table:
		out := "<table>"
		for _, row := range c.Rows {
			in, err := r.each(row, "", "<td>", "</td>")
			if err != nil {
				return "", err
			}
			out += "<tr>" + in + "</tr>"
		}
		return out + "</table>", nil
	case Defs:
		out := "<dl>"
		for _, d := range c {
			dt, err := r.wrap("<dt>", d[0], "</dt>")
			if err != nil {
				return "", err
			}
			dd, err := r.wrap("<dd>", d[1], "</dd>")
			if err != nil {
				return "", err
			}
			out += dt + dd
		}
		return out + "</dl>", nil
	case TOC:
		return r.toc(c.Sec)
	case *Lazy:
		in, err := c.Fn()
		if err != nil {
			return "", err
		}
		return r.HTML(in)
	}
	return "", fmt.Errorf("cannot render %T", c)
}

func (r *Render) toc(s *Sec) (string, error) {
	if r.Empty["toc"] {
		return "", nil
	}
	if len(s.Children) == 0 || s.Omit {
		return r.mark("toc", ""), nil
	}
	out := "<nav><ul>"
	for _, c := range s.Children {
		if c.Primary.Sec == nil {
			panic(Untitled{})
		}
		title, err := r.HTML(Strip(c.Title))
		if err != nil {
			return "", err
		}
		sub, err := r.toc(c)
		if err != nil {
			return "", err
		}
		page, frag := c.URL(r.Ext, "")
		out += `<li><a href="` + PageURL(page, frag) + `">` + c.Number() + " " + title + `</a>` + sub + "</li>"
	}
	return r.mark("toc", out+"</ul></nav>"), nil
}
