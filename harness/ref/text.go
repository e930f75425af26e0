package ref

import (
	"fmt"
	"strings"
)

// TextRender renders sections with the default text templates, plus the given
// ones for styles etc. which have no default.
type TextRender struct {
	Ext string
	// Extra says that the monitors' full set of text templates is loaded.
	Extra bool
	// Mark are the names of templates whose output is marked.
	Mark map[string]bool
	// Empty are the names of templates which are overridden by empty ones.
	Empty map[string]bool
	// Styled are the styles which have a template, see StyleTemplate, and
	// StyledPage those of pages.
	Styled, StyledPage map[string]bool
}

// Blocks of the default templates are compared up to blank space, so the
// renderer only puts single separators.

// Page renders a page.
func (r *TextRender) Page(s *Sec) (string, error) {
	if r.Empty["page"] && !(s.Style != "" && r.StyledPage[s.Style]) {
		return "", nil
	}
	sec, err := r.Sec(s)
	if s.Style != "" && r.StyledPage[s.Style] {
		return "PAGE " + s.Style + "\n" + sec + "END", err
	}
	return r.mark("page", Text(s.Title)+"\n\n"+sec), err
}

// Sec renders a section.
func (r *TextRender) Sec(s *Sec) (string, error) {
	if s.Style != "" && r.Styled[s.Style] {
		title, err := r.Text(s.Title)
		if err != nil {
			return "", err
		}
		body, err := r.Text(s.Body)
		if err != nil {
			return "", err
		}
		out := "SECTION " + s.Style + " " + s.Number() + " " + title + "\n\n" + body + "\n\n"
		if !s.Split {
			for _, c := range s.Children {
				sub, err := r.Sec(c)
				if err != nil {
					return "", err
				}
				out += "\n" + sub + "\n"
			}
		}
		return out, nil
	}
	if s.Style != "" && s.Style != "section" {
		return "", ErrTemplate{s.Style}
	}
	if r.Empty["section"] {
		return "", nil
	}
	title, err := r.Text(s.Title)
	if err != nil {
		return "", err
	}
	if s.Parent != nil {
		title = s.Number() + " " + title
	}
	body, err := r.Text(s.Body)
	if err != nil {
		return "", err
	}
	out := title + "\n\n" + body + "\n\n"
	if !s.Split {
		for _, c := range s.Children {
			sub, err := r.Sec(c)
			if err != nil {
				return "", err
			}
			out += "\n" + sub + "\n"
		}
	}
	return r.mark("section", out), nil
}

func (r *TextRender) mark(name, out string) string {
	if !r.Mark[name] || name == "string" {
		return out
	}
	open, closing := TextMarks(name)
	return open + out + closing
}

// TextMarks are put around the output of marked templates.
func TextMarks(name string) (string, string) {
	switch name {
	case "page", "section", "toc", "paragraph":
		return "\n\n[" + name + ":\n\n", "\n\n:" + name + "]\n\n."
	}
	return "[" + name + ":", ":" + name + "]"
}

func (r *TextRender) each(cs []C, sep string) (string, error) {
	out := ""
	for i, c := range cs {
		if i > 0 {
			out += sep
		}
		s, err := r.Text(c)
		if err != nil {
			return "", err
		}
		out += s
	}
	return out, nil
}

// Text renders content.
func (r *TextRender) Text(c C) (string, error) {
	if r.Empty[TemplateOf(c)] {
		return "", nil
	}
	out, err := r.text(c)
	if err != nil {
		return "", err
	}
	return r.mark(TemplateOf(c), out), nil
}

func (r *TextRender) text(c C) (string, error) {
	switch c := c.(type) {
	case Str:
		if r.Mark["string"] {
			return fmt.Sprintf("%x", string(c)), nil
		}
		return string(c), nil
	case Seq:
		return r.each(c, "")
	case Para:
		s, err := r.each(c, " ")
		return s + "\n\n", err
	case Pre:
		return r.each(c, "\n")
	case Aux:
		return r.Text(c.Content)
	case Styled:
		if c.Style != "inset" && !(r.Extra && (ExtraTextTemplates[c.Style] != "" || r.Styled[c.Style])) {
			return "", ErrTemplate{c.Style}
		}
		in, err := r.Text(c.Content)
		if err != nil {
			return "", err
		}
		if c.Style == "inset" && !r.Styled["inset"] {
			return "    " + strings.Join(strings.Split(in, "\n"), "\n    "), nil
		}
		return "<" + c.Style + ">" + in + "</" + c.Style + ">", nil
	case TOC:
		return r.toc(c.Sec)
	case *Lazy:
		in, err := c.Fn()
		if err != nil {
			return "", err
		}
		return r.Text(in)
	}
	if !r.Extra {
		return "", ErrTemplate{TemplateOf(c)}
	}
	switch c := c.(type) {
	case Link:
		in, err := r.Text(c.Content)
		return "[" + in + "](" + c.Target + ")", err
	case *Ref:
		c.enter()
		defer c.leave()
		tag, err := c.resolve()
		if err != nil {
			return "", err
		}
		if tag == nil {
			return r.Text(Strip(c.Content))
		}
		display := c.Content
		if display == nil {
			display = tag.Title
		}
		in, err := r.Text(Strip(display))
		page, frag := tag.Sec.URL(r.Ext, tag.Anchor)
		hpage, hfrag := tag.Sec.URL("html", tag.Anchor)
		return "[" + in + "]<" + PageURL(page, frag) + "|" + PageURL(hpage, hfrag) + ">", err
	case Target:
		return "{#" + c.Tag + "}", nil
	case Image:
		return "![" + c.Desc + "](" + c.Path + ")", nil
	case List:
		mark := "*"
		if c.Ordered {
			mark = "#"
		}
		out := "("
		for _, i := range c.Items {
			in, err := r.Text(i)
			if err != nil {
				return "", err
			}
			out += mark + in + ";"
		}
		return out + ")", nil
	case Table:
		out := "("
		for _, row := range c.Rows {
			out += "row"
			for _, i := range row {
				in, err := r.Text(i)
				if err != nil {
					return "", err
				}
				out += "|" + in
			}
			out += ";"
		}
		return out + ")", nil
	case Defs:
		out := "("
		for _, d := range c {
			for i, x := range d {
				in, err := r.Text(x)
				if err != nil {
					return "", err
				}
				if i == 1 {
					out += "="
				}
				out += in
			}
			out += ";"
		}
		return out + ")", nil
	}
	return "", fmt.Errorf("cannot render %T", c)
}

func (r *TextRender) toc(s *Sec) (string, error) {
	if r.Empty["toc"] {
		return "", nil
	}
	if len(s.Children) == 0 || s.Omit {
		return r.mark("toc", ""), nil
	}
	out := "\n"
	for _, c := range s.Children {
		title, err := r.Text(Strip(c.Title))
		if err != nil {
			return "", err
		}
		sub, err := r.toc(c)
		if err != nil {
			return "", err
		}
		out += "\n" + c.Number() + " " + title + "\n\n" + sub + "\n"
	}
	return r.mark("toc", out+"\n"), nil
}

// ExtraTextTemplates are the templates modelled by Extra.
var ExtraTextTemplates = func() map[string]string {
	out := map[string]string{
		"link":        `[{{.Content | render}}]({{.Target}})`,
		"reference":   `{{if .Tag}}[{{.Display | stripAux | render}}]<{{.Tag | url}}|{{.Tag | htmlURL}}>{{else}}{{.Content | stripAux | render}}{{end}}`,
		"target":      `{#{{.TagName}}}`,
		"image":       `![{{.Description}}]({{.Path}})`,
		"list":        `({{$o := .Ordered}}{{range .Items}}{{if $o}}#{{else}}*{{end}}{{. | render}};{{end}})`,
		"table":       `({{range .Rows}}row{{range .}}|{{. | render}}{{end}};{{end}})`,
		"definitions": `({{range .}}{{.Subject | render}}={{.Definition | render}};{{end}})`,
	}
	for _, s := range []string{"verbatim", "italic", "bold", "larger", "smaller", "strike", "superscript", "subscript", "aside"} {
		out[s] = "<" + s + ">{{.Content | render}}</" + s + ">"
	}
	return out
}()
