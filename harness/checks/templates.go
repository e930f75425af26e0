package checks

import (
	"strings"

	"verif/ref"
)

// SectionTemplates show the style and partials of each section.
var SectionTemplates = map[string]string{
	"fancy":      `<div class="fancy"><a id="{{.PrimaryTag.Name}}"></a><h2>{{.Title | render}}</h2>{{with .Partial "A"}}<b class="pa">{{. | render}}</b>{{end}}{{with .Partial "B"}}<b class="pb">{{. | render}}</b>{{end}}{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</div>`,
	"boxed":      `<div class="boxed"><a id="{{.PrimaryTag.Name}}"></a>{{.Title | render}}{{with .Partial "Side-Bar"}}<b class="ps">{{. | render}}</b>{{end}}{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</div>`,
	"boxed-page": `<html><head></head><body class="boxed-page" data-style="{{.Style}}">{{. | render}}</body></html>`,
	"section":    `<div class="plain"><a id="{{.PrimaryTag.Name}}"></a><h3>{{.Title | render}}</h3>{{with .Partial "A"}}<b class="pa">{{. | render}}</b>{{end}}{{with .Partial "B"}}<b class="pb">{{. | render}}</b>{{end}}{{with .Partial "Side-Bar"}}<b class="ps">{{. | render}}</b>{{end}}{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}</div>`,
}

// sectionRender models SectionTemplates.
func sectionRender() *ref.Render {
	partials := func(r *ref.Render, s *ref.Sec, names map[string]string) (string, error) {
		out := ""
		for _, n := range []string{"A", "B", "Side-Bar"} {
			cls, ok := names[n]
			p, has := s.Partials[n]
			if !ok || !has || ref.FalsyContent(p) {
				continue
			}
			in, err := r.HTML(p)
			if err != nil {
				return "", err
			}
			out += `<b class="` + cls + `">` + in + `</b>`
		}
		return out, nil
	}
	sec := func(pre, t1, t2 string, names map[string]string) func(r *ref.Render, s *ref.Sec) (string, error) {
		return func(r *ref.Render, s *ref.Sec) (string, error) {
			title, err := r.HTML(s.Title)
			if err != nil {
				return "", err
			}
			ps, err := partials(r, s, names)
			if err != nil {
				return "", err
			}
			body, err := r.HTML(s.Body)
			if err != nil {
				return "", err
			}
			out := pre + `<a id="` + ref.Esc(s.Primary.Name) + `"></a>` + t1 + title + t2 + ps + body
			if !s.Split {
				for _, ch := range s.Children {
					in, err := r.SecHTML(ch)
					if err != nil {
						return "", err
					}
					out += in
				}
			}
			return out + "</div>", nil
		}
	}
	all := map[string]string{"A": "pa", "B": "pb", "Side-Bar": "ps"}
	return &ref.Render{
		Ext: "html",
		SecStyle: map[string]func(r *ref.Render, s *ref.Sec) (string, error){
			"fancy": sec(`<div class="fancy">`, "<h2>", "</h2>", map[string]string{"A": "pa", "B": "pb"}),
			"boxed": sec(`<div class="boxed">`, "", "", map[string]string{"Side-Bar": "ps"}),
			"":      sec(`<div class="plain">`, "<h3>", "</h3>", all),
		},
		PageStyle: map[string]func(r *ref.Render, s *ref.Sec) (string, error){
			"boxed": func(r *ref.Render, s *ref.Sec) (string, error) {
				in, err := r.SecHTML(s)
				return `<html><head></head><body class="boxed-page" data-style="boxed">` + strings.TrimSpace(in) + `</body></html>`, err
			},
		},
	}
}
