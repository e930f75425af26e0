package checks

import (
	"fmt"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"github.com/vito/booklit"
	"golang.org/x/net/html"

	"verif/cmp"
	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// page is what a browser makes of a page.
type page struct {
	ids   map[string]int
	hrefs []link
	texts map[string][]string // text by element
}

type link struct {
	href, text string
	nav        bool
}

func parsePage(src string) page {
	p := page{ids: map[string]int{}, texts: map[string][]string{}}
	doc, err := html.Parse(strings.NewReader(src))
	if err != nil {
		fw.Bail("parsing a page: %s", err)
	}
	var text func(n *html.Node) string
	text = func(n *html.Node) string {
		if n.Type == html.TextNode {
			return n.Data
		}
		out := ""
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			out += text(k)
		}
		return out
	}
	var walk func(n *html.Node, nav bool)
	walk = func(n *html.Node, nav bool) {
		if n.Type == html.ElementNode {
			nav = nav || n.Data == "nav"
			p.texts[n.Data] = append(p.texts[n.Data], text(n))
			for _, a := range n.Attr {
				switch {
				case a.Key == "id":
					p.ids[a.Val]++
				case a.Key == "href" && n.Data == "a":
					p.hrefs = append(p.hrefs, link{a.Val, text(n), nav})
				}
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k, nav)
		}
	}
	walk(doc, false)
	return p
}

// resolves checks that a link on a page leads to an existing anchor, and
// returns where.
func resolves(pages map[string]page, from, href string) (string, string, string) {
	base, _ := url.Parse("http://book.example/dir/" + url.PathEscape(from))
	u, err := base.Parse(href)
	if err != nil {
		return "", "", fmt.Sprintf("link %q on %s is malformed: %s", href, from, err)
	}
	if u.Host != "book.example" || !strings.HasPrefix(u.Path, "/dir/") || u.RawQuery != "" || u.ForceQuery {
		return "", "", fmt.Sprintf("link %q on %s leads out of the book, to %s", href, from, u)
	}
	name := strings.TrimPrefix(u.Path, "/dir/")
	p, ok := pages[name]
	if !ok {
		return "", "", fmt.Sprintf("link %q on %s leads to a page %q which was not written (%q)", href, from, name, run.Keys(pages))
	}
	if u.Fragment != "" && p.ids[u.Fragment] == 0 {
		return "", "", fmt.Sprintf("link %q on %s leads to an anchor %q which is not on page %s (%q)", href, from, u.Fragment, name, run.Keys(p.ids))
	}
	return name, u.Fragment, ""
}

// shaped makes some trees deep or wide.
func shaped(c *fw.Ctx, p *gen.Profile) {
	switch c.I % 14 {
	case 2:
		p.Sections, p.Levels, p.Full, p.Wide, p.Blocks = 1, 2+c.R.Intn(2), true, true, 1
		c.Count("wide trees")
	case 6:
		p.Sections, p.Levels, p.Full = 1, 11, true
		c.Count("deep trees")
	case 10:
		p.Sections, p.Levels, p.Full = 13, 1, true
		c.Count("wide trees")
	}
}

func treeProfile() gen.Profile {
	return gen.Profile{
		Inline: gen.Weights("text:4 ref:4 refas:3 target:2 target2:2 target3 styled:2 aux interp"),
		Block:  gen.Weights("para:6 list inset targetline table pre:1 side"),
		Blocks: 3, Lines: 2, Words: 2, Depth: 3, Sections: 3, Levels: 3, Includes: 30,
		Split: 30, Single: 8, Omit: 15, TOC: 40, Charset: gen.ASCII, RichTitles: 20, ExtraTags: 30,
	}
}

func init() {
	add(&fw.Check{
		ID: "C08", Quick: 3500, Thorough: 60000,
		Rule: "a case is a book whose titles use every kind of content and characters, with no, one or several tags, or none at all, or twice; headings, page names, anchors, which tag is the default, and the error for a second title must be the model's; references to the default tags lead to the sections",
		Need: []string{"default tags referenced", "error: title-twice", "pages compared"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:6 styled:3 aux:2 interp escape spaces verb comment wrapped refas link image target2")
			p.Block = gen.Weights("para:6 list")
			p.Blocks, p.Levels = 2, 2
			p.RichTitles, p.DefaultTags, p.NoTitle, p.TOC = 60, 50, 5, 0
			p.TitleBits, p.DefaultRefs = 60, 60
			p.Charset = pick(c.R, []string{gen.ASCII + " & & ", gen.Markup, gen.Unicode + "AB-_ ", gen.ASCII})
			if c.I%4 == 0 {
				p.Block["fault"] = 1
			}
			g := gen.New(c.R, p)
			b := g.Book()
			b.Index = true
			if _, want, ok := differ(c, b); ok {
				seen(c, g)
				if want.Err == nil {
					c.Count("default tags referenced", want.World.Stats["references"])
				}
			}
		},
	})

	add(&fw.Check{
		ID: "C09", Quick: 1400, Thorough: 50000,
		Rule: "a case is a book of references from and to everywhere (up, down, across and into included files, to sections, extra tags and targets in all kinds of content, with duplicates and misspellings, optional or not, broken ones allowed or not); each must lead to its only tag, or be the error with the locations or similar tags which the model gives; non-trivial with a reference",
		Need: []string{"references", "targets", "error: ambiguous", "error: unknown-tag", "broken-allowed", "errors with suggestions"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:4 ref:6 refas:4 target:3 target2:3 target3:2 styled:2 link optref:3 lazy interp")
			p.Block = gen.Weights("para:6 list:2 inset targetline:2 table:2 tableblock defs:2 pre styledblock echoblock")
			p.Plugins, p.Partials = 50, 30
			p.TagParts = c.I%3 > 0
			p.Custom, p.Inline["custom"] = []string{"bold", "inset"}, 1
			if c.I%2 == 0 {
				p.Dup = 4
			}
			if c.I%3 == 0 {
				p.Faults, p.NearTags = 4, 70
			}
			if c.I%4 == 1 {
				// sections of the same name, none of which is referred to
				p.SameTitles, p.Split = 40, 0
			}
			g := gen.New(c.R, p)
			b := g.Book()
			b.AllowBroken = c.I%5 == 0
			_, want, ok := differ(c, b)
			if !ok {
				return
			}
			if e, isErr := want.Err.(*ref.Err); isErr && len(e.Simil) > 0 {
				c.Count("errors with suggestions")
			}
			if want.Err == nil && want.World.Stats["references"] == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C10", Quick: 1600, Thorough: 25000,
		Rule: "a case is a book of several pages whose tags are made of any characters but slashes (spaces, #, %, ?, quotes, colons, dots, non-ASCII); every link of references and tables of contents on every page, and every location in the search index, is resolved like a browser would: it must lead to a page which was written and an anchor which is on it, and the one it names; non-trivial with a link to a tag with special characters",
		Need: []string{"links resolved", "links to other pages", "links with special characters", "index locations resolved", "links of the project's documentation resolved"},
		Run: func(c *fw.Ctx) {
			if c.I == 0 {
				docsLinks(c)
				return
			}
			p := treeProfile()
			p.OddTags = true
			p.RichTitles = 0
			p.Split = 60
			p.Inline = gen.Weights("text:4 marked:8 ref:2 target:3 target2 styled")
			g := gen.New(c.R, p)
			b := g.Book()
			b.Index = true
			c.Input(b.String())
			want := run.Model(b, run.HTMLRender())
			if want.Skip || want.Err != nil {
				c.Trivial()
				return
			}
			got := build(c, b)
			if got.Err != nil || got.Panic != "" {
				c.Fail("does not build: %v %s", got.Err, got.Panic)
				return
			}
			pages := map[string]page{}
			for n, src := range got.Pages {
				pages[n] = parsePage(src)
				for id, k := range pages[n].ids {
					if k > 1 {
						c.Fail("page %s has %d anchors %q", n, k, id)
						return
					}
				}
			}
			odd := 0
			for _, n := range run.Keys(got.Pages) {
				for _, l := range pages[n].hrefs {
					name, frag, bad := resolves(pages, n, l.href)
					if bad != "" {
						c.Fail("%s", bad)
						return
					}
					c.Count("links resolved")
					if name != n {
						c.Count("links to other pages")
					}
					if i := strings.Index(l.text, "LINK"); i >= 0 {
						// the text says which tag it should lead to
						var k int
						_, _ = fmt.Sscanf(l.text[i:], "LINK%d", &k)
						tag := g.Marked[k]
						sec, anchor := findTag(want.Sec, tag)
						wantPage, wantFrag := sec.URL("html", anchor)
						if name != wantPage || frag != wantFrag {
							c.Fail("the link %q to tag %q leads to %q#%q, which is at %q#%q", l.href, tag, name, frag, wantPage, wantFrag)
							return
						}
						if regexp.MustCompile(`[^a-z0-9]`).MatchString(tag) {
							c.Count("links with special characters")
							odd++
						}
					}
				}
			}
			for tag, d := range got.Index {
				name, frag, bad := resolves(pages, "index.html", d.Location)
				if bad != "" {
					c.Fail("search index of %q: %s", tag, bad)
					return
				}
				sec, anchor := findTag(want.Sec, tag)
				if sec == nil {
					c.Fail("search index has %q, which is no tag", tag)
					return
				}
				if p, f := sec.URL("html", anchor); p != name || f != frag {
					c.Fail("search index has %q at %q, which is at %q#%q", tag, d.Location, p, f)
					return
				}
				c.Count("index locations resolved")
			}
			c.Key(b.String())
			if odd == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C11", Quick: 2800, Thorough: 40000,
		Rule: "a case is a tree of up to five levels of inline and included sections which are split, kept on a single page, or both, in any order; the files written, what is on each, and heading levels must be the model's, and every section must be on exactly one page; non-trivial with three sections or more",
		Need: []string{"sections placed", "books of several pages", "pages compared", "single-page sections", "heading levels checked"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:6 refas:2 ref target")
			p.Block = gen.Weights("para")
			p.Blocks, p.Levels, p.Sections = 1, 5, 2+c.R.Intn(2)
			if p.Sections == 3 {
				p.Levels = 4
			}
			p.Split, p.Single, p.Repeat = 40, 12, 20
			p.RichTitles = 0
			if c.I%5 == 4 {
				// pages may have the same name
				p.NoTitle, p.SameTitles, p.TOC = 25, 20, 0
				p.Twice = 25
			}
			shaped(c, &p)
			g := gen.New(c.R, p)
			b := g.Book()
			got, want, ok := differ(c, b)
			if !ok || want.Err != nil || p.NoTitle > 0 {
				return
			}
			where := map[string][]string{}
			for n, src := range got.Pages {
				pg := parsePage(src)
				for id := range pg.ids {
					where[id] = append(where[id], n)
				}
				if len(pg.texts["h1"]) == 0 {
					c.Fail("page %s has no top heading", n)
					return
				}
				c.Count("heading levels checked", len(pg.texts["h1"])+len(pg.texts["h2"])+len(pg.texts["h3"])+len(pg.texts["h4"]))
			}
			all := want.Sec.All()
			for _, s := range all {
				if len(where[s.Primary.Name]) != 1 {
					c.Fail("section %q is on pages %q", s.Primary.Name, where[s.Primary.Name])
					return
				}
				c.Count("sections placed")
				if s.Single {
					c.Count("single-page sections")
				}
			}
			if len(got.Pages) > 1 {
				c.Count("books of several pages")
			}
			if len(all) < 3 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C12", Quick: 1300, Thorough: 40000,
		Rule: "a case is a tree of sections with tables of contents at any place, omitted children, splits and titles with all kinds of content; every number and entry (order, nesting, number, title, link) must be the model's, and the numbers on headings must be the position in the tree; non-trivial with three sections or more",
		Need: []string{"headings numbered", "entries", "pages compared"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:6 styled aux refas toc:1 link escape")
			p.Block = gen.Weights("para:3 toc:2 list inset side:1")
			p.Blocks, p.Levels = 2, 4
			p.TOC, p.Omit, p.RichTitles = 60, 25, 50
			switch c.I % 6 {
			case 4:
				p.NoTitle, p.TOC, p.Block, p.Inline = 30, 0, gen.Weights("para list side"), gen.Weights("text styled")
				p.Twice = 15
			case 5:
				p.SameTitles, p.Twice = 30, 10
			}
			shaped(c, &p)
			g := gen.New(c.R, p)
			b := g.Book()
			got, want, ok := differ(c, b)
			if !ok || want.Err != nil || p.NoTitle > 0 || p.SameTitles > 0 {
				return // with equal names, pages replace each other
			}
			numbers := map[string]bool{}
			for _, src := range got.Pages {
				pg := parsePage(src)
				for _, t := range pg.texts["span"] {
					if t = strings.TrimSpace(t); regexp.MustCompile(`^\d+(\.\d+)*$`).MatchString(t) {
						numbers[t] = true
					}
				}
				for _, l := range pg.hrefs {
					if l.nav {
						c.Count("entries")
					}
				}
			}
			var walk func(s *ref.Sec, at string) bool
			walk = func(s *ref.Sec, at string) bool {
				for i, k := range s.Children {
					n := fmt.Sprintf("%s%d", at, i+1)
					if !numbers[n] {
						c.Fail("no heading is numbered %s, which is the position of %q", n, k.Primary.Name)
						return false
					}
					c.Count("headings numbered")
					if !walk(k, n+".") {
						return false
					}
				}
				return true
			}
			walk(want.Sec, "")
			if len(want.Sec.All()) < 3 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C13", Quick: 1500, Thorough: 40000,
		Rule: "a case is a book whose text, titles, tags, links, images, verbatim text and arguments hold markup, quotes, entities and script URLs; it is compared with the model, and with the same book made of letters: tags, attributes and nesting must be the same, and no attribute may hold a script URL; non-trivial if it builds",
		Need: []string{"pages with the same structure", "attributes checked", "pages compared", "error pages with the same structure"},
		Run: func(c *fw.Ctx) {
			if c.I%10 == 7 {
				errorPageCase(c)
				return
			}
			p := gen.Everything()
			p.Inline["link"], p.Inline["image"], p.Inline["verb"], p.Inline["target2"] = 4, 3, 3, 2
			p.Inline["lazy"], p.Inline["probe"], p.Inline["mark"] = 1, 1, 0
			p.Block["fault"] = 0
			p.OddTags = true
			hostile := []rune(gen.Markup)
			p.Charset = string(hostile)
			tame := p
			tame.OddTags, tame.TameTags = false, true
			tame.Charset = strings.Repeat("k", len(hostile))
			seed := c.R.Int63()
			g := gen.New(fw.Rand(seed), p)
			b := g.Book()
			got, want, ok := differ(c, b)
			if !ok || want.Err != nil {
				c.Trivial()
				return
			}
			for n, src := range got.Pages {
				doc, _ := html.Parse(strings.NewReader(src))
				var walk func(n *html.Node) string
				walk = func(n *html.Node) string {
					if n.Type == html.ElementNode && (n.Data == "script" || n.Data == "iframe" || n.Data == "object") {
						return "an element <" + n.Data + ">"
					}
					for _, a := range n.Attr {
						c.Count("attributes checked")
						if strings.HasPrefix(a.Key, "on") {
							return "an attribute " + a.Key
						}
						v := strings.ToLower(strings.Map(func(r rune) rune {
							if r <= ' ' {
								return -1
							}
							return r
						}, a.Val))
						if a.Key == "href" || a.Key == "src" {
							for _, bad := range []string{"javascript:", "vbscript:", "data:"} {
								if strings.HasPrefix(v, bad) {
									return "a script URL " + a.Val
								}
							}
						}
					}
					for k := n.FirstChild; k != nil; k = k.NextSibling {
						if bad := walk(k); bad != "" {
							return bad
						}
					}
					return ""
				}
				if bad := walk(doc); bad != "" {
					c.Fail("page %s has %s", n, bad)
					return
				}
			}
			other := gen.New(fw.Rand(seed), tame).Book()
			tameOut := build(c, other)
			if tameOut.Err != nil {
				return
			}
			a, z := skeletons(got.Pages), skeletons(tameOut.Pages)
			if a != z {
				c.Fail("text makes a difference to the structure of pages:\n%s", firstDiff(a, z))
				return
			}
			c.Count("pages with the same structure", len(got.Pages))
		},
	})

	add(&fw.Check{
		ID: "C14", Quick: 1200, Thorough: 40000,
		Rule: "a case is a book with marked auxiliary content in titles, targets and displays, inside of every kind of content and alone; none of it may show in links of references and tables of contents or make it into default tags, all of it must show where it is defined, and the rest must be kept: all as the model has it; non-trivial if a link was checked",
		Need: []string{"links checked", "links to content with aux", "aux shown on headings", "pages compared"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:4 auxmark:6 ref:4 styled:3 interp target2:2 verb wrapped escape link:2 image")
			p.Block = gen.Weights("para:4 toc:2 list table defs targetline")
			p.RichTitles, p.TOC, p.DefaultTags, p.Blocks, p.Levels = 90, 50, 20, 2, 2
			p.TitleBlocks = 30
			p.Depth = 4
			if c.I%8 == 6 {
				// tables of contents in titles
				p.Inline["toc"], p.RichTitles = 2, 40
			}
			how := run.HTMLRender()
			if c.I%3 == 1 {
				// in partials of styled content, too
				p.Custom, p.Plugins = []string{"parts"}, 100
				p.Inline["custom"] = 5
				how = customRender(nil, nil)
			}
			g := gen.New(c.R, p)
			b := g.Book()
			b.Index = true
			if c.I%3 == 1 {
				b.Templates = customTemplates
			}
			got, want, ok := differWith(c, b, how)
			if !ok || want.Err != nil {
				c.Trivial()
				return
			}
			if c.I%3 == 1 {
				c.Count("styled content with partials", g.Seen["inline:custom"])
			}
			n := 0
			whole := map[string]bool{} // titles which are nothing but aux
			own := map[string]bool{}   // links made by the book
			for _, s := range want.Sec.All() {
				for _, t := range s.Tags {
					own[ref.PageURL(s.URL("html", t.Anchor))] = true
					if _, ok := t.Title.(ref.Aux); ok {
						whole[ref.PageURL(s.URL("html", t.Anchor))] = true
					}
				}
			}
			for name, src := range got.Pages {
				pg := parsePage(src)
				if strings.Contains(strings.ToLower(name), "aux") {
					c.Fail("page %q is named after auxiliary content", name)
					return
				}
				for _, l := range pg.hrefs {
					if !own[l.href] {
						c.Count("links of authors")
						continue
					}
					if whole[l.href] {
						c.Count("links to titles which are aux as a whole")
						continue
					}
					if strings.Contains(l.text, "AUX") {
						c.Fail("auxiliary content shows in link %q on %s: %q", l.href, name, l.text)
						return
					}
					c.Count("links checked")
					n++
				}
				for _, h := range []string{"h1", "h2", "h3"} {
					for _, t := range pg.texts[h] {
						c.Count("aux shown on headings", strings.Count(t, "AUX"))
					}
				}
			}
			c.Count("links to content with aux", g.Seen["inline:auxmark"])
			if n == 0 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C15", Quick: 1500, Thorough: 50000,
		Rule: "a case is a book of sections and targets with all kinds of content, built with a search index; it must be JSON with exactly one entry per tag, with the location, title, text, depth and section the model gives; non-trivial with three entries or more",
		Need: []string{"index entries compared", "entries of targets", "pages compared", "indexes of parts compared"},
		Run: func(c *fw.Ctx) {
			p := treeProfile()
			p.Inline = gen.Weights("text:6 target:2 target2:2 target3:3 styled aux link image refas verb escape interp lazy:2 ref")
			p.Block = gen.Weights("para:5 list table defs pre verb targetline:2 inset toc tableblock lazy")
			p.Blocks, p.Plugins = 3, 30
			p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
			p.OddTags = c.I%2 == 0
			p.ExtraTags, p.DefaultTags = 50, 20
			if c.I%5 == 4 {
				p.NoTitle, p.TOC, p.Block["toc"] = 30, 0, 0
			}
			if c.I%3 == 0 {
				p.Dup = 3
			}
			shaped(c, &p)
			g := gen.New(c.R, p)
			b := g.Book()
			b.Index = true
			if c.I%4 == 3 {
				b.Text = pick(c.R, []string{"txt", "html", "md"})
				b.Templates = ref.ExtraTextTemplates
			}
			_, want, ok := differ(c, b)
			if !ok || want.Err != nil {
				return
			}
			c.Count("index entries compared", len(want.Index))
			if c.I%5 == 1 {
				// rendering only a part leaves the index that of the book
				all := want.Sec.All()
				tag := all[c.R.Intn(len(all))].Primary.Name
				if tag != "" {
					part := run.Command(b, tag, 0)
					if part.Err != nil || part.Panic != "" {
						c.Fail("rendering section %q only: %v %s", tag, part.Err, part.Panic)
						return
					}
					if d := run.DiffIndex(part.Index, want.Index); d != "" {
						c.Fail("rendering section %q only: %s", tag, d)
						return
					}
					c.Count("indexes of parts compared")
				}
			}
			for _, d := range want.Index {
				if strings.Contains(d.Location, "#") {
					c.Count("entries of targets")
				}
			}
			if len(want.Index) < 3 {
				c.Trivial()
			}
		},
	})

	add(&fw.Check{
		ID: "C26", Quick: 2600, Thorough: 40000,
		Rule: "a case is a tree of sections; what plugins and templates get to navigate it (next, previous, sibling, top, containment, number, depths, anchors) is compared with positions computed from the order of the tree alone; non-trivial with three sections or more",
		Need: []string{"sections navigated", "answers compared", "whole books walked"},
		Run:  navCase,
	})
}

// docsLinks follows the links of the project's own documentation.
func docsLinks(c *fw.Ctx) {
	c.Input("the project's documentation, docs/lit/index.lit")
	if r := ownDocs("out"); r.code != 0 {
		c.Fail("does not build: %s", r)
		return
	}
	sources, index := outTree(c, "out")
	pages := map[string]page{}
	for n, src := range sources {
		pages[n] = parsePage(src)
	}
	for _, n := range run.Keys(sources) {
		for _, l := range pages[n].hrefs {
			if strings.Contains(l.href, "://") || strings.HasPrefix(l.href, "/") {
				continue // written so by the authors
			}
			if _, _, bad := resolves(pages, n, l.href); bad != "" {
				c.Fail("%s", bad)
				return
			}
			c.Count("links of the project's documentation resolved")
		}
	}
	for _, t := range run.Keys(index) {
		if _, _, bad := resolves(pages, "index.html", index[t].Location); bad != "" {
			c.Fail("search index of %q: %s", t, bad)
			return
		}
	}
	c.Key("docs")
}

func findTag(s *ref.Sec, name string) (*ref.Sec, string) {
	for _, x := range s.All() {
		for _, t := range x.Tags {
			if t.Name == name {
				return x, t.Anchor
			}
		}
	}
	return nil, ""
}

func navCase(c *fw.Ctx) {
	p := treeProfile()
	p.Inline = gen.Weights("text:6 target")
	p.Block = gen.Weights("para")
	p.Blocks, p.Levels = 1, 4
	p.RichTitles, p.TOC, p.Omit = 0, 0, 0
	p.Split = pick2(c, 40, 100, 0)
	if p.Split == 100 {
		p.Single = 0
	}
	if c.I%3 == 0 {
		p.SameTitles, p.NoTitle = 50, 10
	}
	shaped(c, &p)
	b := gen.New(c.R, p).Book()
	got, want, ok := differ(c, b)
	if !ok || got.Sec == nil {
		return
	}
	type node struct {
		s    *booklit.Section
		m    *ref.Sec
		path []int
		end  int // index of the first section after the subtree
	}
	var order []*node
	var walk func(s *booklit.Section, m *ref.Sec, path []int)
	walk = func(s *booklit.Section, m *ref.Sec, path []int) {
		n := &node{s: s, m: m, path: path}
		order = append(order, n)
		for i, k := range s.Children {
			walk(k, m.Children[i], append(append([]int{}, path...), i+1))
		}
		n.end = len(order)
	}
	walk(got.Sec, want.Sec, nil)
	at := func(i int) *booklit.Section {
		if i < len(order) {
			return order[i].s
		}
		return nil
	}
	place := map[*booklit.Section]string{}
	for i, n := range order {
		place[n.s] = fmt.Sprintf("%d (%s)", i, n.s.PrimaryTag.Name)
	}
	name := func(s *booklit.Section) string {
		if s == nil {
			return "(none)"
		}
		if place[s] == "" {
			return "of no book (" + s.PrimaryTag.Name + ")"
		}
		return place[s]
	}
	for i, n := range order {
		parent := 0
		for j := 0; j < i; j++ {
			if order[j].end > i {
				parent = j
			}
		}
		after := at(n.end)
		if i == 0 {
			after = nil
		}
		next := after
		if n.m.Split && n.end > i+1 {
			next = order[i+1].s
		}
		var prev *booklit.Section
		if i > 0 {
			prev = order[parent].s
			for j := parent + 1; j < i; j = order[j].end {
				prev = order[j].s
			}
		}
		depth := len(n.path)
		pageDepth := 0
		for j := i; j != 0; {
			up := 0
			for k := 0; k < j; k++ {
				if order[k].end > j {
					up = k
				}
			}
			if order[up].m.Reset {
				break
			}
			pageDepth++
			j = up
		}
		num := strings.Trim(strings.ReplaceAll(fmt.Sprint(n.path), " ", "."), "[]")
		anchors := 0
		for _, t := range n.m.Tags {
			if t.Anchor != "" {
				anchors++
			}
		}
		onPage := anchors > 0
		for j := i + 1; j < n.end; {
			// skip what is below a split section
			up := parentOf(j, func(k int) bool { return order[k].end > j })
			if order[up].m.Split {
				j = order[j].end
				continue
			}
			for _, t := range order[j].m.Tags {
				onPage = onPage || t.Anchor != ""
			}
			j++
		}
		for _, q := range []struct {
			what string
			g, w interface{}
		}{
			{"Next", name(n.s.Next()), name(next)},
			{"NextSibling", name(n.s.NextSibling()), name(after)},
			{"Prev", name(n.s.Prev()), name(prev)},
			{"Top", name(n.s.Top()), name(order[0].s)},
			{"Number", n.s.Number(), num},
			{"Depth", n.s.Depth(), depth},
			{"PageDepth", n.s.PageDepth(), pageDepth},
			{"AnchorTags", len(n.s.AnchorTags()), anchors},
			{"HasAnchors", n.s.HasAnchors(), onPage},
		} {
			c.Count("answers compared")
			if q.g != q.w {
				c.Fail("%s of section %s is %v, want %v", q.what, name(n.s), q.g, q.w)
				return
			}
		}
		for j, o := range order {
			c.Count("answers compared", 2)
			if g, w := n.s.Contains(o.s), i <= j && j < n.end; g != w {
				c.Fail("section %s contains %s: %v, want %v", name(n.s), name(o.s), g, w)
				return
			}
			direct := i == j || len(o.path) == depth+1 && i < j && j < n.end
			if g := n.s.IsOrHasChild(o.s); g != direct {
				c.Fail("section %s is or has child %s: %v, want %v", name(n.s), name(o.s), g, direct)
				return
			}
		}
		c.Count("sections navigated")
	}
	// one page after the other leads through a whole split book
	if p.Split == 100 {
		s := got.Sec
		for i := range order {
			if s != order[i].s {
				c.Fail("page %d of the book is %s by following next, want %s", i, name(s), name(order[i].s))
				return
			}
			s = s.Next()
		}
		if s != nil {
			c.Fail("after the last page comes %s", name(s))
			return
		}
		c.Count("whole books walked")
	}
	if len(order) < 3 {
		c.Trivial()
	}
}

func parentOf(j int, has func(int) bool) int {
	up := 0
	for k := 0; k < j; k++ {
		if has(k) {
			up = k
		}
	}
	return up
}

func pick2(c *fw.Ctx, ns ...int) int { return ns[c.R.Intn(len(ns))] }

func skeletons(pages map[string]string) string {
	var out []string
	for _, p := range pages {
		out = append(out, skeleton(cmp.Tokens(p)))
	}
	sort.Strings(out)
	return strings.Join(out, "=====\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("%s\n  with letters: %s", strings.Join(x[max(0, i-2):min(len(x), i+3)], " "), strings.Join(y[max(0, i-2):min(len(y), i+3)], " "))
		}
	}
	return "one is longer than the other"
}

// errorPageCase compares the error page for hostile text with the one for
// harmless text, and says whether it shows the text.
func errorPageCase(c *fw.Ctx) {
	chars := []rune(`<>&"';=#%$()*! abcxyz-/.` + "`\u00e9")
	text := ""
	for n := 1 + c.R.Intn(12); n > 0; n-- {
		text += pick(c.R, []string{string(chars[c.R.Intn(len(chars))]), string(chars[c.R.Intn(len(chars))]), "&lt;", "&#60;", "<script>", "</pre>", "<!--", "{{.}}"[2:3], "\" onerror=\"", "&amp;"})
	}
	text = "x" + text + "x"
	form := pick(c.R, []string{
		"\\include-section{T}", "\\use-plugin{T}", "\\reference{T}", "\\reference{T}{\\bold{T}}",
		"\\use-plugin{probe}\n\n\\fail{T}", "\\use-plugin{probe}\n\n\\fail-pretty{T}", "\\use-plugin{probe}\n\n\\styled-as{T}{x}", "T \\no-such-function{T}", "\\definitions{T}", "\\table{T}", "T \\bold{a}{T}", "\\styled{T}",
		"\\target{T}{T}\n\n\\target{T}{T}\n\n\\reference{T}",
	})
	show := func(text string) (string, error) {
		b := run.Doc("\\title{A}{index}\n\n" + strings.ReplaceAll(form, "T", text) + "\n")
		c.Input(b.String())
		got := build(c, b)
		if got.Panic != "" {
			c.Fail("panic: %s", got.Panic)
		}
		if got.Err == nil {
			return "", nil
		}
		rec := httptest.NewRecorder()
		booklit.ErrorResponse(rec, got.Err)
		return rec.Body.String(), got.Err
	}
	tame, tameErr := show("x" + strings.Repeat("k", len([]rune(text))-2) + "x")
	page, err := show(text)
	if (err == nil) != (tameErr == nil) {
		c.Fail("%q gives the error %v, harmless text %v", text, err, tameErr)
		return
	}
	if err == nil {
		c.Trivial()
		return
	}
	if a, z := skeleton(cmp.Tokens(page)), skeleton(cmp.Tokens(tame)); a != z {
		c.Fail("text makes a difference to the structure of the error page:\n%s", firstDiff(a, z))
		return
	}
	if d := told(c, err); d != "" {
		c.Fail("%s", d)
		return
	}
	c.Count("error pages with the same structure")
	c.Key(form + text)
}
