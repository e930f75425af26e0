package ref

import "path/filepath"

// Baselit is the reference implementation of the base plugin.
func Baselit() Plugin {
	style := func(name string) *Fn {
		return &Fn{Kinds: "c", Call: func(c *Call) (C, error) {
			return Styled{Style: name, Content: c.Args[0]}, nil
		}}
	}
	contents := func(args []interface{}) []C {
		out := []C{}
		for _, a := range args {
			out = append(out, a)
		}
		return out
	}
	list := func(ordered bool) *Fn {
		return &Fn{Kinds: "c", Variadic: true, Call: func(c *Call) (C, error) {
			c.World.count("lists")
			return List{Items: contents(c.Args), Ordered: ordered}, nil
		}}
	}
	plain := func(msg string) error { return &Err{Kind: "plain", Msg: msg} }

	return Plugin{Name: "baselit", Fns: map[string]*Fn{
		"UsePlugin": {Kinds: "s", Call: func(c *Call) (C, error) {
			if _, ok := c.World.Plugins[c.S(0)]; !ok {
				return nil, plain("unknown plugin '" + c.S(0) + "'")
			}
			c.Sec.use(c.S(0))
			return nil, nil
		}},
		"Styled": {Kinds: "s", Call: func(c *Call) (C, error) {
			c.Sec.Style = c.S(0)
			return nil, nil
		}},
		"Title": {Kinds: "cs", Variadic: true, Call: func(c *Call) (C, error) {
			if t, ok := c.Sec.Title.(Str); !ok || t != "" {
				return nil, &Err{
					Kind: "title-twice", File: c.Sec.FilePath(), Loc: c.Loc, Len: len("\\title"),
					Other: []At{{c.Sec.FilePath(), c.Sec.TitleLoc}},
				}
			}
			tags := []string{}
			for i := range c.Args[1:] {
				tags = append(tags, c.S(i+1))
			}
			c.Sec.setTitle(c.Args[0], c.Loc, tags)
			return nil, nil
		}},
		"Aux": {Kinds: "c", Call: func(c *Call) (C, error) { return Aux{c.Args[0]}, nil }},
		"Section": {Kinds: "n", Call: func(c *Call) (C, error) {
			sub := &Sec{Parent: c.Sec, Title: Str(""), Body: Str(""), World: c.World}
			if err := c.World.evalSection(sub, c.Args[0], append([]string{}, c.Sec.pluginNames...)); err != nil {
				return nil, err
			}
			sub.Loc = c.Loc
			c.Sec.Children = append(c.Sec.Children, sub)
			return nil, nil
		}},
		"IncludeSection": {Kinds: "s", Call: func(c *Call) (C, error) {
			path := join(c.Sec.FilePath(), c.S(0))
			for s := c.Sec; s != nil; s = s.Parent {
				if s.Path != "" && filepath.Clean(s.Path) == path {
					return nil, plain("section includes itself: " + c.S(0))
				}
			}
			sub, err := c.World.evalFile(c.Sec, path)
			if err != nil {
				return nil, err
			}
			c.Sec.Children = append(c.Sec.Children, sub)
			return nil, nil
		}},
		"SinglePage": {Call: func(c *Call) (C, error) {
			c.Sec.Single = true
			for _, s := range c.Sec.All() {
				s.Split = false
			}
			return nil, nil
		}},
		"SplitSections": {Call: func(c *Call) (C, error) {
			c.Sec.Reset = true
			if !c.Sec.prevented() {
				c.Sec.Split = true
			}
			return nil, nil
		}},
		"OmitChildrenFromTableOfContents": {Call: func(c *Call) (C, error) {
			c.Sec.Omit = true
			return nil, nil
		}},
		"TableOfContents": {Call: func(c *Call) (C, error) { return TOC{c.Sec}, nil }},
		"Code":            style("verbatim"),
		"Italic":          style("italic"),
		"Bold":            style("bold"),
		"Larger":          style("larger"),
		"Smaller":         style("smaller"),
		"Strike":          style("strike"),
		"Superscript":     style("superscript"),
		"Subscript":       style("subscript"),
		"Inset":           style("inset"),
		"Aside":           style("aside"),
		"Link": {Kinds: "cs", Call: func(c *Call) (C, error) {
			return Link{Content: c.Args[0], Target: c.S(1)}, nil
		}},
		"Reference": {Kinds: "sc", Variadic: true, Call: func(c *Call) (C, error) {
			r := &Ref{Sec: c.Sec, Tag: c.S(0), Loc: c.Loc}
			if len(c.Args) > 1 {
				r.Content = c.Args[1]
			}
			c.World.count("references")
			return r, nil
		}},
		"Target": {Kinds: "sc", Variadic: true, Call: func(c *Call) (C, error) {
			t := Target{Tag: c.S(0), Loc: c.Loc}
			switch len(c.Args) {
			case 3:
				t.Title, t.Content = c.Args[1], c.Args[2]
			case 2:
				t.Title = c.Args[1]
			default:
				t.Title = Str(t.Tag)
			}
			return t, nil
		}},
		"List":        list(false),
		"OrderedList": list(true),
		"TableRow":    list(false),
		"Image": {Kinds: "ss", Variadic: true, Call: func(c *Call) (C, error) {
			i := Image{Path: c.S(0)}
			if len(c.Args) > 1 {
				i.Desc = c.S(1)
			}
			return i, nil
		}},
		"SetPartial": {Kinds: "sc", Call: func(c *Call) (C, error) {
			if c.Sec.Partials == nil {
				c.Sec.Partials = map[string]C{}
			}
			c.Sec.Partials[c.S(0)] = c.Args[1]
			return nil, nil
		}},
		"Table": {Kinds: "c", Variadic: true, Call: func(c *Call) (C, error) {
			t := Table{}
			for _, r := range c.Args {
				l, ok := r.(List)
				if !ok {
					return nil, plain("table row is not a list: " + Text(r))
				}
				t.Rows = append(t.Rows, l.Items)
			}
			c.World.count("tables")
			return t, nil
		}},
		"Definitions": {Kinds: "c", Variadic: true, Call: func(c *Call) (C, error) {
			d := Defs{}
			for _, r := range c.Args {
				l, ok := r.(List)
				if !ok {
					return nil, plain("definition item is not a list: " + Text(r))
				}
				if len(l.Items) != 2 {
					return nil, plain("definition item must have two entries: " + Text(r))
				}
				d = append(d, [2]C{l.Items[0], l.Items[1]})
			}
			c.World.count("definitions")
			return d, nil
		}},
		"Definition": {Kinds: "cc", Call: func(c *Call) (C, error) {
			return List{Items: []C{c.Args[0], c.Args[1]}}, nil
		}},
	}}
}
