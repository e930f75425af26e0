package ref

import (
	"fmt"
	"strings"
)

// Probes are the reference implementations of the monitors' plugins.
func Probes() map[string]Plugin {
	out := map[string]Plugin{"baselit": Baselit()}
	for _, name := range []string{"probe", "probe-b"} {
		out[name] = probe(name)
	}
	for _, name := range []string{"other", "other-b"} {
		out[name] = other(name)
	}
	return out
}

// Plain is an error returned by a function.
type Plain string

func (p Plain) Error() string { return string(p) }

func q(c interface{}) string { return fmt.Sprintf("%q", Text(c)) }

func rec(name, fn string, args func(c *Call) string) func(c *Call) {
	return func(c *Call) {
		c.World.count("probe-calls")
		a := ""
		if args != nil {
			a = args(c)
		}
		c.World.Log = append(c.World.Log, fmt.Sprintf("%s:%d:%d %s %s(%s)", c.Sec.FilePath(), c.Loc.Line, c.Loc.Col, name, fn, a))
	}
}

func probe(name string) Plugin {
	fns := map[string]*Fn{}
	add := func(fn, kinds string, variadic bool, args func(c *Call) string, call func(c *Call) (C, error)) *Fn {
		r := rec(name, fn, args)
		f := &Fn{Kinds: kinds, Variadic: variadic, Call: func(c *Call) (C, error) {
			r(c)
			return call(c)
		}}
		fns[Method(fn)] = f
		return f
	}
	first := func(c *Call) (C, error) { return c.Args[0], nil }
	none := func(c *Call) (C, error) { return nil, nil }
	raw := func(c *Call) string { return c.S(0) }
	text := func(c *Call) string { return q(c.Args[0]) }

	add("who", "", false, nil, func(c *Call) (C, error) { return Str("<" + name + ">"), nil })
	add("shared", "", false, nil, func(c *Call) (C, error) { return Seq{Str("<shared "), Str(">")}, nil })
	add("echo", "c", false, text, first)
	add("echo-text", "s", false, func(c *Call) string { return fmt.Sprintf("%q", c.S(0)) },
		func(c *Call) (C, error) { return Str(c.S(0)), nil })
	add("nothing", "", false, nil, none)
	add("nothing-err", "", false, nil, none)
	add("nil-content", "", false, nil, none)
	add("nil-both", "", false, nil, none)
	add("both", "c", false, text, first)
	fail := func(c *Call) (C, error) { return nil, Plain(c.S(0)) }
	add("fail", "s", false, raw, fail)
	add("fail-both", "s", false, raw, fail)
	add("fail-pretty", "s", false, raw, func(c *Call) (C, error) {
		return nil, &Err{Kind: "undefined", File: c.Sec.FilePath(), Loc: c.Loc, Len: 3, Fn: "pretty-" + c.S(0)}
	})
	add("fail-pretty-both", "s", false, raw, func(c *Call) (C, error) {
		return nil, &Err{Kind: "undefined", File: c.Sec.FilePath(), Loc: c.Loc, Len: 5, Fn: "pretty-" + c.S(0)}
	})
	add("texts", "s", true, func(c *Call) string { return fmt.Sprintf("%q", strs(c.Args)) },
		func(c *Call) (C, error) { return Str("[" + strings.Join(strs(c.Args), "|") + "]"), nil })
	add("mixed", "sc", true, func(c *Call) string {
		ts := []string{}
		for _, a := range c.Args[1:] {
			ts = append(ts, Text(a))
		}
		return fmt.Sprintf("%q %q", c.S(0), ts)
	}, func(c *Call) (C, error) {
		out := Seq{Str(c.S(0) + "(")}
		for _, a := range c.Args[1:] {
			out = append(out, a, Str(","))
		}
		return append(out, Str(")")), nil
	})
	add("three", "scn", false, func(c *Call) string {
		return fmt.Sprintf("%q %q %s", c.S(0), Text(c.Args[1]), Dump(c.Args[2]))
	}, func(c *Call) (C, error) {
		return Seq{Str(c.S(0) + "/"), c.Args[1], Str("/" + Dump(c.Args[2]))}, nil
	})
	add("node", "n", false, func(c *Call) string { return Dump(c.Args[0]) },
		func(c *Call) (C, error) { return Str(Dump(c.Args[0])), nil })
	nodes := func(c *Call) string {
		out := ""
		for _, a := range c.Args {
			out += Dump(a) + ";"
		}
		return out
	}
	add("nodes", "n", true, nodes, func(c *Call) (C, error) { return Str(nodes(c)), nil })
	add("bad-arg", "?", false, nil, none)
	add("bad-return", "", false, nil, none).BadReturn = "unknown return type"
	add("bad-two", "", false, nil, none).BadReturn = "unknown second return type"
	add("bad-first", "", false, nil, none).BadReturn = "unknown first return type"
	add("bad-three", "", false, nil, none).BadReturn = "expected 0-2 return values"
	add("multi-word-name", "c", false, text, func(c *Call) (C, error) { return Seq{Str("mw:"), c.Args[0]}, nil })
	add("a-name-of-many-words-such-as-no-one-would-write-down", "c", false, text, func(c *Call) (C, error) { return Seq{Str("many:"), c.Args[0]}, nil })
	add("pair", "c", false, text, func(c *Call) (C, error) { return Seq{Str("one:"), c.Args[0]}, nil })
	add("span", "c", true, func(c *Call) string { return fmt.Sprint(len(c.Args)) },
		func(c *Call) (C, error) { return Str(fmt.Sprintf("any:%d", len(c.Args))), nil })
	add("deferred", "s", false, raw, func(c *Call) (C, error) {
		id := c.S(0)
		return &Lazy{Fn: func() (C, error) { return Str("lazy " + id), nil }}, nil
	})
	add("deferred-block", "s", false, raw, func(c *Call) (C, error) {
		id := c.S(0)
		return &Lazy{Block: true, Fn: func() (C, error) { return Para{Str("lazy " + id)}, nil }}, nil
	})
	add("deferred-fail", "s", false, raw, func(c *Call) (C, error) {
		id := c.S(0)
		return &Lazy{Fn: func() (C, error) { return nil, Plain("lazy failure " + id) }}, nil
	})
	add("deferred-wrap", "sc", false, raw, func(c *Call) (C, error) {
		in := c.Args[1]
		return &Lazy{Fn: func() (C, error) { return in, nil }}, nil
	})
	add("styled-as", "sc", false, raw, func(c *Call) (C, error) {
		return Styled{Style: c.S(0), Content: c.Args[1]}, nil
	})
	add("styled-block", "sc", false, raw, func(c *Call) (C, error) {
		return Styled{Style: c.S(0), Content: c.Args[1], Block: true}, nil
	})
	add("styled-parts", "sccc", false, raw, func(c *Call) (C, error) {
		return Styled{Style: c.S(0), Content: c.Args[1], Partials: map[string]C{"A": c.Args[2], "B": c.Args[3]}}, nil
	})
	add("opt-ref", "sc", false, raw, func(c *Call) (C, error) {
		return &Ref{Sec: c.Sec, Tag: c.S(0), Content: c.Args[1], Optional: true, Loc: c.Loc}, nil
	})
	add("joined", "c", true, func(c *Call) string { return fmt.Sprint(len(c.Args)) }, func(c *Call) (C, error) {
		var out C
		for _, a := range c.Args {
			out = Join(out, a)
		}
		return out, nil
	})
	add("linger", "sc", false, raw, func(c *Call) (C, error) { return c.Args[1], nil })
	add("slow", "s", false, raw, func(c *Call) (C, error) { return Str("slow " + c.S(0)), nil })
	fns["Stall"] = &Fn{Kinds: "s", Call: func(c *Call) (C, error) { return Str(""), nil }}
	return Plugin{Name: name, Fns: fns}
}

func other(name string) Plugin {
	r := rec(name, "who", nil)
	o := rec(name, "only", func(c *Call) string { return q(c.Args[0]) })
	p := rec(name, "pair", func(c *Call) string { return q(c.Args[0]) + " " + q(c.Args[1]) })
	s := rec(name, "span", func(c *Call) string { return c.S(0) })
	return Plugin{Name: name, Fns: map[string]*Fn{
		"Pair": {Kinds: "cc", Call: func(c *Call) (C, error) {
			p(c)
			return Seq{Str("two:"), c.Args[0], c.Args[1]}, nil
		}},
		"Span": {Kinds: "s", Call: func(c *Call) (C, error) {
			s(c)
			return Str("text:" + c.S(0)), nil
		}},
		"Who": {Call: func(c *Call) (C, error) {
			r(c)
			return Str("<" + name + ">"), nil
		}},
		"Only": {Kinds: "c", Call: func(c *Call) (C, error) {
			o(c)
			return Seq{Str(name + ":"), c.Args[0]}, nil
		}},
	}}
}

func strs(args []interface{}) []string {
	out := []string{}
	for _, a := range args {
		out = append(out, a.(string))
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// Dump summarizes a syntax node the way the probes do.
func Dump(n Node) string {
	switch n := n.(type) {
	case NStr:
		return dumpSeq(NSeq{n})
	case NInvoke:
		out := "\\" + n.Fn
		for _, a := range n.Args {
			out += "{" + Dump(a) + "}"
		}
		return fmt.Sprintf("%s@%d:%d", out, n.Loc.Line, n.Loc.Col)
	case NSeq:
		return dumpSeq(n)
	case NPara:
		out := "P("
		for _, l := range n {
			out += dumpSeq(l) + ";"
		}
		return out + ")"
	case NPre:
		out := "F("
		for _, l := range n {
			out += dumpSeq(l) + ";"
		}
		return out + ")"
	}
	panic(fmt.Sprintf("dump %T", n))
}

func flatten(ns NSeq) []Node {
	out := []Node{}
	for _, n := range ns {
		switch n := n.(type) {
		case NSeq:
			out = append(out, flatten(n)...)
		case NStr:
			if len(out) > 0 {
				if s, ok := out[len(out)-1].(NStr); ok {
					out[len(out)-1] = s + n
					continue
				}
			}
			if n != "" {
				out = append(out, n)
			}
		default:
			out = append(out, n)
		}
	}
	return out
}

func dumpSeq(ns NSeq) string {
	out := ""
	for _, n := range flatten(ns) {
		if s, ok := n.(NStr); ok {
			out += fmt.Sprintf("%q", string(s))
		} else {
			out += Dump(n)
		}
	}
	return out
}
