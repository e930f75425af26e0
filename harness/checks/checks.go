// Package checks holds the checks.
package checks

import (
	"time"

	"fmt"
	"os"

	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// All are the checks by property.
var All = map[string]*fw.Check{}

func add(c *fw.Check) {
	if All[c.ID] != nil {
		panic("two checks for " + c.ID)
	}
	All[c.ID] = c
}

// differ builds a book with the real code and compares it with the model.
func differ(c *fw.Ctx, b run.Book) (run.Outcome, run.Expected, bool) {
	return differWith(c, b, run.HTMLRender())
}

// differWith is differ with the model of other templates.
func differWith(c *fw.Ctx, b run.Book, how *ref.Render) (run.Outcome, run.Expected, bool) {
	c.Input(b.String())
	c.Scratch()
	want := run.Model(b, how)
	if want.Skip {
		c.Count("skipped: too costly to parse, or a known finding")
		c.Trivial()
		return run.Outcome{}, want, false
	}
	got := run.Real(b)
	if d := run.Diff(b, got, want); d != "" {
		c.Fail("%s", d)
		return got, want, false
	}
	if c.I%4 == 2 && len(b.String()) < 30000 {
		slow := time.Duration(0)
		if c.I%8 == 2 {
			slow = time.Hour
		}
		if d := run.DiffCommand(b, got, slow); d != "" {
			c.Fail("%s", d)
			return got, want, false
		}
		c.Count("books built by the command alike")
	}
	observe(c, b, want)
	return got, want, true
}

func observe(c *fw.Ctx, b run.Book, want run.Expected) {
	c.Key(b.String())
	if s := b.String(); len(s) < 700 {
		c.Sample(s)
	}
	if want.Err != nil {
		c.Count("books with an error, reported alike")
		if e, ok := want.Err.(*ref.Err); ok {
			c.Count("error: " + e.Kind)
		} else {
			c.Count("error: plain")
		}
	} else {
		c.Count("books built alike")
		c.Count("pages compared", len(want.Pages))
	}
	c.Count("calls recorded and compared", len(want.Log))
	for k, n := range want.World.Stats {
		c.Count(k, n)
	}
}

func seen(c *fw.Ctx, g *gen.Gen) {
	for k, n := range g.Seen {
		c.Count(k, n)
	}
}

// Finding tries a known finding.
func Finding(f fw.Finding) {
	b := run.Book{Files: f.Files, Root: f.Root}
	out := run.Real(b)
	if out.Panic != "" || out.Err != nil {
		fmt.Println(out.Panic, out.Err)
		os.Exit(1)
	}
}
