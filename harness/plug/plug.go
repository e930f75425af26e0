// Package plug registers plugins whose functions record how they are called.
// They are the monitors' probes inside of the evaluator.
package plug

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	chroma "github.com/vito/booklit/chroma"
)

// Log is the record of calls.
var (
	mu  sync.Mutex
	log []string
)

// Reset empties the record.
func Reset() {
	mu.Lock()
	log = nil
	mu.Unlock()
}

// Log returns the record.
func Log() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string{}, log...)
}

func record(f string, args ...interface{}) {
	mu.Lock()
	log = append(log, fmt.Sprintf(f, args...))
	mu.Unlock()
}

// Forced counts how often lazy content was generated, and when.
var (
	ForceMu sync.Mutex
	Forces  = map[string]int{}
	// Phase says whether rendering has started.
	Phase string
	Early []string
)

// Probe is the main probe plugin.
type Probe struct {
	name string
	sec  *booklit.Section
}

func (p Probe) where() string {
	return fmt.Sprintf("%s:%d:%d", p.sec.FilePath(), p.sec.InvokeLocation.Line, p.sec.InvokeLocation.Col)
}

func (p Probe) rec(fn, args string) { record("%s %s %s(%s)", p.where(), p.name, fn, args) }

func str(c booklit.Content) string { return fmt.Sprintf("%q", c.String()) }

// Who returns which plugin implements it.
func (p Probe) Who() booklit.Content {
	p.rec("who", "")
	return booklit.String("<" + p.name + ">")
}

// shared has room for more behind it.
var shared = append(make(booklit.Sequence, 0, 8), booklit.String("<shared "), booklit.String(">"))

// Shared returns the same content each time.
func (p Probe) Shared() booklit.Content {
	p.rec("shared", "")
	return shared
}

// Echo returns its argument.
func (p Probe) Echo(c booklit.Content) booklit.Content {
	p.rec("echo", str(c))
	return c
}

// EchoText returns the text of its argument.
func (p Probe) EchoText(s string) booklit.Content {
	p.rec("echo-text", fmt.Sprintf("%q", s))
	return booklit.String(s)
}

// Nothing returns nothing.
func (p Probe) Nothing() { p.rec("nothing", "") }

// NothingErr returns no error.
func (p Probe) NothingErr() error { p.rec("nothing-err", ""); return nil }

// NilContent returns nil.
func (p Probe) NilContent() booklit.Content { p.rec("nil-content", ""); return nil }

// NilBoth returns nil.
func (p Probe) NilBoth() (booklit.Content, error) { p.rec("nil-both", ""); return nil, nil }

// Both returns content and no error.
func (p Probe) Both(c booklit.Content) (booklit.Content, error) {
	p.rec("both", str(c))
	return c, nil
}

// Fail fails.
func (p Probe) Fail(msg string) error { p.rec("fail", msg); return errors.New(msg) }

// FailBoth fails.
func (p Probe) FailBoth(msg string) (booklit.Content, error) {
	p.rec("fail-both", msg)
	return booklit.String("must not show"), errors.New(msg)
}

// FailPretty fails with a pretty error, which is to be reported as is.
func (p Probe) FailPretty(msg string) error {
	p.rec("fail-pretty", msg)
	return booklit.UndefinedFunctionError{
		Function: "pretty-" + msg,
		ErrorLocation: booklit.ErrorLocation{
			FilePath:     p.sec.FilePath(),
			NodeLocation: p.sec.InvokeLocation,
			Length:       3,
		},
	}
}

// FailPrettyBoth fails with a pretty error, next to content.
func (p Probe) FailPrettyBoth(msg string) (booklit.Content, error) {
	p.rec("fail-pretty-both", msg)
	return booklit.String("must not show"), booklit.UndefinedFunctionError{
		Function: "pretty-" + msg,
		ErrorLocation: booklit.ErrorLocation{
			FilePath:     p.sec.FilePath(),
			NodeLocation: p.sec.InvokeLocation,
			Length:       5,
		},
	}
}

// Texts takes any number of texts.
func (p Probe) Texts(args ...string) booklit.Content {
	p.rec("texts", fmt.Sprintf("%q", args))
	return booklit.String("[" + strings.Join(args, "|") + "]")
}

// Mixed takes a text and any number of contents.
func (p Probe) Mixed(first string, rest ...booklit.Content) booklit.Content {
	strs := []string{}
	for _, c := range rest {
		strs = append(strs, c.String())
	}
	p.rec("mixed", fmt.Sprintf("%q %q", first, strs))
	out := booklit.Sequence{booklit.String(first + "(")}
	for _, c := range rest {
		out = append(out, c, booklit.String(","))
	}
	return append(out, booklit.String(")"))
}

// Three takes one of each kind.
func (p Probe) Three(s string, c booklit.Content, n ast.Node) booklit.Content {
	p.rec("three", fmt.Sprintf("%q %q %s", s, c.String(), Dump(n)))
	return booklit.Sequence{booklit.String(s + "/"), c, booklit.String("/" + Dump(n))}
}

// Syntax returns a summary of its unevaluated argument.
func (p Probe) Node(n ast.Node) booklit.Content {
	p.rec("node", Dump(n))
	return booklit.String(Dump(n))
}

// Nodes takes any number of nodes.
func (p Probe) Nodes(ns ...ast.Node) booklit.Content {
	out := ""
	for _, n := range ns {
		out += Dump(n) + ";"
	}
	p.rec("nodes", out)
	return booklit.String(out)
}

// BadArg takes an unsupported argument.
func (p Probe) BadArg(int) booklit.Content { return booklit.String("must not show") }

// BadReturn returns an unsupported type.
func (p Probe) BadReturn() int { p.rec("bad-return", ""); return 1 }

// BadTwo returns an unsupported type.
func (p Probe) BadTwo() (booklit.Content, int) { p.rec("bad-two", ""); return nil, 1 }

// BadFirst returns an unsupported type.
func (p Probe) BadFirst() (int, error) { p.rec("bad-first", ""); return 1, nil }

// BadThree returns too much.
func (p Probe) BadThree() (booklit.Content, booklit.Content, error) {
	p.rec("bad-three", "")
	return nil, nil, nil
}

// Pair takes one argument here, and two in the other plugin.
func (p Probe) Pair(c booklit.Content) booklit.Content {
	p.rec("pair", str(c))
	return booklit.Sequence{booklit.String("one:"), c}
}

// Span takes any number of arguments here, and one in the other plugin.
func (p Probe) Span(cs ...booklit.Content) booklit.Content {
	p.rec("span", fmt.Sprint(len(cs)))
	return booklit.String(fmt.Sprintf("any:%d", len(cs)))
}

// ANameOfManyWordsSuchAsNoOneWouldWriteDown is for names with many dashes.
func (p Probe) ANameOfManyWordsSuchAsNoOneWouldWriteDown(c booklit.Content) booklit.Content {
	p.rec("a-name-of-many-words-such-as-no-one-would-write-down", str(c))
	return booklit.Sequence{booklit.String("many:"), c}
}

// MultiWordName is for names with dashes.
func (p Probe) MultiWordName(c booklit.Content) booklit.Content {
	p.rec("multi-word-name", str(c))
	return booklit.Sequence{booklit.String("mw:"), c}
}

// Deferred returns lazy flow content.
func (p Probe) Deferred(id string) booklit.Content {
	p.rec("deferred", id)
	return booklit.LazyFlow(func() (booklit.Content, error) {
		force(id)
		return booklit.String("lazy " + id), nil
	})
}

// DeferredBlock returns lazy block content.
func (p Probe) DeferredBlock(id string) booklit.Content {
	p.rec("deferred-block", id)
	return booklit.LazyBlock(func() (booklit.Content, error) {
		force(id)
		return booklit.Paragraph{booklit.String("lazy " + id)}, nil
	})
}

// DeferredFail returns lazy content which fails.
func (p Probe) DeferredFail(id string) booklit.Content {
	p.rec("deferred-fail", id)
	return booklit.LazyFlow(func() (booklit.Content, error) {
		force(id)
		return nil, errors.New("lazy failure " + id)
	})
}

// DeferredWrap returns lazy content which returns what was given.
func (p Probe) DeferredWrap(id string, c booklit.Content) booklit.Content {
	p.rec("deferred-wrap", id)
	return booklit.LazyFlow(func() (booklit.Content, error) {
		force(id)
		return c, nil
	})
}

func force(id string) {
	runtime.Gosched()
	ForceMu.Lock()
	Forces[id]++
	if Phase == "load" {
		Early = append(Early, id)
	}
	ForceMu.Unlock()
	runtime.Gosched()
}

// StyledAs returns content with any style, flow or block.
func (p Probe) StyledAs(style string, c booklit.Content) booklit.Content {
	p.rec("styled-as", style)
	return booklit.Styled{Style: booklit.Style(style), Content: c}
}

// StyledBlock returns block content with any style.
func (p Probe) StyledBlock(style string, c booklit.Content) booklit.Content {
	p.rec("styled-block", style)
	return booklit.Styled{Style: booklit.Style(style), Content: c, Block: true}
}

// StyledParts returns content with a style and partials.
func (p Probe) StyledParts(style string, c booklit.Content, a booklit.Content, b booklit.Content) booklit.Content {
	p.rec("styled-parts", style)
	return booklit.Styled{Style: booklit.Style(style), Content: c, Partials: booklit.Partials{"A": a, "B": b}}
}

// OptRef returns an optional reference.
func (p Probe) OptRef(tag string, c booklit.Content) booklit.Content {
	p.rec("opt-ref", tag)
	return &booklit.Reference{
		Section:  p.sec,
		TagName:  tag,
		Content:  c,
		Optional: true,
		Location: p.sec.InvokeLocation,
	}
}

// Joined joins content with booklit.Append.
func (p Probe) Joined(cs ...booklit.Content) booklit.Content {
	p.rec("joined", fmt.Sprint(len(cs)))
	return booklit.Append(nil, cs...)
}

// Slow takes its time.
func (p Probe) Slow(id string) booklit.Content {
	p.rec("slow", id)
	if os.Getenv("VH_NO_DELAY") == "" {
		time.Sleep(5 * time.Millisecond)
	}
	return booklit.String("slow " + id)
}

// Linger takes so many milliseconds.
func (p Probe) Linger(ms string, c booklit.Content) booklit.Content {
	p.rec("linger", ms)
	var n int
	_, _ = fmt.Sscan(ms, &n)
	time.Sleep(time.Duration(n) * time.Millisecond)
	return c
}

// Stall yields and sleeps a little, to vary schedules.
func (p Probe) Stall(us string) booklit.Content {
	var n int
	_, _ = fmt.Sscan(us, &n)
	time.Sleep(time.Duration(n) * time.Microsecond)
	return booklit.Empty
}

// Await waits, if it is told to, until it is told to go on: a file says that it
// should, and is gone once it does; another one that it may go on.
func (p Probe) Await(name string) {
	if os.Remove(name+".armed") != nil {
		return
	}
	for i := 0; i < 2000; i++ {
		if _, err := os.Stat(name + ".go"); err == nil {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Crash panics.
func (p Probe) Crash() { panic("crash requested") }

// Other is a second plugin which implements some of the same functions.
type Other struct {
	name string
	sec  *booklit.Section
}

// Who returns which plugin implements it.
func (p Other) Who() booklit.Content {
	record("%s:%d:%d %s who()", p.sec.FilePath(), p.sec.InvokeLocation.Line, p.sec.InvokeLocation.Col, p.name)
	return booklit.String("<" + p.name + ">")
}

// Only is only in this plugin.
func (p Other) Only(c booklit.Content) booklit.Content {
	record("%s:%d:%d %s only(%s)", p.sec.FilePath(), p.sec.InvokeLocation.Line, p.sec.InvokeLocation.Col, p.name, str(c))
	return booklit.Sequence{booklit.String(p.name + ":"), c}
}

// Pair takes two arguments here, and one in the probe.
func (p Other) Pair(a, b booklit.Content) booklit.Content {
	record("%s:%d:%d %s pair(%s %s)", p.sec.FilePath(), p.sec.InvokeLocation.Line, p.sec.InvokeLocation.Col, p.name, str(a), str(b))
	return booklit.Sequence{booklit.String("two:"), a, b}
}

// Span takes one text here, and any number of contents in the probe.
func (p Other) Span(s string) booklit.Content {
	record("%s:%d:%d %s span(%s)", p.sec.FilePath(), p.sec.InvokeLocation.Line, p.sec.InvokeLocation.Col, p.name, s)
	return booklit.String("text:" + s)
}

// Bold shadows baselit's, unless that comes first, as it always does.
func (p Other) Bold(c booklit.Content) booklit.Content {
	record("shadowing bold called")
	return booklit.String("must not show")
}

// Dump summarizes a syntax node; adjacent text is merged and nested sequences
// are flattened, as neither makes a difference to a document.
func Dump(n ast.Node) string {
	switch n := n.(type) {
	case ast.String:
		return dumpSeq(flatten(ast.Sequence{n}))
	case ast.Invoke:
		out := "\\" + n.Function
		for _, a := range n.Arguments {
			out += "{" + Dump(a) + "}"
		}
		return fmt.Sprintf("%s@%d:%d", out, n.Location.Line, n.Location.Col)
	case ast.Sequence:
		return dumpSeq(flatten(n))
	case ast.Paragraph:
		out := "P("
		for _, l := range n {
			out += dumpSeq(flatten(l)) + ";"
		}
		return out + ")"
	case ast.Preformatted:
		out := "F("
		for _, l := range n {
			out += dumpSeq(flatten(l)) + ";"
		}
		return out + ")"
	}
	return fmt.Sprintf("%T", n)
}

func flatten(ns ast.Sequence) []ast.Node {
	out := []ast.Node{}
	for _, n := range ns {
		switch n := n.(type) {
		case ast.Sequence:
			out = append(out, flatten(n)...)
		case ast.String:
			if len(out) > 0 {
				if s, ok := out[len(out)-1].(ast.String); ok {
					out[len(out)-1] = s + n
					continue
				}
			}
			if n != "" {
				out = append(out, n)
			}
		default:
			out = append(out, n)
		}
	}
	return out
}

func dumpSeq(ns []ast.Node) string {
	out := ""
	for _, n := range ns {
		if s, ok := n.(ast.String); ok {
			out += fmt.Sprintf("%q", string(s))
		} else {
			out += Dump(n)
		}
	}
	return out
}

func init() {
	for _, name := range []string{"probe", "probe-b"} {
		name := name
		booklit.RegisterPlugin(name, func(s *booklit.Section) booklit.Plugin { return Probe{name, s} })
	}
	for _, name := range []string{"other", "other-b"} {
		name := name
		booklit.RegisterPlugin(name, func(s *booklit.Section) booklit.Plugin { return Other{name, s} })
	}
	booklit.RegisterPlugin("chroma", chroma.NewPlugin)
}
