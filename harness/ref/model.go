package ref

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/agext/levenshtein"
)

// C is evaluated content.
type C interface{}

type (
	// Str is text.
	Str string
	// Seq is concatenated content.
	Seq []C
	// Para is a paragraph of lines.
	Para []C
	// Pre is preformatted lines.
	Pre []C
	// Ref is a reference to a tag.
	Ref struct {
		Sec      *Sec
		Tag      string
		Content  C
		Optional bool
		Loc      Loc
		found    *Tag
	}
	// Link is an external link.
	Link struct {
		Content C
		Target  string
	}
	// TOC is a table of contents.
	TOC struct{ Sec *Sec }
	// Styled is content with a named style.
	Styled struct {
		Style    string
		Block    bool
		Content  C
		Partials map[string]C
	}
	// Target is an anchor.
	Target struct {
		Tag            string
		Title, Content C
		Loc            Loc
	}
	// Image is an image.
	Image struct{ Path, Desc string }
	// List is a list.
	List struct {
		Items   []C
		Ordered bool
	}
	// Table is a table.
	Table struct{ Rows [][]C }
	// Defs is a definition list.
	Defs [][2]C
	// Aux is auxiliary content.
	Aux struct{ Content C }
	// Lazy is deferred content.
	Lazy struct {
		Block bool
		Fn    func() (C, error)
	}
)

// Tag is something which can be referenced.
type Tag struct {
	Name    string
	Title   C
	Sec     *Sec
	Anchor  string
	Content C
	Loc     Loc
}

// Sec is a section.
type Sec struct {
	Path     string
	Title    C
	HasTitle bool
	TitleLoc Loc
	Body     C
	Primary  Tag
	Tags     []Tag
	Parent   *Sec
	Children []*Sec
	Style    string
	Partials map[string]C
	Split    bool
	Single   bool
	Reset    bool
	Omit     bool
	Plugins  []Plugin
	Loc      Loc
	World    *World

	// split was asked for, for --single-page overruling
	pluginNames []string
}

// Plugin is the reference implementation of a plugin: a table of functions.
type Plugin struct {
	Name string
	Fns  map[string]*Fn
}

// Arg kinds of functions.
const (
	KString  = 's'
	KContent = 'c'
	KNode    = 'n'
	KBad     = '?'
)

// Fn is a function provided by a plugin. Its kinds are one letter per
// parameter; Variadic says whether the last one takes any number of arguments.
type Fn struct {
	Kinds    string
	Variadic bool
	// BadReturn is set for functions whose results are not supported.
	BadReturn string
	Call      func(ev *Call) (C, error)
}

// Call is a call of a function.
type Call struct {
	World *World
	Sec   *Sec
	Name  string
	Loc   Loc
	// Args are string, C or Node depending on the kind.
	Args []interface{}
}

// S is the i'th argument as a string.
func (c *Call) S(i int) string { return c.Args[i].(string) }

// World is the environment a document is evaluated in.
type World struct {
	Files       map[string]string
	Plugins     map[string]Plugin
	AllowBroken bool
	// Log records the calls of probe functions.
	Log []string
	// Stats counts what happened.
	Stats map[string]int
	// MaxCost bounds the work of parsing, TooCostly says whether it was reached.
	MaxCost   float64
	TooCostly bool
	nesting   int
}

// Err is an error as reported to the user.
type Err struct {
	Kind   string // parse, undefined, failed, unknown-tag, ambiguous, title-twice, plain, arity
	File   string
	Loc    Loc
	Len    int
	Fn     string
	Tag    string
	Msg    string
	Other  []At
	Simil  []string
	Plugin error // error returned by the plugin
}

// At is a location in a file.
type At struct {
	File string
	Loc  Loc
}

func (e *Err) Error() string {
	switch e.Kind {
	case "unknown-tag":
		return fmt.Sprintf("unknown tag '%s'", e.Tag)
	case "ambiguous":
		return fmt.Sprintf("ambiguous target for tag '%s'", e.Tag)
	}
	return fmt.Sprintf("%s %s:%d:%d \\%s %s %s", e.Kind, e.File, e.Loc.Line, e.Loc.Col, e.Fn, e.Tag, e.Msg)
}

func (w *World) count(what string) {
	if w.Stats == nil {
		w.Stats = map[string]int{}
	}
	w.Stats[what]++
}

// ErrTooCostly is returned when a file would take too long to parse.
var ErrTooCostly = fmt.Errorf("too costly to parse")

// Load loads a file.
func (w *World) Load(parent *Sec, path string) (*Sec, error) {
	sec, err := w.evalFile(parent, path)
	if err != nil {
		return nil, err
	}
	w.collect(sec)
	return sec, nil
}

func (w *World) evalFile(parent *Sec, path string) (*Sec, error) {
	src, ok := w.Files[path]
	if !ok {
		return nil, &Err{Kind: "missing", File: path}
	}

	res := Parse(src)
	if w.MaxCost > 0 && res.Cost > w.MaxCost {
		w.TooCostly = true
		return nil, ErrTooCostly
	}
	if !res.OK {
		return nil, &Err{Kind: "parse", File: path}
	}

	sec := &Sec{Parent: parent, Path: path, Title: Str(""), Body: Str(""), World: w}
	return sec, w.evalSection(sec, res.Node, []string{"baselit"})
}

func (w *World) evalSection(sec *Sec, node Node, plugins []string) error {
	for _, p := range plugins {
		sec.use(p)
	}
	ev := &eval{sec: sec}
	if err := ev.visit(node); err != nil {
		return err
	}
	if ev.res != nil {
		sec.Body = ev.res
	}
	w.count("sections")
	return nil
}

func (s *Sec) use(name string) {
	s.pluginNames = append(s.pluginNames, name)
	s.Plugins = append(s.Plugins, s.World.Plugins[name])
}

// FilePath is the file the section is in.
func (s *Sec) FilePath() string {
	for ; s != nil; s = s.Parent {
		if s.Path != "" {
			return s.Path
		}
	}
	return ""
}

type eval struct {
	sec *Sec
	res C
}

// Join concatenates content.
func Join(a, b C) C {
	if b == nil {
		return a
	}
	if a == nil {
		return b
	}
	if s, ok := a.(Seq); ok {
		return append(append(Seq{}, s...), b)
	}
	return Seq{a, b}
}

func (ev *eval) visit(n Node) error {
	switch n := n.(type) {
	case NStr:
		ev.res = Join(ev.res, Str(n))
		return nil
	case NSeq:
		for _, m := range n {
			if err := ev.visit(m); err != nil {
				return err
			}
		}
		return nil
	case NPara:
		lines, err := ev.lines(n)
		if err != nil {
			return err
		}
		ev.sec.World.count("paragraphs")
		switch {
		case len(lines) == 0:
		case len(lines) == 1 && !IsFlow(lines[0]):
			ev.res = Join(ev.res, lines[0])
		default:
			ev.res = Join(ev.res, Para(lines))
		}
		return nil
	case NPre:
		lines, err := ev.lines(n)
		if err != nil {
			return err
		}
		ev.sec.World.count("preformatted")
		ev.res = Join(ev.res, Pre(lines))
		return nil
	case NInvoke:
		ev.sec.World.count("calls")
		c, err := ev.invoke(n)
		if err != nil {
			return err
		}
		ev.res = Join(ev.res, c)
		return nil
	}
	panic(fmt.Sprintf("unknown node %T", n))
}

func (ev *eval) lines(lines []NSeq) ([]C, error) {
	out := []C{}
	for _, l := range lines {
		sub := &eval{sec: ev.sec}
		if err := sub.visit(l); err != nil {
			return nil, err
		}
		if sub.res != nil {
			out = append(out, sub.res)
		}
	}
	return out, nil
}

func (ev *eval) arg(n Node) (C, error) {
	sub := &eval{sec: ev.sec}
	if err := sub.visit(n); err != nil {
		return nil, err
	}
	if sub.res == nil {
		return Str(""), nil
	}
	return sub.res, nil
}

func (ev *eval) invoke(n NInvoke) (C, error) {
	var fn *Fn
	method := Method(n.Fn)
	for _, p := range ev.sec.Plugins {
		if f, ok := p.Fns[method]; ok {
			fn = f
			break
		}
	}
	at := func(kind string) *Err {
		return &Err{Kind: kind, File: ev.sec.FilePath(), Loc: n.Loc, Len: len(n.Fn) + 1, Fn: n.Fn}
	}
	if fn == nil {
		return nil, at("undefined")
	}

	fixed := len(fn.Kinds)
	if fn.Variadic {
		fixed--
		if len(n.Args) < fixed {
			return nil, &Err{Kind: "arity", Fn: n.Fn}
		}
	} else if len(n.Args) != fixed {
		return nil, &Err{Kind: "arity", Fn: n.Fn}
	}

	call := &Call{World: ev.sec.World, Sec: ev.sec, Name: n.Fn, Loc: n.Loc}
	for i, a := range n.Args {
		k := fn.Kinds[len(fn.Kinds)-1]
		if i < fixed {
			k = fn.Kinds[i]
		}
		switch k {
		case KNode:
			call.Args = append(call.Args, a)
		case KContent, KString:
			c, err := ev.arg(a)
			if err != nil {
				return nil, err
			}
			if k == KString {
				call.Args = append(call.Args, Text(c))
			} else {
				call.Args = append(call.Args, c)
			}
		default:
			return nil, &Err{Kind: "plain", Fn: n.Fn, Msg: "unsupported argument type"}
		}
	}

	c, err := fn.Call(call)
	if fn.BadReturn != "" {
		return nil, &Err{Kind: "plain", Fn: n.Fn, Msg: fn.BadReturn}
	}
	if err != nil {
		if e, ok := err.(*Err); ok && e.Kind != "plain" && e.Kind != "missing" && e.Kind != "arity" {
			// reported as is
			return nil, e
		}
		f := at("failed")
		f.Plugin = err
		f.Msg = err.Error()
		return nil, f
	}
	return c, nil
}

// Method is the name of the method implementing a function.
func Method(fn string) string {
	out := ""
	for _, w := range strings.Split(fn, "-") {
		if w != "" {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return out
}

// IsFlow says whether the content fits in a sentence.
func IsFlow(c C) bool {
	switch c := c.(type) {
	case Str, *Ref, *Target, Target, Image:
		return true
	case Seq:
		for _, x := range c {
			if !IsFlow(x) {
				return false
			}
		}
		return true
	case Link:
		return IsFlow(c.Content)
	case Aux:
		return IsFlow(c.Content)
	case Styled:
		return !c.Block && IsFlow(c.Content)
	case *Lazy:
		return !c.Block
	}
	return false
}

// Text is the content as plain text, as used for text arguments, page titles,
// tags and the search index.
func Text(c C) string {
	var b strings.Builder
	switch c := c.(type) {
	case Str:
		return string(c)
	case Seq:
		for _, x := range c {
			b.WriteString(Text(x))
		}
	case Para:
		for _, l := range c {
			if b.Len() > 0 {
				b.WriteString(" ")
			}
			b.WriteString(Text(l))
		}
		if b.Len() > 0 {
			b.WriteString("\n\n")
		}
	case Pre:
		for _, l := range c {
			b.WriteString(Text(l) + "\n")
		}
	case *Ref:
		if c.Content != nil {
			return Text(c.Content)
		}
		c.enter()
		defer c.leave()
		t, err := c.resolve()
		if err != nil {
			return fmt.Sprintf("{broken reference: %s: %s}", c.Tag, err)
		}
		return Text(t.Title)
	case Link:
		return Text(c.Content)
	case Aux:
		return Text(c.Content)
	case Styled:
		return Text(c.Content)
	case Image:
		return "{image: " + c.Path + "}"
	case List:
		for i, x := range c.Items {
			mark := "* "
			if c.Ordered {
				mark = fmt.Sprintf("%d. ", i+1)
			}
			b.WriteString(mark + itemText(Text(x)) + "\n\n")
		}
	case Table:
		for _, r := range c.Rows {
			b.WriteString("|")
			for _, x := range r {
				b.WriteString(" " + Text(x) + " |")
			}
			b.WriteString("\n")
		}
		b.WriteString("\n")
	case Defs:
		for _, d := range c {
			b.WriteString(Text(d[0]) + ": " + Text(d[1]) + "\n")
		}
		b.WriteString("\n")
	case Target, *Target, TOC:
	case *Lazy:
		if c.Block {
			return "<lazy block>"
		}
		return "<lazy flow>"
	default:
		panic(fmt.Sprintf("text of %T", c))
	}
	return b.String()
}

func itemText(s string) string {
	text := ""
	for _, line := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		switch {
		case text == "":
			text = line
		case line == "":
			text += "\n"
		default:
			text += "\n  " + line
		}
	}
	return text
}

// Strip removes auxiliary content.
func Strip(c C) C {
	if a, ok := c.(Aux); ok {
		// at the top it is only unwrapped
		return Strip(a.Content)
	}
	return strip(c)
}

func stripIn(c C) C {
	if _, ok := c.(Aux); ok {
		return Str("")
	}
	return strip(c)
}

func stripAll(cs []C) []C {
	out := []C{}
	for _, c := range cs {
		if _, ok := c.(Aux); !ok {
			out = append(out, strip(c))
		}
	}
	return out
}

func strip(c C) C {
	switch c := c.(type) {
	case Seq:
		return Seq(stripAll(c))
	case Para:
		return Para(stripAll(c))
	case Pre:
		return Pre(stripAll(c))
	case *Ref:
		r := *c
		if r.Content != nil {
			r.Content = stripIn(r.Content)
		}
		return &r
	case Link:
		return Link{Content: stripIn(c.Content), Target: c.Target}
	case Styled:
		ps := map[string]C{}
		for k, v := range c.Partials {
			ps[k] = stripIn(v)
		}
		c.Content = stripIn(c.Content)
		c.Partials = ps
		return c
	case List:
		return List{Items: stripAll(c.Items), Ordered: c.Ordered}
	case Table:
		out := Table{}
		for _, r := range c.Rows {
			out.Rows = append(out.Rows, stripAll(r))
		}
		return out
	case Defs:
		out := Defs{}
		for _, d := range c {
			out = append(out, [2]C{stripIn(d[0]), stripIn(d[1])})
		}
		return out
	}
	return c
}

// Untitled is the panic of tables of contents with sections without a title,
// which have nothing to link to.
type Untitled struct{}

// Circular is the panic of titles which refer to themselves.
type Circular struct{ Tag string }

func (r *Ref) enter() {
	w := r.Sec.World
	if w.nesting++; w.nesting > 200 {
		panic(Circular{r.Tag})
	}
}

func (r *Ref) leave() { r.Sec.World.nesting-- }

func (r *Ref) resolve() (*Tag, error) {
	if r.found != nil {
		return r.found, nil
	}
	tags := r.Sec.Find(func(n string) bool { return n == r.Tag })
	w := r.Sec.World
	switch {
	case len(tags) == 1:
		r.found = &tags[0]
		return r.found, nil
	case len(tags) == 0 && r.Optional:
		return nil, nil
	case w.AllowBroken:
		w.count("broken-allowed")
		return &Tag{
			Name:   r.Tag,
			Anchor: "broken",
			Title:  Str("{broken reference: " + r.Tag + "}"),
			Sec:    r.Sec,
		}, nil
	}
	e := &Err{Kind: "ambiguous", File: r.Sec.FilePath(), Loc: r.Loc, Len: len("\\reference"), Tag: r.Tag}
	if len(tags) == 0 {
		e.Kind = "unknown-tag"
		for _, t := range r.Sec.Find(func(n string) bool { return levenshtein.Match(r.Tag, n, nil) > 0.5 }) {
			e.Simil = append(e.Simil, t.Name)
		}
	}
	for _, t := range tags {
		e.Other = append(e.Other, At{t.Sec.FilePath(), t.Loc})
	}
	return nil, e
}

// Find finds all tags of the book with a matching name.
func (s *Sec) Find(match func(string) bool) []Tag {
	out := []Tag{}
	var down func(s, except *Sec)
	down = func(s, except *Sec) {
		for _, t := range s.Tags {
			if match(t.Name) {
				out = append(out, t)
			}
		}
		for _, c := range s.Children {
			if c != except {
				down(c, nil)
			}
		}
	}
	var prev *Sec
	for ; s != nil; s = s.Parent {
		down(s, prev)
		prev = s
	}
	return out
}

func (w *World) collect(s *Sec) {
	w.collectIn(s, s.Title)
	w.collectIn(s, s.Body)
	w.collectPartials(s, s.Partials)
	for _, c := range s.Children {
		w.collect(c)
	}
}

func (w *World) collectPartials(s *Sec, ps map[string]C) {
	names := []string{}
	for n := range ps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w.collectIn(s, ps[n])
	}
}

func (w *World) collectIn(s *Sec, c C) {
	all := func(cs []C) {
		for _, x := range cs {
			w.collectIn(s, x)
		}
	}
	switch c := c.(type) {
	case Seq:
		all(c)
	case Para:
		all(c)
	case Pre:
		all(c)
	case Styled:
		w.collectIn(s, c.Content)
		w.collectPartials(s, c.Partials)
	case Link:
		w.collectIn(s, c.Content)
	case Aux:
		w.collectIn(s, c.Content)
	case List:
		all(c.Items)
	case Table:
		for _, r := range c.Rows {
			all(r)
		}
	case Defs:
		for _, d := range c {
			all(d[:])
		}
	case Target:
		w.count("targets")
		s.Tags = append(s.Tags, Tag{Name: c.Tag, Title: c.Title, Sec: s, Anchor: c.Tag, Content: c.Content, Loc: c.Loc})
	}
}

// DefaultTag is the tag a title gets.
func DefaultTag(title C) string {
	s := strings.ReplaceAll(Text(Strip(title)), " & ", " and ")
	out := []byte{}
	space := false
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b == ' ' || b == '\t' || b == '\n' || b == '\f' || b == '\r':
			if !space {
				out = append(out, '-')
			}
			space = true
			continue
		case b >= 'A' && b <= 'Z':
			out = append(out, b+'a'-'A')
		case b >= 'a' && b <= 'z', b >= '0' && b <= '9', b == '_', b == '-':
			out = append(out, b)
		}
		space = false
	}
	return string(out)
}

func (s *Sec) setTitle(title C, loc Loc, tags []string) {
	if len(tags) == 0 {
		tags = []string{DefaultTag(title)}
	}
	s.Tags = nil
	for _, t := range tags {
		s.Tags = append(s.Tags, Tag{Name: t, Title: title, Sec: s, Loc: loc})
	}
	s.Title = title
	s.HasTitle = true
	s.TitleLoc = loc
	s.Primary = s.Tags[0]
}

// Number is the section's number.
func (s *Sec) Number() string {
	if s.Parent == nil {
		return ""
	}
	i := 0
	for i < len(s.Parent.Children) && s.Parent.Children[i] != s {
		i++
	}
	n := fmt.Sprint(i + 1)
	if p := s.Parent.Number(); p != "" {
		n = p + "." + n
	}
	return n
}

// Depth is how many ancestors the section has.
func (s *Sec) Depth() int {
	d := 0
	for s = s.Parent; s != nil; s = s.Parent {
		d++
	}
	return d
}

// PageDepth is the depth within the page.
func (s *Sec) PageDepth() int {
	d := 0
	for ; s.Parent != nil && !s.Parent.Reset; s = s.Parent {
		d++
	}
	return d
}

func (s *Sec) prevented() bool {
	for ; s != nil; s = s.Parent {
		if s.Single {
			return true
		}
	}
	return false
}

// Owner is the section whose page the section is on.
func (s *Sec) Owner() *Sec {
	for s.Parent != nil && !s.Parent.Split {
		s = s.Parent
	}
	return s
}

// Pages are the sections which get a page, in the order they are written.
func (s *Sec) Pages() []*Sec {
	out := []*Sec{}
	if s.Parent == nil || s.Parent.Split {
		out = append(out, s)
	}
	for _, c := range s.Children {
		out = append(out, c.Pages()...)
	}
	return out
}

// All are all sections, in order.
func (s *Sec) All() []*Sec {
	out := []*Sec{s}
	for _, c := range s.Children {
		out = append(out, c.All()...)
	}
	return out
}

// PathEscape escapes a page name or anchor the way a URL needs it.
func urlEscape(s string, keep string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(keep, c) >= 0 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// URL is where a tag is found; two URLs are the same if they unescape to the
// same page and anchor.
func (s *Sec) URL(ext, anchor string) (page, frag string) {
	o := s.Owner()
	if o != s && anchor == "" {
		anchor = s.Primary.Name
	}
	return o.Primary.Name + "." + ext, anchor
}

// Page is the name of the section's page.
func (s *Sec) Page(ext string) string {
	return s.Primary.Name + "." + ext
}

func join(dir, path string) string {
	return filepath.Join(filepath.Dir(dir), path)
}
