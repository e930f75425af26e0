// Package run drives the real code and the reference model on the same book
// and compares what they did.
package run

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/cmp"
	"verif/plug"
	"verif/ref"
)

// Book is a set of source files and how they are to be built.
type Book struct {
	Files       map[string]string `json:"files"`
	Root        string            `json:"root"`
	AllowBroken bool              `json:"allow_broken,omitempty"`
	// Links has symbolic links in place of some files.
	Links bool `json:"links,omitempty"`
	// Text selects the text engine with the given extension.
	Text string `json:"text,omitempty"`
	// Templates are user templates, by file name.
	Templates map[string]string `json:"templates,omitempty"`
	Index     bool              `json:"index,omitempty"`
	// TextRender models text templates other than the defaults.
	TextRender *ref.TextRender `json:"-"`
	Note       string          `json:"note,omitempty"`
}

func (b Book) String() string {
	names := []string{}
	for n := range b.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	out := ""
	for _, n := range names {
		out += fmt.Sprintf("--- %s\n%s\n", n, b.Files[n])
	}
	return out
}

// Doc is a single file book.
func Doc(src string) Book {
	return Book{Files: map[string]string{"index.lit": src}, Root: "index.lit"}
}

// Outcome is what came of building a book.
type Outcome struct {
	Err    error
	Panic  string
	Pages  map[string]string
	Index  map[string]render.SearchDocument
	Log    []string
	Early  []string
	Forces map[string]int
	Sec    *booklit.Section
}

// Factories are the base plugin factories.
var Factories = []booklit.PluginFactory{baselit.NewPlugin}

// WriteFiles writes files below the current directory.
func WriteFiles(files map[string]string) error {
	for name, data := range files {
		if dir := filepath.Dir(name); dir != "." {
			if err := os.MkdirAll(dir, 0755); err != nil {
				return err
			}
		}
		if err := os.WriteFile(name, []byte(data), 0644); err != nil {
			return err
		}
	}
	return nil
}

// link moves every other file away, and leaves a symbolic link.
func (b Book) link() error {
	if err := os.MkdirAll("store/house", 0755); err != nil {
		return err
	}
	for i, name := range Keys(b.Files) {
		if i%2 != len(b.Files)%2 {
			continue
		}
		at, err := filepath.Abs(fmt.Sprintf("store/house/n%d", i))
		if err != nil {
			return err
		}
		if err := os.Rename(name, at); err != nil {
			return err
		}
		if err := os.Symlink(at, name); err != nil {
			return err
		}
	}
	return nil
}

// ReadTree reads all files below a directory.
func ReadTree(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.Type().IsRegular() {
			data, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, path)
			out[rel] = string(data)
		}
		return nil
	})
	return out, err
}

// Engine builds the engine for the book.
func (b Book) Engine() (render.Engine, error) {
	if b.Templates != nil {
		if err := os.MkdirAll("tmpl", 0755); err != nil {
			return nil, err
		}
		for n, t := range b.Templates {
			if err := os.WriteFile("tmpl/"+n+".tmpl", []byte(t), 0644); err != nil {
				return nil, err
			}
		}
	}
	if b.Text != "" {
		e := render.NewTextEngine(b.Text)
		if b.Templates != nil {
			if err := e.LoadTemplates("tmpl"); err != nil {
				return nil, err
			}
		}
		return e, nil
	}
	e := render.NewHTMLEngine()
	if b.Templates != nil {
		if err := e.LoadTemplates("tmpl"); err != nil {
			return nil, err
		}
	}
	return e, nil
}

// Real builds the book with the real code, in process, in the current
// directory, which is to be an empty scratch directory.
func Real(b Book) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			out.Panic = fmt.Sprint(r)
			out.Log = plug.Log()
		}
	}()

	err := WriteFiles(b.Files)
	if b.Links && err == nil {
		err = b.link()
	}
	if err != nil {
		out.Err = fmt.Errorf("harness: %w", err)
		return
	}
	eng, err := b.Engine()
	if err != nil {
		out.Err = err
		return
	}
	_ = os.MkdirAll("out", 0755)

	plug.Reset()
	plug.ForceMu.Lock()
	plug.Forces = map[string]int{}
	plug.Early = nil
	plug.Phase = "load"
	plug.ForceMu.Unlock()

	booklit.AllowBrokenReferences = b.AllowBroken
	defer func() { booklit.AllowBrokenReferences = false }()

	proc := &load.Processor{}
	sec, err := proc.LoadFile(b.Root, Factories)
	plug.ForceMu.Lock()
	plug.Phase = "render"
	plug.ForceMu.Unlock()
	out.Log = plug.Log()
	if err != nil {
		out.Err = err
		return
	}
	out.Sec = sec

	w := render.Writer{Engine: eng, Destination: "out"}
	out.Err = w.WriteSection(sec)
	if out.Err == nil && b.Index {
		out.Err = w.WriteSearchIndex(sec, "search_index.json")
	}
	plug.ForceMu.Lock()
	out.Forces = plug.Forces
	out.Early = plug.Early
	plug.ForceMu.Unlock()

	out.Pages, err = ReadTree("out")
	if err != nil {
		out.Err = fmt.Errorf("harness: %w", err)
	}
	if idx, ok := out.Pages["search_index.json"]; ok && b.Index {
		delete(out.Pages, "search_index.json")
		if err := json.Unmarshal([]byte(idx), &out.Index); err != nil {
			out.Err = fmt.Errorf("search index is not valid JSON: %w", err)
		}
	}
	return
}

// Expected is what the model says is to come of it.
type Expected struct {
	Err   error
	Pages map[string]string
	Index map[string]render.SearchDocument
	Log   []string
	Sec   *ref.Sec
	World *ref.World
	// Skip says that the book is too costly to parse, has a page whose name
	// is no file name, or is one of the known
	// findings: titles which refer to themselves, or sections without a title in
	// a table of contents.
	Skip bool
}

// MaxCost bounds the parse cost of the inputs of a workload.
const MaxCost = 400000

// NewWorld is the environment to evaluate the book in.
func (b Book) NewWorld() *ref.World {
	return &ref.World{Files: b.Files, Plugins: ref.Probes(), AllowBroken: b.AllowBroken, MaxCost: MaxCost}
}

// HTMLRender renders with the default templates.
func HTMLRender() *ref.Render { return &ref.Render{Ext: "html"} }

// Model builds the book with the reference model.
func Model(b Book, rend *ref.Render) (out Expected) {
	w := b.NewWorld()
	out.World = w
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case ref.Circular, ref.Untitled:
				out.Skip = true
			default:
				panic(r)
			}
		}
	}()
	sec, err := w.Load(nil, b.Root)
	out.Log = w.Log
	if w.TooCostly {
		out.Skip = true
		return
	}
	if err != nil {
		out.Err = err
		return
	}
	out.Sec = sec

	ext := "html"
	if b.Text != "" {
		ext = b.Text
	}
	out.Pages = map[string]string{}
	for _, s := range sec.Pages() {
		var page string
		if b.Text != "" {
			t := b.TextRender
			if t == nil {
				t = &ref.TextRender{Extra: b.Templates != nil}
			}
			t.Ext = ext
			page, err = t.Page(s)
		} else {
			page, err = rend.PageHTML(s)
		}
		if err != nil {
			out.Err = err
			return
		}
		if strings.Contains(s.Page(ext), "/") {
			out.Skip = true // a page can not be written there
			return
		}
		out.Pages[s.Page(ext)] = page
	}

	if b.Index {
		out.Index = Index(sec, ext)
	}
	return
}

// Index is the search index a book is to have.
func Index(sec *ref.Sec, ext string) map[string]render.SearchDocument {
	out := map[string]render.SearchDocument{}
	for _, s := range sec.All() {
		for _, t := range s.Tags {
			text := ref.Text(s.Body)
			if t.Content != nil {
				text = ref.Text(t.Content)
			}
			page, frag := s.URL(ext, t.Anchor)
			out[t.Name] = render.SearchDocument{
				Location:   ref.PageURL(page, frag),
				Title:      ref.Text(t.Title),
				Text:       text,
				Depth:      s.Depth(),
				SectionTag: s.Primary.Name,
			}
		}
	}
	return out
}

func at(loc booklit.ErrorLocation) ref.At {
	return ref.At{File: loc.FilePath, Loc: ref.Loc{Line: loc.NodeLocation.Line, Col: loc.NodeLocation.Col}}
}

// Classify describes an error of the real code in the terms of the model.
func Classify(err error) *ref.Err {
	var (
		parse     booklit.ParseError
		undefined booklit.UndefinedFunctionError
		failed    booklit.FailedFunctionError
		unknown   booklit.UnknownTagError
		ambiguous booklit.AmbiguousReferenceError
		twice     booklit.TitleTwiceError
	)
	fill := func(kind string, loc booklit.ErrorLocation) *ref.Err {
		a := at(loc)
		return &ref.Err{Kind: kind, File: a.File, Loc: a.Loc, Len: loc.Length}
	}
	switch {
	case errors.As(err, &parse):
		e := fill("parse", parse.ErrorLocation)
		return e
	case errors.As(err, &undefined):
		e := fill("undefined", undefined.ErrorLocation)
		e.Fn = undefined.Function
		return e
	case errors.As(err, &failed):
		e := fill("failed", failed.ErrorLocation)
		e.Fn = failed.Function
		e.Msg = failed.Err.Error()
		e.Plugin = failed.Err
		return e
	case errors.As(err, &unknown):
		e := fill("unknown-tag", unknown.ErrorLocation)
		e.Tag = unknown.TagName
		for _, t := range unknown.SimilarTags {
			e.Simil = append(e.Simil, t.Name)
		}
		return e
	case errors.As(err, &ambiguous):
		e := fill("ambiguous", ambiguous.ErrorLocation)
		e.Tag = ambiguous.TagName
		for _, l := range ambiguous.DefinedLocations {
			e.Other = append(e.Other, at(l))
		}
		return e
	case errors.As(err, &twice):
		e := fill("title-twice", twice.ErrorLocation)
		e.Other = []ref.At{at(twice.TitleLocation)}
		return e
	case unreadable(err):
		return &ref.Err{Kind: "missing", Msg: err.Error()}
	}
	return &ref.Err{Kind: "plain", Msg: err.Error()}
}

// DiffErr compares an error with the expected one.
func DiffErr(got, want error) string {
	switch {
	case got == nil && want == nil:
		return ""
	case got == nil:
		return fmt.Sprintf("no error reported, want: %s", want)
	case want == nil:
		return fmt.Sprintf("unexpected error: %s", got)
	}

	g := Classify(got)
	if t, ok := want.(ref.ErrTemplate); ok {
		if !strings.Contains(got.Error(), t.Name) {
			return fmt.Sprintf("error %q does not say that %s", got, t)
		}
		return ""
	}
	if p, ok := want.(ref.Plain); ok {
		if !strings.Contains(got.Error(), string(p)) {
			return fmt.Sprintf("error %q does not say %q", got, p)
		}
		return ""
	}
	w, ok := want.(*ref.Err)
	if !ok {
		return fmt.Sprintf("error %q, want %q", got, want)
	}

	bad := func() string {
		return fmt.Sprintf("error is %s (%s)\n   want %s", show(g), got, show(w))
	}
	switch w.Kind {
	case "arity", "plain":
		if g.Kind != "plain" || !strings.Contains(g.Msg, w.Fn) && !strings.Contains(g.Msg, w.Msg) {
			return bad()
		}
		return ""
	case "missing":
		if g.Kind != "missing" {
			return bad()
		}
		return ""
	case "parse":
		if g.Kind != "parse" || g.File != w.File {
			return bad()
		}
		return ""
	}

	if g.Kind != w.Kind || g.File != w.File || g.Loc != w.Loc || g.Len != w.Len || g.Fn != w.Fn || g.Tag != w.Tag {
		return bad()
	}
	if !sameStrings(g.Simil, w.Simil) || !sameAts(g.Other, w.Other) {
		return bad()
	}
	if w.Kind == "failed" {
		if p, ok := w.Plugin.(ref.Plain); ok && g.Msg != string(p) {
			return bad()
		}
		if p, ok := w.Plugin.(*ref.Err); ok {
			if p.Kind == "missing" {
				if !unreadable(g.Plugin) {
					return bad()
				}
			} else if !strings.Contains(g.Msg, p.Fn) && !strings.Contains(g.Msg, p.Msg) {
				return bad()
			}
		}
	}
	return ""
}

// unreadable says whether a file could not be read, as it does not exist or is
// a directory.
func unreadable(err error) bool {
	var path *os.PathError
	return errors.As(err, &path)
}

func show(e *ref.Err) string {
	return fmt.Sprintf("%s at %s:%d:%d+%d fn=%q tag=%q msg=%q similar=%q others=%v", e.Kind, e.File, e.Loc.Line, e.Loc.Col, e.Len, e.Fn, e.Tag, e.Msg, e.Simil, e.Other)
}

func sameStrings(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

func sameAts(a, b []ref.At) bool {
	f := func(as []ref.At) []string {
		out := []string{}
		for _, a := range as {
			out = append(out, fmt.Sprint(a))
		}
		return out
	}
	return sameStrings(f(a), f(b))
}

// DiffPages compares the pages written.
func DiffPages(got, want map[string]string, text bool) string {
	if d := DiffKeys(got, want); d != "" {
		return d
	}
	for _, n := range Keys(want) {
		if text {
			g, w := TextLines(got[n]), TextLines(want[n])
			if g != w {
				return fmt.Sprintf("page %s: %s\n   got: %q\n  want: %q", n, firstDiff(g, w), g, w)
			}
			continue
		}
		if d := cmp.Diff(cmp.Tokens(got[n]), cmp.Tokens(want[n])); d != "" {
			return fmt.Sprintf("page %s: %s", n, d)
		}
	}
	return ""
}

func firstDiff(g, w string) string {
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	around := func(s string) string {
		from, to := i-60, i+60
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf("at byte %d: got ...%q, want ...%q", i, around(g), around(w))
}

// TextLines normalises blank lines.
func TextLines(s string) string {
	var out []string
	blank := false
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			blank = len(out) > 0
			continue
		}
		if blank {
			out = append(out, "")
		}
		blank = false
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// Keys are the sorted keys.
func Keys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// DiffKeys compares the names of the pages.
func DiffKeys(got, want map[string]string) string {
	g, w := Keys(got), Keys(want)
	if !sameStrings(g, w) {
		return fmt.Sprintf("pages written: %q\n         want: %q", g, w)
	}
	return ""
}

// DiffIndex compares search indexes.
func DiffIndex(got, want map[string]render.SearchDocument) string {
	for _, k := range Keys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("search index has no entry for tag %q (entries: %q)", k, Keys(got))
		}
		w := want[k]
		if cmp.Canon(g.Location) != cmp.Canon(w.Location) {
			return fmt.Sprintf("search index of tag %q is at %q, want %q", k, g.Location, w.Location)
		}
		g.Location = w.Location
		if g != w {
			return fmt.Sprintf("search index of tag %q:\n   got: %+v\n  want: %+v", k, g, w)
		}
	}
	for _, k := range Keys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("search index has an entry for %q, which is no tag", k)
		}
	}
	return ""
}

// DiffLog compares the calls.
func DiffLog(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(none)", "(none)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("call %d:\n   got: %s\n  want: %s", i, g, w)
		}
	}
	return ""
}

// Diff compares everything.
func Diff(b Book, got Outcome, want Expected) string {
	if got.Panic != "" {
		return "panic: " + got.Panic
	}
	if d := DiffErr(got.Err, want.Err); d != "" {
		return d
	}
	if d := DiffLog(got.Log, want.Log); d != "" {
		return d
	}
	if want.Err != nil {
		// whether the error can be presented is part of the outcome
		return Present(got.Err)
	}
	if d := DiffPages(got.Pages, want.Pages, b.Text != ""); d != "" {
		return d
	}
	if b.Index {
		if d := DiffIndex(got.Index, want.Index); d != "" {
			return d
		}
	}
	return ""
}

// Present checks that an error can be presented.
func Present(err error) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic presenting the error: %v", r)
		}
	}()
	var pretty booklit.PrettyError
	if errors.As(err, &pretty) {
		var buf bytes.Buffer
		pretty.PrettyPrint(&buf)
		if buf.Len() == 0 {
			return "error prints as nothing"
		}
		buf.Reset()
		if e := pretty.PrettyHTML(&buf); e != nil {
			return "error page failed: " + e.Error()
		}
	}
	return ""
}

// Command builds the book the way the command does, in process, in the current
// directory, to which the files have been written already. It renders only the
// section of the tag, unless that is empty.
func Command(b Book, tag string, slow time.Duration) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			out.Panic = fmt.Sprint(r)
		}
	}()
	if err := os.RemoveAll("out-cmd"); err != nil {
		out.Err = fmt.Errorf("harness: %w", err)
		return
	}

	plug.Reset()
	plug.ForceMu.Lock()
	plug.Forces = map[string]int{}
	plug.Phase = "command"
	plug.ForceMu.Unlock()
	defer func() { booklit.AllowBrokenReferences = false }()

	cmd := booklitcmd.Command{
		In: b.Root, Out: "out-cmd", SectionTag: tag, SaveSearchIndex: b.Index,
		AllowBrokenReferences: b.AllowBroken, SlowInvokeThreshold: slow,
	}
	if b.Text != "" {
		cmd.TextEngine.FileExtension = b.Text
	}
	if b.Templates != nil {
		cmd.HTMLEngine.Templates, cmd.TextEngine.Templates = "tmpl", "tmpl"
	}
	out.Err = cmd.Execute(nil)
	out.Log = plug.Log()
	var err error
	if out.Pages, err = ReadTree("out-cmd"); err != nil {
		if out.Err == nil {
			out.Err = fmt.Errorf("harness: %w", err)
		}
		return
	}
	if idx, ok := out.Pages["search_index.json"]; ok && b.Index {
		delete(out.Pages, "search_index.json")
		if err := json.Unmarshal([]byte(idx), &out.Index); err != nil {
			out.Err = fmt.Errorf("search index is not valid JSON: %w", err)
		}
	}
	return
}

// DiffCommand builds the book again the way the command does, and compares that
// with what came of it before.
func DiffCommand(b Book, got Outcome, slow time.Duration) string {
	cmd := Command(b, "", slow)
	switch {
	case cmd.Panic != "":
		return "the command panics: " + cmd.Panic
	case fmt.Sprint(cmd.Err) != fmt.Sprint(got.Err):
		return fmt.Sprintf("the command fails with %q, loading and writing the book with %q", fmt.Sprint(cmd.Err), fmt.Sprint(got.Err))
	}
	if d := DiffLog(cmd.Log, got.Log); d != "" {
		return "built by the command: " + d
	}
	if got.Err != nil {
		return ""
	}
	if d := DiffKeys(cmd.Pages, got.Pages); d != "" {
		return "built by the command: " + d
	}
	for _, n := range Keys(got.Pages) {
		if cmd.Pages[n] != got.Pages[n] {
			return fmt.Sprintf("page %s is different if the command builds it: %s", n, firstDiff(cmd.Pages[n], got.Pages[n]))
		}
	}
	if b.Index {
		if d := DiffIndex(cmd.Index, got.Index); d != "" {
			return "built by the command: " + d
		}
	}
	return ""
}
