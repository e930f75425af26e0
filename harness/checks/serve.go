package checks

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/fw"
	"verif/gen"
	"verif/run"
)

// server is a development server.
type server struct {
	cmd    *exec.Cmd
	base   string
	stderr *syncBuffer
	exited chan struct{}
	client *http.Client
}

type syncBuffer struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (b *syncBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.buf.Len() > 4<<20 {
		b.buf.Reset()
	}
	return b.buf.Write(p)
}

func (b *syncBuffer) String() string { b.mu.Lock(); defer b.mu.Unlock(); return b.buf.String() }

// serve starts a development server on a free port.
func serve(args ...string) *server {
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			fw.Bail("%s", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()

		s := &server{stderr: &syncBuffer{}, exited: make(chan struct{}), base: fmt.Sprintf("http://127.0.0.1:%d", port)}
		s.cmd = booklitCmd(append(args, "-s", fmt.Sprint(port))...)
		s.cmd.Stdout, s.cmd.Stderr = s.stderr, s.stderr
		s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			fw.Bail("%s", err)
		}
		go func() { _ = s.cmd.Wait(); close(s.exited) }()
		s.client = &http.Client{
			Timeout:       100 * time.Second,
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
			Transport:     &http.Transport{MaxIdleConnsPerHost: 64},
		}
		if s.up(port) {
			return s
		}
		s.stop()
	}
	fw.Bail("cannot start a server")
	return nil
}

// up waits until our server listens on the port, and not somebody else.
func (s *server) up(port int) bool {
	for i := 0; i < 2000; i++ {
		if s.dead() {
			return false
		}
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			conn.Close()
			return owns(s.cmd.Process.Pid, port)
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// owns says whether a process has the listening socket of the port.
func owns(pid, port int) bool {
	want := fmt.Sprintf(":%04X", port)
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		data, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(data), "\n") {
			fs := strings.Fields(l)
			if len(fs) > 9 && fs[3] == "0A" && strings.HasSuffix(fs[1], want) {
				inodes["socket:["+fs[9]+"]"] = true
			}
		}
	}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, fd := range fds {
		if to, err := os.Readlink(fd); err == nil && inodes[to] {
			return true
		}
	}
	return false
}

func (s *server) dead() bool {
	select {
	case <-s.exited:
		return true
	default:
		return false
	}
}

func (s *server) stop() {
	_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	<-s.exited
	s.client.CloseIdleConnections()
}

// answer is a response.
type answer struct {
	status         int
	body, location string
}

// kept is a page which a browser keeps.
type kept struct {
	answer
	modified, etag string
}

func (s *server) get(path string) (answer, error) { return s.getAgain(path, nil) }

// getAgain gets a page like a browser which keeps pages, if it is given any.
func (s *server) getAgain(path string, pages map[string]kept) (answer, error) {
	req, err := http.NewRequest("GET", s.base+path, nil)
	if err != nil {
		return answer{}, err
	}
	have := pages[path]
	if have.modified != "" {
		req.Header.Set("If-Modified-Since", have.modified)
	}
	if have.etag != "" {
		req.Header.Set("If-None-Match", have.etag)
	}
	resp, err := s.client.Do(req)
	if err != nil {
		return answer{}, err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	got := answer{resp.StatusCode, string(body), resp.Header.Get("Location")}
	if got.status == http.StatusNotModified && have.status != 0 {
		return have.answer, err
	}
	if pages != nil {
		pages[path] = kept{got, resp.Header.Get("Last-Modified"), resp.Header.Get("ETag")}
	}
	return got, err
}

// clean says whether the name can be asked for as it is.
func cleanName(name string) bool {
	return name != "" && path.Clean("/"+name+".html") == "/"+name+".html"
}

// fresh is what a server just started would say.
type fresh struct {
	err     error // loading
	sec     *booklit.Section
	engErr  error
	eng     *render.HTMLEngine
	static  http.Handler
	answers map[string]answer
}

func freshly(root, tmpl string) *fresh {
	f := &fresh{answers: map[string]answer{}, static: http.FileServer(http.Dir("static"))}
	f.sec, f.err = (&load.Processor{}).LoadFile(root, run.Factories)
	f.eng = render.NewHTMLEngine()
	if tmpl != "" {
		f.engErr = f.eng.LoadTemplates(tmpl)
	}
	return f
}

// rendered says whether what is asked for is no file.
func (f *fresh) rendered(path string) bool {
	if path == "/" {
		path = "/index.html"
	}
	return strings.HasSuffix(path, ".html") && (f.err != nil || len(f.sec.FindTag(strings.TrimSuffix(strings.TrimPrefix(path, "/"), ".html"))) > 0)
}

func failing(err error) answer {
	rec := httptest.NewRecorder()
	rec.WriteHeader(http.StatusInternalServerError)
	booklit.ErrorResponse(rec, err)
	return answer{status: rec.Code, body: rec.Body.String()}
}

func (f *fresh) get(path string) answer {
	file := path
	if file == "/" {
		file = "/index.html"
	}
	if strings.HasSuffix(file, ".html") {
		if f.err != nil {
			return failing(f.err)
		}
		tags := f.sec.FindTag(strings.TrimSuffix(strings.TrimPrefix(file, "/"), ".html"))
		if len(tags) > 0 {
			if f.engErr != nil {
				return failing(f.engErr)
			}
			var buf bytes.Buffer
			if err := f.eng.RenderSection(&buf, tags[0].Section); err != nil {
				return failing(err)
			}
			return answer{status: 200, body: buf.String()}
		}
	}
	rec := httptest.NewRecorder()
	f.static.ServeHTTP(rec, httptest.NewRequest("GET", (&url.URL{Path: path}).EscapedPath(), nil))
	return answer{rec.Code, rec.Body.String(), rec.Header().Get("Location")}
}

// tagNames are the names of all tags.
func tagNames(s *booklit.Section) []string {
	out := []string{}
	for _, t := range s.Tags {
		out = append(out, t.Name)
	}
	for _, k := range s.Children {
		out = append(out, tagNames(k)...)
	}
	return out
}

func init() {
	add(&fw.Check{
		ID: "C17", Quick: 90, Thorough: 3000,
		Rule: "a case is a development server for a random book (included files, splitting, plugins, templates of the user's or not), and a history of edits: lines added, removed and changed, sections and includes coming and going, syntax broken and mended, files removed and restored, older contents with older times, templates changed, broken and removed, static files; after each, some or all pages (by all names) and other files are asked for and the answers compared byte for byte with those of a fresh load and engine; pages of the book also with the model's; distinct by history",
		Need: []string{"answers compared", "edits", "pages served", "error pages served", "static files served", "unknown names", "answers with templates", "times set back", "books mended", "edits during a request", "symbolic links"},
		Run:  historyCase,
	})
}

// clock gives times for files, each different from all before.
type clock struct {
	now  time.Time
	past []time.Time
	had  map[string]map[time.Time]bool
	c    *fw.Ctx

	links bool // some new files are symbolic links
}

func newClock(c *fw.Ctx) *clock {
	return &clock{links: c.I%3 == 1, now: time.Unix(1500000000, 0), had: map[string]map[time.Time]bool{}, c: c}
}

// next is a time which the file did not have before; others may have had it.
func (k *clock) next(name string) time.Time {
	if k.had[name] == nil {
		k.had[name] = map[time.Time]bool{}
	}
	at := k.pick()
	if len(k.past) > 0 && k.c.R.Intn(4) == 0 {
		if other := k.past[k.c.R.Intn(len(k.past))]; !k.had[name][other] {
			at = other
			k.c.Count("times of other files")
		}
	}
	k.had[name][at] = true
	return at
}

func (k *clock) pick() time.Time {
	k.now = k.now.Add(time.Duration(1+k.c.R.Intn([]int{3000, 200}[k.c.R.Intn(2)])) * time.Millisecond)
	at := k.now
	if len(k.past) > 0 && k.c.R.Intn(3) == 0 {
		// set back, to no time there was
		at = time.Unix(1400000000, 0).Add(-time.Duration(len(k.past)) * time.Second)
		k.c.Count("times set back")
	}
	k.past = append(k.past, at)
	return at
}

func (k *clock) write(name, data string) { k.writeAt(name, data, k.next(name)) }

// link makes a file which does not exist a symbolic link to one elsewhere.
func (k *clock) link(name string) {
	if _, err := os.Lstat(name); err == nil {
		return
	}
	_ = os.MkdirAll(filepath.Dir(name), 0755)
	real, err := filepath.Abs("real/" + strings.ReplaceAll(name, "/", "-"))
	if err != nil {
		fw.Bail("%s", err)
	}
	mustWrite(real, "")
	if err := os.Symlink(real, name); err != nil {
		fw.Bail("%s", err)
	}
	k.c.Count("symbolic links")
}

func (k *clock) writeAt(name, data string, at time.Time) {
	if k.links && k.c.R.Intn(3) == 0 {
		k.link(name)
	}
	mustWrite(name, data)
	if k.had[name] == nil {
		k.had[name] = map[time.Time]bool{}
	}
	k.had[name][at] = true
	if err := os.Chtimes(name, at, at); err != nil {
		fw.Bail("%s", err)
	}
}

// midwayCase edits a file while a request is loading the book, in the middle of
// a function, and sees what is served from then on.
func midwayCase(c *fw.Ctx) {
	c.Scratch()
	k := newClock(c)
	texts := map[string]string{
		"index.lit": "\\title{Root}{index}\n\nV root.\n\n" + pick(c.R, []string{"", "\\split-sections\n\n"}) + "\\include-section{a.lit}\n\n\\include-section{sub/b.lit}\n\n\\include-section{c.lit}\n",
		"a.lit":     "\\title{First}{a}\n\nV first.\n",
		"sub/b.lit": "\\title{Second}{b}\n\nV second.\n",
		"c.lit":     "\\title{Third}{c}\n\nV third.\n",
	}
	names := run.Keys(texts)
	where := names[c.R.Intn(len(names))]
	wait := "\\use-plugin{probe}\n\n\\await{gate}\n\n"
	switch c.R.Intn(3) {
	case 0:
		texts[where] = strings.Replace(texts[where], "V ", wait+"V ", 1)
	case 1:
		texts[where] += "\n" + wait
	default:
		texts[where] += "\n\\section{\n\\title{Inline}{inline}\n\n" + wait + "}\n"
	}
	version := map[string]int{}
	put := func(name string) {
		version[name]++
		k.write(name, strings.Replace(texts[name], "V ", fmt.Sprintf("V%d ", version[name]), 1))
	}
	for _, n := range names {
		put(n)
	}
	_ = os.MkdirAll("static", 0755)
	s := serve("-i", "index.lit", "-o", "static")
	defer s.stop()
	story := fmt.Sprintf("waiting in %s:\n%s\n", where, indentText(texts[where]))
	tell := func(f string, a ...interface{}) {
		story += fmt.Sprintf(f, a...) + "\n"
		c.Input(story)
	}
	same := func(got answer, what string) bool {
		want := freshly("index.lit", "").get("/" + what)
		if got != want {
			c.Fail("%s after an edit: status %d: %s\n a fresh server says %d: %s", what, got.status, clipped(got.body), want.status, clipped(want.body))
			return false
		}
		c.Count("answers compared")
		return true
	}
	pages := []string{"index.html", "a.html", "b.html", "c.html"}
	if c.R.Intn(2) == 0 {
		if _, err := s.get("/"); err != nil {
			c.Fail("%s", err)
			return
		}
		for _, n := range names {
			if c.R.Intn(2) == 0 || n == where {
				put(n)
			}
		}
	}
	for round := 0; round < 3; round++ {
		_ = os.Remove("gate.go")
		mustWrite("gate.armed", "")
		done := make(chan error, 1)
		go func() { _, err := s.get("/" + pick(fw.Rand(int64(round)), pages)); done <- err }()
		waiting := false
		for i := 0; i < 1500 && !waiting; i++ {
			_, err := os.Stat("gate.armed")
			waiting = err != nil
			time.Sleep(2 * time.Millisecond)
		}
		if !waiting {
			_ = os.Remove("gate.armed")
			mustWrite("gate.go", "")
			<-done
			c.Fail("the function is not called")
			return
		}
		for n := 1 + c.R.Intn(2); n > 0; n-- {
			n := names[c.R.Intn(len(names))]
			put(n)
			tell("edit of %s while it waits", n)
			c.Count("edits")
			c.Count("edits during a request")
		}
		// asked for after the edit, and while the other request still is at it
		page := pages[c.R.Intn(len(pages))]
		type result struct {
			got answer
			err error
		}
		other := make(chan result, 1)
		go func() { got, err := s.get("/" + page); other <- result{got, err} }()
		select {
		case r := <-other:
			other <- r
		case <-time.After(150 * time.Millisecond):
		}
		mustWrite("gate.go", "")
		if err := <-done; err != nil {
			c.Fail("%s", err)
			return
		}
		r := <-other
		if r.err != nil {
			c.Fail("%s", r.err)
			return
		}
		tell("request %s", page)
		if !same(r.got, page) {
			return
		}
		for _, page := range pages {
			got, err := s.get("/" + page)
			if err != nil {
				c.Fail("%s", err)
				return
			}
			tell("request %s", page)
			if !same(got, page) {
				return
			}
		}
		put(where)
	}
	c.Key(story)
}

func historyCase(c *fw.Ctx) {
	if c.I%8 == 6 {
		midwayCase(c)
		return
	}
	p := gen.Everything()
	p.Includes, p.Split, p.Levels, p.Sections = 70, 50, 2, 2
	p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
	p.Blocks, p.Faults = 2, 0
	p.TOC = 30
	p.SameNames = 30
	if c.I%4 == 1 {
		p.OddTags = true
	}
	var b run.Book
	for try := 0; ; try++ {
		g := gen.New(c.R, p)
		b = g.Book()
		if want := run.Model(b, run.HTMLRender()); want.Err == nil && !want.Skip && len(b.Files) > 1 {
			break
		}
		if try > 30 {
			c.Trivial()
			return
		}
	}
	if c.I%3 == 0 {
		// as most books have it
		b.Files[b.Root] = strings.Replace(b.Files[b.Root], "\\title{", "\\title{I ", 1)
	}
	story := b.String()
	c.Input(story)
	c.Scratch()
	k := newClock(c)
	files := map[string]string{}
	start := k.pick()
	together := c.R.Intn(2) == 0 // as from an archive or a checkout
	for _, n := range run.Keys(b.Files) {
		files[n] = b.Files[n]
		if together {
			k.writeAt(n, b.Files[n], start)
		} else {
			k.write(n, b.Files[n])
		}
	}
	good := b.Files
	mustWrite("static/style.css", "body{}")
	mustWrite("static/extra.html", "<p>not of the book</p>")
	mustWrite("static/sub/index.html", "<p>below</p>")
	args := []string{"-i", b.Root, "-o", "static"}
	tmpl := ""
	if c.I%2 == 0 {
		tmpl = dirName(c, "tmpl")
		args = append(args, "--html-templates", tmpl)
		_ = os.MkdirAll(tmpl, 0755)
		if c.R.Intn(2) == 0 {
			k.write(tmpl+"/section.tmpl", "first "+bundled("section", false))
		}
	}
	if c.I%5 == 3 {
		args = append(args, "--allow-broken-references")
		booklit.AllowBrokenReferences = true
		defer func() { booklit.AllowBrokenReferences = false }()
		c.Count("servers which allow broken references")
	}
	if c.I%7 == 3 {
		args = append(args, "-d", "--slow-invoke-threshold", "1us")
	}
	s := serve(args...)
	defer s.stop()
	names := run.Keys(b.Files)
	var known []string
	broken := false
	tell := func(f string, a ...interface{}) {
		story += fmt.Sprintf(f, a...) + "\n"
		c.Input(story)
	}

	pagesKept := map[string]kept{}
	// probe compares some answers
	probe := func(all bool) bool {
		f := freshly(b.Root, tmpl)
		paths := []string{"/", "/no-such-page.html", "/style.css", "/extra.html", "/sub/", "/none.txt", "/index.html"}
		if f.err == nil {
			known = append(known, tagNames(f.sec)...)
			if broken {
				c.Count("books mended")
			}
			broken = false
		} else {
			broken = true
		}
		seen := map[string]bool{}
		for _, n := range known {
			if cleanName(n) && !seen[n] {
				seen[n] = true
				paths = append(paths, "/"+n+".html")
			}
		}
		c.R.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
		if !all {
			paths = paths[:1+c.R.Intn(len(paths))]
		}
		if len(paths) > 40 {
			paths = paths[:40]
		}
		for _, p := range paths {
			want := f.get(p)
			escaped := (&url.URL{Path: p}).EscapedPath()
			if c.R.Intn(12) == 0 {
				escaped += "?v=1"
			}
			var browser map[string]kept
			if f.rendered(p) && c.R.Intn(2) == 0 {
				browser = pagesKept
				c.Count("pages asked for by a browser which keeps them")
			}
			got, err := s.getAgain(escaped, browser)
			if err != nil {
				if s.dead() {
					c.Fail("the server ended on %s: %s", p, clipped(s.stderr.String()))
				} else {
					c.Fail("%s: %s", p, err)
				}
				return false
			}
			c.Count("answers compared")
			if got.location != "" {
				got.body, want.body = "", ""
				got.location, _, _ = strings.Cut(got.location, "?")
			}
			if got != want {
				i := 0
				for i < len(got.body) && i < len(want.body) && got.body[i] == want.body[i] {
					i++
				}
				tell("request %s", p)
				c.Fail("%s: status %d (%s) at byte %d: %q\n a fresh server says %d (%s): %q", p, got.status, got.location, i, clipped(around(got.body, i)), want.status, want.location, clipped(around(want.body, i)))
				return false
			}
			switch {
			case got.status == 500:
				c.Count("error pages served")
				if f.err != nil {
					if d := told(c, f.err); d != "" {
						c.Fail("%s: %s", p, d)
						return false
					}
				}
			case got.status == 200 && f.err == nil && len(f.sec.FindTag(strings.TrimSuffix(p[1:], ".html"))) > 0:
				c.Count("pages served")
				if tmpl != "" {
					c.Count("answers with templates")
				}
			case got.status == 200:
				c.Count("static files served")
			default:
				c.Count("unknown names")
			}
		}
		return true
	}

	if !probe(c.R.Intn(3) > 0) {
		return
	}
	steps := 7
	for step := 0; step < steps; step++ {
		for n := 1 + c.R.Intn(2); n > 0; n-- {
			c.Count("edits")
			if tmpl != "" && c.R.Intn(4) == 0 {
				n := pick(c.R, []string{"section", "page", "string", "paragraph", "toc", "reference", "custom"})
				file := tmpl + "/" + n + ".tmpl"
				switch c.R.Intn(6) {
				case 5:
					_ = os.RemoveAll(tmpl)
					if c.R.Intn(2) == 0 {
						_ = os.MkdirAll(tmpl, 0755)
					}
					tell("remove all templates")
					c.Count("all templates removed")
				case 0:
					_ = os.Remove(file)
					tell("remove %s", file)
				case 1:
					k.write(file, pick(c.R, []string{"{{", "{{nosuch}}", "{{end}}", "{{.NoSuchField}}"}))
					tell("break %s", file)
				default:
					k.write(file, fmt.Sprintf("v%d%s", step, bundled(n, false)))
					tell("write %s v%d", file, step)
				}
				continue
			}
			if c.R.Intn(12) == 0 {
				n := pick(c.R, []string{"style.css", "extra.html", "index.html", "none.txt"})
				mustWrite("static/"+n, fmt.Sprintf("static v%d", step))
				tell("write static/%s", n)
				continue
			}
			name := names[c.R.Intn(len(names))]
			src, there := files[name]
			before := src
			lines := strings.Split(src, "\n")
			at := c.R.Intn(len(lines))
			insert := func(l string) {
				lines = append(lines[:at], append([]string{"", l, ""}, lines[at:]...)...)
				src = strings.Join(lines, "\n")
			}
			end := func(l string) { src = strings.TrimRight(src, "\n") + "\n\n" + l + "\n" }
			what := ""
			switch c.R.Intn(13) {
			case 0, 1:
				what = "restore"
				src, there = good[name], true
			case 2:
				what = "remove"
				if name != b.Root || c.R.Intn(3) == 0 {
					there = false
				}
			case 3:
				what = "paragraph"
				end(fmt.Sprintf("NEW%d words", step))
			case 4:
				what = "title"
				src = strings.Replace(src, "\\title{", fmt.Sprintf("\\title{V%d ", step), 1)
			case 5:
				what = "section"
				end(fmt.Sprintf("\\section{\n\\title{Added %d}{added%d}\n\nbody\n}", step, step))
			case 6:
				what = "reference"
				t := "no-such-tag"
				if len(known) > 0 {
					t = known[c.R.Intn(len(known))]
				}
				if strings.ContainsAny(t, "\\{}") || c.R.Intn(4) == 0 {
					t = fmt.Sprintf("added%d", c.R.Intn(steps))
				}
				end("\\reference{" + t + "}{to it}")
			case 7:
				what = "syntax"
				end(pick(c.R, []string{"{", "}", "\\bold{", "\\no-such-function", "\\title{again}", "\\include-section{no-such.lit}", "\\bold{a}{b}"}))
			case 8:
				what = "split"
				end(pick(c.R, []string{"\\split-sections", "\\single-page", "\\table-of-contents", "\\omit-children-from-table-of-contents", "\\styled{nosuchstyle}"}))
			case 9:
				what = "drop line"
				lines = append(lines[:at], lines[at+1:]...)
				src = strings.Join(lines, "\n")
			case 10:
				what = "tag"
				src = strings.Replace(src, "{s", "{r", 1)
			case 11:
				what = "insert"
				insert(fmt.Sprintf("INSERTED%d", step))
			case 12:
				what = "include"
				rel, err := filepath.Rel(filepath.Dir(name), names[c.R.Intn(len(names))])
				if err == nil {
					end("\\include-section{" + rel + "}")
				}
			}
			old, was := files[name]
			if there {
				files[name] = src
			} else {
				delete(files, name)
			}
			if want := run.Model(run.Book{Files: files, Root: b.Root}, run.HTMLRender()); want.Skip {
				if was {
					files[name] = old
				} else {
					delete(files, name)
				}
				continue
			}
			if !there {
				_ = os.Remove(name)
				tell("remove %s", name)
			} else if what == "restore" || src != before || !was {
				k.write(name, src)
				tell("%s %s:\n%s", what, name, indentText(src))
			}
		}
		if c.R.Intn(4) == 0 {
			continue
		}
		if !probe(c.R.Intn(3) > 0) {
			return
		}
		tell("some requests")
	}
	// all mended
	for _, n := range run.Keys(good) {
		if files[n] != good[n] || c.R.Intn(2) == 0 {
			files[n] = good[n]
			k.write(n, good[n])
		}
	}
	tell("all restored")
	if !probe(true) {
		return
	}
	if tmpl == "" {
		// and these are the pages the model has
		// (with broken references allowed or not, as the server is)
		sb := b
		sb.AllowBroken = c.I%5 == 3
		want := run.Model(sb, run.HTMLRender())
		for n, page := range want.Pages {
			if !cleanName(strings.TrimSuffix(n, ".html")) || n == "index.html" {
				continue
			}
			if got, err := s.get((&url.URL{Path: "/" + n}).EscapedPath()); err == nil {
				if d := run.DiffPages(map[string]string{n: got.body}, map[string]string{n: page}, false); d != "" && len(want.Sec.Pages()) == len(want.Pages) && single(want, n) {
					c.Fail("%s", d)
					return
				}
				c.Count("pages compared with the model")
			}
		}
	}
	c.Key(story)
}

// single says whether the page's name is a tag of one section only.
func single(want run.Expected, page string) bool {
	tag := strings.TrimSuffix(page, ".html")
	return len(want.Sec.Find(func(n string) bool { return n == tag })) == 1
}

func indentText(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

var _ = sort.Strings
