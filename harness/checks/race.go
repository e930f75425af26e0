package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"

	"verif/fw"
	"verif/run"
)

func init() {
	add(&fw.Check{
		ID: "C18", Quick: 32, Thorough: 1200, Race: true, Workers: 5,
		Rule: "a case is a development server built with the race detector, started cold under many clients at once while an editor replaces source files and templates (some versions do not parse); each file and template marks what it renders with its version, and all requests and edits are timed: every answer must be complete, hold one version per file which was current at some moment of the request, and be the page built from just these versions; an error only if there was a faulty version in that time; at the end all pages must be those of the last versions, and the race detector silent; distinct by page and versions shown",
		Need: []string{"answers checked", "answers overlapping an edit", "answers which are error pages", "pages compared with a build of their versions", "requests in flight at once (most)", "final pages compared", "edits", "template edits"},
		Run:  raceCase,
	})
}

// version of a file was current within from and to.
type version struct {
	from, to time.Time
	bad      bool
}

// shelf is a set of versioned files.
type shelf struct {
	mu    sync.Mutex
	of    map[string][]version
	src   func(name string, ver int) (string, bool)
	stamp time.Time
}

func (s *shelf) put(name string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	ver := len(s.of[name])
	src, bad := s.src(name, ver)
	if src == gone {
		from := time.Now()
		if err := os.Remove(name); err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		if ver > 0 {
			s.of[name][ver-1].to = time.Now()
		}
		s.of[name] = append(s.of[name], version{from: from, bad: true})
		return ver
	}
	tmp := ".new"
	if err := os.WriteFile(tmp, []byte(src), 0644); err != nil {
		panic(err)
	}
	s.stamp = s.stamp.Add(time.Second)
	if err := os.Chtimes(tmp, s.stamp, s.stamp); err != nil {
		panic(err)
	}
	from := time.Now()
	if err := os.Rename(tmp, name); err != nil {
		panic(err)
	}
	if ver > 0 {
		s.of[name][ver-1].to = time.Now()
	}
	s.of[name] = append(s.of[name], version{from: from, bad: bad})
	return ver
}

// gone is the source of a version which is no file.
const gone = "-"

// during lists the versions which were current at some moment in between.
func (s *shelf) during(name string, from, to time.Time) []int {
	out := []int{}
	for i, v := range s.of[name] {
		if !v.from.After(to) && (v.to.IsZero() || !v.to.Before(from)) {
			out = append(out, i)
		}
	}
	return out
}

type response struct {
	page       string
	answer     answer
	start, end time.Time
	err        error
}

var marker = regexp.MustCompile(`\b([FM])(\d+)v(\d+)q`)

func raceCase(c *fw.Ctx) {
	nFiles := 3 + c.R.Intn(4)
	parent := make([]int, nFiles+1)
	for i := 1; i <= nFiles; i++ {
		parent[i] = c.R.Intn(i)
	}
	split := make([]bool, nFiles+1)
	for i := range split {
		split[i] = c.R.Intn(2) == 0
	}
	split[0] = true
	name := func(i int) string {
		if i == 0 {
			return "index.lit"
		}
		return fmt.Sprintf("f%d.lit", i)
	}
	// references, stalls and so on are the same for all versions
	shape := make([]string, nFiles+1)
	for i := range shape {
		var sb strings.Builder
		for k := 0; k < 3+c.R.Intn(4); k++ {
			j := c.R.Intn(nFiles + 1)
			switch c.R.Intn(8) {
			case 0:
				fmt.Fprintf(&sb, "\\list{a MARK}{\\reference{f%d}}\n\n", j)
			case 1:
				fmt.Fprintf(&sb, "\\table-of-contents\n\n")
			case 2:
				fmt.Fprintf(&sb, "see \\reference{i%d}{inner} and \\reference{t%d} MARK\n\n", j, j)
			case 3:
				fmt.Fprintf(&sb, "\\deferred{z%dq} lazy MARK \\stall{%d}\n\n", i*10+k, c.R.Intn(400))
			case 4:
				fmt.Fprintf(&sb, "\\code{{{\nMARK\n  <b>\n}}}\n\n")
			case 5:
				fmt.Fprintf(&sb, "\\definitions{\\definition{MARK}{\\bold{\\reference{f%d}}}}\n\n", j)
			default:
				fmt.Fprintf(&sb, "\\reference{f%d} MARK \\aux{x} \\italic{of \\reference{i%d}}\n\n", j, j)
			}
		}
		shape[i] = sb.String()
	}
	faultEvery := []int{4, 7, 1000}[c.R.Intn(3)]
	sources := func(file string, ver int) (string, bool) {
		if strings.HasSuffix(file, ".tmpl") {
			if ver%faultEvery == faultEvery-1 {
				return "{{", true
			}
			return fmt.Sprintf(`<i class="mark">M0v%dq</i>`, ver) + bundled("section", false), false
		}
		i := 0
		_, _ = fmt.Sscanf(file, "f%d.lit", &i)
		m := fmt.Sprintf("F%dv%dq", i, ver)
		src := fmt.Sprintf("\\title{%s title}{f%d}\n\n\\use-plugin{probe}\n\n\\target{t%d}{%s target}\n\n", m, i, i, m)
		if i == 0 {
			src = strings.Replace(src, "{f0}", "{index}{f0}", 1)
		}
		if split[i] {
			src += "\\split-sections\n\n"
		}
		src += strings.ReplaceAll(shape[i], "MARK", m)
		src += fmt.Sprintf("\\section{\n\\title{%s inner}{i%d}\n\n%s text\n}\n\n", m, i, m)
		for k := 1; k <= nFiles; k++ {
			if parent[k] == i {
				src += fmt.Sprintf("\\include-section{f%d.lit}\n\n", k)
			}
		}
		src += m + " end\n"
		if ver%faultEvery == faultEvery-1 && i != 1 {
			if ver%(2*faultEvery) > faultEvery {
				return gone, true
			}
			return src + "\n{\n", true
		}
		return src, false
	}
	sh := &shelf{of: map[string][]version{}, src: sources, stamp: time.Unix(1500000000, 0)}
	all := []string{}
	for i := 0; i <= nFiles; i++ {
		all = append(all, name(i))
		sh.put(name(i))
	}
	args := []string{"-i", "index.lit", "-o", "static"}
	if c.I%3 == 1 {
		args = append(args, "-d", "--slow-invoke-threshold", "1us")
	}
	tmpl := c.I%3 != 0
	if tmpl {
		_ = os.MkdirAll("tmpl", 0755)
		all = append(all, "tmpl/section.tmpl")
		sh.put("tmpl/section.tmpl")
		args = append(args, "--html-templates", "tmpl")
	}
	mustWrite("static/style.css", strings.Repeat("static ", 1000))
	first, _ := sources(name(0), 0)
	second, _ := sources(name(1), 0)
	c.Input(first + "---\n" + second)

	procs := []string{"1", "2", "4", "8"}[c.R.Intn(4)]
	old := os.Getenv("GOMAXPROCS")
	_ = os.Setenv("GOMAXPROCS", procs)
	s := serve(args...)
	if old == "" {
		_ = os.Unsetenv("GOMAXPROCS")
	} else {
		_ = os.Setenv("GOMAXPROCS", old)
	}
	defer s.stop()

	pages := []string{"/", "/style.css", "/none.html", "/index.html"}
	for i := 0; i <= nFiles; i++ {
		pages = append(pages, fmt.Sprintf("/f%d.html", i), fmt.Sprintf("/i%d.html", i), fmt.Sprintf("/f%d.html", i))
	}

	clients := 2 + c.R.Intn(7)
	each := 9
	var mu sync.Mutex
	var responses []response
	flying, most := 0, 0
	var wg sync.WaitGroup
	for k := 0; k < clients; k++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.R.Int63()))
		go func() {
			defer wg.Done()
			for n := 0; n < each; n++ {
				page := pages[r.Intn(len(pages))]
				if r.Intn(15) == 0 {
					// one who does not wait
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.Intn(4000))*time.Microsecond)
					req, _ := http.NewRequestWithContext(ctx, "GET", s.base+page, nil)
					if resp, err := s.client.Do(req); err == nil {
						_, _ = io.CopyN(io.Discard, resp.Body, 10)
						resp.Body.Close()
					}
					cancel()
					continue
				}
				mu.Lock()
				flying++
				most = max(most, flying)
				mu.Unlock()
				resp := response{page: page, start: time.Now()}
				resp.answer, resp.err = s.get(page)
				resp.end = time.Now()
				mu.Lock()
				flying--
				responses = append(responses, resp)
				mu.Unlock()
			}
		}()
	}
	stop := make(chan bool)
	edited := make(chan int)
	er := rand.New(rand.NewSource(c.R.Int63()))
	pause := []int{3000, 20000, 100000}[c.R.Intn(3)]
	go func() {
		n := 0
		for {
			select {
			case <-stop:
				edited <- n
				return
			default:
			}
			sh.put(all[er.Intn(len(all))])
			n++
			time.Sleep(time.Duration(er.Intn(pause)) * time.Microsecond)
		}
	}()
	wg.Wait()
	close(stop)
	c.Count("edits", <-edited)
	c.Max("requests in flight at once (most)", most)
	if tmpl {
		c.Count("template edits", len(sh.of["tmpl/section.tmpl"])-1)
	}
	if s.dead() {
		c.Fail("the server ended: %s", raceReport(s.stderr.String()))
		return
	}

	// all requests and edits are over: what was said?
	sort.Slice(responses, func(i, j int) bool { return responses[i].start.Before(responses[j].start) })
	built := map[string]string{}
	for _, r := range responses {
		if r.err != nil {
			c.Fail("%s: %s", r.page, r.err)
			return
		}
		c.Count("answers checked")
		faulty := map[string]bool{}
		overlap := false
		for _, f := range all {
			vs := sh.during(f, r.start, r.end)
			overlap = overlap || len(vs) > 1
			for _, v := range vs {
				if sh.of[f][v].bad {
					faulty[f] = true
				}
			}
		}
		if overlap {
			c.Count("answers overlapping an edit")
		}
		switch {
		case r.page == "/style.css":
			if r.answer.status != 200 || r.answer.body != strings.Repeat("static ", 1000) {
				c.Fail("%s: status %d: %s", r.page, r.answer.status, clipped(r.answer.body))
				return
			}
			continue
		case r.answer.status == 500:
			// the error page reads the source again, which may be another by now
			named := len(faulty) > 0 && strings.Contains(r.answer.body, "failed to render error page")
			for f := range faulty {
				base := f
				if strings.HasPrefix(f, "tmpl/") {
					base = "section.tmpl"
				}
				named = named || strings.Contains(r.answer.body, base)
			}
			if !named {
				c.Fail("%s: status 500, though the faulty versions of the time were of %q: %s", r.page, run.Keys(faulty), clipped(stripTags(r.answer.body[max(0, strings.Index(r.answer.body, "<body")):])))
				return
			}
			c.Count("answers which are error pages")
			continue
		case r.page == "/none.html":
			if r.answer.status != 404 {
				c.Fail("%s: status %d: %s", r.page, r.answer.status, clipped(r.answer.body))
				return
			}
			continue
		case r.answer.status != 200:
			c.Fail("%s: status %d: %s", r.page, r.answer.status, clipped(r.answer.body))
			return
		}
		// one version per file, of the time
		shown := map[string]int{}
		for _, m := range marker.FindAllStringSubmatch(r.answer.body, -1) {
			i, v := 0, 0
			_, _ = fmt.Sscan(m[2], &i)
			_, _ = fmt.Sscan(m[3], &v)
			f := name(i)
			if m[1] == "M" {
				f = "tmpl/section.tmpl"
			}
			if was, ok := shown[f]; ok && was != v {
				c.Fail("%s: shows versions %d and %d of %s at once", r.page, was, v, f)
				return
			}
			shown[f] = v
		}
		if len(shown) == 0 {
			c.Fail("%s: an empty answer: %q", r.page, clipped(r.answer.body))
			return
		}
		key := r.page
		for _, f := range all {
			v, ok := shown[f]
			if !ok {
				continue
			}
			key += fmt.Sprintf(" %s:%d", f, v)
			vs := sh.during(f, r.start, r.end)
			in := false
			for _, x := range vs {
				in = in || x == v
			}
			if !in {
				c.Fail("%s: shows version %d of %s, during the request there were only %v", r.page, v, f, vs)
				return
			}
			c.Count("versions shown and timed")
		}
		if tmpl {
			if _, ok := shown["tmpl/section.tmpl"]; !ok {
				c.Fail("%s: is not rendered with the template: %s", r.page, clipped(r.answer.body))
				return
			}
		}
		c.Key(fmt.Sprintf("%d %s", c.I, key))
		want, ok := built[key]
		if !ok {
			if len(built) > 30 {
				continue
			}
			want = buildOf(r.page, all, shown, sources)
			built[key] = want
		}
		if want != r.answer.body {
			i := 0
			for i < len(want) && i < len(r.answer.body) && want[i] == r.answer.body[i] {
				i++
			}
			c.Fail("%s: is not the page built from the versions it shows (%s), at byte %d: %q\n want %q", r.page, key, i, around(r.answer.body, i), around(want, i))
			return
		}
		c.Count("pages compared with a build of their versions")
	}

	// at rest: good versions of all
	last := map[string]int{}
	for _, f := range all {
		for {
			v := len(sh.of[f]) - 1
			if !sh.of[f][v].bad {
				last[f] = v
				break
			}
			sh.put(f)
		}
	}
	for i := 0; i <= nFiles; i++ {
		page := fmt.Sprintf("/f%d.html", i)
		got, err := s.get(page)
		if err != nil {
			c.Fail("%s: %s: %s", page, err, raceReport(s.stderr.String()))
			return
		}
		if want := buildOf(page, all, last, sources); got.status != 200 || got.body != want {
			c.Fail("%s: status %d, and after all edits it is not the page of the last versions %v:\n%s\n want\n%s", page, got.status, last, clipped(got.body), clipped(want))
			return
		}
		c.Count("final pages compared")
	}
	if strings.Contains(s.stderr.String(), "DATA RACE") || s.dead() {
		c.Fail("%s", raceReport(s.stderr.String()))
	}
}

func raceReport(s string) string {
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:"} {
		if i := strings.Index(s, mark); i >= 0 {
			return clip(s[i:], 4000)
		}
	}
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func stripTags(s string) string { return regexp.MustCompile(`<[^>]*>`).ReplaceAllString(s, "") }

// buildOf builds a page of the given versions of the files.
func buildOf(page string, all []string, vers map[string]int, sources func(string, int) (string, bool)) string {
	_ = os.RemoveAll("built")
	eng := render.NewHTMLEngine()
	for _, f := range all {
		src, _ := sources(f, vers[f])
		mustWrite("built/"+f, src)
	}
	if _, err := os.Stat("built/tmpl"); err == nil {
		if err := eng.LoadTemplates("built/tmpl"); err != nil {
			fw.Bail("%s", err)
		}
	}
	sec, err := (&load.Processor{}).LoadFile("built/index.lit", run.Factories)
	if err != nil {
		fw.Bail("%s", err)
	}
	tag := strings.TrimSuffix(strings.TrimPrefix(page, "/"), ".html")
	if tag == "" {
		tag = "index"
	}
	tags := sec.FindTag(tag)
	if len(tags) == 0 {
		fw.Bail("no tag %s", tag)
	}
	var buf bytes.Buffer
	if err := eng.RenderSection(&buf, tags[0].Section); err != nil {
		fw.Bail("%s", err)
	}
	return buf.String()
}
