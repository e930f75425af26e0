package checks

import (
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"strings"

	"verif/fw"
	"verif/gen"
	"verif/run"
)

func init() {
	add(&fw.Check{
		ID: "C30", Quick: 110, Thorough: 4000, Race: true,
		Rule: "a case is a random book with calls that take their time in its text, arguments, titles and included files, built by the command without and with flags which only observe (debug logging, profiles, a threshold for slow calls), under the race detector; pages, index, stdout, exit status and the error must be the same, and exactly the slow calls be told of, each with its place; distinct by book and flags",
		Need: []string{"builds observed", "slow calls told of", "slow calls around others told of", "runs without a slow call told of", "profiles complete", "failures observed", "long builds of short calls"},
		Run:  observeCase,
	})
}

var slowLine = regexp.MustCompile(`([^\s"]+):(\d+): slow invoke: \\+([a-z-]+)`)

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fw.Bail("%s", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// manyCase has calls which take long together, but none of them alone.
func manyCase(c *fw.Ctx) {
	src := "\\title{Many}{index}\n\n\\use-plugin{probe}\n\n"
	for k := 0; k < 8; k++ {
		src += pick(c.R, []string{"\\linger{500}{a}", "\\linger{500}{\\bold{b}}", "x \\linger{500}{c} y"}) + pick(c.R, []string{"\n\n", "\n"})
	}
	c.Input(src)
	c.Key(src)
	mustWrite("index.lit", src)
	for try := 0; ; try++ {
		r := cli("-i", "index.lit", "-o", "out", "--slow-invoke-threshold", "3s")
		if r.code != 0 {
			c.Fail("does not build: %s", r)
			return
		}
		if len(slowLine.FindAllString(r.stderr, -1)) == 0 {
			c.Count("long builds of short calls")
			return
		}
		if try == 2 {
			c.Fail("calls which take half a second each are told to be slow, as if above 3s: %s", r)
			return
		}
	}
}

func observeCase(c *fw.Ctx) {
	if c.I%50 == 7 {
		manyCase(c)
		return
	}
	p := gen.Everything()
	p.Levels, p.Sections, p.Blocks = 2, 2, 2
	p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
	p.Faults = 0
	b := gen.New(c.R, p).Book()
	b.Index = c.R.Intn(2) == 0
	stdout := !b.Index && c.R.Intn(3) == 0

	// the calls which take their time, by place
	slow := map[string]string{}
	around := map[string]bool{}
	names := run.Keys(b.Files)
	calls := 0
	if c.I%4 > 0 {
		calls = 1 + c.R.Intn(3)
	}
	line := func(file string) int { return strings.Count(b.Files[file], "\n") + 1 }
	for k := 0; k < calls; k++ {
		file := names[c.R.Intn(len(names))]
		src := strings.ReplaceAll(strings.TrimRight(b.Files[file], "\r\n"), "\r\n", "\n") + "\n\n\\use-plugin{probe}\n\n"
		b.Files[file] = src
		note := func(at int, fn string) { slow[fmt.Sprintf("%s:%d", file, line(file)+at)+" "+fn] = fn }
		switch c.R.Intn(6) {
		case 0:
			note(0, "linger")
			src += "\\linger{120}{it took long}\n"
		case 1:
			note(0, "linger")
			note(0, "bold")
			around[fmt.Sprintf("%s:%d bold", file, line(file))] = true
			src += "some \\bold{very \\linger{110}{slow}} words\n"
		case 2:
			note(0, "echo")
			note(1, "linger")
			around[fmt.Sprintf("%s:%d echo", file, line(file))] = true
			src += "\\echo{some\nvery \\linger{110}{slow}} words\n"
		case 3:
			note(0, "section")
			note(1, "title")
			note(1, "linger")
			around[fmt.Sprintf("%s:%d section", file, line(file))] = true
			src += fmt.Sprintf("\\section{\n\\title{A \\linger{100}{title}}{slow%d}\n\nbody \\echo-text{fast}\n}\n", k)
		case 4:
			note(0, "list")
			note(1, "linger")
			note(2, "linger")
			around[fmt.Sprintf("%s:%d list", file, line(file))] = true
			src += "\\list{\n\\linger{100}{one}}{\n\\linger{90}{two}}\n"
		case 5:
			note(0, "linger")
			src += "{- \\linger{1}{x} -}\\linger{100}{" + "漢 é" + "}\\who \\echo{fast}\n"
		}
		b.Files[file] = src
	}
	fault := c.I%5 == 2
	if fault {
		file := names[c.R.Intn(len(names))]
		faults := []string{"\\no-such-function{x}", "\\reference{no-such-tag}", "\\use-plugin{probe}\n\n\\fail{it failed}", "\\bold{"}
		what := pick(c.R, faults)
		if what == faults[1] {
			// other pages are not rendered to the standard output
			stdout = false
		}
		b.Files[file] = strings.TrimRight(b.Files[file], "\r\n") + "\n\n" + what + "\n"
	}
	// sections which use included files are slow too, so only what is noted
	// must be told of; of others only the function must be at that place
	want := run.Model(b, run.HTMLRender())
	if want.Skip || want.Err != nil != fault {
		c.Trivial()
		return
	}
	reached := map[string]bool{}
	for _, l := range want.Log {
		if at, rest, ok := strings.Cut(l, " "); ok && strings.Contains(rest, " linger(") {
			reached[at[:strings.LastIndex(at, ":")]+" linger"] = true
		}
	}
	c.Input(b.String())
	if err := run.WriteFiles(b.Files); err != nil {
		fw.Bail("%s", err)
	}
	args := []string{"-i", b.Root}
	if !stdout {
		args = append(args, "-o", "out")
	}
	if b.Index {
		args = append(args, "--save-search-index")
	}
	without := []string{"--slow-invoke-threshold", pick(c.R, []string{"0", "1h"})}
	base := cli(append(without, args...)...)
	if n := len(slowLine.FindAllString(base.stderr, -1)); n > 0 {
		c.Fail("with %q, calls are told to be slow: %s", without, base)
		return
	}
	c.Count("runs without a slow call told of")
	if (base.code != 0) != fault {
		c.Fail("the book is %v, yet: %s", want.Err, base)
		return
	}
	before, err := run.ReadTree("out")
	if err != nil {
		before = map[string]string{}
	}
	if err := os.RemoveAll("out"); err != nil {
		fw.Bail("%s", err)
	}

	with := []string{}
	told := calls > 0 && c.R.Intn(4) > 0
	if told {
		with = append(with, "--slow-invoke-threshold", pick(c.R, []string{"20ms", "30ms", "0.04s", "1ms"}))
	}
	if c.R.Intn(2) == 0 {
		with = append(with, pick(c.R, []string{"-d", "--debug"}))
	}
	profile := c.R.Intn(3) == 0
	if profile {
		with = append(with, "--cpu-profile", "profile")
	}
	port := c.R.Intn(3) == 0
	if port {
		with = append(with, "--http-profile", fmt.Sprint(freePort()))
	}
	c.Input(fmt.Sprintf("with %q\n%s", with, b.String()))
	got := cli(append(with, args...)...)
	if port && strings.Contains(got.stderr, "address already in use") {
		c.Trivial()
		return
	}
	after, err := run.ReadTree("out")
	if err != nil {
		after = map[string]string{}
	}
	switch {
	case got.code != base.code:
		c.Fail("with %q: %s\nwithout: %s", with, got, base)
		return
	case got.stdout != base.stdout:
		c.Fail("with %q, stdout differs: %s\nwithout: %s", with, got, base)
		return
	}
	if d := run.DiffKeys(after, before); d != "" {
		c.Fail("with %q: %s", with, d)
		return
	}
	for _, n := range run.Keys(before) {
		if before[n] != after[n] {
			c.Fail("with %q, %s differs", with, n)
			return
		}
	}
	if fault {
		// what is no log entry must be there as well
		if msg := withoutLog(base.stderr); !strings.Contains(withoutLog(got.stderr), msg) {
			c.Fail("with %q, the error is not told as without: %s\nwithout: %s", with, got, base)
			return
		}
		c.Count("failures observed")
	} else {
		c.Count("builds observed")
	}
	if profile {
		f, err := os.Open("profile")
		if err != nil {
			c.Fail("no profile was written: %s", err)
			return
		}
		defer f.Close()
		z, err := gzip.NewReader(f)
		if err == nil {
			_, err = io.Copy(io.Discard, z)
		}
		if err != nil {
			c.Fail("the profile is not complete: %s", err)
			return
		}
		c.Count("profiles complete")
	}
	found := map[string]bool{}
	for _, m := range slowLine.FindAllStringSubmatch(got.stderr, -1) {
		at := m[1] + ":" + m[2] + " " + m[3]
		found[at] = true
		var n int
		_, _ = fmt.Sscan(m[2], &n)
		lines := strings.Split(b.Files[m[1]], "\n")
		if n < 1 || n > len(lines) || !strings.Contains(lines[n-1], "\\"+m[3]) {
			c.Fail("with %q, a slow call of %s is told of at %s:%d, where there is none", with, m[3], m[1], n)
			return
		}
	}
	if !told && len(found) > 0 {
		c.Fail("with %q, calls are told to be slow: %q", with, run.Keys(found))
		return
	}
	if told {
		for _, at := range run.Keys(slow) {
			if strings.HasSuffix(at, " linger") && !reached[at] || fault && !strings.HasSuffix(at, " linger") {
				continue
			}
			if !found[at] {
				c.Fail("with %q, the slow call at %s is not told of; only %q: %s", with, at, run.Keys(found), got)
				return
			}
			c.Count("slow calls told of")
			if around[at] {
				c.Count("slow calls around others told of")
			}
		}
	}
	c.Key(fmt.Sprint(with) + b.String())
}

// withoutLog leaves out log entries.
func withoutLog(s string) string {
	out := []string{}
	for _, l := range strings.Split(ansi.ReplaceAllString(s, ""), "\n") {
		if !strings.HasPrefix(l, "time=") && !regexp.MustCompile(`^(INFO|DEBU|WARN)\[`).MatchString(l) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
