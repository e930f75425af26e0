package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vito/booklit/render"

	"verif/fw"
	"verif/gen"
	"verif/ref"
	"verif/run"
)

// ran is what came of running a command.
type ran struct {
	code           int
	stdout, stderr string
}

func (r ran) String() string {
	return fmt.Sprintf("exit status %d\nstdout: %s\nstderr: %s", r.code, clipped(r.stdout), clipped(r.stderr))
}

// finish runs a command to its end, within a watchdog's time.
func finish(cmd *exec.Cmd, stdout *os.File) ran {
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fw.Bail("%s", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		fw.Bail("%q took too long", cmd.Args)
	}
	return ran{cmd.ProcessState.ExitCode(), out.String(), errs.String()}
}

// cli runs the booklit command.
func cli(args ...string) ran { return finish(booklitCmd(args...), nil) }

// wrapped runs the booklit command by way of another command.
func wrapped(with []string, args ...string) ran {
	all := append(append([]string{}, with...), self(), "booklit")
	all = append(all, args...)
	return finish(exec.Command(all[0], all[1:]...), nil)
}

func mustWrite(path, data string) {
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, []byte(data), 0644); err != nil {
		fw.Bail("%s", err)
	}
}

// outTree reads what was written, and the search index if there is one.
func outTree(c *fw.Ctx, dir string) (map[string]string, map[string]render.SearchDocument) {
	pages, err := run.ReadTree(dir)
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		fw.Bail("%s", err)
	}
	if raw, ok := pages["search_index.json"]; ok {
		delete(pages, "search_index.json")
		index := map[string]render.SearchDocument{}
		if err := json.Unmarshal([]byte(raw), &index); err != nil {
			c.Fail("the search index is not JSON: %s", err)
		}
		return pages, index
	}
	return pages, nil
}

// located says whether stderr tells about the error.
func located(stderr string, want error) string {
	out := ansi.ReplaceAllString(stderr, "")
	e, ok := want.(*ref.Err)
	if !ok {
		if t, ok := want.(ref.ErrTemplate); ok && !strings.Contains(out, t.Name) {
			return "does not name the template " + t.Name
		}
		if strings.TrimSpace(out) == "" {
			return "is empty"
		}
		return ""
	}
	if e.File != "" && !strings.Contains(out, e.File) {
		return "does not name the file " + e.File
	}
	if e.Loc.Line > 0 && e.Kind != "arity" && e.Kind != "plain" && e.Kind != "missing" && e.Kind != "parse" {
		if head := fmt.Sprintf("%s:%d: ", e.File, e.Loc.Line); !strings.Contains(out, head) {
			return "does not say " + head
		}
	}
	if strings.TrimSpace(out) == "" {
		return "is empty"
	}
	return ""
}

var scenarios = []string{
	"build", "build", "over", "stdout", "fault", "fault", "limit", "limit", "strace", "missing", "out is a file",
	"page is a directory", "page full", "index full", "stdout full", "template", "flags", "unknown", "include", "broken allowed",
}

func init() {
	add(&fw.Check{
		ID: "C21", Quick: 1600, Thorough: 12000,
		Rule: "a case is one run (or a few) of the command on a random book: good and faulty ones, to a directory or to stdout, over the output of an earlier build, with missing inputs, bad flags and templates, and with faults put under it (full devices, directories in the way, a limit on the size of files, errors injected into system calls); exit status 0 must go with complete and correct output, and any fault with a nonzero one and a message; distinct by scenario and book",
		Need: []string{"runs", "scenario build", "scenario fault", "scenario limit", "scenario page full", "scenario index full", "scenario stdout full", "scenario over", "writes failed", "faulty books reported", "runs with status 0 and complete output", "plugins linked in by the command"},
		Run: func(c *fw.Ctx) {
			if c.I < 11 {
				pluginFlag(c, c.I)
				return
			}
			cliCase(c, scenarios[c.I%len(scenarios)])
		},
	})
	add(&fw.Check{
		ID: "C28", Quick: 500, Thorough: 12000,
		Rule: "a case is a random book, of which the command renders one section, found by its tag or loaded from a further file below the book's root; the page on stdout must be the model's, with the references, numbers and links the section has as part of the book; or the pages written to a directory, which must be those below the section; an unknown tag or file is an error; distinct by book and section",
		Need: []string{"sections by tag", "sections by path", "unknown tags", "sections written"},
		Run:  partialCase,
	})
}

// dirName is the given name for a directory, or one with odd characters in it.
func dirName(c *fw.Ctx, name string) string {
	if c.R.Intn(3) > 0 {
		return name
	}
	c.Count("directories with odd names")
	return pick(c.R, []string{
		name + "[1]", "[" + name, name + "*", "?" + name, name + " dir", "%41" + name, name + ".tmpl", "." + name, name + "\\x", "é" + name,
		name + "/a/b", "./" + name, name + "/", "{" + name + "}", "#" + name, name + "$x", "~" + name, name + "&<>",
	})
}

// rootForm is a path of the file.
func rootForm(c *fw.Ctx, root string) string {
	switch c.R.Intn(6) {
	case 0:
		return "./" + root
	case 1:
		return ".//./" + root
	case 2:
		if dir, err := os.Getwd(); err == nil {
			return dir + "/" + root
		}
	case 3:
		if dir, err := os.Getwd(); err == nil {
			return "../" + filepath.Base(dir) + "//" + root
		}
	}
	return root
}

func smallBook(c *fw.Ctx) (run.Book, gen.Profile) {
	p := gen.Everything()
	p.Levels, p.Sections, p.Blocks = 2, 2, 3
	p.Charset = pick(c.R, []string{gen.ASCII, gen.Markup, gen.Unicode})
	p.Faults = 0
	return gen.New(c.R, p).Book(), p
}

func cliCase(c *fw.Ctx, scenario string) {
	c.Count("scenario " + scenario)
	out, tmpl := dirName(c, "out"), dirName(c, "tmpl")
	b, p := smallBook(c)
	if scenario == "fault" {
		p.Faults, p.Block["fault"] = 100, 6
		b = gen.New(c.R, p).Book()
	}
	b.Index = c.R.Intn(3) == 0
	b.Text = ""
	if c.R.Intn(4) == 0 {
		b.Text = "txt"
		b.Templates = ref.ExtraTextTemplates
	}
	if scenario == "broken allowed" {
		b.AllowBroken = true
		b.Files[b.Root] += "\n\n\\reference{no such tag at all}\n"
	}
	c.Input("scenario " + scenario + "\n" + b.String())
	want := run.Model(b, run.HTMLRender())
	if want.Skip {
		c.Trivial()
		return
	}
	c.Key(scenario + b.String())
	if err := run.WriteFiles(b.Files); err != nil {
		fw.Bail("%s", err)
	}
	if c.R.Intn(2) == 0 {
		// templates which nobody asked for
		for _, n := range []string{"page", "string", "error-page", "sequence"} {
			mustWrite(n+".tmpl", "stray {{.Nothing}")
		}
	}
	args := []string{"-i", rootForm(c, b.Root)}
	if b.Text != "" {
		for n, t := range b.Templates {
			mustWrite(tmpl+"/"+n+".tmpl", t)
		}
		args = append(args, "--text-file-extension", b.Text, "--text-templates", tmpl)
	}
	if b.AllowBroken {
		args = append(args, "--allow-broken-references")
	}
	if c.R.Intn(4) == 0 {
		args = append(args, "-d")
	}
	if c.R.Intn(6) == 0 {
		args = append(args, "--cpu-profile", "profile")
	}
	plain := append([]string{}, args...)
	args = append(args, "-o", out)
	if b.Index {
		args = append(args, "--save-search-index")
	}
	c.Count("runs")

	// complete checks a run which says that it worked
	complete := func(r ran, what string) {
		if want.Err != nil {
			c.Fail("%s: the book is not valid (%s), yet: %s", what, want.Err, r)
			return
		}
		pages, index := outTree(c, out)
		if d := run.DiffPages(pages, want.Pages, b.Text != ""); d != "" {
			c.Fail("%s: exit status 0, but %s", what, d)
			return
		}
		if b.Index {
			if d := run.DiffIndex(index, want.Index); d != "" {
				c.Fail("%s: exit status 0, but %s", what, d)
				return
			}
		}
		if r.stdout != "" {
			c.Fail("%s: unexpected output: %s", what, r)
			return
		}
		c.Count("runs with status 0 and complete output")
	}
	// fails checks a run which has to fail
	fails := func(r ran, what string, says ...string) {
		if r.code == 0 {
			c.Fail("%s: %s", what, r)
			return
		}
		out := ansi.ReplaceAllString(r.stderr+r.stdout, "")
		for _, s := range says {
			if !strings.Contains(out, s) {
				c.Fail("%s: does not say %q: %s", what, s, r)
				return
			}
		}
		if strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine ") {
			c.Fail("%s: it crashed: %s", what, r)
			return
		}
		if strings.TrimSpace(out) == "" {
			c.Fail("%s: it fails without a message", what)
			return
		}
		c.Count("runs which failed as they had to")
	}
	// the fault only matters if the book is good
	good := func() bool { return want.Err == nil }
	somePage := func() string {
		names := run.Keys(want.Pages)
		return names[c.R.Intn(len(names))]
	}

	switch scenario {
	case "build", "fault", "broken allowed":
		r := cli(args...)
		if r.code == 0 {
			complete(r, "build")
			return
		}
		if want.Err == nil {
			c.Fail("the book is valid, yet: %s", r)
			return
		}
		fails(r, "faulty book")
		if d := located(r.stderr, want.Err); d != "" {
			c.Fail("faulty book (%s): the message %s: %s", want.Err, d, r)
			return
		}
		c.Count("faulty books reported")

	case "over":
		if !good() {
			c.Trivial()
			return
		}
		// longer files are in the way, and some which have nothing to do with it
		for n := range want.Pages {
			if c.R.Intn(3) > 0 {
				mustWrite(out+"/"+n, strings.Repeat("left over ", 3000))
			}
		}
		mustWrite(out+"/search_index.json", strings.Repeat("left over ", 3000))
		if !b.Index {
			_ = os.Remove(out + "/search_index.json")
		}
		mustWrite(out+"/other.css", "mine")
		mustWrite(out+"/old-page.html", "mine too")
		r := cli(args...)
		if r.code != 0 {
			c.Fail("the book is valid, yet: %s", r)
			return
		}
		for _, n := range []string{"other.css", "old-page.html"} {
			if data, err := os.ReadFile(out + "/" + n); err != nil || !strings.HasPrefix(string(data), "mine") {
				c.Fail("out/%s was not to be touched: %v", n, err)
				return
			}
			_ = os.Remove(out + "/" + n)
		}
		complete(r, "build over another")

	case "stdout":
		r := cli(plain...)
		if want.Err != nil && len(want.Pages) == 0 {
			fails(r, "faulty book")
			return
		}
		if want.Err != nil {
			// another page than the root's is at fault
			c.Trivial()
			return
		}
		if r.code != 0 {
			c.Fail("the book is valid, yet: %s", r)
			return
		}
		root := want.Sec.Page(map[bool]string{true: "txt", false: "html"}[b.Text != ""])
		if d := run.DiffPages(map[string]string{root: r.stdout}, map[string]string{root: want.Pages[root]}, b.Text != ""); d != "" {
			// another page may have taken the name
			if len(want.Sec.Pages()) == len(want.Pages) {
				c.Fail("the page on stdout: %s", d)
				return
			}
		}
		if _, err := os.Stat(out); err == nil {
			c.Fail("it was not to write any files")
			return
		}
		c.Count("runs with status 0 and complete output")

	case "limit":
		// no file may be longer than so many blocks
		if !good() {
			c.Trivial()
			return
		}
		full := cli(args...)
		if full.code != 0 {
			c.Fail("the book is valid, yet: %s", full)
			return
		}
		longest := 0
		sizes := []int{}
		files, _ := run.ReadTree(out)
		for _, data := range files {
			sizes = append(sizes, len(data))
			longest = max(longest, len(data))
		}
		limit := (sizes[c.R.Intn(len(sizes))]-1)/512 + c.R.Intn(3) - 1
		if c.R.Intn(4) == 0 {
			limit = longest/512 + 1
		}
		limit = max(limit, 0)
		if err := os.RemoveAll(out); err != nil {
			fw.Bail("%s", err)
		}
		r := wrapped([]string{"bash", "-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, (limit+1)/2), "limited"}, noProfile(args)...)
		// bash counts in kilobytes
		if longest <= (limit+1)/2*1024 {
			if r.code != 0 {
				c.Fail("all files are within the limit, yet: %s", r)
				return
			}
			complete(r, "within the limit")
			return
		}
		c.Count("writes failed")
		fails(r, fmt.Sprintf("a file of %d bytes does not fit in %d", longest, (limit+1)/2*1024))

	case "strace":
		if !good() || b.Index {
			b.Index = false
			if !good() {
				c.Trivial()
				return
			}
		}
		if !stracing() {
			c.Count("strace cannot be used here")
			c.Trivial()
			return
		}
		page := somePage()
		call := pick(c.R, []string{"write", "close", "write,close", "openat"})
		errno := pick(c.R, []string{"EIO", "ENOSPC", "EDQUOT"})
		// strace tells files by their full path, if it knows them from the start
		mustWrite(out+"/"+page, "")
		here, _ := filepath.EvalSymlinks(c.Dir)
		r := wrapped([]string{"strace", "-f", "-qq", "-o", "trace", "-P", out + "/" + page, "-P", here + "/" + out + "/" + page, "-e", "trace=write,close,openat", "-e", "inject=" + call + ":error=" + errno}, noProfile(args)...)
		trace, err := os.ReadFile("trace")
		if err != nil {
			fw.Bail("%s", err)
		}
		if !strings.Contains(string(trace), "INJECTED") {
			c.Count("strace injected nothing")
			c.Trivial()
			return
		}
		c.Count("writes failed")
		c.Count("errors injected into " + call)
		fails(r, fmt.Sprintf("%s of out/%s says %s", call, page, errno))

	case "missing":
		r := cli("-i", "no/such-file.lit", "-o", out)
		fails(r, "missing input", "no/such-file.lit")
		r = cli("-i", ".", "-o", out)
		fails(r, "a directory as the input")

	case "out is a file":
		if !good() {
			c.Trivial()
			return
		}
		mustWrite("file", "x")
		bad := pick(c.R, []string{"file", "file/below", "/dev/null/x"})
		r := cli(append(append([]string{}, plain...), "-o", bad)...)
		fails(r, "the output directory is a file", strings.Split(bad, "/")[0])

	case "page is a directory":
		if !good() {
			c.Trivial()
			return
		}
		page := somePage()
		_ = os.MkdirAll(out+"/"+page, 0755)
		fails(cli(args...), "there is a directory called "+page, page)

	case "page full":
		if !good() {
			c.Trivial()
			return
		}
		page := somePage()
		_ = os.MkdirAll(out, 0755)
		if err := os.Symlink("/dev/full", out+"/"+page); err != nil {
			fw.Bail("%s", err)
		}
		c.Count("writes failed")
		fails(cli(args...), page+" is on a full device")

	case "index full":
		if !good() {
			c.Trivial()
			return
		}
		_ = os.MkdirAll(out, 0755)
		if err := os.Symlink("/dev/full", out+"/search_index.json"); err != nil {
			fw.Bail("%s", err)
		}
		c.Count("writes failed")
		fails(cli(append(append([]string{}, plain...), "-o", out, "--save-search-index")...), "the search index is on a full device")

	case "stdout full":
		if !good() {
			c.Trivial()
			return
		}
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fw.Bail("%s", err)
		}
		defer full.Close()
		c.Count("writes failed")
		fails(finish(booklitCmd(plain...), full), "stdout is a full device")

	case "template":
		name := pick(c.R, []string{"page", "section", "custom", "string"})
		mustWrite("bad/ok.tmpl", "fine")
		switch c.R.Intn(4) {
		case 0:
			_ = os.Mkdir("bad/"+name+".tmpl", 0755)
		case 1:
			_ = os.Symlink("nowhere", "bad/"+name+".tmpl")
		default:
			mustWrite("bad/"+name+".tmpl", pick(c.R, []string{"{{", "{{nosuchfunction}}", "{{end}}", "{{if .X}}"}))
		}
		r := cli("-i", b.Root, "-o", out, "--html-templates", "bad")
		fails(r, "a template which does not parse", name)
		r = cli("-i", b.Root, "-o", out, "--text-file-extension", "txt", "--text-templates", "bad")
		fails(r, "a template which does not parse", name)

	case "flags":
		fails(cli(append(append([]string{}, args...), "--no-such-flag")...), "unknown flag", "no-such-flag")
		fails(cli("-o", out), "no input")
		fails(cli(append(append([]string{}, args...), "-s", "many")...), "a port which is no number")
		if r := cli("--help"); r.code != 0 || !strings.Contains(r.stdout+r.stderr, "--in") {
			c.Fail("--help: %s", r)
		}
		if r := cli("--version"); r.code != 0 || strings.TrimSpace(r.stdout) == "" {
			c.Fail("--version: %s", r)
		}
		if _, err := os.Stat(out); err == nil {
			c.Fail("it was not to build anything")
		}

	case "unknown":
		if !good() {
			c.Trivial()
			return
		}
		fails(cli(append(append([]string{}, args...), "--section-tag", "no such tag")...), "unknown section tag", "no such tag")
		fails(cli(append(append([]string{}, args...), "--section-path", "no/such.lit")...), "unknown section path", "no/such.lit")

	case "include":
		// nothing is to be found of it, or it is broken
		at := run.Keys(b.Files)
		name := at[c.R.Intn(len(at))]
		if c.R.Intn(2) == 0 {
			_ = os.Remove(name)
			fails(cli(args...), name+" is missing")
		} else {
			mustWrite(name, b.Files[name]+"\n\nmore {{{\n")
			fails(cli(args...), name+" is broken")
		}
		return
	}
}

func noProfile(args []string) []string {
	out := []string{}
	for i := 0; i < len(args); i++ {
		if args[i] == "--cpu-profile" {
			i++
			continue
		}
		out = append(out, args[i])
	}
	return out
}

// stracing says whether strace works here.
func stracing() bool {
	return exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "/bin/true").Run() == nil
}

// pluginFlag has the command link in a plugin.
func pluginFlag(c *fw.Ctx, n int) {
	c.Key(fmt.Sprint("plugin", n))
	pluginModule()
	plugins(c, n)
}

// ownDocs builds the project's own documentation.
func ownDocs(out string) ran {
	repo := pluginModule()
	return cli("-i", repo+"/docs/lit/index.lit", "-o", out, "--html-templates", repo+"/docs/html", "--save-search-index",
		"-p", "github.com/vito/booklit/docs/go", "-p", "github.com/vito/booklit/chroma/plugin")
}

// pluginModule makes the current directory a module which uses booklit.
func pluginModule() string {
	repo := "/repo"
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r
	}
	mod, err := os.ReadFile(repo + "/go.mod")
	if err != nil {
		fw.Bail("%s", err)
	}
	sum, _ := os.ReadFile(repo + "/go.sum")
	text := strings.Replace(string(mod), "module github.com/vito/booklit", "module scratch.example/book", 1)
	text += "\nrequire github.com/vito/booklit v0.0.0\nreplace github.com/vito/booklit => " + repo + "\n"
	mustWrite("go.mod", text)
	mustWrite("go.sum", string(sum))
	return repo
}

func plugins(c *fw.Ctx, n int) {
	plugin := func(dir, name, method, text string) {
		mustWrite(dir+"/plugin.go", `package `+dir+`

import "github.com/vito/booklit"

func init() {
	booklit.RegisterPlugin("`+name+`", func(*booklit.Section) booklit.Plugin { return plugin{} })
}

type plugin struct{}

func (plugin) `+method+`(c booklit.Content) booklit.Content {
	return booklit.Append(booklit.String("`+text+`"), c)
}
`)
	}
	plugin("one", "one-plugin", "SayIt", "FIRST ")
	plugin("two", "two-plugin", "SayMore", "SECOND ")
	mustWrite("broken/plugin.go", "package broken\n\nfunc init() { no such thing }\n")
	mustWrite("index.lit", "\\title{T}{index}\n\n\\use-plugin{one-plugin}\n\\use-plugin{two-plugin}\n\n\\say-it{hello}\n\n\\section{\n\\title{S}{s}\n\n\\say-more{again}\n}\n")
	mustWrite("faulty.lit", "\\title{T}{index}\n\n\\use-plugin{one-plugin}\n\n\\say-it{\\no-such-function}\n")
	mustWrite("three/plugin.go", `package three

import (
	"os"
	"syscall"
	"time"

	"github.com/vito/booklit"
)

func init() {
	booklit.RegisterPlugin("three-plugin", func(*booklit.Section) booklit.Plugin { return plugin{} })
}

type plugin struct{}

func (plugin) End(how string) booklit.Content {
	switch how {
	case "kill":
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	case "term":
		_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
	case "panic":
		panic("on request")
	case "exit":
		os.Exit(3)
	case "write":
		_ = os.MkdirAll("out/index.html/in-the-way", 0755)
		return booklit.String("written")
	}
	time.Sleep(10 * time.Second)
	return booklit.Empty
}
`)
	c.Count("runs")
	ps := []string{"-p", "scratch.example/book/one", "--plugin", "scratch.example/book/two"}
	switch n {
	case 0:
		r := cli(append(ps, "-i", "index.lit", "-o", "out")...)
		pages, _ := outTree(c, "out")
		if r.code != 0 || !strings.Contains(pages["index.html"], "FIRST hello") || !strings.Contains(pages["index.html"], "SECOND again") {
			c.Fail("with two plugins: %s\npages: %q", r, pages)
		}
		c.Count("plugins linked in by the command", 2)
	case 1:
		r := cli(append(ps, "-i", "faulty.lit", "-o", "out")...)
		if r.code == 0 || !strings.Contains(r.stderr, "no-such-function") || !strings.Contains(r.stderr, "faulty.lit:5") {
			c.Fail("a faulty book, with plugins: %s", r)
		}
	case 3, 4, 5, 6, 7:
		how := []string{"kill", "term", "panic", "exit", "write"}[n-3]
		mustWrite("ends.lit", "\\title{T}{index}\n\n\\use-plugin{three-plugin}\n\n\\end{"+how+"}\n")
		r := cli(append(ps, "-p", "scratch.example/book/three", "-i", "ends.lit", "-o", "out")...)
		if r.code == 0 {
			c.Fail("a plugin ends the build (%s): %s", how, r)
		}
		if how == "write" && !strings.Contains(r.stderr, "index.html") {
			c.Fail("a page cannot be written, with plugins: %s", r)
		}
		c.Count("builds ended by a plugin")
	case 8:
		r := cli("-p", "scratch.example/book/one", "-p", "scratch.example/book/none", "-i", "index.lit", "-o", "out")
		if r.code == 0 {
			c.Fail("a plugin which does not exist: %s", r)
		}
	case 9:
		// to stdout, with arguments which need care
		mustWrite("a dir/it's \"$x.lit", "\\title{T}{index}\n\n\\use-plugin{one-plugin}\n\n\\say-it{hello}\n")
		r := cli(append(ps, "-i", "a dir/it's \"$x.lit")...)
		if r.code != 0 || !strings.Contains(r.stdout, "FIRST hello") || !strings.HasSuffix(strings.TrimSpace(r.stdout), "</html>") {
			c.Fail("to stdout, with plugins: %s", r)
		}
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err == nil {
			r = finish(booklitCmd(append(ps, "-i", "a dir/it's \"$x.lit")...), full)
			if r.code == 0 {
				c.Fail("to a full device, with plugins: %s", r)
			}
			full.Close()
		}
	case 10:
		// without the means to build
		cmd := booklitCmd(append(ps, "-i", "index.lit", "-o", "out")...)
		cmd.Env = append(os.Environ(), "PATH=/nonexistent")
		if r := finish(cmd, nil); r.code == 0 || r.stderr == "" {
			c.Fail("without the go command: %s", r)
		}
		cmd = booklitCmd(append(ps, "-i", "index.lit", "-o", "out")...)
		cmd.Env = append(os.Environ(), "TMPDIR=/nonexistent")
		if r := finish(cmd, nil); r.code == 0 || r.stderr == "" {
			c.Fail("without a directory for temporary files: %s", r)
		}
	case 2:
		r := cli("-p", "scratch.example/book/broken", "-i", "index.lit", "-o", "out")
		if r.code == 0 || !strings.Contains(r.stderr, "plugin.go:3") {
			c.Fail("a plugin which does not compile: %s", r)
		}
		r = cli("-i", "index.lit", "-o", "out")
		if r.code == 0 {
			c.Fail("without the plugins: %s", r)
		}
	}
}

// partialCase renders one section of a book.
func partialCase(c *fw.Ctx) {
	out, tmpl := dirName(c, "out"), dirName(c, "tmpl")
	b, p := smallBook(c)
	p.ExtraTags, p.Split = 40, 30
	p.Levels, p.SameNames = 3, 40
	styled := c.R.Intn(3) == 0
	if styled {
		p.Styles, p.StylePct, p.Partials = []string{"fancy", "boxed"}, 50, 40
	}
	b = gen.New(c.R, p).Book()
	b.Text = ""
	how := run.HTMLRender
	if styled {
		b.Templates = SectionTemplates
		how = sectionRender
	} else if c.R.Intn(4) == 0 {
		b.Text = "md"
		b.Templates = ref.ExtraTextTemplates
	}
	ext := "html"
	if b.Text != "" {
		ext = b.Text
	}
	// a further file, which the book does not include
	q := p
	q.Levels, q.Sections, q.Includes = 1, 2, 0
	more := gen.New(c.R, q).Book()
	extra := ""
	for _, name := range run.Keys(more.Files) {
		extra = more.Files[name]
	}
	// its tags are its own, but it refers to the book's as well
	for i := 40; i > 0; i-- {
		extra = strings.ReplaceAll(extra, fmt.Sprintf("{s%d}", i), fmt.Sprintf("{x%d}", i))
		extra = strings.ReplaceAll(extra, fmt.Sprintf("{t%d}", i), fmt.Sprintf("{y%d}", i))
	}
	extraPath := "more/extra.lit"
	if c.R.Intn(2) == 0 {
		// named like another
		extraPath = "more/" + filepath.Base(pick(c.R, run.Keys(b.Files)))
	}
	b.Files[extraPath] = extra

	c.Input(b.String())
	want := run.Model(b, how())
	if want.Skip {
		c.Trivial()
		return
	}
	if err := run.WriteFiles(b.Files); err != nil {
		fw.Bail("%s", err)
	}
	args := []string{"-i", rootForm(c, b.Root)}
	for n, t := range b.Templates {
		mustWrite(tmpl+"/"+n+".tmpl", t)
	}
	if styled {
		c.Count("books with styles")
		args = append(args, "--html-templates", tmpl)
	}
	if b.Text != "" {
		args = append(args, "--text-file-extension", b.Text, "--text-templates", tmpl)
	}
	if want.Err != nil && want.Sec == nil {
		r := cli(append(args, "--section-tag", "s1")...)
		if r.code == 0 {
			c.Fail("the book is not valid (%s), yet: %s", want.Err, r)
		}
		c.Trivial()
		return
	}

	page := func(s *ref.Sec) (out string, err error, skip bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case ref.Circular, ref.Untitled:
					skip = true
				default:
					panic(r)
				}
			}
		}()
		if b.Text != "" {
			out, err = (&ref.TextRender{Ext: ext, Extra: true}).Page(s)
		} else {
			out, err = how().PageHTML(s)
		}
		return
	}
	compare := func(what string, s *ref.Sec, more ...string) bool {
		c.Key(what + b.String())
		wantPage, wantErr, skip := page(s)
		if skip {
			return true
		}
		r := cli(append(append([]string{}, args...), more...)...)
		if wantErr != nil {
			if r.code == 0 {
				c.Fail("%s: should fail (%s), yet: %s", what, wantErr, r)
				return false
			}
			c.Count("errors reported")
			return true
		}
		if r.code != 0 {
			c.Fail("%s: %s", what, r)
			return false
		}
		if d := run.DiffPages(map[string]string{"stdout": r.stdout}, map[string]string{"stdout": wantPage}, b.Text != ""); d != "" {
			c.Fail("%s: %s", what, d)
			return false
		}
		return true
	}

	all := want.Sec.All()
	for k := 0; k < 3; k++ {
		s := all[c.R.Intn(len(all))]
		if len(s.Tags) == 0 {
			continue
		}
		tag := s.Tags[c.R.Intn(len(s.Tags))].Name
		found := want.Sec.Find(func(n string) bool { return n == tag })
		if len(found) != 1 || strings.HasPrefix(tag, "-") || tag == "" {
			continue
		}
		if !compare("section tag "+tag, s, "--section-tag", tag) {
			return
		}
		c.Count("sections by tag")
		if k > 0 {
			continue
		}
		// to a directory
		r := cli(append(append([]string{}, args...), "--section-tag", tag, "-o", out)...)
		pages, _ := outTree(c, out)
		wantPages := map[string]string{}
		bad := false
		var down func(s *ref.Sec)
		down = func(s *ref.Sec) {
			if s.Parent == nil || s.Parent.Split {
				p, err, skip := page(s)
				bad = bad || err != nil || skip
				wantPages[s.Page(ext)] = p
			}
			for _, k := range s.Children {
				down(k)
			}
		}
		down(s)
		if bad {
			continue
		}
		if r.code != 0 {
			c.Fail("section tag %s to a directory: %s", tag, r)
			return
		}
		if len(wantPages) == 0 {
			continue
		}
		if d := run.DiffPages(pages, wantPages, b.Text != ""); d != "" {
			c.Fail("section tag %s to a directory: %s", tag, d)
			return
		}
		c.Count("sections written")
	}

	unknown := "no-such-" + fmt.Sprint(c.R.Intn(100))
	if r := cli(append(append([]string{}, args...), "--section-tag", unknown)...); r.code == 0 || r.stdout != "" || !strings.Contains(r.stderr, unknown) {
		c.Fail("unknown section tag %s: %s", unknown, r)
		return
	}
	c.Count("unknown tags")

	sec, err := want.World.Load(want.Sec, extraPath)
	if want.World.TooCostly {
		return
	}
	if err != nil {
		r := cli(append(append([]string{}, args...), "--section-path", extraPath)...)
		if r.code == 0 {
			c.Fail("the further file is not valid (%s), yet: %s", err, r)
		}
		return
	}
	if compare("section path", sec, "--section-path", extraPath) {
		c.Count("sections by path")
	}
}
