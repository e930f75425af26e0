// Package fw runs the cases of a check in worker processes, watches the
// workers, and turns what they observed into a verdict and evidence.
package fw

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

// Check decides a property.
type Check struct {
	ID    string
	Level string
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Quick and Thorough are the numbers of cases.
	Quick, Thorough int
	// Run runs a case.
	Run func(c *Ctx)
	// Need are counters which must not be zero for the run to count.
	Need []string
	// Race says that the check needs the race detector.
	Race bool
	// Workers limits the number of workers.
	Workers int
	// Assume are assumptions to note.
	Assume []string
}

// Ctx is the context of a case.
type Ctx struct {
	Check *Check
	I     int
	N     int
	Tier  string
	Seed  int64
	R     *rand.Rand
	// Dir is an empty scratch directory, and the current directory.
	Dir string

	stats   map[string]int
	keys    map[uint64]bool
	samples []string
	fails   []Violation
	input   string
	trivial bool
	verbose bool
}

// Violation is a violation of the property.
type Violation struct {
	Property string `json:"property"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	N        int    `json:"n"`
	What     string `json:"what"`
	Input    string `json:"input"`
}

// Count counts an event.
func (c *Ctx) Count(what string, n ...int) {
	d := 1
	if len(n) > 0 {
		d = n[0]
	}
	c.stats[what] += d
}

// Max keeps the greatest value.
func (c *Ctx) Max(what string, n int) {
	what = "max:" + what
	if n > c.stats[what] {
		c.stats[what] = n
	}
}

// Input describes the case's input.
func (c *Ctx) Input(s string) {
	c.input = s
	if c.verbose {
		fmt.Fprintf(os.Stderr, "INPUT:\n%s\n", s)
	}
}

// Key identifies what distinguishes the case from others.
func (c *Ctx) Key(s string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	c.keys[h.Sum64()] = true
}

// Trivial says that the case does not count.
func (c *Ctx) Trivial() { c.trivial = true }

// Sample offers a sample.
func (c *Ctx) Sample(s string) {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	if len(c.samples) < 2 {
		c.samples = append(c.samples, s)
	}
}

// Fail reports a violation.
func (c *Ctx) Fail(f string, args ...interface{}) {
	what := fmt.Sprintf(f, args...)
	if c.verbose {
		fmt.Fprintf(os.Stderr, "FAIL: %s\n", what)
	}
	c.fails = append(c.fails, Violation{
		Property: c.Check.ID, Case: c.I, Seed: c.Seed, Tier: c.Tier, N: c.N, What: what, Input: c.input,
	})
}

// Scratch empties the scratch directory.
func (c *Ctx) Scratch() {
	_ = os.Chdir(c.Dir)
	clean(c.Dir)
}

// Failed says whether the case failed already.
func (c *Ctx) Failed() bool { return len(c.fails) > 0 }

// Thorough says whether this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

type event struct {
	Start   *int           `json:"start,omitempty"`
	Fail    *Violation     `json:"fail,omitempty"`
	Done    bool           `json:"done,omitempty"`
	Stats   map[string]int `json:"stats,omitempty"`
	Keys    []uint64       `json:"keys,omitempty"`
	Samples []string       `json:"samples,omitempty"`
	Evals   int            `json:"evals,omitempty"`
	Trouble string         `json:"trouble,omitempty"`
}

// Seed of the case.
func seedOf(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return int64(h.Sum64() >> 1)
}

// Rand is a source of random numbers.
func Rand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// Trouble is an error of the harness itself: no verdict.
type Trouble struct{ Msg string }

// Bail gives up on the case without a verdict.
func Bail(f string, args ...interface{}) { panic(Trouble{fmt.Sprintf(f, args...)}) }

func runCase(ch *Check, c *Ctx) (trouble string) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(Trouble); ok {
				trouble = t.Msg
				return
			}
			c.Fail("panic: %v\n%s", r, firstLines(string(debug.Stack()), 40))
		}
	}()
	clean(c.Dir)
	if err := os.Chdir(c.Dir); err != nil {
		Bail("%s", err)
	}
	ch.Run(c)
	return ""
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// clean empties a scratch directory.
func clean(dir string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		_ = os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

func newCtx(ch *Check, seed int64, tier string, i, n int, dir string) *Ctx {
	return &Ctx{
		Check: ch, I: i, N: n, Tier: tier, Seed: seed, Dir: dir,
		R:     rand.New(rand.NewSource(seedOf(seed, ch.ID, i))),
		stats: map[string]int{}, keys: map[uint64]bool{},
	}
}

// Work runs some of the cases and reports on stdout.
func Work(ch *Check, seed int64, tier string, from, step, n int) {
	logrus.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)

	out := bufio.NewWriter(os.NewFile(3, "events"))
	enc := json.NewEncoder(out)
	send := func(e event) {
		_ = enc.Encode(e)
		_ = out.Flush()
	}

	dir, err := os.MkdirTemp("", "vh-case-")
	if err != nil {
		send(event{Trouble: err.Error()})
		return
	}
	defer os.RemoveAll(dir)

	stats := map[string]int{}
	keys := map[uint64]bool{}
	var samples []string
	evals, fails := 0, 0
	for i := from; i < n; i += step {
		i := i
		send(event{Start: &i})
		c := newCtx(ch, seed, tier, i, n, dir)
		trouble := runCase(ch, c)
		if trouble != "" {
			send(event{Trouble: fmt.Sprintf("case %d: %s", i, trouble)})
			stats["inconclusive cases"]++
		}
		evals++
		merge(stats, c.stats)
		if !c.trivial {
			for k := range c.keys {
				keys[k] = true
			}
		}
		if len(samples) < 2 {
			samples = append(samples, c.samples...)
		}
		for _, f := range c.fails {
			f := f
			send(event{Fail: &f})
			fails++
		}
		if fails >= 3 {
			break
		}
	}
	_ = os.Chdir("/")
	ks := []uint64{}
	for k := range keys {
		ks = append(ks, k)
	}
	send(event{Done: true, Stats: stats, Keys: ks, Samples: samples, Evals: evals})
}

func merge(into, from map[string]int) {
	for k, v := range from {
		if strings.HasPrefix(k, "max:") {
			if v > into[k] {
				into[k] = v
			}
		} else {
			into[k] += v
		}
	}
}

// Driver runs a check.
type Driver struct {
	Check  *Check
	Seed   int64
	Tier   string
	Root   string // /verif
	N      int
	Worker string // executable

	mu       sync.Mutex
	stats    map[string]int
	keys     map[uint64]bool
	samples  []string
	fails    []Violation
	troubles []string
	evals    int
	known    []string
	hung     bool
}

func (d *Driver) gaveUp() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.hung
}

func (d *Driver) absorb(e event) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if e.Fail != nil {
		d.fails = append(d.fails, *e.Fail)
	}
	if e.Trouble != "" {
		d.troubles = append(d.troubles, e.Trouble)
	}
	if e.Done {
		merge(d.stats, e.Stats)
		for _, k := range e.Keys {
			d.keys[k] = true
		}
		d.samples = append(d.samples, e.Samples...)
		d.evals += e.Evals
	}
}

// cpu is the CPU time a process used, in seconds.
func cpu(pid int) float64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(data)
	fs := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(fs) < 15 {
		return 0
	}
	var t float64
	for _, i := range []int{11, 12, 13, 14} {
		n, _ := strconv.ParseFloat(fs[i], 64)
		t += n
	}
	return t / 100
}

func (d *Driver) worker(shard, shards int) {
	from := shard
	for attempt := 0; from < d.N && attempt < 4 && !d.gaveUp(); attempt++ {
		r, w, err := os.Pipe()
		if err != nil {
			d.absorb(event{Trouble: err.Error()})
			return
		}
		cmd := exec.Command(d.Worker, "work", d.Check.ID,
			"-seed", fmt.Sprint(d.Seed), "-tier", d.Tier, "-from", fmt.Sprint(from), "-step", fmt.Sprint(shards), "-n", fmt.Sprint(d.N))
		cmd.ExtraFiles = []*os.File{w}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var stderr tail
		cmd.Stdout = &stderr
		cmd.Stderr = &stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			d.absorb(event{Trouble: err.Error()})
			return
		}
		w.Close()

		lines := make(chan event)
		go func() {
			dec := json.NewDecoder(r)
			for {
				var e event
				if dec.Decode(&e) != nil {
					close(lines)
					return
				}
				lines <- e
			}
		}()

		current, done, killed := from, false, ""
		started, startCPU := time.Now(), 0.0
		idle, idleCPU := time.Now(), 0.0
		tick := time.NewTicker(time.Second)
	loop:
		for {
			select {
			case e, ok := <-lines:
				if !ok {
					break loop
				}
				if e.Start != nil {
					current = *e.Start
					started, startCPU = time.Now(), cpu(cmd.Process.Pid)
					continue
				}
				done = done || e.Done
				d.absorb(e)
			case <-tick.C:
				now := cpu(cmd.Process.Pid)
				used := now - startCPU
				if now-idleCPU > 0.2 {
					idleCPU, idle = now, time.Now()
				}
				if used > 60 {
					killed = fmt.Sprintf("the case took more than %.0f s of CPU time, others take milliseconds: it does not end", used)
				} else if time.Since(started) > 90*time.Second && time.Since(idle) > 80*time.Second {
					// stuck: ask for the stacks, which tell why
					killed = "watchdog"
					_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
					time.Sleep(5 * time.Second)
				} else if time.Since(started) > 300*time.Second {
					killed = "watchdog"
				}
				if killed != "" {
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					d.mu.Lock()
					d.hung = true
					d.mu.Unlock()
					break loop
				}
			}
		}
		tick.Stop()
		for range lines {
		}
		err = cmd.Wait()
		// whatever the worker left running goes with it
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		r.Close()
		if done {
			return
		}
		switch {
		case killed == "watchdog" && blocked(stderr.String()) != "":
			d.absorb(event{Fail: &Violation{Property: d.Check.ID, Case: current, Seed: d.Seed, Tier: d.Tier, N: d.N,
				What: "a deadlock: nothing runs, and this has been waiting for more than a minute", Input: blocked(stderr.String())}})
		case killed == "watchdog":
			d.absorb(event{Trouble: fmt.Sprintf("case %d: no answer within the watchdog's time", current)})
		case killed != "":
			d.absorb(event{Fail: &Violation{Property: d.Check.ID, Case: current, Seed: d.Seed, Tier: d.Tier, N: d.N, What: killed}})
		default:
			d.absorb(event{Fail: &Violation{Property: d.Check.ID, Case: current, Seed: d.Seed, Tier: d.Tier, N: d.N,
				What: fmt.Sprintf("the process crashed (%v)", err), Input: clip(stderr.String(), 6000)}})
		}
		from = current + shards
	}
}

var waiting = regexp.MustCompile(`^goroutine \d+[^\[]*\[(sync\.[^,\]]*|semacquire|chan send|chan receive|select)[^\]]*\]:`)

// blocked finds a goroutine which waits inside of the code under test in the
// stacks of a process which has been doing nothing for more than a minute. (How
// long a goroutine has been waiting is only known after a garbage collection.)
func blocked(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		g = strings.TrimSpace(g)
		if waiting.MatchString(g) && strings.Contains(g, "github.com/vito/booklit") {
			return firstLines(g, 40)
		}
	}
	return ""
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if i := bytes.Index(t.buf, []byte("SIGQUIT: quit")); i > 0 {
		// the stacks are asked for
		t.buf = t.buf[i:]
	}
	if len(t.buf) > 400000 {
		// from the first sign of a crash on, or else the last of it
		i := len(t.buf) - 100000
		for _, s := range []string{"\npanic: ", "\nfatal error: ", "\nruntime: ", "SIGQUIT: quit", "WARNING: DATA RACE"} {
			if j := bytes.Index(t.buf, []byte(s)); j >= 0 && j < i {
				i = j
			}
		}
		t.buf = append([]byte{}, t.buf[i:]...)
		if len(t.buf) > 400000 {
			t.buf = t.buf[:400000]
		}
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

// Finding is a known finding.
type Finding struct {
	Property string            `json:"property"`
	Status   string            `json:"status"` // known or fixed
	What     string            `json:"what"`
	Commit   string            `json:"commit,omitempty"`
	Files    map[string]string `json:"files,omitempty"`
	Root     string            `json:"root,omitempty"`
	// Symptom is what shows it: crash.
	Symptom string `json:"symptom,omitempty"`
}

// Findings reads the known findings.
func Findings(root string) []Finding {
	data, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var out struct {
		Findings []Finding `json:"findings"`
	}
	_ = json.Unmarshal(data, &out)
	return out.Findings
}

// checkKnown tries the known findings of the property.
func (d *Driver) checkKnown() {
	for i, f := range Findings(d.Root) {
		if f.Property != d.Check.ID || f.Status != "known" {
			continue
		}
		cmd := exec.Command(d.Worker, "finding", fmt.Sprint(i), d.Root)
		out, err := cmd.CombinedOutput()
		if err != nil && strings.Contains(string(out), f.Symptom) {
			d.known = append(d.known, f.What)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.Check.ID, f.What)
		}
	}
}

// Run runs the check and exits.
func (d *Driver) Run() int {
	start := time.Now()
	d.stats = map[string]int{}
	d.keys = map[uint64]bool{}
	if d.N == 0 {
		d.N = d.Check.Quick
		if d.Tier == "thorough" {
			d.N = d.Check.Thorough
		}
	}

	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if d.Check.Workers > 0 && shards > d.Check.Workers {
		shards = d.Check.Workers
	}
	if shards > d.N {
		shards = d.N
	}
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d.worker(i, shards)
		}(i)
	}
	wg.Wait()
	d.checkKnown()

	sort.Slice(d.fails, func(i, j int) bool { return d.fails[i].Case < d.fails[j].Case })
	missing := []string{}
	for _, n := range d.Check.Need {
		if d.stats[n] == 0 && d.stats["max:"+n] == 0 {
			missing = append(missing, n)
		}
	}

	d.evidence(time.Since(start))

	for _, t := range d.troubles {
		fmt.Printf("inconclusive: %s\n", t)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", d.Check.ID, d.Tier, d.evals, len(d.keys), len(d.fails), time.Since(start).Seconds())
	for _, k := range sortedKeys(d.stats) {
		fmt.Printf("  observed %s: %d\n", k, d.stats[k])
	}
	if len(d.fails) > 0 {
		dir := filepath.Join(d.Root, "replays")
		_ = os.MkdirAll(dir, 0755)
		for i, f := range d.fails {
			if i >= 3 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", f.Property, f.Seed, f.Case))
			data, _ := json.MarshalIndent(f, "", " ")
			_ = os.WriteFile(path, data, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			fmt.Printf("%s\n", indent(f.What))
			if f.Input != "" {
				fmt.Printf(" input:\n%s\n", indent(clip(f.Input, 3000)))
			}
		}
		return 1
	}
	if len(missing) > 0 {
		fmt.Printf("inconclusive: never observed: %s\n", strings.Join(missing, ", "))
		return 2
	}
	if len(d.troubles)*20 > d.evals {
		fmt.Printf("inconclusive: too many inconclusive cases\n")
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func sortedKeys(m map[string]int) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (d *Driver) evidence(wall time.Duration) {
	samples := d.samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []string{}
	}
	observed := map[string]int{}
	for k, v := range d.stats {
		observed[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":         d.evals,
		"distinct_nontrivial": len(d.keys),
		"rule":                d.Check.Rule,
		"samples":             samples,
		"observed":            observed,
		"inconclusive":        len(d.troubles),
	}
	if len(d.known) > 0 {
		cov["known_findings"] = d.known
	}
	level := d.Check.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property":    d.Check.ID,
		"tier":        d.Tier,
		"seed":        d.Seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append([]string{}, d.Check.Assume...),
		"wall_s":      wall.Seconds(),
		"violations":  len(d.fails),
	}
	dir := filepath.Join(d.Root, "evidence")
	_ = os.MkdirAll(dir, 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, d.Check.ID+".json"), append(data, '\n'), 0644)
}

// Main is the command line.
func Main(checks map[string]*Check, finding func(f Finding)) {
	usage := func() {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | work ... | replay FILE | one ID CASE | list")
		os.Exit(2)
	}
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "race":
		// says whether the check needs the race detector
		if ch := checks[os.Args[2]]; ch != nil && ch.Race {
			fmt.Println("yes")
		}
	case "finding":
		i, _ := strconv.Atoi(os.Args[2])
		logrus.SetOutput(io.Discard)
		debug.SetMaxStack(64 << 20)
		dir, err := os.MkdirTemp("", "vh-finding-")
		if err != nil {
			os.Exit(0)
		}
		_ = os.Chdir(dir)
		finding(Findings(os.Args[3])[i])
		_ = os.Chdir("/")
		_ = os.RemoveAll(dir)
	case "check", "work", "one":
		if len(os.Args) < 3 {
			usage()
		}
		ch := checks[os.Args[2]]
		if ch == nil {
			fmt.Fprintf(os.Stderr, "no such check: %s\n", os.Args[2])
			os.Exit(2)
		}
		fs := flag.NewFlagSet("vh", flag.ExitOnError)
		seed := fs.Int64("seed", envInt("VERIF_SEED", 1), "")
		tier := fs.String("tier", envStr("VERIF_TIER", "quick"), "")
		n := fs.Int("n", 0, "")
		from := fs.Int("from", 0, "")
		step := fs.Int("step", 1, "")
		root := fs.String("root", envStr("VERIF_ROOT", "/verif"), "")
		rest := os.Args[3:]
		if os.Args[1] == "one" {
			rest = os.Args[4:]
		}
		_ = fs.Parse(rest)
		switch os.Args[1] {
		case "work":
			limit()
			Work(ch, *seed, *tier, *from, *step, *n)
		case "one":
			i, _ := strconv.Atoi(os.Args[3])
			if *n == 0 {
				*n = ch.Quick
			}
			os.Exit(one(ch, *seed, *tier, i, *n))
		default:
			self, err := os.Executable()
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			d := &Driver{Check: ch, Seed: *seed, Tier: *tier, Root: *root, N: *n, Worker: self}
			os.Exit(d.Run())
		}
	case "replay":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(data, &v); err != nil || checks[v.Property] == nil {
			fmt.Fprintln(os.Stderr, "not a replay file")
			os.Exit(2)
		}
		os.Exit(one(checks[v.Property], v.Seed, v.Tier, v.Case, v.N))
	default:
		usage()
	}
}

func one(ch *Check, seed int64, tier string, i, n int) int {
	logrus.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	dir, err := os.MkdirTemp("", "vh-case-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := newCtx(ch, seed, tier, i, n, dir)
	c.verbose = true
	trouble := runCase(ch, c)
	_ = os.Chdir("/")
	_ = os.RemoveAll(dir)
	for _, k := range sortedKeys(c.stats) {
		fmt.Printf("observed %s: %d\n", k, c.stats[k])
	}
	if len(c.fails) > 0 {
		fmt.Printf("VIOLATION property=%s\n", ch.ID)
		return 1
	}
	if trouble != "" {
		fmt.Println("inconclusive:", trouble)
		return 2
	}
	fmt.Println("held")
	return 0
}

// Race is set in builds with the race detector.
var Race bool

func limit() {
	if Race {
		return
	}
	const gb = 1 << 30
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 * gb, Max: 12 * gb})
}

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return n
	}
	return def
}

func envStr(name, def string) string {
	if s := os.Getenv(name); s != "" {
		return s
	}
	return def
}
