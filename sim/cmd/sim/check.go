package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/scen"
)

type checker struct {
	sc      *scen.Scenario
	tier    string
	seed    uint64
	dir     string // scratch
	verif   string
	exe     string
	raceExe string
	workers int
	known   map[string]string
	start   time.Time
	wallCap time.Duration
	runs    int

	mu      sync.Mutex
	total   map[bool]*totals
	found   *Found
	race    bool
	batch   int // first run of the batch of found
	crashed bool
	err     error
}

type totals struct {
	st     *kernel.Stats
	hashes map[uint64]bool
	scheds map[uint64]bool
	useful int64
	cov    map[uint32]uint64
	known  map[string]int64
	sample [][]string
	wall   time.Duration
}

func newTotals() *totals {
	return &totals{st: kernel.NewStats(), hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, cov: map[uint32]uint64{}, known: map[string]int64{}}
}

func check(args []string) {
	c := &checker{start: time.Now(), total: map[bool]*totals{false: newTotals(), true: newTotals()}}
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.Uint64Var(&c.seed, "seed", 1, "")
	fs.StringVar(&c.dir, "dir", "", "")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.StringVar(&c.raceExe, "race", "", "")
	fs.IntVar(&c.workers, "workers", runtime.NumCPU(), "")
	scale := fs.Float64("scale", 1, "multiplies the number of runs")
	sites := fs.String("sites", "", "")
	built := fs.Float64("build-s", 0, "")
	mode := fs.String("mode", "full", "")
	norace := fs.Bool("norace", false, "leave out the race-detector pass (for sensitivity measurements)")
	fast := fs.Bool("fast", false, "report a violation without confirming and minimising it (for sensitivity measurements)")
	novel := fs.String("novel", "", "file of numbers new in the source")
	fs.Parse(args)
	if *novel != "" {
		os.Setenv("SIM_NOVEL", *novel)
		b, _ := os.ReadFile(*novel)
		json.Unmarshal(b, &kernel.Novel)
	}
	c.sc = scen.All[*prop]
	if c.sc == nil {
		fatal("no scenario for %q", *prop)
	}
	c.exe, _ = os.Executable()
	c.known = readKnown(filepath.Join(c.verif, "known-findings.txt"), *prop)
	n := c.sc.Quick
	c.wallCap = 200 * time.Second
	if c.tier == "thorough" {
		n = c.sc.Deep
		c.wallCap = 720 * time.Second
	}
	n = int(float64(n) * *scale)
	c.runs = n
	passes := []bool{false}
	if c.sc.Race && !*norace {
		passes = append(passes, true)
	}
	for _, race := range passes {
		t0 := time.Now()
		k := n
		if race {
			k = n / 6
		}
		c.explore(race, k)
		c.total[race].wall = time.Since(t0)
		if c.found != nil || c.err != nil {
			break
		}
	}
	if c.err != nil {
		fatal("%v", c.err)
	}
	if *fast {
		if c.found != nil {
			fmt.Printf("CAUGHT %s %s: %s\n", *prop, c.found.Key, tail(c.found.Msg, 300))
			os.Exit(1)
		}
		os.Exit(0)
	}
	violations := 0
	for k, what := range c.known {
		n := c.total[false].known[k] + c.total[true].known[k]
		fmt.Printf("KNOWN-FINDING: property=%s %s (reached in %d runs)\n", *prop, what, n)
	}
	self := ""
	if c.found == nil {
		self = c.selfcheck()
	}
	var path string
	if c.found != nil {
		violations = 1
		path = c.report()
	}
	c.evidence(*prop, violations, *sites, *built, *mode, self)
	t := c.total[false]
	fmt.Printf("%s %s seed %d: %d runs (%d distinct), %d useful, %.1f simulated s, %d preemptions, %.1fs\n", *prop, c.tier, c.seed,
		t.st.Runs+c.total[true].st.Runs, len(t.hashes), t.useful, float64(t.st.SimUs)/1e6, t.st.Switches, time.Since(c.start).Seconds())
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		os.Exit(1)
	}
}

func readKnown(p, prop string) map[string]string {
	k := map[string]string{}
	b, _ := os.ReadFile(p)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			k[f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
	return k
}

func (c *checker) knownJSON() string {
	m := map[string]bool{}
	for k := range c.known {
		m[k] = true
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func (c *checker) cmd(ctx context.Context, race bool, args ...string) *exec.Cmd {
	exe := c.exe
	if race {
		exe = c.raceExe
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=1")
	if race {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GORACE=log_path=%s/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2", c.dir))
	}
	return cmd
}

const batchTimeout = 150 * time.Second

// explore runs n runs in worker processes. It stops early at the first
// violation, after the batches before it have finished.
func (c *checker) explore(race bool, n int) {
	size := n / (c.workers * 4)
	if size > 400 {
		size = 400
	}
	if size < 20 {
		size = 20
	}
	if race && size > 150 {
		size = 150
	}
	next := make(chan int)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	for w := 0; w < c.workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for from := range next {
				c.runBatch(race, from, min(size, n-from), w)
				c.mu.Lock()
				if c.found != nil || c.err != nil {
					once.Do(func() { close(stop) })
				}
				c.mu.Unlock()
			}
		}()
	}
feed:
	for i := 0; i < n; i += size {
		if time.Since(c.start) > c.wallCap {
			break
		}
		select {
		case <-stop:
			break feed
		default:
		}
		select {
		case <-stop:
			break feed
		case next <- i:
		}
	}
	close(next)
	wg.Wait()
}

func (c *checker) runBatch(race bool, from, count, w int) {
	rep, crash, err := c.runWorker(race, from, count, w, "")
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil {
		if c.err == nil {
			c.err = err
		}
		return
	}
	if rep != nil {
		t := c.total[race]
		t.st.Add(rep.Stats)
		for _, h := range rep.Hashes {
			t.hashes[h] = true
		}
		for _, h := range rep.Scheds {
			t.scheds[h] = true
		}
		t.useful += rep.Useful
		for k, v := range rep.Cov {
			t.cov[k] += uint64(v)
		}
		for k, v := range rep.Known {
			t.known[k] += v
		}
		t.sample = append(t.sample, rep.Samples...)
		if rep.Err != "" && c.err == nil {
			c.err = fmt.Errorf("%s", rep.Err)
		}
	}
	f := crash
	if rep != nil && rep.Found != nil {
		f = rep.Found
	}
	if f != nil && (c.found == nil || f.Index < c.found.Index) {
		c.found, c.race, c.batch, c.crashed = f, race, from, f == crash
	}
}

// runWorker runs a batch in its own process. A worker that dies of a fatal
// error of the Go runtime (stack overflow, out of memory, concurrent map
// writes) inside libsv is a finding like any other.
func (c *checker) runWorker(race bool, from, count, w int, sink string) (*Report, *Found, error) {
	ctx, cancel := context.WithTimeout(context.Background(), batchTimeout)
	defer cancel()
	prog := filepath.Join(c.dir, fmt.Sprintf("progress%d-%v", w, race))
	args := []string{"worker", "-prop", c.sc.ID, "-seed", fmt.Sprint(c.seed), "-from", fmt.Sprint(from), "-count", fmt.Sprint(count), "-progress", prog, "-known", c.knownJSON()}
	if sink != "" {
		args = append(args, "-sink", sink)
	}
	cmd := c.cmd(ctx, race, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limited{b: &errb}
	err := cmd.Run()
	if err == nil {
		rep := &Report{}
		if e := json.Unmarshal(out.Bytes(), rep); e != nil {
			return nil, nil, fmt.Errorf("worker output: %v", e)
		}
		return rep, nil, nil
	}
	if ctx.Err() != nil {
		return nil, nil, fmt.Errorf("watchdog: runs %d..%d took more than %v\n%s", from, from+count-1, batchTimeout, tail(errb.String(), 2000))
	}
	b, _ := os.ReadFile(prog)
	if len(b) != 8 {
		return nil, nil, fmt.Errorf("worker failed: %v\n%s", err, tail(errb.String(), 4000))
	}
	i := int(binary.LittleEndian.Uint64(b))
	msg := fatalIn(errb.String())
	if msg == "" {
		return nil, nil, fmt.Errorf("worker died in run %d: %v\n%s", i, err, tail(errb.String(), 4000))
	}
	return nil, &Found{Key: "fatal", Msg: msg, Detail: tail(errb.String(), 3000), Index: i}, nil
}

// fatalIn extracts the fatal error from a dying worker's output if the
// goroutine that caused it was executing libsv.
func fatalIn(s string) string {
	i := strings.Index(s, "fatal error: ")
	if j := strings.Index(s, "panic: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return ""
	}
	line, rest, _ := strings.Cut(s[i:], "\n")
	// the first goroutine listed is the one that died
	if k := strings.Index(rest, "\ngoroutine "); k >= 0 {
		rest = rest[k+1:]
		if e := strings.Index(rest, "\n\n"); e >= 0 {
			rest = rest[:e]
		}
	}
	if strings.Contains(rest, "github.com/libsv/libsv/") {
		return line
	}
	return ""
}

type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// report minimises the violation, confirms it in a fresh process and writes
// the replay file.
func (c *checker) report() string {
	f := c.found
	began := time.Now()
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d%s.json", c.sc.ID, c.seed, f.Index, map[bool]string{true: "-race"}[c.race]))
	r := &Replay{Property: c.sc.ID, Key: f.Key, Msg: f.Msg, Detail: f.Detail, Race: c.race, Seed: c.seed, Novel: kernel.Novel, Events: f.Events}
	var before []ReplayRun
	for i := c.batch; i < f.Index; i++ {
		before = append(before, ReplayRun{Index: i})
	}
	last := ReplayRun{Index: f.Index, Recorded: !c.crashed, Choices: f.Choices}
	if c.crashed {
		// record the choices of the fatal run as they are drawn
		sink := filepath.Join(c.dir, "sink")
		c.runWorker(c.race, f.Index, 1, 1000, sink)
		if b, err := os.ReadFile(sink); err == nil {
			last.Recorded = true
			for _, l := range strings.Fields(string(b)) {
				v, _ := strconv.ParseUint(l, 10, 64)
				last.Choices = append(last.Choices, v)
			}
		}
	}
	repro := func(runs []ReplayRun) bool {
		r.Runs = runs
		r.write(path)
		return c.reproduces(path, f.Key)
	}
	ok := repro([]ReplayRun{last})
	if !ok && len(before) > 0 {
		// the failure needs state an earlier run left in the process
		if ok = repro(append(append([]ReplayRun{}, before...), last)); ok {
			for n := len(before) / 2; n >= 1; n /= 2 {
				for i := 0; i+n <= len(before) && time.Since(began) < 3*time.Minute; {
					t := append(append([]ReplayRun{}, before[:i]...), before[i+n:]...)
					if repro(append(append([]ReplayRun{}, t...), last)) {
						before = t
					} else {
						i += n
					}
				}
			}
			ok = repro(append(append([]ReplayRun{}, before...), last))
		}
	}
	if !ok {
		for i := 0; i < 5 && !ok && time.Since(began) < 4*time.Minute; i++ {
			ok = repro(append(append([]ReplayRun{}, before...), last))
		}
		if !ok {
			// everything the simulator controls is the same in a replay, so the
			// library depends on something else (addresses, a real clock, state
			// of an earlier process); the violation itself was observed
			r.Note = "observed once; replaying it did not show it again: the library under test behaves differently from run to run"
			r.write(path)
			c.show(r, path)
			return path
		}
		r.Note = "needed several attempts: the library under test behaves differently from run to run"
		r.write(path)
		c.show(r, path)
		return path
	}
	if c.crashed {
		r.Runs[len(r.Runs)-1].Choices = c.shrinkFatal(r, path)
		r.write(path)
		c.show(r, path)
		return path
	}
	min := path + ".min"
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := c.cmd(ctx, c.race, "minimize", "-in", path, "-out", min)
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("minimisation failed (%v): %s\n", err, tail(string(out), 500))
	} else if c.reproduces(min, f.Key) {
		os.Rename(min, path)
		r = readReplay(path)
	} else {
		fmt.Println("the minimised run does not reproduce in a fresh process; keeping the full one")
	}
	os.Remove(min)
	c.show(r, path)
	return path
}

func (c *checker) show(r *Replay, path string) {
	fmt.Printf("%s broken: %s: %s\n", r.Property, r.Key, r.Msg)
	if r.Detail != "" {
		fmt.Println("  " + strings.ReplaceAll(tail(r.Detail, 2500), "\n", "\n  "))
	}
	n := 0
	for _, x := range r.Runs {
		n += len(x.Choices)
	}
	fmt.Printf("  %d run(s), %d choices; %s\n", len(r.Runs), n, r.Note)
	ev := r.Events
	if len(ev) > 40 {
		ev = ev[len(ev)-40:]
	}
	for _, e := range ev {
		fmt.Println("  | " + tail(e, 300))
	}
}

func (c *checker) reproduces(path, key string) bool {
	ctx, cancel := context.WithTimeout(context.Background(), batchTimeout)
	defer cancel()
	out, err := c.cmd(ctx, c.race, "replay", path).CombinedOutput()
	if err == nil {
		return false
	}
	if key == "fatal" {
		return fatalIn(string(out)) != ""
	}
	return strings.Contains(string(out), "replay: "+key+":")
}

func (c *checker) shrinkFatal(r *Replay, path string) []uint64 {
	x := &r.Runs[len(r.Runs)-1]
	best := x.Choices
	tmp := path + ".try"
	defer os.Remove(tmp)
	tests := 0
	end := time.Now().Add(30 * time.Second)
	for n := len(best) / 2; n >= 1 && tests < 120 && time.Now().Before(end); n /= 2 {
		for i := 0; i+n <= len(best) && tests < 120 && time.Now().Before(end); {
			t := append(append([]uint64{}, best[:i]...), best[i+n:]...)
			x.Choices = t
			r.write(tmp)
			tests++
			if c.reproduces(tmp, "fatal") {
				best = t
			} else {
				i += n
			}
		}
	}
	r.Note = fmt.Sprintf("minimised with %d trial processes to %d choices", tests, len(best))
	return best
}

// selfcheck repeats the first runs alone, one process each, and compares the
// event logs with those of the search.
func (c *checker) selfcheck() string {
	n := 0
	for i := 0; i < 6; i++ {
		rep, crash, err := c.runWorker(false, i*3, 1, 2000+i, "")
		if err != nil || crash != nil || len(rep.Hashes) != 1 {
			continue
		}
		if i*3 < c.runs && !c.total[false].hashes[rep.Hashes[0]] {
			return fmt.Sprintf("run %d gave another event log when repeated alone", i*3)
		}
		n++
	}
	return fmt.Sprintf("%d runs repeated in fresh processes gave the same event logs", n)
}

type siteInfo struct {
	File string
	Line int
	Func string
}

func (c *checker) evidence(prop string, violations int, sitesPath string, built float64, mode, self string) {
	t := c.total[false]
	wall := time.Since(c.start).Seconds() + built
	hours := t.wall.Hours()
	cov := map[string]any{
		"evaluations":           t.st.Runs,
		"distinct_nontrivial":   min(int64(len(t.hashes)), t.useful),
		"rule":                  "One evaluation is one simulated run, all of whose choices (workload, schedule, faults) come from one seed. " + c.sc.Rule + ".",
		"samples":               t.sample,
		"distinct_event_logs":   len(t.hashes),
		"distinct_schedules":    len(t.scheds),
		"schedule_measure":      "hash of the sequence of (task, statement where it was parked)",
		"runs_per_hour":         int64(float64(t.st.Runs) / max(hours, 1e-9)),
		"seeds_per_hour":        int64(float64(t.st.Runs) / max(hours, 1e-9)),
		"simulated_seconds":     float64(t.st.SimUs) / 1e6,
		"events":                t.st.Events,
		"messages":              t.st.Msgs,
		"library_calls":         t.st.Calls,
		"tasks":                 t.st.Tasks,
		"preemptions":           t.st.Switches,
		"choices":               t.st.Choices,
		"faults_injected":       t.st.Faults,
		"probes":                t.st.Probes,
		"oracle_and_operations": t.st.Count,
		"real_components":       c.sc.Real,
		"stub_components":       c.sc.Stub,
		"instrumentation":       mode,
		"determinism_selfcheck": self,
		"worker_processes":      c.workers,
	}
	if c.sc.Race {
		r := c.total[true]
		cov["race_detector"] = map[string]any{"runs": r.st.Runs, "distinct_event_logs": len(r.hashes), "distinct_schedules": len(r.scheds), "preemptions": r.st.Switches, "wall_s": r.wall.Seconds()}
		for k, v := range r.cov {
			t.cov[k] += v
		}
	}
	if b, err := os.ReadFile(sitesPath); err == nil {
		var sites []siteInfo
		json.Unmarshal(b, &sites)
		type fc struct{ hit, all int }
		m := map[string]*fc{}
		missed := []string{}
		for i, s := range sites {
			if m[s.File] == nil {
				m[s.File] = &fc{}
			}
			m[s.File].all++
			if t.cov[uint32(i+1)] > 0 {
				m[s.File].hit++
			} else {
				for _, f := range c.sc.Files {
					if f == s.File {
						missed = append(missed, fmt.Sprintf("%s:%d %s", s.File, s.Line, s.Func))
					}
				}
			}
		}
		sc := map[string]string{}
		for _, f := range c.sc.Files {
			if x := m[f]; x != nil {
				sc[f] = fmt.Sprintf("%d of %d statements", x.hit, x.all)
			}
		}
		cov["statement_coverage"] = sc
		sort.Strings(missed)
		if len(missed) > 40 {
			missed = append(missed[:40], fmt.Sprintf("and %d more", len(missed)-40))
		}
		cov["statements_not_reached"] = missed
	}
	ev := map[string]any{
		"property": prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations,
		"assumptions": []string{
			"the reference models in /verif/sim/ref state the formats correctly; SHA-256, RIPEMD-160, secp256k1 and BIP32 as provided by the Go library and the bsvd/bsvutil modules are trusted",
			"task switches happen between statements of libsv (and between the loads and stores of swaps), not inside expressions; data races inside expressions are left to the race-detector pass of C09",
			"a sample of schedules and fault sequences, not all of them",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(c.verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fatal("evidence: %v", err)
	}
}
