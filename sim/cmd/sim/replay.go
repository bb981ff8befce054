package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"verif.local/sim/kernel"
	"verif.local/sim/scen"
)

// Replay is a replay file: running Runs one after another in one process
// breaks the property in the last of them.
type Replay struct {
	Property string
	Key      string
	Msg      string
	Detail   string
	Race     bool
	Seed     uint64
	LogHash  string
	Novel    kernel.Dict // see kernel.Novel
	Runs     []ReplayRun
	Events   []string
	Note     string
}

// ReplayRun is one run: its recorded choices or, without them, the run index
// to draw them from.
type ReplayRun struct {
	Index    int
	Recorded bool
	Choices  []uint64
}

func readReplay(p string) *Replay {
	b, err := os.ReadFile(p)
	r := &Replay{}
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil {
		fatal("replay file: %v", err)
	}
	return r
}

func (r *Replay) write(p string) {
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		fatal("replay file: %v", err)
	}
}

func (r *Replay) source(x ReplayRun) *kernel.Source {
	if x.Recorded {
		return kernel.NewReplay(x.Choices)
	}
	return kernel.NewSource(seedOf(r.Property, r.Seed, r.Race, x.Index))
}

// exec runs a replay file's runs in this process.
func (r *Replay) exec() (o *Outcome) {
	sc := scen.All[r.Property]
	kernel.Novel = r.Novel
	for _, x := range r.Runs {
		watched.Add(1)
		o = runOne(sc, r.source(x), kernel.NewStats())
		if o.Err != nil {
			return o
		}
	}
	return o
}

// replay executes a replay file; exit 1 means the violation happened again.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	r := readReplay(fs.Arg(0))
	setupProcess()
	go watch(10)
	o := r.exec()
	if *verbose {
		for _, e := range o.Events {
			fmt.Println(e)
		}
	}
	if o.Err != nil {
		fatal("%v", o.Err)
	}
	if o.V == nil {
		fmt.Println("replay: no violation")
		os.Exit(0)
	}
	fmt.Printf("replay: %s\n%s\nlog hash %016x\n", o.V.Error(), o.V.Detail, o.Hash)
	if o.V.Key != r.Key {
		fmt.Printf("replay: expected %s\n", r.Key)
	}
	os.Exit(1)
}

// minimize shrinks the last run of a replay file in this process.
func minimize(args []string) {
	fs := flag.NewFlagSet("minimize", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	budget := fs.Duration("time", 20*time.Second, "")
	fs.Parse(args)
	r := readReplay(*in)
	setupProcess()
	kernel.Novel = r.Novel
	last := &r.Runs[len(r.Runs)-1]
	pre := r.Runs[:len(r.Runs)-1]
	sc := scen.All[r.Property]
	start := time.Now()
	tests := 0
	var best *Outcome
	try := func(c []uint64) bool {
		if time.Since(start) > *budget || tests > 5000 {
			return false
		}
		tests++
		for _, x := range pre {
			runOne(sc, r.source(x), kernel.NewStats())
		}
		o := runOne(sc, kernel.NewReplay(c), kernel.NewStats())
		if o.V == nil || o.V.Key != r.Key {
			return false
		}
		rec := o.Rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if best != nil && !simpler(rec, best.Rec) {
			return false
		}
		o.Rec = append([]uint64{}, rec...)
		best = o
		return true
	}
	if !try(last.Choices) {
		fatal("minimize: not reproduced")
	}
	cut := func(c []uint64, i, j int) []uint64 {
		return append(append([]uint64{}, c[:i]...), c[j:]...)
	}
	for round, improved := 0, true; improved && round < 8; round++ {
		improved = false
		// shorter
		for n := len(best.Rec) / 2; n >= 1; n /= 2 {
			for len(best.Rec) > n && try(best.Rec[:len(best.Rec)-n]) {
				improved = true
			}
		}
		// drop whole steps, the longest first
		sp := append([][2]int{}, best.Spans...)
		sort.SliceStable(sp, func(i, j int) bool { return sp[i][1]-sp[i][0] > sp[j][1]-sp[j][0] })
		for k := 0; k < len(sp) && k < 400; k++ {
			x := sp[k]
			if x[1] <= len(best.Rec) && try(cut(best.Rec, x[0], x[1])) {
				improved = true
				sp = append([][2]int{}, best.Spans...)
				sort.SliceStable(sp, func(i, j int) bool { return sp[i][1]-sp[i][0] > sp[j][1]-sp[j][0] })
				k = -1
			}
		}
		// drop and clear blocks
		for n := len(best.Rec) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best.Rec); {
				if try(cut(best.Rec, i, i+n)) {
					improved = true
					continue
				}
				z := append([]uint64{}, best.Rec...)
				nz := false
				for k := i; k < i+n; k++ {
					nz = nz || z[k] != 0
					z[k] = 0
				}
				if nz && try(z) {
					improved = true
				}
				i += n
			}
		}
		// smaller numbers
		for i := 0; i < len(best.Rec); i++ {
			for _, f := range []func(uint64) uint64{func(v uint64) uint64 { return 1 }, func(v uint64) uint64 { return v / 2 }, func(v uint64) uint64 { return v - 1 }} {
				for i < len(best.Rec) && best.Rec[i] > 1 {
					z := append([]uint64{}, best.Rec...)
					z[i] = f(z[i])
					if !try(z) {
						break
					}
					improved = true
				}
			}
		}
	}
	last.Choices, last.Recorded = best.Rec, true
	r.Msg, r.Detail, r.Events = best.V.Msg, best.V.Detail, best.Events
	r.LogHash = fmt.Sprintf("%016x", best.Hash)
	r.Note = fmt.Sprintf("minimised with %d trial runs to %d choices", tests, len(best.Rec))
	r.write(*out)
}

// simpler orders recorded choices: shorter, then smaller.
func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
