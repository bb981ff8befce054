package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"verif.local/sim/hook"
	"verif.local/sim/kernel"
	"verif.local/sim/scen"
)

// Report is what a worker process prints.
type Report struct {
	Stats   *kernel.Stats
	Hashes  []uint64
	Scheds  []uint64
	Useful  int64
	Cov     map[uint32]uint32
	Known   map[string]int64
	Found   *Found
	Err     string
	Samples [][]string
}

// Found is a violation in a worker.
type Found struct {
	Key, Msg, Detail string
	Index            int
	Choices          []uint64
	Events           []string
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	count := fs.Int("count", 1, "")
	progress := fs.String("progress", "", "")
	sink := fs.String("sink", "", "record choices of the last run here as they are drawn")
	known := fs.String("known", "", "")
	fs.Parse(args)
	setupProcess()
	sc := scen.All[*prop]
	kn := map[string]bool{}
	json.Unmarshal([]byte(*known), &kn)
	rep := &Report{Stats: kernel.NewStats(), Cov: map[uint32]uint32{}, Known: map[string]int64{}}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.OpenFile(*progress, os.O_CREATE|os.O_WRONLY, 0o644)
	}
	go watch(25)
	for i := *from; i < *from+*count; i++ {
		watched.Add(1)
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i))
			pf.WriteAt(b[:], 0)
		}
		src := kernel.NewSource(seedOf(*prop, *seed, kernel.RaceBuild, i))
		if *sink != "" && i == *from+*count-1 {
			f, _ := os.Create(*sink)
			src.Sink = func(v uint64) { fmt.Fprintln(f, v) }
		}
		o := runOne(sc, src, rep.Stats)
		rep.Hashes = append(rep.Hashes, o.Hash)
		rep.Scheds = append(rep.Scheds, o.Sched)
		if o.Useful {
			rep.Useful++
		}
		if o.Err != nil {
			rep.Err = fmt.Sprintf("run %d: %v", i, o.Err)
			break
		}
		if o.V != nil {
			if kn[o.V.Key] {
				rep.Known[o.V.Key]++
				continue
			}
			rep.Found = &Found{o.V.Key, o.V.Msg, o.V.Detail, i, o.Rec, o.Events}
			break
		}
		if *from == 0 && len(rep.Samples) < 3 && o.Useful && len(o.Events) > 4 {
			ev := o.Events
			if len(ev) > 25 {
				ev = append(append([]string{}, ev[:25]...), fmt.Sprintf("... %d more events", len(o.Events)-25))
			}
			for k := range ev {
				if len(ev[k]) > 200 {
					ev[k] = ev[k][:200] + "..."
				}
			}
			rep.Samples = append(rep.Samples, append([]string{fmt.Sprintf("run %d, %d choices", i, len(o.Rec))}, ev...))
		}
		if kernel.RaceBuild && i%50 == 49 {
			runtime.GC()
		}
	}
	for i, n := range hook.Cov() {
		if n > 0 {
			rep.Cov[uint32(i)] = n
		}
	}
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(rep)
	w.Flush()
}

var watched atomic.Int64 // runs begun in this process

// watch ends the process when the library waits for a channel that nobody
// serves (goroutines of code that uses channels run by themselves, not as
// tasks), or when one run takes unreasonably long inside code of the library
// that has no yield points.
func watch(patience int) {
	n, run := int64(-1), int64(-1)
	idle, same := 0, 0
	for {
		time.Sleep(time.Second)
		idle, same = idle+1, same+1
		if x := hook.Total(); x != n {
			n, idle = x, 0
		}
		if x := watched.Load(); x != run {
			run, same = x, 0
		}
		if idle < patience && same < 75 {
			continue
		}
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		for _, g := range strings.Split(string(b), "\n\n") {
			head, rest, _ := strings.Cut(g, "\n")
			i := strings.Index(rest, "github.com/libsv/libsv/")
			if i < 0 {
				continue
			}
			waits := i == 0 && (strings.Contains(head, "[chan ") || strings.Contains(head, "[select"))
			if j := strings.Index(rest, "verif.local/sim/"); !waits && (same < 75 || j >= 0 && j < i) {
				continue // a parked task
			}
			what := "a call of the library does not return"
			if waits {
				what = "the library waits for a channel that nobody serves"
			}
			fmt.Fprintf(os.Stderr, "fatal error: %s\n\n%s\n\n", what, g)
			os.Exit(2)
		}
	}
}
