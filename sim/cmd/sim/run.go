package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	_ "unsafe"

	"verif.local/sim/hook"
	"verif.local/sim/kernel"
	"verif.local/sim/scen"
)

// simRandState replaces the runtime's random numbers (see cmd/instr).
//
//go:linkname simRandState runtime.simRandState
var simRandState uint64

// Outcome is what one run did.
type Outcome struct {
	V      *kernel.Violation
	Err    *kernel.Internal
	Rec    []uint64
	Spans  [][2]int
	Hash   uint64
	Sched  uint64
	Useful bool
	Events []string
}

// runOne executes one run of a scenario; everything in it follows from src.
func runOne(sc *scen.Scenario, src *kernel.Source, st *kernel.Stats) (o *Outcome) {
	simRandState = 0x5eed5eed5eed5eed
	s := kernel.NewSim(src, st)
	o = &Outcome{}
	raceBefore := kernel.RaceErrors()
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case *kernel.Violation:
				o.V = r
			case *kernel.Internal:
				o.Err = r
			default:
				buf := make([]byte, 8192)
				o.Err = &kernel.Internal{Msg: fmt.Sprint(r), Stack: string(buf[:runtime.Stack(buf, false)])}
			}
		}()
		defer s.Close()
		sc.Run(s)
	}()
	if n := kernel.RaceErrors() - raceBefore; n > 0 && o.Err == nil {
		key, text := raceReport()
		o.V = &kernel.Violation{Key: "race", Msg: "data race: " + key, Detail: text}
	}
	st.Runs++
	st.Choices += int64(len(src.Rec))
	o.Rec, o.Spans = src.Rec, src.Spans
	o.Hash, o.Sched, o.Useful = s.LogHash(), s.SchedHash(), s.Useful
	o.Events = s.Events
	if o.V != nil {
		o.Events = append(o.Events, "VIOLATION "+o.V.Error())
	}
	return o
}

var raceLog string
var raceOff int64

// raceReport reads what the race detector wrote since the last call.
func raceReport() (key, text string) {
	if raceLog == "" {
		return "reported", ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		return "reported", ""
	}
	defer f.Close()
	f.Seek(raceOff, io.SeekStart)
	b, _ := io.ReadAll(f)
	raceOff += int64(len(b))
	text = string(b)
	var fn []string
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, "libsv/libsv") && strings.HasSuffix(t, ")") && len(fn) < 3 {
			fn = append(fn, t[strings.LastIndex(t, "/")+1:])
		}
	}
	if len(text) > 6000 {
		text = text[:6000]
	}
	return strings.Join(fn, ", "), text
}

func setupProcess() {
	if p := os.Getenv("SIM_NOVEL"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &kernel.Novel)
		}
		if err != nil {
			fatal("%v", err)
		}
	}
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	if !kernel.RaceBuild {
		debug.SetGCPercent(200)
		limitMemory()
	} else {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
	}
	hook.SetCur(0, -1)
	if kernel.RaceBuild {
		for _, kv := range strings.Fields(os.Getenv("GORACE")) {
			if strings.HasPrefix(kv, "log_path=") {
				raceLog = kv[len("log_path="):]
			}
		}
	}
}

func seedOf(prop string, seed uint64, race bool, i int) uint64 {
	r := uint64(0)
	if race {
		r = 1
	}
	return kernel.Hash(prop, seed, r, uint64(i))
}
