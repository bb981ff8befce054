package kernel

import (
	"fmt"
	"runtime"
	"sync"

	"verif.local/sim/hook"
)

// RunThreads runs programs as threads that share memory, one statement-level
// slice at a time, in an order drawn from src. The hand-over from thread to
// thread is invisible to the race detector (plain variables, norace
// functions), so in a race build the detector sees the threads as unordered
// and reports every conflicting access, whatever the interleaving.
//
// Programs must not touch src or any other harness state they share.
const maxThreads = 64

type threads struct {
	turn  int32
	n     int32 // threads started
	done  [maxThreads]bool
	g     [maxThreads]uintptr
	err   [maxThreads]any
	steps [maxThreads]int64
}

var thr threads

//go:norace
//go:noinline
func thrTurn() int32 { return thr.turn }

//go:norace
//go:noinline
func thrSetTurn(i int32) { thr.turn = i }

//go:norace
//go:noinline
func thrDone(i int32) bool { return thr.done[i] }

//go:norace
//go:noinline
func thrSetDone(i int32, e any) { thr.err[i] = e; thr.done[i] = true }

//go:norace
//go:noinline
func thrErr(i int32) any { return thr.err[i] }

//go:norace
//go:noinline
func thrG(i int32) uintptr { return thr.g[i] }

//go:norace
//go:noinline
func thrSetG(i int32, g uintptr) { thr.g[i] = g }

//go:norace
//go:noinline
func thrSteps(i int32) int64 { return thr.steps[i] }

//go:norace
//go:noinline
func thrSetSteps(i int32, n int64) { thr.steps[i] = n }

//go:norace
//go:noinline
func thrN() int32 { return thr.n }

// thrNew returns the number of a new thread, 0 if there are too many.
//
//go:norace
//go:noinline
func thrNew() int32 {
	if thr.n+1 >= maxThreads {
		return 0
	}
	thr.n++
	return thr.n
}

//go:norace
//go:noinline
func thrReset() { thr = threads{} }

//go:norace
//go:noinline
func thrPark() {
	i := thr.turn
	thr.steps[i] = hook.Steps()
	thr.turn = 0
	for thr.turn != i {
		runtime.Gosched()
	}
}

// ThreadLimit bounds the statements of one program.
const ThreadLimit = 20_000_000

func (s *Sim) RunThreads(names []string, progs []func(), mean int) {
	thrReset()
	n := len(progs)
	if n > 16 {
		panic(&Internal{Msg: "too many threads"})
	}
	if Novel.Channels {
		mean = 0
	}
	var wg sync.WaitGroup
	start := func(i int32, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			thrSetG(i, hook.Self())
			for thrTurn() != i {
				runtime.Gosched()
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case hook.StepLimit, hook.Stuck:
							thrSetDone(i, r)
						default:
							thrSetDone(i, fmt.Sprintf("%v at %s", r, libFrames()))
						}
						return
					}
					thrSetDone(i, nil)
				}()
				f()
			}()
			hook.SetCur(0, -1)
			thrSetTurn(0)
		}()
		for thrG(i) == 0 {
			runtime.Gosched()
		}
	}
	for _, f := range progs {
		start(thrNew(), f)
	}
	hook.SetPark(thrPark)
	hook.SetSpawn(func(f func()) {
		if i := thrNew(); i > 0 {
			start(i, f)
		} else {
			go f()
		}
	})
	runnable := make([]int32, n)
	for k := range runnable {
		runnable[k] = int32(k + 1)
	}
	for all := int32(n); len(runnable) > 0; {
		k := s.Intn(len(runnable))
		i := runnable[k]
		q := int64(-1)
		if mean > 0 {
			if v := s.Choose(uint64(2*mean + 1)); v > 0 {
				q = int64(v)
			}
		}
		hook.SetSteps(thrSteps(i), ThreadLimit)
		hook.SetCur(thrG(i), q)
		thrSetTurn(i)
		for thrTurn() != 0 {
			runtime.Gosched()
		}
		hook.SetCur(0, -1)
		for ; all < thrN(); all++ {
			runnable = append(runnable, all+1)
		}
		s.now++
		s.last = s.now
		s.nEvents++
		s.sched = mix(s.sched ^ uint64(i)<<32 ^ uint64(hook.Last()))
		if thrDone(i) {
			runnable = append(runnable[:k], runnable[k+1:]...)
		} else {
			s.Stats.Switches++
		}
	}
	hook.SetPark(nil)
	hook.SetSpawn(nil)
	wg.Wait()
	s.Stats.Tasks += int64(n)
	for k := range thrN() {
		name := "a goroutine of the library"
		if int(k) < n {
			name = names[k]
		}
		if e := thrErr(k + 1); e != nil {
			switch e := e.(type) {
			case hook.StepLimit:
				s.Fail("hang:thread", "%s executed more than %d statements without returning", name, ThreadLimit)
			case hook.Stuck:
				s.Fail("stuck:thread", "%s waits for a lock that is never released, or for a goroutine that never ends", name)
			default:
				s.Fail("crash:thread", "%s: %v", name, e)
			}
		}
	}
}
