package kernel

import (
	"container/heap"
	"fmt"
	"runtime"
	"strings"

	"verif.local/sim/hook"
)

// CallLimit bounds the statements one library call may execute.
const CallLimit = 60_000_000

// Violation is a broken property.
type Violation struct {
	Key    string // class of the failure, used by minimisation and known findings
	Msg    string
	Detail string
}

func (v *Violation) Error() string { return v.Key + ": " + v.Msg }

type killed = hook.Killed

type event struct {
	at, seq uint64
	fn      func()
}
type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Sim is one simulated run.
type Sim struct {
	*Source
	Stats   *Stats
	now     uint64 // microseconds
	last    uint64 // time of the last event
	seq     uint64
	q       evHeap
	hash    uint64
	Events  []string
	dropped int
	cur     *Task
	tasks   []*Task
	tick    uint64 // microseconds a preempted task waits, times 0..3
	mean    int    // mean quantum, 0: no preemption
	stallP  int    // chance in 1000 that a preempted task stalls
	healed  uint64
	nEvents int
	nSlices int
	sched   uint64 // hash of the schedule
	Net     *Net
	nodes   []*Node
	stop    bool
	Useful  bool
}

// Task is a handler or thread of a node.
type Task struct {
	sim    *Sim
	name   string
	node   *Node
	epoch  int
	resume chan bool // false: unwind
	parked chan struct{}
	g      uintptr
	done   bool
	err    any
	steps  int64
	limit  int64
	calls  int  // library calls it is in
	waits  int  // turns it has waited in vain
	dying  bool // its node crashed
	sleep  uint64
	asleep bool
	onDone func()
}

// NewSim prepares a run over a source of choices.
func NewSim(src *Source, st *Stats) *Sim {
	hook.Reset()
	s := &Sim{Source: src, Stats: st, hash: 0xcbf29ce484222325, tick: 1}
	s.Net = &Net{s: s, cut: map[[2]*Node]bool{}}
	return s
}

// Now is the simulated time in microseconds.
func (s *Sim) Now() uint64 { return s.now }

// Logf records an event of the run. It never draws a choice.
func (s *Sim) Logf(format string, a ...any) {
	line := fmt.Sprintf(format, a...)
	h := s.hash
	for i := 0; i < len(line); i++ {
		h = (h ^ uint64(line[i])) * 0x100000001b3
	}
	h = (h ^ s.now) * 0x100000001b3
	s.hash = h
	if len(s.Events) < 4000 {
		s.Events = append(s.Events, fmt.Sprintf("%10.3fms %s", float64(s.now)/1000, line))
	} else {
		s.dropped++
	}
}

// LogHash identifies the whole event log.
func (s *Sim) LogHash() uint64 { return mix(s.hash ^ s.sched) }

// SchedHash identifies the order of task switches.
func (s *Sim) SchedHash() uint64 { return s.sched }

// Fail stops the run with a violation.
func (s *Sim) Fail(key, format string, a ...any) {
	panic(&Violation{Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (s *Sim) Check(ok bool, key, format string, a ...any) {
	if !ok {
		s.Fail(key, format, a...)
	}
}

// Count counts a fault, probe or operation.
func (s *Sim) Count(name string) { s.Stats.Count[name]++ }

// Did counts an oracle comparison: it makes the run non-trivial.
func (s *Sim) Did(name string) { s.Stats.Count[name]++; s.Useful = true }

// Fault counts a fault that really happened and logs it.
func (s *Sim) Fault(name string) { s.Stats.Faults[name]++ }

// Probe counts a rare condition that was reached.
func (s *Sim) Probe(name string) { s.Stats.Probes[name]++ }

// Preempt sets the mean number of statements between task switches.
func (s *Sim) Preempt(mean, stallPermille int) {
	if Novel.Channels {
		mean = 0
	}
	s.mean, s.stallP = mean, stallPermille
}

// SwarmPreempt chooses a preemption regime for the run.
func (s *Sim) SwarmPreempt() {
	means := []int{0, 0, 400, 100, 30, 8, 2, 1}
	mean, stall := means[s.Intn(len(means))], 0
	if mean > 0 {
		stall = []int{0, 5, 50}[s.Intn(3)]
		s.tick = []uint64{1, 50, 1000}[s.Intn(3)]
	}
	s.Preempt(mean, stall)
}

// Call runs a library call: a panic, an endless loop or a lock that is never
// released is a violation of the property under test.
//
// A crash takes a task out of the handler, but not out of the call: what the
// call does to memory of the node is lost either way, and what it does to the
// state of the process (a lock, a counter, a goroutine it waits for) lives on
// here, as it would not if the node were a process of its own. At a crash the
// call runs to its end, unseen, and then the task ends.
func (s *Sim) Call(name string, fn func()) {
	t := s.cur
	if s.dead() && t.calls == 0 {
		panic(killed{})
	}
	if t != nil {
		t.calls++
		defer func() {
			if t.calls--; t.calls == 0 && t.dying {
				panic(killed{})
			}
		}()
	}
	old := hook.Steps()
	oldLimit := hook.Limit()
	oldCur, oldQ := hook.Cur()
	hook.BeginCall(CallLimit)
	if t == nil {
		hook.SetCur(hook.Self(), -1)
		hook.SetPark(s.others)
		hook.SetSpawn(s.spawn)
	}
	s.Stats.Calls++
	defer func() {
		hook.SetSteps(old, oldLimit)
		if t == nil {
			hook.SetCur(oldCur, oldQ)
			hook.SetPark(nil)
			hook.SetSpawn(nil)
		}
		if r := recover(); r != nil {
			panic(verdict(name, r))
		}
	}()
	fn()
}

// verdict tells what a panic out of a library call means.
func verdict(name string, r any) any {
	switch r := r.(type) {
	case *Violation, *Internal, killed:
		return r
	case hook.StepLimit:
		return &Violation{Key: "hang:" + name, Msg: fmt.Sprintf("%s executed more than %d statements without returning", name, CallLimit)}
	case hook.Stuck:
		return &Violation{Key: "stuck:" + name, Msg: name + " waits for a lock that is never released, or for a goroutine that never ends"}
	}
	return &Violation{Key: "crash:" + name, Msg: fmt.Sprintf("%s panicked: %v", name, r), Detail: libFrames()}
}

// spawn starts a goroutine of the library.
func (s *Sim) spawn(f func()) {
	var n *Node
	if s.cur != nil {
		n = s.cur.node
	}
	s.Count("goroutines started by the library")
	var t *Task
	t = s.Go(n, "goroutine", func() {
		defer func() {
			t.calls = 0
			if r := recover(); r != nil {
				panic(verdict("goroutine", r))
			}
		}()
		f()
	}, nil)
	t.calls = 1
	s.After(0, func() { s.slice(t) })
}

// others is where a call outside any task waits: the tasks inside a call run,
// and where there is none, what is due next happens.
func (s *Sim) others() {
	g, q := hook.Cur()
	steps, limit := hook.Steps(), hook.Limit()
	ran := false
	for _, t := range s.tasks {
		if !t.done && t.calls > 0 && !t.asleep {
			ran = true
			s.step(t, s.quantum())
			s.ended(t)
		}
	}
	if !ran && len(s.q) > 0 {
		s.runNext()
	}
	hook.SetSteps(steps, limit)
	hook.SetCur(g, q)
	hook.SetPark(s.others)
	hook.SetSpawn(s.spawn)
}

// quantum draws how many statements a task may execute.
func (s *Sim) quantum() int64 {
	if s.mean > 0 {
		if v := s.Choose(uint64(2*s.mean + 1)); v > 0 {
			return int64(v)
		}
	}
	return -1
}

// ended acts on the end of a task.
func (s *Sim) ended(t *Task) {
	if !t.done || t.dying {
		return
	}
	if err := t.err; err != nil {
		t.err = nil
		panic(err)
	}
	if t.onDone != nil {
		t.onDone()
		t.onDone = nil
	}
}

func libFrames() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var b []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "libsv/libsv") {
			b = append(b, fmt.Sprintf("%s (%s:%d)", f.Function[strings.LastIndex(f.Function, "/")+1:], f.File, f.Line))
		}
		if !more {
			break
		}
	}
	return strings.Join(b, " < ")
}

func (s *Sim) dead() bool {
	t := s.cur
	return t != nil && t.node != nil && t.epoch != t.node.epoch
}

// At schedules fn at an absolute time, outside any node.
func (s *Sim) At(at uint64, fn func()) {
	if at < s.now {
		at = s.now
	}
	s.seq++
	heap.Push(&s.q, &event{at, s.seq, fn})
}

// After schedules fn after d microseconds, outside any node.
func (s *Sim) After(d uint64, fn func()) { s.At(s.now+d, fn) }

// Go starts a task. node may be nil.
func (s *Sim) Go(node *Node, name string, fn func(), onDone func()) *Task {
	t := &Task{sim: s, name: name, node: node, resume: make(chan bool), parked: make(chan struct{}), onDone: onDone, limit: CallLimit}
	if node != nil {
		t.epoch = node.epoch
	}
	s.tasks = append(s.tasks, t)
	s.Stats.Tasks++
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); !ok {
					t.err = r
					if _, ok := r.(*Violation); !ok {
						buf := make([]byte, 8192)
						t.err = &Internal{fmt.Sprint(r), string(buf[:runtime.Stack(buf, false)])}
					}
				}
			}
			t.done = true
			t.parked <- struct{}{}
		}()
		t.g = hook.Self()
		t.parked <- struct{}{}
		if !<-t.resume {
			return
		}
		fn()
	}()
	<-t.parked
	return t
}

// Internal is a failure of the harness itself: an error, never a violation.
type Internal struct{ Msg, Stack string }

func (i *Internal) Error() string { return i.Msg + "\n" + i.Stack }

func (t *Task) park() {
	t.steps = hook.Steps()
	t.limit = hook.Limit()
	t.waits = hook.Waits()
	t.parked <- struct{}{}
	if !<-t.resume {
		panic(killed{})
	}
}

// slice runs t until it parks or ends.
func (s *Sim) slice(t *Task) {
	if t.done {
		return
	}
	if t.node != nil && t.node.epoch != t.epoch {
		if t.calls == 0 {
			s.kill(t)
			return
		}
		t.dying = true
	}
	q := int64(-1)
	if !t.dying {
		q = s.quantum()
	}
	s.sched = mix(s.sched ^ Hash(t.name, s.seq))
	s.step(t, q)
	s.sched = mix(s.sched ^ uint64(hook.Last()))
	if t.done {
		s.ended(t)
		return
	}
	s.Stats.Switches++
	d := uint64(0)
	if t.asleep {
		t.asleep = false
		d = t.sleep
	} else {
		d = s.Choose(4) * s.tick
		if s.Chance(s.stallP, 1000) && s.now < s.healed {
			d = 1000 + s.Choose(20000)
			s.Fault("stall")
		}
		if t.node != nil && t.node.slow > 1 {
			d = d*uint64(t.node.slow) + uint64(t.node.slow)
		}
		if t.waits > 20 {
			d += uint64(t.waits)
		}
	}
	s.After(d, func() { s.nSlices++; s.slice(t) })
}

// step lets t run until it parks or ends.
func (s *Sim) step(t *Task, q int64) {
	s.cur = t
	hook.SetNow(int64(s.now) * 1000)
	hook.SetSteps(t.steps, t.limit)
	hook.SetPark(t.park)
	hook.SetSpawn(s.spawn)
	t.resumeOn(q)
	<-t.parked
	hook.SetCur(0, -1)
	hook.SetPark(nil)
	hook.SetSpawn(nil)
	s.cur = nil
}

func (t *Task) resumeOn(q int64) {
	hook.SetCur(t.g, q)
	t.resume <- true
}

func (s *Sim) kill(t *Task) {
	if t.done {
		return
	}
	s.cur = nil
	hook.SetCur(0, -1)
	t.resume <- false
	<-t.parked
	t.done = true
	t.err = nil
}

// Sleep parks the calling task for d microseconds of simulated time.
func (s *Sim) Sleep(d uint64) {
	t := s.cur
	if t.dying {
		return
	}
	t.asleep, t.sleep = true, d
	t.park()
}

// Heal sets the time faults stop.
func (s *Sim) Heal(at uint64) { s.healed = at }

// Faulty tells whether faults may still happen.
func (s *Sim) Faulty() bool { return s.now < s.healed }

// Healed is the time faults stop.
func (s *Sim) Healed() uint64 { return s.healed }

// Stop ends the run after the current event.
func (s *Sim) Stop() { s.stop = true }

// MaxEvents and MaxSlices bound a run.
const (
	MaxEvents = 60_000
	MaxSlices = 3_000_000
)

// runNext processes the next event; false: there were too many.
func (s *Sim) runNext() bool {
	e := heap.Pop(&s.q).(*event)
	s.now, s.last = e.at, e.at
	s.nEvents++
	if s.nEvents-s.nSlices > MaxEvents { // parties retry forever: liveness checks report it
		s.Logf("gave up after %d events", MaxEvents)
		return false
	}
	if s.nSlices > MaxSlices {
		panic(&Internal{Msg: fmt.Sprintf("more than %d task switches in one run", MaxSlices)})
	}
	e.fn()
	return true
}

// RunUntil processes events up to a time. It reports false if the run was
// stopped by the scenario before.
func (s *Sim) RunUntil(until uint64) {
	for !s.stop && len(s.q) > 0 && s.q[0].at <= until {
		if !s.runNext() {
			return
		}
	}
	if !s.stop && s.now < until {
		s.now = until
	}
}

// Settle processes events until none is left, for at most d microseconds.
func (s *Sim) Settle(d uint64) {
	now := s.now
	s.RunUntil(now + d)
	if len(s.q) == 0 && !s.stop {
		s.now = max(now, s.last)
	}
}

// endCalls lets the tasks of a node (nil: of all) that are inside a library
// call end it, and then ends the tasks. A task that waits for one of another
// node is left in its call.
func (s *Sim) endCalls(n *Node) {
	for more, i := true, 0; more && i < 1000; i++ {
		more = false
		for _, t := range s.tasks {
			if !t.done && t.calls > 0 && (n == nil || t.node == n) {
				t.dying = true
				s.step(t, -1)
				more = more || !t.done
			}
		}
	}
}

// Close unwinds every task that is still parked.
func (s *Sim) Close() {
	s.endCalls(nil)
	for _, t := range s.tasks {
		if !t.done {
			s.kill(t)
		}
	}
	hook.SetCur(0, -1)
	hook.SetPark(nil)
	s.Stats.SimUs += int64(s.last)
	s.Stats.Events += int64(s.nEvents)
}
