// Package hook is what the instrumented copy of libsv calls: one call of Y
// before every statement. It is where the simulator takes control of a
// library call: it counts steps, records statement coverage, finds calls that
// never return and parks the running task when its quantum is used up.
//
// Only the goroutine the simulator released runs, so everything here is plain
// memory. The functions are norace and noinline: in the race-detector build
// they must not order the threads they switch between.
package hook

func getg() uintptr

const MaxSites = 1 << 15

// StepLimit is thrown by Y when one library call executed too many statements.
type StepLimit struct{}

// Killed unwinds a task of a node that crashed.
type Killed struct{}

// Stuck is thrown when a task waits for a lock nobody releases.
type Stuck struct{}

var (
	cur     uintptr // goroutine that owns the processor; 0: hooks off
	quantum int64   // statements until the task is parked; <0: never
	steps   int64   // statements executed by the current library call
	limit   int64   // limit on steps
	total   int64   // statements executed in this process
	lastS   uint32  // site of the last statement executed
	park    func()
	spawn   func(func())
	waits   int // turns the parked task has waited in vain
	cov     [MaxSites]uint32
	now     int64 // simulated clock, ns
)

//go:norace
//go:noinline
func Y(site uint32) {
	if cur == 0 || getg() != cur {
		return
	}
	lastS = site
	cov[site&(MaxSites-1)]++
	total++
	steps++
	if steps > limit {
		steps = 0
		panic(StepLimit{})
	}
	if quantum > 0 {
		quantum--
		if quantum == 0 {
			park()
		}
	}
}

// Yield gives the processor away at once (used by the lock shim).
// It reports whether the caller runs under the simulator.
//
//go:norace
//go:noinline
func Yield() bool {
	if cur == 0 || getg() != cur || park == nil {
		return false
	}
	park()
	return true
}

var realGo bool

// RealGo says that the goroutines the instrumented code starts run by
// themselves and that its calls are not preempted: locks block for real.
func RealGo() { realGo = true }

//go:norace
//go:noinline
func RealGoes() bool { return realGo }

// Wait is Yield for a caller that has yielded i times before in vain.
//
//go:norace
//go:noinline
func Wait(i int) bool {
	waits = i
	ok := Yield()
	waits = 0
	return ok
}

//go:norace
//go:noinline
func Waits() int { return waits }

// Go is the go statement of the instrumented code: under the simulator the new
// goroutine is a task of its own.
//
//go:norace
//go:noinline
func Go(f func()) {
	if cur == 0 || getg() != cur || spawn == nil {
		go f()
		return
	}
	spawn(f)
}

//go:norace
//go:noinline
func SetSpawn(f func(func())) { spawn = f }

//go:norace
//go:noinline
func Self() uintptr { return getg() }

//go:norace
//go:noinline
func SetCur(g uintptr, q int64) { cur = g; quantum = q }

//go:norace
//go:noinline
func Cur() (uintptr, int64) { return cur, quantum }

//go:norace
//go:noinline
func SetPark(f func()) { park = f }

//go:norace
//go:noinline
func BeginCall(l int64) { steps = 0; limit = l }

//go:norace
//go:noinline
func Steps() int64 { return steps }

//go:norace
//go:noinline
func SetSteps(s, l int64) { steps = s; limit = l }

//go:norace
//go:noinline
func Limit() int64 { return limit }

//go:norace
//go:noinline
func Total() int64 { return total }

//go:norace
//go:noinline
func Last() uint32 { return lastS }

// Reset forgets what the previous run in this process left behind.
//
//go:norace
//go:noinline
func Reset() {
	lastS, steps, quantum, cur, now, park, spawn, waits = 0, 0, 0, 0, 0, nil, nil, 0
}

//go:norace
//go:noinline
func Cov() []uint32 { return cov[:] }

//go:norace
//go:noinline
func SetNow(ns int64) { now = ns }

//go:norace
//go:noinline
func NowNs() int64 { return now }
