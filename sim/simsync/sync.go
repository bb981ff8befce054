// Package sync stands in for the standard package inside the instrumented copy
// of libsv: locks yield to the simulator's scheduler instead of blocking the
// processor, and pools hand back the item put last, always.
package sync

import (
	"runtime"
	real "sync"

	"verif.local/sim/hook"
)

type (
	Map    = real.Map
	Locker = real.Locker
)

// WaitGroup is a wait group whose waiters give the processor away. The counter
// is plain memory: it must not order goroutines where the real one does not.
type WaitGroup struct {
	w real.WaitGroup
	n int
}

//go:norace
//go:noinline
func (w *WaitGroup) count(d int) int {
	if hook.RealGoes() {
		return 0
	}
	w.n += d
	return w.n
}

func (w *WaitGroup) Add(d int) {
	w.count(d)
	w.w.Add(d)
}

func (w *WaitGroup) Done() {
	w.count(-1)
	w.w.Done()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	start := hook.Go
	if hook.RealGoes() {
		start = func(f func()) { go f() }
	}
	start(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	for i := 0; w.count(0) > 0 && hook.Wait(i); i++ {
		if i > maxSpin {
			panic(hook.Stuck{})
		}
	}
	w.w.Wait()
}

// Cond is a condition variable whose waiters give the processor away.
type Cond struct {
	L       Locker
	m       Mutex
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.m.Lock()
	c.waiters = append(c.waiters, woken)
	c.m.Unlock()
	c.L.Unlock()
	for i := 0; ; i++ {
		c.m.Lock()
		w := *woken
		c.m.Unlock()
		if w {
			break
		}
		if hook.RealGoes() || !hook.Wait(i) {
			runtime.Gosched()
		} else if i > maxSpin {
			panic(hook.Stuck{})
		}
	}
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	c.m.Lock()
	for ; n > 0 && len(c.waiters) > 0; n-- {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	c.m.Unlock()
}

func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var x T
	return func() T {
		o.Do(func() { x = f() })
		return x
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var x T
	var y U
	return func() (T, U) {
		o.Do(func() { x, y = f() })
		return x, y
	}
}

const maxSpin = 200000

func acquire(try func() bool, block func()) {
	for i := 0; !try(); i++ {
		if hook.RealGoes() || !hook.Wait(i) {
			block()
			break
		}
		if i > maxSpin {
			panic(hook.Stuck{})
		}
	}
}

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock()         { acquire(m.m.TryLock, m.m.Lock) }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock()          { acquire(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { acquire(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
