// Package vsync stands in for package sync in the instrumented copy: the same
// operations, blocking through the scheduler.
package vsync

import (
	"sync"

	"verif/mc/sched"
)

type Locker = sync.Locker

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.Shared()
	sched.Wait(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sched.Shared()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	sched.Shared()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	sched.Shared()
	m.waiting++
	sched.Wait(func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
}
func (m *RWMutex) Unlock() {
	sched.Shared()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	sched.Shared()
	sched.Wait(func() bool { return !m.w && m.waiting == 0 })
	m.r++
}
func (m *RWMutex) RUnlock() {
	sched.Shared()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	sched.Shared()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	sched.Shared()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct{ state int }

func (o *Once) Do(f func()) {
	sched.Shared()
	if o.state == 2 {
		return
	}
	if o.state == 1 {
		sched.Wait(func() bool { return o.state == 2 })
		return
	}
	o.state = 1
	defer func() { o.state = 2 }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sched.Shared()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.Shared()
	sched.Wait(func() bool { return w.n == 0 })
}

// Cond wakes in the order of waiting, as sync's does.
type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.waiting = append(c.waiting, &woken)
	c.L.Unlock()
	sched.Wait(func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	sched.Shared()
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}
func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}

// Map: every operation is atomic, with a point before it.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Shared(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Shared(); m.m.Store(k, v) }
func (m *Map) Delete(k any)                     { sched.Shared(); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Shared(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Shared(); return m.m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Shared(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { sched.Shared(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) Range(f func(k, v any) bool)      { sched.Shared(); m.m.Range(f) }
func (m *Map) Clear()                           { sched.Shared(); m.m.Clear() }

// Pool hands out what was put back last, so that reuse is always seen.
type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	sched.Shared()
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { sched.Shared(); p.free = append(p.free, v) }
