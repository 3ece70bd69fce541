// Package sync replaces the standard package in the simulated program.
package sync

import (
	realsync "sync"
	"unsafe"

	"uniswap-simulator/zsim/simrt"
)

type Locker = realsync.Locker

type Mutex struct{ held bool }

//go:norace
func (m *Mutex) Lock() {
	simrt.Y()
	if simrt.Dead() {
		return
	}
	simrt.Block("Mutex.Lock", m.free)
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y()
	if m.held {
		return false
	}
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if simrt.Dead() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.held = false
	simrt.Y()
}

type RWMutex struct {
	w bool
	r int
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y()
	if simrt.Dead() {
		return
	}
	simrt.Block("RWMutex.Lock", m.free)
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if simrt.Dead() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	simrt.Y()
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y()
	if simrt.Dead() {
		return
	}
	simrt.Block("RWMutex.RLock", m.readable)
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y()
	if m.w {
		return false
	}
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if simrt.Dead() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	// readers must not order later readers, only writers: approximated by a
	// release on the same address, which can only add edges
	simrt.RaceRelease(unsafe.Pointer(m))
	m.r--
	simrt.Y()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
	_ int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if simrt.Dead() {
		return
	}
	simrt.Y()
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y()
	if simrt.Dead() {
		return
	}
	simrt.Block("WaitGroup.Wait", w.zero)
	simrt.RaceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y()
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// Pool hands back the most recently returned object, to whichever task asks.
type Pool struct {
	New   func() any
	items []any
	m     Mutex
}

func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

type Map struct {
	m    map[any]any
	lock Mutex
}

func (m *Map) Load(k any) (any, bool) {
	m.lock.Lock()
	defer m.lock.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.lock.Lock()
	defer m.lock.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.lock.Lock()
	defer m.lock.Unlock()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.lock.Lock()
	defer m.lock.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Range(f func(k, v any) bool) {
	m.lock.Lock()
	cp := make(map[any]any, len(m.m))
	for k, v := range m.m {
		cp[k] = v
	}
	m.lock.Unlock()
	for it := simrt.MapIter(cp); it.Next(); {
		if !f(it.Key(), it.Val()) {
			return
		}
	}
}

type Cond struct {
	L    Locker
	seq  int
	wake int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	me := c.seq
	c.seq++
	c.L.Unlock()
	simrt.Block("Cond.Wait", func() bool { return c.wake > me })
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.wake < c.seq {
		c.wake++
	}
	simrt.Y()
}

//go:norace
func (c *Cond) Broadcast() {
	c.wake = c.seq
	simrt.Y()
}

// the conditions tasks wait for

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) readable() bool { return !m.w }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }
