// Package sync replaces the standard package in the instrumented copy.
package sync

import (
	"sync"
	"unsafe"

	"github.com/jfcg/sorty/v2/vrt"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct {
	mu   sync.Mutex
	held bool
	q    []vrt.Parked
}

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *Mutex) Lock() {
	if !vrt.SyncPoint(m.p(), "lock") {
		m.mu.Lock()
		return
	}
	for m.held {
		vrt.Park(&m.q, "mutex")
		vrt.SyncPoint(m.p(), "relock")
	}
	m.held = true
	vrt.Acquire(m.p())
}

func (m *Mutex) TryLock() bool {
	if !vrt.SyncPoint(m.p(), "trylock") {
		return m.mu.TryLock()
	}
	if m.held {
		return false
	}
	m.held = true
	vrt.Acquire(m.p())
	return true
}

func (m *Mutex) Unlock() {
	if !vrt.SyncPoint(m.p(), "unlock") {
		if m.held {
			m.held = false
			return
		}
		m.mu.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vrt.Release(m.p())
	vrt.WakeAll(&m.q)
}

type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
	q  []vrt.Parked
}

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *RWMutex) Lock() {
	if !vrt.SyncPoint(m.p(), "lock") {
		m.mu.Lock()
		return
	}
	for m.w || m.r > 0 {
		vrt.Park(&m.q, "rwmutex")
		vrt.SyncPoint(m.p(), "relock")
	}
	m.w = true
	vrt.Acquire(m.p())
}

func (m *RWMutex) Unlock() {
	if !vrt.SyncPoint(m.p(), "unlock") {
		m.mu.Unlock()
		return
	}
	m.w = false
	vrt.Release(m.p())
	vrt.WakeAll(&m.q)
}

func (m *RWMutex) RLock() {
	if !vrt.SyncPoint(m.p(), "rlock") {
		m.mu.RLock()
		return
	}
	for m.w {
		vrt.Park(&m.q, "rwmutex")
		vrt.SyncPoint(m.p(), "relock")
	}
	m.r++
	vrt.Acquire(m.p())
}

func (m *RWMutex) RUnlock() {
	if !vrt.SyncPoint(m.p(), "runlock") {
		m.mu.RUnlock()
		return
	}
	m.r--
	vrt.Release(m.p())
	vrt.WakeAll(&m.q)
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
	q  []vrt.Parked
}

func (w *WaitGroup) p() unsafe.Pointer { return unsafe.Pointer(w) }

func (w *WaitGroup) Add(d int) {
	if !vrt.SyncPoint(w.p(), "wg.add") {
		w.wg.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		vrt.Release(w.p())
	}
	if w.n == 0 {
		vrt.WakeAll(&w.q)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vrt.SyncPoint(w.p(), "wg.wait") {
		w.wg.Wait()
		return
	}
	if w.n > 0 {
		vrt.Park(&w.q, "WaitGroup.Wait")
	}
	vrt.Acquire(w.p())
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

// Pool hands out the most recently released value first.
type Pool struct {
	New func() any
	m   Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.l); n > 0 {
		x = p.l[n-1]
		p.l = p.l[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
}

type Cond struct {
	L Locker
	q []vrt.Parked
	c *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vrt.Active() {
		c.c.Wait()
		return
	}
	c.L.Unlock()
	vrt.Park(&c.q, "Cond.Wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vrt.SyncPoint(unsafe.Pointer(c), "signal") {
		c.c.Signal()
		return
	}
	vrt.WakeOne(&c.q)
}

func (c *Cond) Broadcast() {
	if !vrt.SyncPoint(unsafe.Pointer(c), "broadcast") {
		c.c.Broadcast()
		return
	}
	vrt.WakeAll(&c.q)
}
