// Package zsync replaces package sync during replay.
package zsync

import (
	"sync"
	"unsafe"

	"github.com/QuangTung97/go-memcache/memcache/zzverif"
	"github.com/QuangTung97/go-memcache/memcache/zzverif/zatomic"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	zzverif.Point(func() bool { return !m.locked })
	zzverif.Acquire(unsafe.Pointer(m))
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	zzverif.Point(nil)
	if m.locked {
		return false
	}
	zzverif.Acquire(unsafe.Pointer(m))
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	zzverif.Release(unsafe.Pointer(m))
	m.locked = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	zzverif.Point(func() bool { return !m.w && m.r == 0 })
	zzverif.Acquire(unsafe.Pointer(m))
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("fatal error: sync: unlock of unlocked RWMutex")
	}
	zzverif.Release(unsafe.Pointer(m))
	m.w = false
}

func (m *RWMutex) RLock() {
	zzverif.Point(func() bool { return !m.w })
	zzverif.Acquire(unsafe.Pointer(m))
	m.r++
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	zzverif.Release(unsafe.Pointer(m))
	m.r--
}

func (m *RWMutex) TryLock() bool {
	zzverif.Point(nil)
	if m.w || m.r != 0 {
		return false
	}
	zzverif.Acquire(unsafe.Pointer(m))
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	zzverif.Point(nil)
	if m.w {
		return false
	}
	zzverif.Acquire(unsafe.Pointer(m))
	m.r++
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	zzverif.Point(nil)
	n := new(bool)
	c.q = append(c.q, n)
	m, ok := c.L.(*Mutex)
	if !ok {
		c.L.Unlock()
		zzverif.Point(func() bool { return *n })
		c.L.Lock()
		return
	}
	m.Unlock()
	zzverif.Point(func() bool { return *n && !m.locked })
	zzverif.Acquire(unsafe.Pointer(m))
	m.locked = true
}

func (c *Cond) Signal() {
	zzverif.Point(nil)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	zzverif.Point(nil)
	for _, n := range c.q {
		*n = true
	}
	c.q = nil
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if d > 0 {
		zzverif.Point(nil)
	}
	if d < 0 {
		zzverif.Release(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	zzverif.Point(func() bool { return w.n == 0 })
	zzverif.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zzverif.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done zatomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		zzverif.Acquire(unsafe.Pointer(p))
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	zzverif.Release(unsafe.Pointer(p))
	p.l = append(p.l, x)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
