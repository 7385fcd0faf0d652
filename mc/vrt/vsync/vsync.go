// Package vsync replaces package sync in the instrumented copy.
package vsync

import (
	"sync"

	"verif/vrt"
)

type Locker = sync.Locker

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	vrt.Point()
	vrt.Block(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	vrt.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		if vrt.R == nil || vrt.R.Aborted {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vrt.Point()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	vrt.Point()
	vrt.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vrt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if vrt.R == nil || vrt.R.Aborted {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vrt.Point()
}

func (m *RWMutex) RLock() {
	vrt.Point()
	vrt.Block(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	vrt.Point()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		if vrt.R == nil || vrt.R.Aborted {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vrt.Point()
	w.n += d
	if w.n < 0 {
		if vrt.R != nil && vrt.R.Aborted {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vrt.Point()
	vrt.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vrt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vrt.Point()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Store(k, v any) {
	vrt.Point()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vrt.Point()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	vrt.Point()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	vrt.Point()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	vrt.Point()
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	vrt.Point()
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { vrt.Point(); m.m = nil; m.keys = nil }

func (m *Map) Range(f func(k, v any) bool) {
	vrt.Point()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		vrt.Point()
	}
}

type Pool struct {
	New func() any
	x   []any
}

func (p *Pool) Get() any {
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.x = append(p.x, v) }

type Cond struct {
	L   Locker
	gen int
	sig int
	wt  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen
	c.wt++
	c.L.Unlock()
	vrt.Block(func() bool {
		if c.gen != g {
			return true
		}
		return c.sig > 0
	})
	c.wt--
	if c.gen == g && c.sig > 0 {
		c.sig--
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vrt.Point()
	if c.sig < c.wt {
		c.sig++
	}
}
func (c *Cond) Broadcast() { vrt.Point(); c.gen++; c.sig = 0 }
