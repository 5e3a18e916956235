// Package vssync stands in for sync under a controlled run.
package vssync

import (
	"runtime"
	"sync"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

type Locker = sync.Locker

type Mutex struct {
	held bool
}

func (m *Mutex) Lock() {
	if !vs.Active() {
		return
	}
	vs.Until("lock", func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	vs.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !vs.Active() {
		m.held = false
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vs.Point()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if !vs.Active() {
		return
	}
	vs.Until("lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !vs.Active() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vs.Point()
}
func (m *RWMutex) RLock() {
	if !vs.Active() {
		return
	}
	vs.Until("lock", func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vs.Point()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 && vs.Active() {
		panic("sync: negative WaitGroup counter")
	}
	vs.Point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vs.Active() {
		return
	}
	vs.Until("wait", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := false
	c.waiters = append(c.waiters, &w)
	c.L.Unlock()
	vs.Until("cond", func() bool { return w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	vs.Point()
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	vs.Point()
}

// Map is a plain map whose operations are preemption points.
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) { vs.Point(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	vs.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, there := m.m[k]; !there {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, there := m.m[k]; there {
		vs.Point()
		return o, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vs.Point()
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	vs.Point()
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Range(f func(k, v any) bool) {
	vs.Point()
	for _, k := range append([]any{}, m.keys...) {
		if v, there := m.m[k]; there && !f(k, v) {
			return
		}
	}
}

// Pool hands out pooled objects last in, first out, so that sharing through a
// pool happens as often as it can.
type Pool struct {
	New  func() any
	free []any
	gen  int
}

// Gen invalidates the contents of all pools.
var Gen int

func (p *Pool) sync() {
	if p.gen != Gen {
		p.free, p.gen = nil, Gen
	}
}
func (p *Pool) Get() any {
	vs.Point()
	p.sync()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vs.Point()
	p.sync()
	p.free = append(p.free, x)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

var _ = runtime.Gosched
