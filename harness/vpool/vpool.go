// Package vpool stands in for sync where the race monitor watches: the pools
// hand out objects last in, first out, and order only the putting of an object
// before the getting of the same object, as the real ones may.
package vpool

import (
	"sync"
	"unsafe"
)

type (
	Mutex     = sync.Mutex
	RWMutex   = sync.RWMutex
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// Gen invalidates the contents of all pools. Goroutines are expected to take
// turns.
var Gen int

type Pool struct {
	New  func() any
	free [256]any
	n    int
	gen  int
}

//go:norace
func (p *Pool) Put(x any) {
	if p.gen != Gen {
		p.n, p.gen = 0, Gen
	}
	release((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	if p.n < len(p.free) {
		p.free[p.n] = x
		p.n++
	}
}

//go:norace
func (p *Pool) Get() any {
	if p.gen != Gen {
		p.n, p.gen = 0, Gen
	}
	if p.n > 0 {
		p.n--
		x := p.free[p.n]
		acquire((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
