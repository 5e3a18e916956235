// Package vsync stands in for sync where a harness needs deterministic object
// pools: which pooled object is handed out is decided by the harness.
package vsync

import "sync"

type (
	Mutex     = sync.Mutex
	RWMutex   = sync.RWMutex
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond                      { return sync.NewCond(l) }
func OnceFunc(f func()) func()                    { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T        { return sync.OnceValue(f) }

// Pick, when set, chooses which of n pooled objects Get returns (0 is the one
// put last); n itself means a new object.
var Pick func(n int) int

var mu sync.Mutex
var used []*Pool

// Reset empties all pools.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	for _, p := range used {
		p.free = nil
		p.seen = false
	}
	used = used[:0]
}

type Pool struct {
	New  func() any
	free []any
	seen bool
}

func (p *Pool) Put(x any) {
	mu.Lock()
	defer mu.Unlock()
	if !p.seen {
		p.seen = true
		used = append(used, p)
	}
	p.free = append(p.free, x)
}

func (p *Pool) Get() any {
	mu.Lock()
	n := len(p.free)
	mu.Unlock()
	k := 0
	if n > 0 && Pick != nil {
		k = Pick(n) // may panic: the lock is not held
	}
	mu.Lock()
	if k < len(p.free) {
		i := len(p.free) - 1 - k
		x := p.free[i]
		p.free = append(p.free[:i:i], p.free[i+1:]...)
		mu.Unlock()
		return x
	}
	mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}
