package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// set is a small bit set over transaction indices.
type set [5]uint64

func mkset(idx ...int) (s set) {
	for _, i := range idx {
		s.add(i)
	}
	return
}
func (s *set) add(i int)      { s[i>>6] |= 1 << uint(i&63) }
func (s *set) del(i int)      { s[i>>6] &^= 1 << uint(i&63) }
func (s *set) has(i int) bool { return s[i>>6]&(1<<uint(i&63)) != 0 }
func (s *set) size() int {
	n := 0
	for _, w := range s {
		n += popcount(w)
	}
	return n
}
func (s *set) list() (r []int) {
	for i := 0; i < len(s)*64; i++ {
		if s.has(i) {
			r = append(r, i)
		}
	}
	return
}
func (s set) String() string { return fmt.Sprint(s.list()) }

// mcw is a received codeword of the reference decoder.
type mcw struct {
	rem  set // members not known when received or since
	stub Stub
	id   int
}

// refDec is the reference peeling decoder: sets only, no payloads.
type refDec struct {
	mem      int
	order    []int // remembered transactions, oldest first
	known    set
	cws      []*mcw
	live     []*mcw // codewords with unknown members
	received int
	trim     bool // only the latest codewords stay watched
}

func (m *refDec) learn(i int) {
	m.order = append(m.order, i)
	m.known.add(i)
	for len(m.order) > m.mem {
		m.known.del(m.order[0])
		m.order = m.order[1:]
	}
	live := m.live[:0:0]
	for _, c := range m.live {
		c.rem.del(i)
		if c.rem.size() > 0 {
			live = append(live, c)
		}
	}
	m.live = live
}

func (m *refDec) receive(s set, stub Stub) *mcw {
	c := &mcw{rem: s, stub: stub, id: m.received}
	m.received++
	if m.trim && len(m.cws) >= 400 { // watch only the latest ones
		m.cws = append(m.cws[:0:0], m.cws[200:]...)
	}
	for _, i := range s.list() {
		if m.known.has(i) {
			c.rem.del(i)
		}
	}
	m.cws = append(m.cws, c)
	if c.rem.size() > 0 {
		m.live = append(m.live, c)
	}
	return c
}

// determined returns a transaction some codeword determines, or -1.
func (m *refDec) determined() int {
	for _, c := range m.live {
		if c.rem.size() == 1 {
			return c.rem.list()[0]
		}
	}
	return -1
}

func (m *refDec) determines(i int) bool {
	for _, c := range m.live {
		if c.rem.size() == 1 && c.rem.has(i) {
			return true
		}
	}
	return false
}

func (m *refDec) hash() uint64 {
	h := uint64(7)
	for _, i := range m.order {
		h = mc.Mix(h*31 + uint64(i))
	}
	sum := uint64(0)
	for _, c := range m.live {
		x := uint64(1)
		for _, w := range c.rem {
			x = mc.Mix(x ^ w)
		}
		sum += x
	}
	return mc.Mix(h ^ sum)
}

// lock drives a real decoder and the reference side by side.
type lock struct {
	x       *mc.X
	u       *Universe
	d       Dec
	m       *refDec
	sound   bool // only soundness is asserted (C03)
	silent  bool // intermediate states are not observed
	history []string
}

func newLock(x *mc.X, u *Universe, mem int) *lock {
	return &lock{x: x, u: u, d: u.c.NewDec(salt, mem), m: &refDec{mem: mem}}
}

func (l *lock) fail(f string, a ...any) {
	l.x.Fail("%s: %s\nhistory: %v", l.u.c.Name, fmt.Sprintf(f, a...), l.history)
}

// outputs consumes what one step returned.
func (l *lock) outputs(outs []Out) {
	for _, o := range outs {
		i, ok := l.u.byCont[o.Content]
		if !ok {
			l.fail("output a transaction nobody encoded: %x", o.Content)
		}
		if l.m.known.has(i) {
			l.fail("output transaction %d which it already knew", i)
		}
		if !l.m.determines(i) {
			l.fail("output transaction %d although nothing received determines it", i)
		}
		if o.Expired {
			l.fail("output transaction %d as expired although nothing was released", i)
		}
		l.m.learn(i)
		l.x.Observe(uint64(i) + 100)
	}
	if i := l.m.determined(); i >= 0 {
		if l.sound {
			return // incomplete decoding is another property
		}
		l.fail("did not output transaction %d in the step that determines it", i)
	}
}

func (l *lock) cw(s set, cw any) {
	if len(l.history) < 64 {
		l.history = append(l.history, "codeword"+s.String())
	}
	l.x.Logf("codeword %v", s)
	l.x.Op(1)
	stub, outs := l.d.AddCW(cw)
	l.m.receive(s, stub)
	l.outputs(outs)
	l.x.Logf("   -> %d outputs, remembered %v", len(outs), l.m.order)
	if !l.silent {
		l.observe()
	}
}

func (l *lock) add(i int, tx any) {
	if len(l.history) < 64 {
		l.history = append(l.history, fmt.Sprintf("add %d", i))
	}
	l.x.Logf("add %d", i)
	l.x.Op(1)
	outs := l.d.AddTx(tx)
	if !l.m.known.has(i) {
		l.m.learn(i)
	}
	for _, o := range outs {
		if o.Content == l.u.content[i] && l.m.mem > 0 && l.m.known.has(i) {
			l.fail("reported transaction %d, added directly, as decoded", i)
		}
	}
	l.outputs(outs)
	l.x.Logf("   -> %d outputs, remembered %v", len(outs), l.m.order)
	if !l.silent {
		l.observe()
	}
}

// observe compares everything observable without side effects.
func (l *lock) observe() {
	if !l.sound {
		for _, c := range l.m.cws {
			if got, want := c.stub.Decoded(), c.rem.size() == 0; got != want {
				l.fail("codeword #%d reports decoded=%v with unknown members %v", c.id, got, c.rem)
			}
		}
		for i := range l.u.tx {
			if got, ok := l.d.Has(l.u.tx[i]); ok && got != l.m.known.has(i) {
				l.fail("HasDecoded(%d)=%v, remembered are %v", i, got, l.m.order)
			}
		}
	}
	l.x.State(l.m.hash())
}
