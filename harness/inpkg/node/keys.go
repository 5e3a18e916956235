package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

// tick lets one sending interval pass with everything settled around it.
func (n *zzNode) tick(k int) {
	for i := 0; i < k; i++ {
		vs.Idle()
		// whatever is due before the end of the interval happens in its turn
		end := vs.Clock() + 10*ms
		for {
			at, ok := vs.NextTimer()
			if !ok || at >= end {
				break
			}
			vs.Advance(at - vs.Clock())
			vs.Idle()
		}
		vs.Advance(end - vs.Clock())
	}
	vs.Idle()
}

// wrote checks that every codeword the node has written is undamaged under the
// key it announced, and returns the transactions they are over.
func (c *zzConn) wrote() map[int]int {
	c.receive()
	r := map[int]int{}
	for i, cw := range c.got {
		ids, ok := c.n.over(c.nodeKey(), cw.Codeword)
		if !ok {
			c.n.fail("C23", "%s: codeword %d written by the node is not over known transactions under the key it sent", c.name, i)
			c.n.x.Stop()
		}
		for _, id := range ids {
			r[id]++
		}
	}
	return r
}

func zzSame(a, b *ldpc.Codeword) bool {
	if a == nil || b == nil || len(a.Members) != len(b.Members) || a.Symbol != b.Symbol {
		return false
	}
	for i := range a.Members {
		if a.Members[i] != b.Members[i] {
			return false
		}
	}
	return true
}

// arrived checks that the decoder was given exactly these codewords, in order.
func (c *zzConn) arrived(want []*ldpc.Codeword) {
	seen := c.n.cwSeen[c.id]
	for i, cw := range want {
		if i >= len(seen) {
			c.n.fail("C23", "%s: %d of %d codewords sent have reached the decoder", c.name, len(seen), len(want))
			c.n.x.Stop()
		}
		if !zzSame(cw, seen[i]) {
			c.n.fail("C23", "%s: codeword %d arrives at the decoder as something else", c.name, i)
			c.n.x.Stop()
		}
	}
	if len(seen) > len(want) {
		c.n.fail("C23", "%s: %d codewords sent, %d reached the decoder", c.name, len(want), len(seen))
		c.n.x.Stop()
	}
}

func (n *zzNode) joined(c *zzConn) {
	if !c.done {
		n.fail("C23", "%s: the handler has not returned although the whole key was sent", c.name)
		n.x.Stop()
	}
	if c.err != nil {
		n.fail("C23", "%s: the handler reports %v although the whole key was sent", c.name, c.err)
		n.x.Stop()
	}
}

// exchange is a conversation with one remote which sends its key and, right
// behind it, codewords.
func zzExchange(n *zzNode, c *zzConn, ids [][]int) {
	var want []*ldpc.Codeword
	for _, l := range ids {
		c.sendIds(0, l...)
		want = append(want, zzCw(c.key, l...))
	}
	vs.Idle()
	n.joined(c)
	c.arrived(want)
	n.addLocal(90)
	n.tick(6)
	wrote := c.wrote()
	expect := map[int]bool{90: true}
	for _, l := range ids {
		for _, id := range l {
			expect[id] = true
		}
	}
	for id := range expect {
		if wrote[id] == 0 {
			n.fail("C23", "%s: none of the %d codewords the node wrote is over transaction %d, which it has", c.name, len(c.got), id)
			n.x.Stop()
		}
	}
	for id := range wrote {
		if !expect[id] {
			n.fail("C23", "%s: the node sends transaction %d, which it was not given", c.name, id)
			n.x.Stop()
		}
	}
}

func zzKeyExchange(tier string) []mc.Config {
	var r []mc.Config
	add := func(o zzOpts, name string, script func(n *zzNode)) {
		o.judge = "C23"
		if o.init == 0 {
			o.init = 600
		}
		r = append(r, o.config(name, script))
	}
	three := [][]int{{1}, {1, 2}, {3, 2}}
	// every way to cut the key
	add(zzOpts{fixed: true, split: 100000}, "the key in every possible set of pieces, data behind it", func(n *zzNode) {
		c := n.newConn()
		c.in = append(c.in, c.key[:]...)
		c.frag = func(max int) int {
			left := ldpc.SaltSize - c.eaten
			if left <= 0 {
				return max
			}
			if max < left {
				left = max
			}
			k := n.x.Choose(left + 1)
			if k == 0 {
				return max
			}
			return k
		}
		n.handle(c)
		zzExchange(n, c, three[:2])
	})
	split := func(dev int, msgs [][]int, near int, name string) {
		add(zzOpts{fixed: true, dev: dev}, name, func(n *zzNode) {
			c := n.newConn()
			c.in = append(c.in, c.key[:]...)
			early, late := 0, 0
			c.frag = func(max int) int {
				m := max
				if near > 0 && early == 0 {
					if late > 0 {
						return max
					}
					if c.eaten < ldpc.SaltSize && m > near {
						m = near
					}
				}
				if m < 2 {
					return max
				}
				if k := n.x.Deviate(m); k > 0 {
					if c.eaten < ldpc.SaltSize {
						early++
					} else {
						late++
					}
					return k
				}
				return max
			}
			n.handle(c)
			zzExchange(n, c, msgs)
		})
	}
	split(1, three, 0, "the stream in two pieces cut anywhere")
	split(2, three[:1], 20, "the stream in three pieces, the first cut in the key")
	if tier == "thorough" {
		split(2, three, 0, "the stream in three pieces cut anywhere")
		split(3, three[:1], 20, "the stream in four pieces, the first cut in the key")
	}
	// a connection that takes nothing for a while
	add(zzOpts{dev: 2, scale: true}, "a connection slow to take the key", func(n *zzNode) {
		ok := n.connect()
		c := n.newConn()
		c.room = 0
		c.in = append(c.in, c.key[:]...)
		n.handle(c)
		n.tick(1)
		var want []*ldpc.Codeword
		for _, l := range three {
			c.sendIds(0, l...)
			want = append(want, zzCw(c.key, l...))
		}
		n.tick(1)
		c.room = -1
		vs.Idle()
		for _, c := range n.conns {
			n.joined(c)
		}
		c.arrived(want)
		n.addLocal(9)
		n.tick(6)
		if len(c.out) < ldpc.SaltSize {
			n.fail("C23", "the node has not sent its key")
			n.x.Stop()
		}
		for _, c := range []*zzConn{c, ok} {
			if w := c.wrote(); w[9] == 0 {
				n.fail("C23", "%s: none of the %d codewords the node wrote is over transaction 9, which it has", c.name, len(c.got))
			}
		}
	})
	// more than the queues hold
	add(zzOpts{dev: 1, scale: true}, "many codewords at once", func(n *zzNode) {
		n.connect()
		n.connect()
		vs.Idle()
		var want [2][]*ldpc.Codeword
		for i := 0; i < 9; i++ {
			for j, c := range n.conns {
				l := []int{10*j + 1 + i/2}
				if i%2 == 0 {
					l = append(l, 10*j+20+i)
				}
				c.sendIds(0, l...)
				want[j] = append(want[j], zzCw(c.key, l...))
			}
			if i == 4 {
				n.addLocal(50)
			}
		}
		vs.Idle()
		for j, c := range n.conns {
			n.joined(c)
			c.arrived(want[j])
		}
		n.tick(4)
		for _, c := range n.conns {
			c.wrote()
		}
	})
	// pieces that arrive while other things happen
	add(zzOpts{dev: 1}, "the key piece by piece while the node is busy", func(n *zzNode) {
		a := n.newConn()
		n.handle(a)
		b := n.newConn()
		n.handle(b)
		pos := [2]int{}
		for i := 0; i < 4; i++ {
			for j, c := range []*zzConn{a, b} {
				k := []int{5, 1, 10, 16}[(i+2*j)%4]
				if pos[j]+k > ldpc.SaltSize {
					k = ldpc.SaltSize - pos[j]
				}
				c.in = append(c.in, c.key[pos[j]:pos[j]+k]...)
				pos[j] += k
			}
			vs.Idle()
			if i == 1 {
				n.addLocal(50)
			}
			n.pass(10 * ms)
		}
		var want []*ldpc.Codeword
		for _, l := range three {
			a.sendIds(0, l...)
			want = append(want, zzCw(a.key, l...))
		}
		var other []*ldpc.Codeword
		for _, l := range [][]int{{6, 7}, {7}, {8}} {
			b.sendIds(0, l...)
			other = append(other, zzCw(b.key, l...))
		}
		vs.Idle()
		n.joined(a)
		n.joined(b)
		a.arrived(want)
		b.arrived(other)
		n.tick(12)
		for _, c := range n.conns {
			w := c.wrote()
			for _, id := range []int{1, 2, 3, 6, 7, 8} {
				if w[id] == 0 {
					n.fail("C23", "%s: none of the %d codewords the node wrote is over transaction %d, which it has", c.name, len(c.got), id)
				}
			}
		}
	})
	// a connection that ends within the key
	errs := []error{io.EOF, io.ErrUnexpectedEOF, errors.New("connection reset")}
	add(zzOpts{fixed: true}, "the connection ends or fails within the key", func(n *zzNode) {
		ok := n.connect()
		vs.Idle()
		n.joined(ok)
		c := n.newConn()
		k := n.x.Choose(ldpc.SaltSize)
		e := errs[n.x.Choose(len(errs))]
		c.errWith = n.x.Bool()
		pieces := n.x.Choose(3)
		c.frag = func(max int) int {
			if pieces == 0 || max < 2 {
				return max
			}
			if pieces == 1 {
				return 1
			}
			return max - 1
		}
		c.in = append(c.in, c.key[:k]...)
		late := n.x.Bool()
		if !late {
			c.inErr = e
		}
		n.handle(c)
		vs.Idle()
		if late {
			if c.done {
				n.fail("C23", "the handler returned after %d bytes of the key (%v)", k, c.err)
				n.x.Stop()
			}
			c.inErr = e
			vs.Idle()
		}
		zzRefused(n, c, ok, fmt.Sprintf("after %d bytes of the key with %v", k, e))
	})
	add(zzOpts{fixed: true}, "our key cannot be sent", func(n *zzNode) {
		ok := n.connect()
		vs.Idle()
		n.joined(ok)
		c := n.newConn()
		c.wrErr = errs[n.x.Choose(len(errs))]
		whole := n.x.Bool()
		if whole {
			c.in = append(c.in, c.key[:]...)
		} else {
			c.inErr = io.EOF
		}
		n.handle(c)
		vs.Idle()
		zzRefused(n, c, ok, fmt.Sprintf("and does not take our key: %v", c.wrErr))
	})
	// two nodes
	pair := func(dev int, fixed bool, cut bool, name string) {
		add(zzOpts{dev: dev, fixed: fixed, init: 300}, name, func(n *zzNode) {
			a := n.newConn()
			n.controller()
			b := n.newConn()
			a.peer, b.peer = b, a
			if cut {
				for _, c := range n.conns {
					c := c
					c.frag = func(max int) int {
						m := max
						if c.eaten < ldpc.SaltSize && m > 20 {
							m = 20
						}
						if m < 2 || c.eaten > 400 {
							return max
						}
						if k := n.x.Deviate(m); k > 0 {
							return k
						}
						return max
					}
				}
			}
			for i, c := range n.conns {
				n.handle(c)
				vs.Send(c.ctl.localTransaction, zzTx(10*i+1))
			}
			n.tick(1)
			for i, c := range n.conns {
				n.joined(c)
				vs.Send(c.ctl.localTransaction, zzTx(10*i+2))
			}
			n.tick(12)
			for i, c := range n.conns {
				w := c.wrote()
				o := n.conns[1-i]
				var want []*ldpc.Codeword
				for _, g := range c.got {
					want = append(want, g.Codeword)
				}
				o.arrived(want)
				for _, id := range []int{2, 12} {
					if w[id] == 0 {
						n.fail("C23", "node %d: none of the %d codewords it wrote is over transaction %d, which it should have by now", i, len(c.got), id)
					}
				}
			}
		})
	}
	pair(0, true, false, "two nodes")
	pair(1, true, true, "two nodes, one read cut short anywhere")
	pair(1, false, false, "two nodes, one deviation from the default schedule")
	if tier == "thorough" {
		pair(2, true, true, "two nodes, two reads cut short anywhere")
		pair(2, false, true, "two nodes, one read cut short and one deviation from the default schedule")
	}
	return r
}

// zzRefused checks that the connection was given up with an error and that the
// node goes on without it.
func zzRefused(n *zzNode, c, ok *zzConn, how string) {
	if !c.done {
		n.fail("C23", "a connection ends %s and the handler has not returned", how)
		n.x.Stop()
	}
	if c.err == nil {
		n.fail("C23", "a connection ends %s and the handler reports success", how)
		n.x.Stop()
	}
	n.addLocal(1)
	n.tick(6)
	if w := ok.wrote(); w[1] == 0 {
		n.fail("C23", "a connection ends %s and the node stops serving the other", how)
	}
	if len(c.out) > ldpc.SaltSize {
		n.fail("C23", "a connection ends %s and the node writes codewords to it", how)
	}
}
