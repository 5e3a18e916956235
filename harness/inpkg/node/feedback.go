package main

import (
	"fmt"
	"math"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

// zzModel is the rate controller of one connection.
type zzModel struct {
	rate, credit  float64
	inc, dec, min float64
}

// tick spends the budget of one interval; produced is what the sender did.
func (m *zzModel) tick(n *zzNode, prop, when string, produced int) {
	m.credit += 0.01 * m.rate
	lo, hi := int(math.Floor(m.credit-1e-6)), int(math.Floor(m.credit+1e-6))
	if lo < 0 {
		lo = 0
	}
	if produced < lo || produced > hi {
		n.fail(prop, "%s: at a rate of %v and with a budget of %.4f codewords the sender produces %d", when, m.rate, m.credit, produced)
		n.x.Stop()
	}
	m.credit -= float64(produced)
	if m.credit < 0 {
		m.credit = 0
	}
}

func (m *zzModel) queued() {
	m.rate -= m.dec
	if m.rate < m.min {
		m.rate = m.min
	}
}

// conserved checks the losses reported so far, all of them if everything is
// out.
func (n *zzNode) conserved(all bool) {
	for _, c := range n.conns {
		c.receive()
		if c.lossOut > c.ref.lost {
			n.fail("C25", "%s: %d codewords were lost so far and %d reported lost", c.name, c.ref.lost, c.lossOut)
			n.x.Stop()
		}
		if all && c.lossOut != c.ref.lost {
			n.fail("C25", "%s: %d codewords were lost and %d reported lost in the end", c.name, c.ref.lost, c.lossOut)
			n.x.Stop()
		}
		for _, g := range c.got {
			if g.Loss < 0 {
				n.fail("C25", "%s: a loss of %d is reported", c.name, g.Loss)
				n.x.Stop()
			}
		}
	}
}

// flush has everything written and checks the losses.
func (n *zzNode) flush() {
	for _, c := range n.conns {
		c.room = -1
	}
	vs.Idle()
	n.conserved(false)
	n.tick(3)
	n.conserved(true)
}

func zzFeedback(tier string) []mc.Config {
	var r []mc.Config
	thorough := tier == "thorough"
	add := func(o zzOpts, name string, script func(n *zzNode)) {
		o.judge = "C25"
		if o.init == 0 {
			o.init = 100
		}
		r = append(r, o.config(name, script))
	}
	depth := 5
	if thorough {
		depth = 7
	}
	// histories of arrivals
	add(zzOpts{fixed: true, min: 100}, fmt.Sprintf("every history of %d arrivals and waits", depth), func(n *zzNode) {
		c := n.connect()
		vs.Idle()
		next := 10
		var open []int // transactions that would release a pending codeword
		for i := 0; i < depth; i++ {
			switch n.x.Choose(7) {
			case 0: // undecodable
				c.sendIds(0, next, next+1)
				open = append(open, next)
				next += 2
			case 1: // decodable
				c.sendIds(0, next)
				next++
			case 2: // completes the oldest
				if len(open) == 0 {
					n.x.Stop()
				}
				c.sendIds(0, open[0])
				open = open[1:]
			case 3: // a local transaction completes the newest
				if len(open) == 0 {
					n.x.Stop()
				}
				n.addLocal(open[len(open)-1])
				open = open[:len(open)-1]
			case 4: // decodable together with the newest
				if len(open) == 0 {
					n.x.Stop()
				}
				c.sendIds(0, open[len(open)-1], next)
				next++
			case 5:
				n.pass(260 * ms)
			case 6:
				n.pass(600 * ms)
			}
			vs.Idle()
			n.conserved(false)
		}
		n.flush()
	})
	// the same with slow connections
	depth = 5
	if thorough {
		depth = 7
	}
	add(zzOpts{fixed: true, min: 100, scale: true, timeout: 15 * ms}, fmt.Sprintf("every history of %d arrivals, ticks and writes on a slow connection", depth), func(n *zzNode) {
		c := n.connect()
		vs.Idle()
		next := 10
		c.room = 0
		c.sendIds(0, 1, 2)
		c.sendIds(0, 3, 4)
		vs.Idle()
		for i := 0; i < depth; i++ {
			switch n.x.Choose(5) {
			case 0:
				c.sendIds(0, next, next+1)
				next += 2
			case 1:
				c.sendIds(0, next)
				next++
			case 2:
				n.pass(10 * ms)
			case 3:
				n.pass(10 * ms)
				n.pass(10 * ms)
			case 4:
				c.room++
			}
			vs.Idle()
			n.conserved(false)
		}
		n.flush()
	})
	// more losses than the sender can report at once
	add(zzOpts{fixed: true, min: 100, scale: true, timeout: 15 * ms, init: 500, weight: 5}, "a connection that stalls for a long time while many codewords are lost", func(n *zzNode) {
		c := n.connect()
		d := n.connect()
		vs.Idle()
		c.room = 0
		k := 1 + n.x.Choose(12)
		gap := n.x.Choose(3)
		next := 10
		for i := 0; i < 8; i++ {
			for j := 0; j < k; j++ {
				c.sendIds(0, next, next+1)
				d.sendIds(0, next, next+3)
				next += 4
			}
			vs.Idle()
			n.tick(gap)
			n.conserved(false)
			if i%3 == 2 {
				c.room = 1
			}
		}
		n.tick(2)
		c.sendIds(0, 5)
		d.sendIds(0, 5)
		n.tick(2)
		n.flush()
		if c.ref.lost < 8 || d.ref.lost < 8 {
			panic(fmt.Sprint("harness: only ", c.ref.lost, " lost"))
		}
	})
	// more losses than fit one or two bytes
	heaps := []int{300, 2500, 66000}
	if thorough {
		heaps = append(heaps, 140000)
	}
	for _, k := range heaps {
		k := k
		add(zzOpts{fixed: true, min: 100, scale: true, timeout: 15 * ms, init: 500, steps: 1 << 30}, fmt.Sprintf("%d losses before the next codeword can be sent", k), func(n *zzNode) {
			c := n.connect()
			vs.Idle()
			c.room = 0
			next := 10
			early := n.x.Bool() // the queue is full before or after the losses
			if early {
				n.tick(30)
			}
			for i := 0; i < k; i++ {
				c.sendIds(0, next, next+1)
				for next += 2; zzClash(c.key, next) || zzClash(c.key, next+1); {
					next += 2
				}
				if i%16 == 15 {
					vs.Idle()
				}
			}
			n.tick(3)
			c.sendIds(0, 5)
			n.conserved(false)
			n.tick(2)
			n.flush()
			if c.ref.lost < k {
				panic(fmt.Sprint("harness: only ", c.ref.lost, " lost"))
			}
		})
	}
	add(zzOpts{fixed: true, inc: 1e-7, target: 0, init: 150, min: 20, steps: 1 << 30}, "reports of very many losses", func(n *zzNode) {
		c := n.connect()
		vs.Idle()
		m := &zzModel{rate: 150, inc: 1e-7, min: 20}
		for i := 0; i < 3; i++ {
			l := []int{200, 256, 40000, 65536, 70000, 3000000000, 5000000000}[n.x.Choose(7)]
			c.sendIds(l, 5)
			m.rate += 1e-7 * float64(l)
			vs.Idle()
			for j := 0; j < 10; j++ {
				before := n.prodBy[0]
				n.tick(1)
				k := n.prodBy[0] - before
				m.tick(n, "C25", fmt.Sprintf("after report %d, of %d losses", i+1, l), k)
				for ; k > 0; k-- {
					m.queued()
				}
			}
		}
	})
	depth = 6
	if thorough {
		depth = 7
	}
	for _, p := range []int{1, 2} {
		p := p
		add(zzOpts{fixed: true, min: 100, scale: true, tiny: true, timeout: 15 * ms}, fmt.Sprintf("one goroutine starved during every history of %d, %d peers", depth, p), func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			vs.Idle()
			free := n.starve()
			n.history(depth)
			n.conserved(false)
			free()
			vs.Idle()
			n.pass(20 * ms)
			for _, c := range n.conns {
				c.sendIds(0, 5)
			}
			n.flush()
		})
	}
	// schedules
	for _, p := range []int{1, 2} {
		for _, slow := range []bool{false, true} {
			slow := slow
			p := p
			dev := 2
			if p == 2 {
				dev = 1
			}
			if thorough {
				dev++
			}
			add(zzOpts{min: 100, scale: true, timeout: 15 * ms, dev: dev}, fmt.Sprintf("losses and ticks at once, %d peers, stalled %v, deviations %d", p, slow, dev), func(n *zzNode) {
				for i := 0; i < p; i++ {
					n.connect()
				}
				vs.Idle()
				for _, c := range n.conns {
					if slow {
						c.room = 0
					}
					c.sendIds(0, 1, 2)
					c.sendIds(0, 3, 4)
					c.sendIds(0, 5)
				}
				n.pass(10 * ms)
				n.conns[0].sendIds(0, 6, 7)
				n.pass(10 * ms)
				for _, c := range n.conns {
					c.sendIds(0, 8, 9)
				}
				n.pass(10 * ms)
				n.addLocal(3)
				n.conserved(false)
				n.pass(20 * ms)
				for _, c := range n.conns {
					if slow {
						c.room = 1
					}
					c.sendIds(0, 1)
				}
				n.pass(10 * ms)
				n.conserved(false)
				n.flush()
			})
		}
	}
	// reports from the other side
	for _, inc := range []float64{100, 37.5, 0.1} {
		for _, target := range []float64{0, 0.5} {
			inc, target := inc, target
			d := 5
			if thorough {
				d = 7
			}
			if inc == 0.1 || target != 0 {
				d--
			}
			add(zzOpts{fixed: true, inc: inc, target: target, init: 150, min: 20}, fmt.Sprintf("reports of loss raise the rate by %v, lowered by %v, every history of %d", inc, inc*target, d), func(n *zzNode) {
				c := n.connect()
				vs.Idle()
				m := &zzModel{rate: 150, inc: inc, dec: inc * target, min: 20}
				tick := func() {
					before := n.prodBy[0]
					n.tick(1)
					k := n.prodBy[0] - before
					m.tick(n, "C25", fmt.Sprintf("after %d reports", len(n.cwSeen[0])), k)
					for i := 0; i < k; i++ {
						m.queued()
					}
				}
				for i := 0; i < d; i++ {
					switch k := n.x.Choose(5); k {
					case 0:
						c.sendIds(0, 5)
					case 1, 2, 3:
						l := []int{0, 1, 2, 9}[k]
						c.sendIds(l, 5)
						m.rate += inc * float64(l)
					case 4:
						tick()
					}
					vs.Idle()
				}
				for i := 0; i < 12; i++ {
					tick()
				}
			})
			if target != 0 || inc < 1 {
				continue
			}
			dev := 2
			if thorough {
				dev = 3
			}
			add(zzOpts{inc: inc, init: 150, min: 20, scale: true, dev: dev}, fmt.Sprintf("reports of loss racing ticks, rate raised by %v, deviations %d", inc, dev), func(n *zzNode) {
				c := n.connect()
				vs.Idle()
				c.sendIds(1, 5)
				c.sendIds(3, 6)
				n.pass(10 * ms)
				c.sendIds(0, 1, 2)
				c.sendIds(2, 7)
				n.pass(10 * ms)
				c.sendIds(1, 2)
				vs.Idle()
				n.tick(2)
				for n.x.DevLeft() > 0 {
					n.x.SpendDev()
				}
				before := n.prodBy[0]
				n.tick(10)
				want := (150 + 7*inc) / 10
				if k := n.prodBy[0] - before; math.Abs(float64(k)-want) > 1.01 {
					n.fail("C25", "7 reported losses raise the rate from 150 by %v each and the sender produces %d codewords in 100 ms", inc, k)
				}
			})
		}
	}
	return r
}

func zzPacing(tier string) []mc.Config {
	var r []mc.Config
	thorough := tier == "thorough"
	add := func(o zzOpts, name string, script func(n *zzNode)) {
		o.judge = "C26"
		r = append(r, o.config(name, script))
	}
	// check replays what happened tick by tick against the model.
	check := func(n *zzNode, c *zzConn, made []int, all bool) {
		c.receive()
		queued := map[int64]int{}
		for _, g := range c.got {
			queued[(g.UnixMicro-vs.Epoch.UnixMicro()+9999)/10000]++
		}
		m := &zzModel{rate: n.o.init, dec: n.o.inc * n.o.target, min: n.o.min}
		total := 0
		for i, k := range made {
			m.tick(n, "C26", fmt.Sprintf("interval %d", i+1), k)
			q := queued[int64(i+1)]
			total += q
			if q > k {
				n.fail("C26", "interval %d: %d codewords made and %d sent", i+1, k, q)
				n.x.Stop()
			}
			if all && q < k {
				n.fail("C26", "interval %d: %d codewords made and %d sent although the connection is fast", i+1, k, q)
				n.x.Stop()
			}
			for ; q > 0; q-- {
				m.queued()
			}
		}
		if total != len(c.got) {
			n.fail("C26", "%d codewords sent, %d of them at sending times", len(c.got), total)
			n.x.Stop()
		}
	}
	type par struct{ init, min, inc, target float64 }
	pars := []par{{100, 1, 0, 0}, {30, 1, 0, 0}, {1, 1, 0, 0}, {99, 1, 0, 0}, {150, 1, 0, 0}, {1000.5, 1, 0, 0}, {37.7, 1, 0, 0}, {3300, 1, 0, 0},
		{500, 100, 10, 5}, {500, 100, 0.1, 0.02}, {200, 130, 100, 0.5}, {150, 30, 7.25, 2}, {100, 100, 10, 1}, {260, 60, 300, 1}, {20000, 1, 0, 0}, {20000, 15000, 1, 0.25}}
	long := 2000
	if thorough {
		long = 5000
	}
	for _, p := range pars {
		p := p
		what := fmt.Sprintf("rate %v down to %v by %v", p.init, p.min, p.inc*p.target)
		add(zzOpts{fixed: true, init: p.init, min: p.min, inc: p.inc, target: p.target, steps: 1 << 30}, fmt.Sprintf("%s, %d intervals on a fast connection", what, long), func(n *zzNode) {
			c := n.connect()
			vs.Idle()
			var made []int
			for i := 0; i < long; i++ {
				b := n.prodBy[0]
				n.tick(1)
				made = append(made, n.prodBy[0]-b)
				if i == 20 {
					n.addLocal(1)
				}
			}
			check(n, c, made, true)
		})
		if p.init > 10000 {
			continue
		}
		d := 7
		if thorough {
			d = 9
		}
		if p.init > 600 || p.inc == 0 {
			d -= 2
		}
		add(zzOpts{fixed: true, scale: true, init: p.init, min: p.min, inc: p.inc, target: p.target}, fmt.Sprintf("%s, every history of %d intervals, stalls and writes", what, d), func(n *zzNode) {
			c := n.connect()
			vs.Idle()
			var made []int
			tick := func() {
				b := n.prodBy[0]
				n.tick(1)
				made = append(made, n.prodBy[0]-b)
			}
			c.room = 0
			for i := 0; i < d; i++ {
				switch n.x.Choose(5) {
				case 0:
					tick()
				case 1:
					tick()
					tick()
					tick()
				case 2:
					c.room++
				case 3:
					c.room = -1
				case 4:
					if c.room == 0 {
						n.x.Stop()
					}
					c.room = 0
				}
				vs.Idle()
			}
			c.room = -1
			for i := 0; i < 3; i++ {
				tick()
			}
			check(n, c, made, false)
		})
		if p.inc == 0 && p.init != 150 {
			continue
		}
		dev := 1
		if thorough {
			dev = 2
		}
		add(zzOpts{scale: true, init: p.init, min: p.min, inc: p.inc, target: p.target, dev: dev}, fmt.Sprintf("%s, stalls, transactions and codewords arriving, deviations %d", what, dev), func(n *zzNode) {
			c := n.connect()
			vs.Idle()
			var made []int
			tick := func() {
				b := n.prodBy[0]
				n.tick(1)
				made = append(made, n.prodBy[0]-b)
			}
			for i := 0; i < 6; i++ {
				switch i {
				case 1:
					c.room = 1
				case 3:
					c.room = 0
				case 4:
					c.room = 2
				}
				if i%2 == 0 {
					n.addLocal(i + 1)
					c.sendIds(0, 20+i, 30)
				}
				tick()
			}
			c.room = -1
			for i := 0; i < 3; i++ {
				tick()
			}
			check(n, c, made, false)
		})
	}
	return r
}
