package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

func (n *zzNode) settle() {
	vs.Idle()
	for _, c := range n.conns {
		if !c.done || c.err != nil {
			n.fail("C24", "%s is not a peer: finished %v, error %v", c.name, c.done, c.err)
			n.x.Stop()
		}
		if len(c.in) > 0 {
			n.fail("C24", "%s has sent %d bytes that nobody reads", c.name, len(c.in))
			n.x.Stop()
		}
	}
}

// chain is a sequence of codewords of which the last reveals m transactions.
func (c *zzConn) chain(first, m int) {
	for i := 1; i < m; i++ {
		c.sendIds(0, first+i-1, first+i)
	}
	c.sendIds(0, first)
}

// fan is a sequence of codewords of which the last reveals m transactions, all
// through the same one.
func (c *zzConn) fan(first, m int) {
	for i := 1; i < m; i++ {
		c.sendIds(0, first, first+i)
	}
	c.sendIds(0, first)
}

func zzRelay(tier string) []mc.Config {
	var r []mc.Config
	deep := 0
	if tier == "thorough" {
		deep = 1
	}
	add := func(o zzOpts, name string, script func(n *zzNode)) {
		o.judge = "C24"
		if o.init == 0 {
			o.init = 100
		}
		r = append(r, o.config(fmt.Sprintf("%s, %d peers, deviations %d, small channels %v", name, o.peers, o.dev, o.scale), script))
	}
	for _, p := range []int{1, 2, 3} {
		p := p
		d := 2 + deep
		if p == 1 {
			d++
		}
		add(zzOpts{peers: p, dev: d, scale: true}, "one local and one from every peer", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			n.addLocal(1)
			for i, c := range n.conns {
				c.sendIds(0, 100+i)
			}
			n.settle()
			n.spread(0)
		})
		e := d
		if p == 3 {
			e--
		}
		add(zzOpts{peers: p, dev: e, scale: true}, "peers connect while transactions arrive", func(n *zzNode) {
			for i := 0; i < p; i++ {
				c := n.connect()
				c.sendIds(0, 10+i)
				if i == 0 {
					n.addLocal(1)
				}
			}
			n.settle()
			n.spread(100)
			n.addLocal(101)
			n.conns[p-1].sendIds(0, 102)
			n.settle()
			n.spread(100)
		})
		add(zzOpts{peers: p, dev: d - 1, scale: true}, "many decoded at once", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			for i, c := range n.conns {
				if i%2 == 0 {
					c.chain(100*i+100, 9)
				} else {
					c.fan(100*i+100, 9)
				}
			}
			n.addLocal(1)
			n.addLocal(2)
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: d - 1, scale: true}, "many generated at once", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			for i := 0; i < 9; i++ {
				n.addLocal(1 + i)
			}
			n.conns[0].sendIds(0, 50)
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: d - 1, scale: true}, "the same from every peer, and decoding set off by a relayed one", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			for i, c := range n.conns {
				// relayed transactions release the pending codewords of the others
				c.sendIds(0, 1, 2)
				c.sendIds(0, 2, 3, 4)
				c.sendIds(0, 4, 5+i)
				c.sendIds(0, 6)
			}
			vs.Idle()
			n.conns[0].sendIds(0, 1)
			n.conns[p-1].sendIds(0, 3)
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: d - 1, scale: true}, "expired codewords", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			c := n.conns[0]
			c.sendIds(0, 1, 2)
			c.sendIds(0, 3, 4, 5)
			n.pass(300 * ms)
			c.sendIds(0, 6, 7)
			n.pass(300 * ms)
			c.sendIds(0, 8)
			vs.Idle()
			c.sendIds(0, 1)
			n.addLocal(3)
			n.addLocal(4)
			if p > 1 {
				n.conns[1].sendIds(0, 6)
			} else {
				c.sendIds(0, 6)
			}
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: d - 1, scale: true, init: 300}, "with tickers", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			n.pass(980 * ms)
			n.addLocal(1)
			for i, c := range n.conns {
				c.fan(100*i+100, 5)
			}
			n.pass(10 * ms)
			n.addLocal(2)
			n.pass(10 * ms)
			n.addLocal(3)
			n.conns[0].sendIds(2, 50)
			n.pass(1000 * ms)
			n.addLocal(4)
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: 0, steps: 4000000, M: 100000, weight: 50}, "thousands decoded at once", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			for i, c := range n.conns {
				if i%2 == 0 {
					c.fan(10000*i+100, 1600)
				} else {
					c.chain(10000*i+100, 1600)
				}
			}
			for i := 0; i < 20; i++ {
				n.addLocal(1 + i)
			}
			n.settle()
			n.spread(0)
		})
		add(zzOpts{peers: p, dev: 1 + deep, scale: true, init: 1000}, "slow connections", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			for _, c := range n.conns {
				c.room = 0
			}
			n.pass(10 * ms)
			n.addLocal(1)
			n.conns[0].fan(100, 5)
			vs.Idle()
			for _, c := range n.conns {
				c.room = -1
			}
			n.addLocal(2)
			n.settle()
			n.spread(0)
		})
	}
	peers := []int{5, 17, 40, 130}
	if deep > 0 {
		peers = append(peers, 300)
	}
	for _, p := range peers {
		p := p
		add(zzOpts{peers: p, fixed: true, steps: 1 << 30}, "many peers", func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
				if i%7 == 3 {
					vs.Idle()
				}
			}
			n.settle()
			for i, c := range n.conns {
				c.sendIds(0, 1000+i)
				if i%50 == 49 {
					n.addLocal(1 + i/50)
				}
			}
			n.addLocal(100)
			n.settle()
			n.spread(0)
		})
	}
	stream := 70000
	if deep > 0 {
		stream = 200000
	}
	add(zzOpts{peers: 2, fixed: true, M: 100, steps: 1 << 30}, fmt.Sprintf("a stream of %d transactions", stream), func(n *zzNode) {
		n.connect()
		n.connect()
		n.settle()
		kind := n.x.Choose(3) // generated, decoded, both
		for i := 0; i < stream; i++ {
			switch {
			case kind == 0 || kind == 2 && i%2 == 0:
				n.addLocal(10 + i)
			default:
				c := n.conns[i/2%2]
				if zzClash(c.key, 10+i) {
					continue
				}
				c.sendIds(0, 10+i)
			}
			if i%64 == 63 {
				vs.Idle()
			}
		}
		n.settle()
		n.spread(0)
	})
	// one goroutine starved
	for _, p := range []int{1, 2} {
		p := p
		d := 6
		if p == 2 {
			d = 5
		}
		d += deep
		add(zzOpts{peers: p, fixed: true, scale: true, timeout: 25 * ms, tiny: p == 1}, fmt.Sprintf("one goroutine starved during every history of %d", d), func(n *zzNode) {
			for i := 0; i < p; i++ {
				n.connect()
			}
			n.settle()
			free := n.starve()
			n.history(d)
			free()
			n.settle()
			n.spread(0)
		})
	}
	return r
}

// history has arbitrary things happen, of which none has to wait for the node.
func (n *zzNode) history(d int) {
	next := 10
	var open []int
	for i := 0; i < d; i++ {
		c := n.conns[i%len(n.conns)]
		switch n.x.Choose(5) {
		case 0: // generated
			id := next
			vs.GoNamed("generator", func() { n.addLocal(id) })
			next++
		case 1: // decodable
			c.sendIds(0, next)
			next++
		case 2: // not yet decodable
			c.sendIds(0, next, next+1, next+2)
			open = append(open, next)
			next += 3
		case 3: // more than one comes out at once
			if len(open) == 0 {
				n.x.Stop()
			}
			o := open[0]
			open = open[1:]
			c.sendIds(0, o, o+1)
			c.sendIds(0, o)
		case 4:
			n.pass(20 * ms)
		}
		vs.Idle()
	}
}

func init() {
	zzMain(map[string]func(string) []mc.Config{
		"C23": zzKeyExchange,
		"C24": zzRelay,
		"C25": zzFeedback,
		"C26": zzPacing,
		"C30": zzCluster,
	})
}
