package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/deep"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/soliton"
)

// A network of real servers driven message by message. A reference model that
// sees only the messages (and knows which transactions a codeword combines)
// follows every link and every node's knowledge, and judges every step.

type zzConf struct {
	name     string
	n        int
	edges    [][2]int
	bursts   []int // arrivals per node
	burst    int   // transactions per arrival
	th       int
	overhead float64
	loss     float64
	sync     int // if not 0: synchronised blocks, this many ticks per node
	seeds    int
	dev      int
	weight   int
	long     bool // one schedule, first come first served
	judge    string
}

// zzSource is a counting random source.
type zzSource struct {
	s rand.Source64
	n int
}

func (s *zzSource) Int63() int64   { s.n++; return s.s.Int63() }
func (s *zzSource) Uint64() uint64 { s.n++; return s.s.Uint64() }
func (s *zzSource) Seed(v int64)   { s.s.Seed(v) }

// zzCw is a codeword in the reference model.
type zzCw struct {
	members []uint64
	unknown int
}

type zzLink struct { // codewords flow from a to b
	a, b     int
	buf      []uint64
	block    []uint64
	in       map[uint64]bool
	encoding bool
	win      int
	inflight int
	blk      int
	sent     int // codewords of the current block
	// receiver
	cur  []*zzCw
	done bool
}

type zzMsg struct {
	payload any
	seq     int
}

type zzNode struct {
	known   map[uint64]bool
	pending []*zzCw
	learned []uint64 // in order, to be forwarded
	loops   []zzMsg
	left    int
	ticks   int
	src     *zzSource
}

type zzNet struct {
	x       *mc.X
	c       *zzConf
	servers []*server
	nodes   []*zzNode
	links   map[[2]int]*zzLink
	dirs    [][2]int
	q       map[[2]int][]zzMsg
	txs     map[uint64]transaction
	hashOf  map[uint32]uint64
	seq     int
	late    map[[2]int]int
	steps   int
	weak    bool
}

func (n *zzNet) fail(prop string, f string, a ...any) {
	if n.c.judge == prop {
		n.x.Fail("%s", fmt.Sprintf(f, a...))
	}
	n.x.Logf("(%s) %s", prop, fmt.Sprintf(f, a...))
}

// zzMembers reads the keyed hashes a codeword lists.
func zzMembers(c any) []uint32 {
	v := reflect.ValueOf(c)
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint32 {
			r := make([]uint32, f.Len())
			for j := range r {
				r[j] = uint32(f.Index(j).Uint())
			}
			return r
		}
	}
	panic("the codeword has no list of hashes")
}

type zzOne struct{}

func (zzOne) Uint64() uint64 { return 1 }

var zzHashes = map[transaction]uint32{}

// zzKeyed is the keyed hash of a transaction, as the encoder lists it.
func zzKeyed(t transaction) uint32 {
	if h, there := zzHashes[t]; there {
		return h
	}
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, zzOne{}, 1)
	e.AddTransaction(lt.NewTransaction[transaction](t))
	h := zzMembers(e.ProduceCodeword())[0]
	if len(zzHashes) > 100000 {
		zzHashes = map[transaction]uint32{}
	}
	zzHashes[t] = h
	return h
}

func init() {
	deep.Special = map[reflect.Type]func(unsafe.Pointer) uint64{
		reflect.TypeOf(&lt.Decoder[transaction]{}): func(unsafe.Pointer) uint64 { return 1 }, // the model knows its state
		reflect.TypeOf(&soliton.Soliton{}):         func(unsafe.Pointer) uint64 { return 2 }, // given by the block
		reflect.TypeOf(&lt.PendingCodeword[transaction]{}): func(p unsafe.Pointer) uint64 {
			if (*lt.PendingCodeword[transaction])(p).Decoded() {
				return 3
			}
			return 4
		},
	}
}

func (c *zzConf) start(x *mc.X) *zzNet {
	n := &zzNet{x: x, c: c, links: map[[2]int]*zzLink{}, q: map[[2]int][]zzMsg{}, txs: map[uint64]transaction{},
		hashOf: map[uint32]uint64{}, late: map[[2]int]int{}}
	txgen = newTransactionGenerator()
	seed := int64(x.Choose(c.seeds) + 1)
	conf := serverConfig{
		blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: c.burst, decoderMemory: 100000,
		senderConfig:   senderConfig{detectThreshold: c.th, controlOverhead: c.overhead},
		receiverConfig: receiverConfig{detectThreshold: c.th, targetCodewordLoss: c.loss},
	}
	if c.sync > 0 {
		conf.forceSynchronize = time.Second
	}
	n.servers = newServers(&des.Simulator{}, c.n, seed*100, conf)
	for i, s := range n.servers {
		src := &zzSource{s: rand.NewSource(seed*100 + int64(i)).(rand.Source64)}
		s.rng = rand.New(src)
		n.nodes = append(n.nodes, &zzNode{known: map[uint64]bool{}, left: c.bursts[i], ticks: c.sync, src: src})
	}
	for _, e := range c.edges {
		connectServers(n.servers[e[0]], n.servers[e[1]], time.Millisecond)
		for _, d := range [][2]int{e, {e[1], e[0]}} {
			n.dirs = append(n.dirs, d)
			n.links[d] = &zzLink{a: d[0], b: d[1], win: c.th}
		}
	}
	return n
}

func (n *zzNet) index(m des.Module) int {
	for i, s := range n.servers {
		if des.Module(s) == m {
			return i
		}
	}
	return -1
}

// sources of events: {node, -1} arrival, {node, -2} next loopback, {node, -3}
// synchronisation tick, {from, to} next message of a link
func (n *zzNet) enabled() (src [][2]int) {
	for i, d := range n.nodes {
		if d.left > 0 {
			src = append(src, [2]int{i, -1})
		}
		if len(d.loops) > 0 {
			src = append(src, [2]int{i, -2})
		}
		if d.ticks > 0 {
			src = append(src, [2]int{i, -3})
		}
	}
	for _, p := range n.dirs {
		if len(n.q[p]) > 0 {
			src = append(src, p)
		}
	}
	if n.c.dev > 0 || n.c.long {
		sort.SliceStable(src, func(i, j int) bool { return n.prio(src[i]) < n.prio(src[j]) })
	}
	return
}

func (n *zzNet) prio(src [2]int) int {
	p := n.late[src]
	h := 0
	if src[1] >= 0 {
		h = n.q[src][0].seq
	} else if src[1] == -2 {
		h = n.nodes[src[0]].loops[0].seq
	}
	if h > p {
		p = h
	}
	return p
}

func (n *zzNet) next(src [][2]int) [2]int {
	if n.c.dev == 0 && !n.c.long {
		return src[n.x.Choose(len(src))]
	}
	k := 0
	if n.c.dev > 0 {
		k = n.x.Deviate(len(src))
	}
	for _, s := range src[:k] {
		n.seq++
		n.late[s] = n.seq
	}
	delete(n.late, src[k])
	if src[k][1] == -1 || src[k][1] == -3 {
		n.seq += 12 // leave the network some time
		n.late[src[k]] = n.seq
	}
	return src[k]
}

func (n *zzNet) hash() uint64 {
	var roots []any
	for _, s := range n.servers {
		roots = append(roots, s)
	}
	x := deep.HashRoots(roots, txgen.next)
	for i, d := range n.nodes {
		x = mc.Mix(x*3 + uint64(d.left)*64 + uint64(d.ticks))
		x = mc.Mix(x + uint64(d.src.n))
		for _, l := range d.loops {
			x = mc.Mix(x*5 + deep.HashRoots(nil, l.payload))
		}
		// what the decoder still waits for, as a set
		y := uint64(0)
		for _, p := range d.pending {
			y += n.cwKey(i, p)
		}
		x = mc.Mix(x ^ y)
	}
	for _, p := range n.dirs {
		l := n.links[p]
		x = mc.Mix(x*31 + uint64(len(n.q[p])))
		for _, m := range n.q[p] {
			if cw, is := m.payload.(codeword); is {
				h := uint64(7)
				if cw.newBlock {
					h = 9
				}
				for _, k := range zzMembers(cw.Codeword) {
					h += mc.Mix(uint64(k))
				}
				x = mc.Mix(x*7 + h)
			} else {
				x = mc.Mix(x*11 + deep.HashRoots(nil, m.payload))
			}
		}
		y := uint64(0)
		for _, c := range l.cur {
			if c.unknown > 0 {
				y += n.cwKey(p[1], c)
			}
		}
		x = mc.Mix(x ^ y ^ uint64(len(l.cur)))
		x = mc.Mix(x + uint64(l.inflight)*100 + uint64(l.win))
	}
	if n.c.dev > 0 {
		type ent struct{ pos, k int }
		var l []ent
		for i, p := range n.dirs {
			for j, m := range n.q[p] {
				e := ent{m.seq, i}
				if j == 0 {
					e.pos = n.prio(p)
				}
				l = append(l, e)
			}
		}
		for i, d := range n.nodes {
			for j, m := range d.loops {
				e := ent{m.seq, 100 + i}
				if j == 0 {
					e.pos = n.prio([2]int{i, -2})
				}
				l = append(l, e)
			}
			if d.left > 0 {
				l = append(l, ent{n.late[[2]int{i, -1}] - n.seq, 200 + i})
			}
			if d.ticks > 0 {
				l = append(l, ent{n.late[[2]int{i, -3}] - n.seq, 300 + i})
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].pos < l[j].pos })
		for _, e := range l {
			x = mc.Mix(x*13 + uint64(e.k))
		}
		x = mc.Mix(x + uint64(n.x.DevLeft()))
	}
	return x
}

func (n *zzNet) cwKey(node int, c *zzCw) uint64 {
	y := uint64(3)
	for _, m := range c.members {
		if !n.nodes[node].known[m] {
			y += mc.Mix(m + 77)
		}
	}
	return mc.Mix(y)
}

// learn makes a node know transactions and peels its pending codewords; it
// returns everything that became known besides.
func (n *zzNet) learn(i int, ids ...uint64) (more []uint64) {
	d := n.nodes[i]
	for _, id := range ids {
		d.known[id] = true
	}
	for again := true; again; {
		again = false
		live := d.pending[:0:0]
		for _, c := range d.pending {
			c.unknown = 0
			last := uint64(0)
			for _, m := range c.members {
				if !d.known[m] {
					c.unknown++
					last = m
				}
			}
			if c.unknown == 1 {
				d.known[last] = true
				more = append(more, last)
				c.unknown = 0
				again = true
			}
			if c.unknown > 0 {
				live = append(live, c)
			}
		}
		d.pending = live
	}
	return
}

// zzWindow lists the transactions in an encoder's window, nil if they cannot
// be found.
func zzWindow(e *lt.Encoder[transaction]) []uint64 {
	v := reflect.ValueOf(e).Elem()
	want := reflect.TypeOf(transaction{})
	var find func(v reflect.Value, d int) (reflect.Value, bool)
	find = func(v reflect.Value, d int) (reflect.Value, bool) {
		if v.Type() == want {
			return v, true
		}
		if v.Kind() == reflect.Struct && d < 4 {
			for i := 0; i < v.NumField(); i++ {
				if r, ok := find(v.Field(i), d+1); ok {
					return r, true
				}
			}
		}
		return v, false
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Struct {
			continue
		}
		if _, ok := find(reflect.Zero(f.Type().Elem()), 0); !ok {
			continue
		}
		r := []uint64{}
		for j := 0; j < f.Len(); j++ {
			t, _ := find(f.Index(j), 0)
			r = append(r, t.Field(0).Uint())
		}
		return r
	}
	return nil
}

func zzIdx(l []lt.Transaction[transaction]) []uint64 {
	r := []uint64{}
	for _, t := range l {
		r = append(r, t.Data().idx)
	}
	return r
}

func zzSame(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func zzSorted(a []uint64) []uint64 {
	b := append([]uint64{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

// do runs one event and judges it.
func (n *zzNet) do(src [2]int) {
	n.x.Op(1)
	n.steps++
	host := src[0]
	from := -1
	var m any
	switch {
	case src[1] == -1:
		n.nodes[host].left--
		m = blockArrival{n.c.burst}
	case src[1] == -2:
		m = n.nodes[host].loops[0].payload
		n.nodes[host].loops = n.nodes[host].loops[1:]
	case src[1] == -3:
		n.nodes[host].ticks--
		m = createNewBlock{}
	default:
		from, host = src[0], src[1]
		m = n.q[src][0].payload
		n.q[src] = n.q[src][1:]
	}
	s, d := n.servers[host], n.nodes[host]
	var fm des.Module = s
	if from >= 0 {
		fm = n.servers[from]
	}
	s.resetMetric()
	gen0 := txgen.next
	out := s.HandleMessage(m, fm, 0)
	n.x.Logf("node %d handles %T from %d: %d messages out", host, m, from, len(out))

	// reference
	var fresh []uint64 // learned now, to be looped back
	var want serverMetric
	wantAck, wantBlock := 0, false
	canStart := n.c.sync == 0
	switch p := m.(type) {
	case blockArrival:
		for i := gen0; i < txgen.next; i++ {
			t := transaction{i, 0}
			n.txs[i] = t
			n.hashOf[zzKeyed(t)] = i
			fresh = append(fresh, i)
		}
		if len(fresh) != p.n {
			n.fail("C21", "%d transactions generated instead of %d", len(fresh), p.n)
		}
		if more := n.learn(host, fresh...); len(more) > 0 {
			panic("harness: a transaction nobody else has leads to decoding")
		}
	case loopback:
		for _, l := range n.links {
			if l.a == host {
				l.buf = append(l.buf, p.tx.Data().idx)
			}
		}
	case createNewBlock:
		canStart = true
	case codeword:
		l := n.links[[2]int{from, host}]
		if p.newBlock {
			l.cur, l.done = nil, false
		}
		c := &zzCw{}
		for _, h := range zzMembers(p.Codeword) {
			id, there := n.hashOf[h]
			if !there {
				n.fail("C20", "codeword over a transaction nobody generated")
				n.x.Stop()
			}
			c.members = append(c.members, id)
		}
		d.pending = append(d.pending, c)
		fresh = n.learn(host)
		l.cur = append(l.cur, c)
		want = serverMetric{decodedTransactions: len(fresh), receivedCodewords: 1}
		wantAck = 1
		if !l.done && len(l.cur) > n.c.th {
			bad := 0
			for _, k := range l.cur {
				if k.unknown > 0 {
					bad++
				}
			}
			if bad <= int(float64(len(l.cur))*n.c.loss) {
				l.done, wantBlock = true, true
			}
		}
	case ack:
		l := n.links[[2]int{host, from}]
		l.inflight--
		if l.inflight < 0 {
			n.fail("C20", "more acknowledgements than codewords on link %d-%d", l.a, l.b)
		}
		if p.ackBlock {
			if !l.encoding {
				n.fail("C20", "block %d of link %d-%d acknowledged twice", l.blk, l.a, l.b)
			}
			l.encoding = false
		}
	}
	if s.serverMetric != want {
		n.fail("C20", "node %d handling %T accounts %+v instead of %+v", host, m, s.serverMetric, want)
	}
	// messages
	var looped []uint64
	min := int(float64(n.c.th) / n.c.overhead)
	if min < 1 {
		min = 1
	}
	acks := 0
	for _, o := range out {
		if o.To == nil || o.To == des.Module(s) {
			switch p := o.Payload.(type) {
			case loopback:
				looped = append(looped, p.tx.Data().idx)
				n.seq++
				d.loops = append(d.loops, zzMsg{p, n.seq})
			case blockArrival, createNewBlock:
			default:
				n.fail("C20", "message to itself %T", p)
			}
			continue
		}
		to := n.index(o.To)
		n.seq++
		n.q[[2]int{host, to}] = append(n.q[[2]int{host, to}], zzMsg{o.Payload, n.seq})
		switch p := o.Payload.(type) {
		case codeword:
			l := n.links[[2]int{host, to}]
			if l == nil {
				n.fail("C20", "codeword to %d, which is not a neighbour", to)
				continue
			}
			if l.inflight >= l.win {
				n.fail("C20", "link %d-%d has %d codewords outstanding and sends another; its window is %d", l.a, l.b, l.inflight, l.win)
			}
			if p.newBlock {
				if l.encoding {
					n.fail("C20", "link %d-%d starts a block before block %d is acknowledged", l.a, l.b, l.blk)
				}
				if !canStart {
					n.fail("C20", "link %d-%d starts a block although blocks start at synchronisation only", l.a, l.b)
				}
				if len(l.buf) < min {
					n.fail("C20", "link %d-%d starts a block of %d transactions, the minimum is %d", l.a, l.b, len(l.buf), min)
				}
				l.block, l.buf = l.buf, nil
				l.encoding = true
				l.blk++
				l.sent = 0
				l.win = int(float64(len(l.block)) * n.c.overhead)
				if l.win < 1 {
					l.win = 1
				}
				if w := zzWindow(s.handlers[n.servers[to]].sender.Encoder); w != nil && !zzSame(w, l.block) {
					n.fail("C20", "link %d-%d: the block has %v instead of the buffered %v", l.a, l.b, w, l.block)
				}
			} else if !l.encoding {
				n.fail("C20", "link %d-%d sends a codeword although its block is acknowledged", l.a, l.b)
			}
			l.inflight++
			l.sent++
			if l.sent > 600+20*len(l.block) {
				n.fail("C20", "block %d of link %d-%d (%v) is not finished after %d codewords", l.blk, l.a, l.b, l.block, l.sent)
				n.x.Stop()
			}
			if len(l.in) == 0 || p.newBlock {
				l.in = map[uint64]bool{}
				for _, b := range l.block {
					l.in[b] = true
				}
			}
			for _, h := range zzMembers(p.Codeword) {
				if !l.in[n.hashOf[h]] {
					n.fail("C20", "link %d-%d sends a codeword over transactions outside its block", l.a, l.b)
				}
			}
		case ack:
			if to != from {
				n.fail("C20", "unexpected acknowledgement to %d", to)
				continue
			}
			acks++
			if acks > wantAck {
				n.fail("C20", "%T acknowledged %d times", m, acks)
			} else if p.ackBlock != wantBlock {
				l := n.links[[2]int{from, host}]
				und := 0
				for _, k := range l.cur {
					if k.unknown > 0 {
						und++
					}
				}
				n.fail("C20", "codeword %d of the block on link %d-%d acknowledged with block %v; %d of its codewords are not decoded, threshold %d, tolerated share %v, acknowledged before %v", len(l.cur), from, host, p.ackBlock, und, n.c.th, n.c.loss, l.done && !wantBlock)
			}
		default:
			n.fail("C20", "unexpected message %T", p)
		}
	}
	if acks < wantAck {
		n.fail("C20", "codeword of link %d-%d not acknowledged", from, host)
	}
	// learned transactions are looped back, in order
	d.learned = append(d.learned, looped...)
	if _, is := m.(codeword); is {
		if !zzSame(zzSorted(looped), zzSorted(fresh)) {
			n.fail("C21", "node %d learned %v and forwards %v", host, fresh, looped)
		}
	} else if !zzSame(looped, fresh) {
		n.fail("C21", "node %d generated %v and forwards %v", host, fresh, looped)
	}
	// the record
	if len(s.received) != len(d.known) {
		n.fail("C20", "node %d knows %d transactions and records %d", host, len(d.known), len(s.received))
	}
	for k := range s.received {
		if t, there := n.txs[k.idx]; !there || t != k || !d.known[k.idx] {
			n.fail("C20", "node %d records %v, which it does not have", host, k)
		}
	}
	// senders: buffers, and no missed opportunity
	for _, p := range n.dirs {
		l := n.links[p]
		if l.a != host {
			continue
		}
		real := zzIdx(s.handlers[n.servers[l.b]].sender.buffer)
		if !zzSame(real, l.buf) {
			n.fail("C21", "node %d: the sender to %d has %v in its buffer instead of %v", host, l.b, real, l.buf)
			l.buf = real
		}
		if w := zzWindow(s.handlers[n.servers[l.b]].sender.Encoder); l.encoding && w != nil && !zzSame(zzSorted(w), zzSorted(l.block)) {
			n.fail("C20", "link %d-%d: the running block %d has %v instead of %v", l.a, l.b, l.blk, w, l.block)
		}
		if l.encoding && l.inflight < l.win {
			n.fail("C20", "link %d-%d has %d codewords outstanding of %d allowed and does not send", l.a, l.b, l.inflight, l.win)
		}
		if !l.encoding && canStart && len(l.buf) >= min && l.inflight < l.win {
			n.fail("C20", "link %d-%d has %d transactions buffered (minimum %d) and does not start a block", l.a, l.b, len(l.buf), min)
		}
	}
}

func (c *zzConf) run(x *mc.X) {
	n := c.start(x)
	for {
		if !c.long && x.Left() == 0 {
			if x.Visit(n.hash()) {
				x.Stop()
			}
		}
		src := n.enabled()
		if len(src) == 0 {
			break
		}
		n.do(n.next(src))
	}
	for _, p := range n.dirs {
		if l := n.links[p]; l.encoding {
			n.fail("C20", "nothing is under way any more and block %d of link %d-%d is unfinished", l.blk, l.a, l.b)
		}
	}
	x.Observe(uint64(n.steps))
}

func (c zzConf) config() mc.Config {
	for _, e := range c.edges {
		for _, i := range e {
			if i >= c.n {
				c.n = i + 1
			}
		}
	}
	if c.burst == 0 {
		c.burst = 1
	}
	if c.seeds == 0 {
		c.seeds = 1
	}
	c.name = fmt.Sprintf("links %v arrivals %vx%d threshold %d overhead %v loss %v", c.edges, c.bursts, c.burst, c.th, c.overhead, c.loss)
	if c.sync > 0 {
		c.name += fmt.Sprintf(" sync %d", c.sync)
	}
	if c.long {
		c.name += " in order"
	}
	if c.dev > 0 {
		c.name += fmt.Sprintf(" deviations %d", c.dev)
	}
	p := &c
	return mc.Config{Name: c.name, Solo: true, Dev: c.dev, Weight: c.weight, Run: p.run}
}

func zzMain(props map[string]func(string) []mc.Config) {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			mc.Main(props)
			os.Exit(0)
		}
	}
}
