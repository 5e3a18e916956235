package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/deep"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// A network of real servers driven message by message: every link direction is
// a queue, and which queue delivers next (or which node generates next) is a
// choice of the explorer. A reference model of the traffic on every link, fed
// with nothing but the messages and the buffers, judges every step.

type zzTx = riblt.HashedSymbol[transaction]

type zzMsg struct {
	payload any
	blk     int // reference: block the message belongs to
	seq     int // order of sending
	due     int // timed runs: when it arrives
}

type zzLink struct {
	a, b int // a holds the sender
	// sender end
	started  bool
	blk      int
	sent     int
	acked    int
	window   float64
	complete bool
	sbuf     []zzTx
	sset     []zzTx
	// receiver end
	rblk int
	got  int
	need int
	done bool
	rbuf []zzTx
	rset []zzTx
	// completions in the step being judged
	completed bool
}

type zzNet struct {
	x       *mc.X
	c       *zzConf
	servers []*server
	q       map[[2]int][]zzMsg
	links   []*zzLink
	left    []int // transaction arrivals still to come per node
	gens    []int
	base    uint64
	txs     map[uint64]zzTx
	has     []map[uint64]bool
	step    int
	seq     int
	late    map[[2]int]int // sources (link directions, arrivals as {node, -1}) put back in the queue
	now     int
	lat     map[[2]int]int
	weak    bool // the traffic has left the reference protocol (judged by another property)
}

type zzConf struct {
	name     string
	n        int
	edges    [][2]int
	arrivals []int
	burst    int
	overhead float64
	shards   int
	flood    bool
	pull     bool
	bases    int // values of the transaction counter to start from
	seeds    int
	weight   int
	dev      int // if not 0: every schedule with at most this many departures from first-come-first-served
	judge    string
	lats     []int // if set: timed runs, with every assignment of these latencies to the links
	graph    *zzGraph
}

// fail reports a violation of the given property. A run that judges another
// property only notes that the reference model of the traffic no longer holds.
func (n *zzNet) fail(prop string, f string, a ...any) {
	if n.c.judge == prop {
		n.x.Fail("%s: %s", n.c.name, fmt.Sprintf(f, a...))
	}
	if prop != "C17" && !n.weak {
		n.weak = true
		n.x.Logf("not the reference protocol (%s): %s", prop, fmt.Sprintf(f, a...))
	}
}

func zzConnect(c *zzConf, servers []*server) {
	for _, e := range c.edges {
		if c.pull {
			connectPullServers(servers[e[0]], servers[e[1]], time.Millisecond)
		} else {
			connectCodingServers(servers[e[0]], servers[e[1]], time.Millisecond, senderConfig{controlOverhead: c.overhead, numShards: c.shards})
		}
	}
}

func (c *zzConf) start(x *mc.X) *zzNet {
	n := &zzNet{x: x, c: c, q: map[[2]int][]zzMsg{}, txs: map[uint64]zzTx{}, late: map[[2]int]int{}}
	TXSIZE = 100
	n.base = uint64(x.Choose(c.bases)) * 16
	txgen = &transactionGenerator{last: n.base}
	RNG = rand.New(rand.NewSource(int64(1 + x.Choose(c.seeds))))
	n.servers = newServers(&des.Simulator{}, c.n, serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: c.burst, initialFlood: c.flood})
	zzConnect(c, n.servers)
	for i := 0; i < c.n; i++ {
		n.left = append(n.left, c.arrivals[i])
		n.gens = append(n.gens, 0)
		n.has = append(n.has, map[uint64]bool{})
	}
	if !c.pull {
		for _, e := range c.edges {
			n.links = append(n.links, &zzLink{a: e[0], b: e[1]})
		}
	}
	return n
}

func (n *zzNet) link(p, q int) *zzLink {
	for _, l := range n.links {
		if (l.a == p && l.b == q) || (l.a == q && l.b == p) {
			return l
		}
	}
	return nil
}

func (n *zzNet) index(m des.Module) int {
	for i, s := range n.servers {
		if des.Module(s) == m {
			return i
		}
	}
	return -1
}

// snd and rcv give the buffers of the two ends of a link in the real servers.
func (n *zzNet) snd(l *zzLink) *sender {
	return n.servers[l.a].handlers[n.servers[l.b]].algorithm.(coding).sender
}
func (n *zzNet) rcv(l *zzLink) *receiver {
	return n.servers[l.b].handlers[n.servers[l.a]].algorithm.(coding).receiver
}

func (n *zzNet) pairs() [][2]int {
	var r [][2]int
	for _, e := range n.c.edges {
		r = append(r, e, [2]int{e[1], e[0]})
	}
	return r
}

func (n *zzNet) hash() uint64 {
	var roots []any
	for _, s := range n.servers {
		roots = append(roots, s)
	}
	x := deep.HashRoots(roots, n.left, txgen.last, n.base, n.weak)
	for _, p := range n.pairs() {
		l := n.link(p[0], p[1])
		x = mc.Mix(x*31 + uint64(len(n.q[p])))
		for _, m := range n.q[p] {
			x = mc.Mix(x*5 ^ deep.HashRoots(nil, m.payload))
			if l != nil && !n.weak {
				x = mc.Mix(x*7 + uint64(l.blk-m.blk))
			}
		}
	}
	if n.c.dev > 0 {
		type ent struct {
			pos, k int
		}
		var l []ent
		for i, p := range n.pairs() {
			for j, m := range n.q[p] {
				e := ent{m.seq, i}
				if j == 0 {
					e.pos = n.prio(p)
				}
				l = append(l, e)
			}
		}
		for i, k := range n.left {
			if k > 0 {
				l = append(l, ent{n.late[[2]int{i, -1}], 100 + i})
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].pos < l[j].pos })
		for _, e := range l {
			x = mc.Mix(x*11 + uint64(e.k))
		}
		x = mc.Mix(x + uint64(n.x.DevLeft()))
	}
	for _, l := range n.links {
		if n.weak {
			break
		}
		x = mc.Mix(x ^ deep.HashRoots(nil, l.started, l.sent, l.acked, l.window, l.complete, zzIdx(l.sset), l.blk-l.rblk, l.got, l.need, l.done, zzIdx(l.rset)))
	}
	return x
}

func zzIdx(t []zzTx) []uint64 {
	var r []uint64
	for _, e := range t {
		r = append(r, e.Symbol.idx)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func zzMinus(a, b []zzTx) []zzTx {
	var r []zzTx
	for _, e := range a {
		in := false
		for _, f := range b {
			in = in || e == f
		}
		if !in {
			r = append(r, e)
		}
	}
	return r
}

var zzNeedMemo = map[string]int{}

// zzNeed is the number of codewords after which a fresh decoder given rset has
// decoded the stream of a fresh encoder given sset.
func zzNeed(sset, rset []zzTx) int {
	key := fmt.Sprint(zzIdx(sset), zzIdx(rset), len(sset))
	if v, there := zzNeedMemo[key]; there {
		return v
	}
	e, d := &riblt.Encoder[transaction]{}, &riblt.Decoder[transaction]{}
	for _, t := range sset {
		e.AddHashedSymbol(t)
	}
	for _, t := range rset {
		d.AddHashedSymbol(t)
	}
	k := 0
	for k < 400+20*(len(sset)+len(rset)) {
		k++
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		if d.Decoded() {
			break
		}
	}
	zzNeedMemo[key] = k
	return k
}

// prio orders the sources of events: by the time their next event was due.
func (n *zzNet) prio(src [2]int) int {
	p := n.late[src]
	if src[1] >= 0 && n.q[src][0].seq > p {
		p = n.q[src][0].seq
	}
	return p
}

// enabled lists what can happen next, the longest waiting first; arrivals are
// {node, -1}.
func (n *zzNet) enabled() (src [][2]int) {
	for i, k := range n.left {
		if k > 0 {
			src = append(src, [2]int{i, -1})
		}
	}
	for _, p := range n.pairs() {
		if len(n.q[p]) > 0 {
			src = append(src, p)
		}
	}
	if n.c.dev > 0 {
		sort.SliceStable(src, func(i, j int) bool { return n.prio(src[i]) < n.prio(src[j]) })
	}
	return
}

// next picks the next event.
func (n *zzNet) next(src [][2]int) [2]int {
	if n.c.dev == 0 {
		return src[n.x.Choose(len(src))]
	}
	k := n.x.Deviate(len(src))
	for _, s := range src[:k] { // the events passed over go to the back
		n.seq++
		n.late[s] = n.seq
	}
	delete(n.late, src[k])
	if src[k][1] < 0 {
		n.seq++
		n.late[src[k]] = n.seq
	}
	return src[k]
}

// do runs one event and judges it.
func (n *zzNet) do(host int, from int, m zzMsg) {
	n.x.Op(1)
	n.step++
	s := n.servers[host]
	s.resetMetric()
	known := len(s.received)
	gen0 := txgen.last
	var fm des.Module = s
	if from >= 0 {
		fm = n.servers[from]
	}
	ts := time.Duration(txgen.last-n.base) * time.Millisecond
	out := s.HandleMessage(m.payload, fm, ts)
	n.x.Logf("node %d handles %T from %d: %d messages out", host, m.payload, from, len(out))
	_, arrival := m.payload.(blockArrival)
	if arrival {
		if txgen.last != gen0+uint64(n.c.burst) {
			n.fail("C17", "%d transactions generated instead of %d", txgen.last-gen0, n.c.burst)
		}
		for i := gen0 + 1; i <= txgen.last; i++ {
			t := transaction{i, ts}
			n.txs[i] = zzTx{Symbol: t, Hash: t.Hash()}
		}
		n.gens[host]++
		n.left[host]--
	}
	n.model(host, from, m, out, gen0)
	// what holds whatever the protocol
	n.bytes(host, from, m)
	if s.receivedTransactions != len(s.received)-known {
		n.fail("C17", "node %d records %d new transactions and counts %d", host, len(s.received)-known, s.receivedTransactions)
	}
	n.has[host] = map[uint64]bool{}
	for k := range s.received {
		if _, there := n.txs[k]; !there {
			n.fail("C17", "node %d recorded transaction %d, which nobody generated", host, k)
		}
		n.has[host][k] = true
	}
	for _, o := range out {
		if o.To == nil || o.To == des.Module(s) {
			continue
		}
		to := n.index(o.To)
		n.seq++
		msg := zzMsg{payload: o.Payload, seq: n.seq, due: n.now + n.lat[[2]int{host, to}]}
		if k := n.link(host, to); k != nil {
			msg.blk = k.blk
			if _, is := o.Payload.(ack); is {
				msg.blk = m.blk
			}
		}
		p := [2]int{host, to}
		n.q[p] = append(n.q[p], msg)
	}
	n.silence()
}

func (n *zzNet) bytes(host, from int, m zzMsg) {
	size := 0
	switch p := m.payload.(type) {
	case initialBroadcast, response:
		size = TXSIZE
	case codeword:
		size = 8 + TXSIZE + 8 + 8
	case ack:
		size = 8 + TXSIZE*len(p.txs)
	case announce, request:
		size = 32
	}
	if got := n.servers[host].receivedBytes; got != size {
		n.fail("C17", "node %d handling %T from %d counts %d bytes instead of %d", host, m.payload, from, got, size)
	}
}

// model follows the reference protocol through one step.
func (n *zzNet) model(host, from int, m zzMsg, out []des.OutgoingMessage, gen0 uint64) {
	if n.weak {
		return
	}
	s := n.servers[host]
	var expect []zzTx // transactions the node must account as decoded
	var fresh []zzTx  // transactions new to the node, to be forwarded
	l := (*zzLink)(nil)
	if from >= 0 {
		l = n.link(host, from)
	}
	wantAck := 0 // acknowledgements to send to from
	var ackWant ack
	newBlock := false
	_, arrival := m.payload.(blockArrival)
	switch p := m.payload.(type) {
	case blockArrival:
		for i := gen0 + 1; i <= txgen.last; i++ {
			if !n.c.flood {
				fresh = append(fresh, n.txs[i])
			}
			n.has[host][i] = true
		}
	case initialBroadcast:
		expect = []zzTx{p.payload}
	case codeword:
		if p.newBlock {
			newBlock = true
			l.rblk = m.blk
			l.got, l.done = 0, false
		}
		if !l.done {
			wantAck = 1
			ackWant.ackStart = p.newBlock
		}
	case ack:
		expect = p.txs
	case response:
		expect = []zzTx{p.payload}
	}
	if newBlock {
		left := zzMinus(l.rbuf, zzMinus(l.rbuf, n.rcv(l).buffer))
		l.rset = zzMinus(l.rbuf, left)
		l.rbuf = left
		l.need = zzNeed(l.sset, l.rset)
	}
	if wantAck == 1 {
		l.got++
		if l.got == l.need {
			l.done = true
			ackWant.ackBlock = true
			ackWant.txs = zzMinus(l.rset, l.sset)
			expect = zzMinus(l.sset, l.rset)
		}
	}
	// accounting
	dup := 0
	var learn []zzTx
	for _, t := range expect {
		g, there := n.txs[t.Symbol.idx]
		if !there || g != t {
			n.fail("C17", "node %d learns %v, which nobody generated", host, t)
		}
		if n.has[host][t.Symbol.idx] {
			dup++
			continue
		}
		n.has[host][t.Symbol.idx] = true
		learn = append(learn, t)
		fresh = append(fresh, t)
	}
	want := serverMetric{decodedTransactions: len(learn), receivedTransactions: len(learn), duplicateTransactions: dup}
	if arrival {
		want = serverMetric{receivedTransactions: n.c.burst}
	}
	account := func() {
		got := s.serverMetric
		got.receivedBytes = 0
		if got != want {
			n.fail("C17", "node %d handling %T %+v from %d accounts %+v instead of %+v", host, m.payload, m.payload, from, got, want)
		}
		for k := range n.has[host] {
			if _, there := s.received[k]; !there {
				n.fail("C17", "node %d received transaction %d and has no record of it", host, k)
			}
		}
	}
	// forwarding into the buffers of the other links
	for _, k := range n.links {
		if k.a == host && k.b != from {
			k.sbuf = append(k.sbuf, fresh...)
		}
		if k.b == host && k.a != from {
			k.rbuf = append(k.rbuf, fresh...)
		}
	}
	// messages sent
	acks := 0
	started := map[*zzLink]bool{}
	bleft := map[*zzLink]int{}
	if a, is := m.payload.(ack); is && l.a == host {
		if m.blk != l.blk {
			n.fail("C19", "acknowledgement of block %d of link %d-%d arrives while block %d is encoded", m.blk, l.a, l.b, l.blk)
		}
		if a.ackStart || !a.ackBlock {
			l.acked++
			l.window += n.c.overhead
		}
		if a.ackBlock {
			l.complete = true
			l.completed = true
		}
	}
	for _, o := range out {
		if o.To == nil || o.To == des.Module(s) {
			if !arrival {
				n.fail("C17", "message to itself %T", o.Payload)
			}
			continue
		}
		to := n.index(o.To)
		k := n.link(host, to)
		switch p := o.Payload.(type) {
		case codeword:
			if k.a != host {
				n.fail("C19", "codeword sent by the receiving end")
				return
			}
			if p.newBlock {
				if k.started && !k.complete {
					n.fail("C19", "link %d-%d starts a new block although block %d is unfinished", k.a, k.b, k.blk)
				}
				prev := k.acked
				if !k.started {
					prev = 0
				}
				k.started, k.complete = true, false
				k.blk++
				k.sent, k.acked = 1, 0
				k.window = float64(prev) * n.c.overhead
				if k.window < 1 {
					k.window = 1
				}
				bleft[k] = prev * 2 / 3
				started[k] = true
			} else {
				if !k.started || k.complete {
					n.fail("C19", "link %d-%d sends a codeword outside any unfinished block", k.a, k.b)
				}
				if bleft[k] > 0 {
					bleft[k]--
				} else if float64(k.sent-k.acked) >= k.window {
					n.fail("C19", "link %d-%d has %d codewords of block %d outstanding and sends another; its window is %v", k.a, k.b, k.sent-k.acked, k.blk, k.window)
				}
				k.sent++
			}
		case ack:
			if l == nil || to != from || k.b != host {
				n.fail("C19", "unexpected acknowledgement to %d", to)
				return
			}
			acks++
			if acks > wantAck {
				n.fail("C19", "codeword of block %d of link %d-%d acknowledged although it should not be", m.blk, l.a, l.b)
			}
			if p.ackBlock != ackWant.ackBlock || p.ackStart != ackWant.ackStart {
				n.fail("C19", "codeword %d (of %d needed) of block %d, start %v: acknowledged with start %v, block %v", l.got, l.need, m.blk, newBlock, p.ackStart, p.ackBlock)
			}
			if len(p.txs) != len(ackWant.txs) || len(zzMinus(p.txs, ackWant.txs)) != 0 || len(zzMinus(ackWant.txs, p.txs)) != 0 {
				n.fail("C19", "block %d of %v against %v: acknowledged with %v", m.blk, zzIdx(l.sset), zzIdx(l.rset), p.txs)
			}
		}
	}
	if acks < wantAck {
		n.fail("C19", "codeword %d (of %d needed) of block %d of link %d-%d not acknowledged", l.got, l.need, m.blk, l.a, l.b)
	}
	// what the two ends of every link took out of their buffers
	taken := func(pending []zzTx, now []zzTx, what string) []zzTx {
		gone := zzMinus(pending, now)
		if len(zzMinus(now, pending)) != 0 || len(now)+len(gone) != len(pending) {
			n.fail("C18", "the buffer of %s had %v and has now %v", what, zzIdx(pending), zzIdx(now))
		}
		return gone
	}
	for _, k := range n.links {
		sb, rb := n.snd(k).buffer, n.rcv(k).buffer
		if gone := taken(k.sbuf, sb, fmt.Sprintf("the sender of link %d-%d", k.a, k.b)); started[k] {
			k.sset = gone
		} else if len(gone) != 0 {
			n.fail("C18", "the sender of link %d-%d lost %v from its buffer", k.a, k.b, zzIdx(gone))
		}
		k.sbuf = append([]zzTx{}, sb...)
		if gone := taken(k.rbuf, rb, fmt.Sprintf("the receiver of link %d-%d", k.a, k.b)); len(gone) != 0 {
			n.fail("C18", "the receiver of link %d-%d lost %v from its buffer", k.a, k.b, zzIdx(gone))
		}
		k.rbuf = append([]zzTx{}, rb...)
	}
	if !n.weak {
		account()
	}
}

// silence checks that an unfinished block never leaves its link silent.
func (n *zzNet) silence() {
	if n.weak {
		return
	}
	for _, k := range n.links {
		if k.started {
			live := false
			for _, m := range n.q[[2]int{k.b, k.a}] {
				if _, is := m.payload.(ack); is {
					live = true
				}
			}
			for _, m := range n.q[[2]int{k.a, k.b}] {
				if _, is := m.payload.(codeword); is && m.blk == k.blk && !(k.rblk == k.blk && k.done) {
					live = true
				}
			}
			if !live {
				n.fail("C19", "link %d-%d is silent with block %d unfinished (%d of %d codewords received)", k.a, k.b, k.blk, k.got, k.need)
			}
		}
	}
}

// missing reports a transaction some node lacks although every node generated.
func (n *zzNet) missing() (uint64, int, bool) {
	for _, g := range n.gens {
		if g == 0 {
			return 0, 0, false
		}
	}
	for id := n.base + 1; id <= txgen.last; id++ {
		for i := range n.servers {
			if !n.has[i][id] {
				return id, i, true
			}
		}
	}
	return 0, 0, false
}

func zzMain(props map[string]func(string) []mc.Config) {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			mc.Main(props)
			os.Exit(0)
		}
	}
}
