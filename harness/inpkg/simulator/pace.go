package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// One server with several peers, under every timed sequence of local arrivals
// and decoded batches. Its self-addressed messages come back after exactly the
// delay it asks for, among the other events in order of time.

type zzPace struct {
	name  string
	peers int
	min   time.Duration
	start time.Duration // time of the first event
	depth int
	burst int
	sync  bool
	th    int
	chain int // length of a chain of transactions decoded at once
}

type zzEvent struct {
	at   time.Duration
	seq  int
	msg  any
	from des.Module
}

type zzFixed struct{ d uint64 }

func (f *zzFixed) Uint64() uint64 { return f.d }

// zzPeer makes codewords over chosen transactions.
func zzCodeword(txs ...lt.Transaction[transaction]) codeword {
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, &zzFixed{uint64(len(txs))}, len(txs))
	for _, t := range txs {
		e.AddTransaction(t)
	}
	return codeword{Codeword: e.ProduceCodeword()}
}

func (c *zzPace) run(x *mc.X) {
	txgen = newTransactionGenerator()
	conf := serverConfig{
		blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: c.burst, decoderMemory: 100000,
		senderConfig:   senderConfig{detectThreshold: c.th, controlOverhead: 0.5},
		receiverConfig: receiverConfig{detectThreshold: c.th},
	}
	if c.sync {
		conf.forceSynchronize = time.Second
	}
	all := newServers(&des.Simulator{}, c.peers+1, 1, conf)
	s := all[0]
	s.forwardRateLimiter.minInterval = c.min
	for i := 1; i <= c.peers; i++ {
		if i%2 == 0 {
			connectServers(all[i], s, time.Hour)
		} else {
			connectServers(s, all[i], time.Hour)
		}
	}
	var queue []zzEvent
	seq := 0
	push := func(e zzEvent) {
		seq++
		e.seq = seq
		queue = append(queue, e)
		sort.SliceStable(queue, func(i, j int) bool { return queue[i].at < queue[j].at })
	}
	next := uint64(1 << 20) // transactions other nodes generated
	ext := func() lt.Transaction[transaction] {
		next++
		return lt.NewTransaction[transaction](transaction{next, 7})
	}
	var last time.Duration // latest forwarding time, the start of the simulation counts
	slots := map[uint64]time.Duration{}
	var order []uint64
	handed := make([]map[uint64]int, c.peers+1)
	for i := range handed {
		handed[i] = map[uint64]int{}
	}
	// what a sender has been handed: what was in its buffer when the step ended,
	// or went into the block it started
	seen := make([][]uint64, c.peers+1)
	blocks := make([][]uint64, c.peers+1)
	forwarded := 0
	handle := func(e zzEvent) {
		x.Op(1)
		gen0 := txgen.next
		out := s.HandleMessage(e.msg, e.from, e.at)
		var fresh []uint64
		for i := gen0; i < txgen.next; i++ {
			fresh = append(fresh, i)
		}
		var batch []uint64 // in the order the loopback messages appear
		var newLoops []zzEvent
		for _, o := range out {
			lb, is := o.Payload.(loopback)
			if !is {
				continue
			}
			if o.To != nil && o.To != des.Module(s) {
				x.Fail("a transaction is looped back to another node")
			}
			batch = append(batch, lb.tx.Data().idx)
			newLoops = append(newLoops, zzEvent{at: e.at + o.Delay, msg: o.Payload, from: s})
		}
		expect := map[uint64]bool{}
		if ba, is := e.msg.(blockArrival); is {
			if len(fresh) != ba.n || !zzSame(fresh, batch) {
				x.Fail("%d transactions generated (%v), %v scheduled for forwarding", ba.n, fresh, batch)
			}
		}
		for _, id := range batch {
			if _, there := slots[id]; there || expect[id] {
				x.Fail("transaction %d is scheduled for forwarding twice", id)
			}
			expect[id] = true
		}
		for i, id := range batch {
			at := e.at
			if last+c.min > at {
				at = last + c.min
			}
			if newLoops[i].at != at {
				x.Fail("at %v transaction %d (number %d of %d learned) is scheduled for %v; the previous one is forwarded at %v and the interval is %v", e.at, id, i+1, len(batch), newLoops[i].at, last, c.min)
			}
			last = at
			slots[id] = at
			order = append(order, id)
			x.Logf("at %v: transaction %d to be forwarded at %v", e.at, id, at)
			push(newLoops[i])
		}
		lb, isLoop := e.msg.(loopback)
		if isLoop {
			id := lb.tx.Data().idx
			if forwarded >= len(order) || order[forwarded] != id {
				x.Fail("transaction %d is forwarded out of order", id)
			}
			forwarded++
		}
		for i := 1; i <= c.peers; i++ {
			snd := s.handlers[all[i]].sender
			now := zzIdx(snd.buffer)
			for _, m := range out {
				if cw, is := m.Payload.(codeword); is && cw.newBlock && m.To == des.Module(all[i]) {
					w := zzWindow(snd.Encoder)
					blocks[i] = append(blocks[i], w...)
				}
			}
			got := append(append([]uint64{}, blocks[i]...), now...)
			want := append([]uint64{}, seen[i]...)
			if isLoop {
				want = append(want, lb.tx.Data().idx)
			}
			if !zzSame(got, want) {
				x.Fail("at %v after %T the sender to peer %d has been handed %v, expected %v", e.at, e.msg, i, got, want)
			}
			seen[i] = got
		}
	}
	at := c.start
	var held []lt.Transaction[transaction] // members of a codeword waiting to be decoded
	for i := 0; i < c.chain; i++ {
		held = append(held, ext())
		if i > 0 {
			handle(zzEvent{at: at, msg: zzCodeword(held[i-1], held[i]), from: all[1]})
		}
	}
	for k := 0; k < c.depth; k++ {
		if k > 0 {
			ds := []time.Duration{0, c.min, 3*c.min + 1, c.min - 1}
			if c.min == 0 {
				ds = []time.Duration{0, 1, 1000}
			}
			at += ds[x.Choose(len(ds))]
		}
		var msg any
		var from des.Module = s
		peer := all[1+k%c.peers]
		wantLearned := []uint64(nil)
		kinds := 4
		if c.sync {
			kinds = 5
		}
		kind := x.Choose(kinds)
		switch kind {
		case 0:
			msg = blockArrival{1}
		case 1:
			msg = blockArrival{c.burst}
		case 2: // a codeword that reveals one transaction
			t := ext()
			msg, from = zzCodeword(t), peer
			wantLearned = []uint64{t.Data().idx}
		case 3: // a codeword over two unknown transactions, then one that reveals both
			if len(held) == 0 {
				held = []lt.Transaction[transaction]{ext(), ext()}
				msg, from = zzCodeword(held...), peer
			} else {
				msg, from = zzCodeword(held[0]), peer
				wantLearned = zzIdx(held)
				held = nil
			}
		case 4:
			msg = createNewBlock{}
		}
		// loopbacks due before, or at the same time but scheduled earlier; at the
		// same time the event may also come first
		tie := false
		for _, e := range queue {
			if e.at == at {
				tie = x.Choose(2) == 1
				break
			}
		}
		for len(queue) > 0 && (queue[0].at < at || queue[0].at == at && !tie) {
			e := queue[0]
			queue = queue[1:]
			handle(e)
		}
		before := len(order)
		handle(zzEvent{at: at, msg: msg, from: from})
		if _, is := msg.(codeword); is && !zzSame(zzSorted(order[before:]), zzSorted(wantLearned)) {
			x.Fail("a codeword reveals %v, %v is scheduled for forwarding", wantLearned, order[before:])
		}
	}
	for len(queue) > 0 {
		e := queue[0]
		queue = queue[1:]
		handle(e)
	}
	for i := 1; i <= c.peers; i++ {
		if !zzSame(seen[i], order) {
			x.Fail("the sender to peer %d was handed %v; learned %v", i, seen[i], order)
		}
	}
	h := uint64(1)
	for _, id := range order {
		h = mc.Mix(h*3 + uint64(slots[id]))
	}
	x.State(h)
	x.Observe(h)
}

func zzPacing(tier string) []mc.Config {
	var r []mc.Config
	depth := 5
	if tier == "thorough" {
		depth = 6
	}
	for _, min := range []time.Duration{0, 1, 10 * time.Microsecond} {
		for k, start := range []time.Duration{0, min / 2, 5 * min} {
			if k > 0 && start == 0 {
				continue
			}
			for _, th := range []int{2, 100} {
				c := &zzPace{peers: 3, min: min, start: start, depth: depth - 1, burst: 3, th: th}
				if min == 10*time.Microsecond && start == 0 && (th == 2 || tier == "thorough") {
					c.depth = depth
				}
				c.name = fmt.Sprintf("interval %v first event at %v threshold %d depth %d", min, start, th, c.depth)
				r = append(r, mc.Config{Name: c.name, Run: c.run})
				if min == 1 && th == 2 {
					d := *c
					d.sync = true
					d.depth = depth - 1
					d.name = fmt.Sprintf("interval %v first event at %v threshold %d depth %d synchronised", min, start, th, d.depth)
					r = append(r, mc.Config{Name: d.name, Run: d.run})
				}
			}
		}
	}
	// many at once
	for _, c := range []zzPace{
		{peers: 2, burst: 400, depth: 2, th: 2},
		{peers: 2, burst: 3, depth: 2, th: 100, chain: 300},
		{peers: 30, burst: 30, depth: 2, th: 5, chain: 20},
		{peers: 2, burst: 5, depth: 3, th: 40, chain: 70, sync: true},
	} {
		c := c
		c.min = 10 * time.Microsecond
		c.name = fmt.Sprintf("%d peers, bursts of %d, %d decoded at once, threshold %d", c.peers, c.burst, c.chain, c.th)
		r = append(r, mc.Config{Name: c.name, Weight: 300, Run: c.run})
	}
	for _, c := range zzNets("C21")(tier) {
		if strings.Contains(c.Name, "in order") && c.Weight > 50 && tier != "thorough" {
			continue
		}
		if tier == "thorough" || strings.Contains(c.Name, "in order") || c.Weight < 15 || strings.Contains(c.Name, "sync") && c.Dev == 0 || c.Dev == 1 && strings.Contains(c.Name, "[1 2]") && strings.Contains(c.Name, "threshold 1") {
			r = append(r, c)
		}
	}
	return r
}
