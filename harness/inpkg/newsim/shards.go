package main

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// One link between two handlers, run in lockstep: every shard count, schedule,
// randomizer and boundary hash, with the transaction on either or both ends and
// handed over before any block of a round.

type zzPipe struct {
	x        *mc.X
	a, b     *server
	ha, hb   algorithm
	blocks   int // blocks started
	complete int // blocks completed
	starts   []uint64
	remote   map[zzTx]int // decoded by the receiving end: times
	local    map[zzTx]int // reported to the sending end
	when     map[zzTx]int // block of the last report
	toB      []any
	toA      []any
	repeated string
	seen     map[[2]uint64]int
}

func zzNewPipe(x *mc.X, n int, overhead float64, seed int64) *zzPipe {
	RNG = rand.New(rand.NewSource(seed))
	txgen = &transactionGenerator{}
	TXSIZE = 100
	s := newServers(&des.Simulator{}, 2, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1})
	connectCodingServers(s[0], s[1], time.Millisecond, senderConfig{controlOverhead: overhead, numShards: n})
	return &zzPipe{x: x, a: s[0], b: s[1], ha: s[0].handlers[s[1]].algorithm, hb: s[1].handlers[s[0]].algorithm,
		remote: map[zzTx]int{}, local: map[zzTx]int{}, when: map[zzTx]int{}, seen: map[[2]uint64]int{}}
}

func (p *zzPipe) collect() {
	for _, o := range p.ha.collectOutgoingMessages(p.b, 0, nil) {
		if c, is := o.Payload.(codeword); is && c.newBlock {
			p.blocks++
			p.seen[[2]uint64{c.startHash, c.endHash}] = p.blocks
		}
		p.toB = append(p.toB, o.Payload)
	}
	for _, o := range p.hb.collectOutgoingMessages(p.a, 0, nil) {
		p.toA = append(p.toA, o.Payload)
	}
}

// step delivers one message; false: nothing to deliver.
func (p *zzPipe) step() bool {
	p.collect()
	if len(p.toB) > 0 {
		m := p.toB[0]
		p.toB = p.toB[1:]
		p.x.Op(1)
		for _, t := range p.hb.handleMessage(m) {
			p.remote[t]++
			p.when[t] = p.complete + 1
		}
		p.collect()
		return true
	}
	if len(p.toA) > 0 {
		m := p.toA[0]
		p.toA = p.toA[1:]
		p.x.Op(1)
		for _, t := range p.ha.handleMessage(m) {
			p.local[t]++
			p.when[t] = p.complete + 1
		}
		if a, is := m.(ack); is && a.ackBlock {
			p.complete++
		}
		p.collect()
		return true
	}
	return false
}

func (p *zzPipe) until(blocks int) {
	for k := 0; p.complete < blocks; k++ {
		if !p.step() || k > 200*(blocks+2) {
			p.x.Fail("link stalls after %d of %d blocks", p.complete, blocks)
		}
	}
}

func zzInv(r uint64) uint64 {
	v := r
	for i := 0; i < 7; i++ {
		v *= 2 - r*v
	}
	return v
}

func zzPerms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var r [][]int
	for _, p := range zzPerms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

func zzBounds(n int) []uint64 {
	size := uint64(math.MaxUint64) / uint64(n)
	set := map[uint64]bool{}
	var r []uint64
	put := func(v uint64) {
		if !set[v] {
			set[v] = true
			r = append(r, v)
		}
	}
	for k := 0; k <= n; k++ {
		for d := -2; d <= 2; d++ {
			put(uint64(k)*size + uint64(int64(d)))
		}
		put(uint64(k)*size + size/2)
	}
	put(1 << 63)
	put(1<<63 - 1)
	put(math.MaxUint64)
	put(math.MaxUint64 - 1)
	return r
}

// zzTargets: 0 keeps the randomizer the simulator set up and varies the
// transaction; 1..3 choose the randomizer that maps transaction 1, 2 or 3 (of
// those with an odd hash) to the boundary; the others fix it and vary the
// transaction.
const zzTargets = 7

var zzFixed = []uint64{0, 1, 1 << 63}

func zzOdd(k int) transaction {
	for i := uint64(1000); ; i++ {
		t := transaction{i, 5}
		if t.Hash()&1 == 1 {
			if k--; k == 0 {
				return t
			}
		}
	}
}

// zzShard is one space: shard count n, all combinations below.
func zzShard(n int, perms [][]int, rands int, modes int, offsets []int) mc.Config {
	bounds := zzBounds(n)
	name := fmt.Sprintf("shards %d schedules %d randomizers %d hashes %d offsets %v", n, len(perms)+1, rands, len(bounds), offsets)
	return mc.Config{Name: name, Run: func(x *mc.X) {
		pi := x.Choose(len(perms) + 1)
		ri := x.Choose(rands)
		mode := x.Choose(modes)
		off := 0
		if mode < 2 {
			off = offsets[x.Choose(len(offsets))]
		}
		bi := x.Choose(len(bounds))
		p := zzNewPipe(x, n, float64(bi%2), int64(1+pi+ri))
		sd := p.ha.(coding).sender
		rc := p.hb.(coding).receiver
		t := transaction{1000 + uint64(bi), 5}
		r := sd.shardRandomizer
		if ri >= 1 && ri <= 3 {
			t = zzOdd(ri)
			r = bounds[bi] * zzInv(t.Hash())
		} else if ri > 3 {
			r = zzFixed[ri-4]
		}
		if ri > 0 {
			sd.shardRandomizer, rc.shardRandomizer = r, r
		}
		if pi < len(perms) {
			sd.shardSchedule = append([]int{}, perms[pi]...)
		}
		h := t.Hash()
		d := transaction{2000, 6}
		tx, dummy := zzTx{Symbol: t, Hash: h}, zzTx{Symbol: d, Hash: d.Hash()}
		desc := func() string {
			return fmt.Sprintf("%d shards, schedule %v, randomizer %#x, transaction hash %#x (product %#x), mode %d, handed over after %d blocks", n, sd.shardSchedule, r, h, h*r, mode, off)
		}
		x.Logf("%s", desc())
		if mode == 2 { // on both ends from the start
			p.hb.forwardTransaction(tx)
			p.ha.forwardTransaction(tx)
			p.until(n + 1)
			if p.remote[tx]+p.local[tx] != 0 {
				x.Fail("a transaction both ends have is reported as missing (%d times by the receiver, %d by the sender): they disagree about its shard; %s", p.remote[tx], p.local[tx], desc())
			}
			if len(sd.buffer) != 0 || len(rc.buffer) != 0 {
				x.Fail("a transaction both ends have enters no block within a round; %s", desc())
			}
			return
		}
		p.ha.forwardTransaction(dummy)
		p.until(off)
		if mode == 0 {
			p.ha.forwardTransaction(tx)
		} else {
			p.hb.forwardTransaction(tx)
		}
		p.until(off + n + 1)
		who, got := "receiver", p.remote[tx]
		if mode == 1 {
			who, got = "sender", p.local[tx]
		}
		if got != 1 {
			x.Fail("within one round the %s learns the transaction %d times instead of once; %s", who, got, desc())
		}
		p.until(off + 2*n + 2)
		if p.remote[tx]+p.local[tx] != 1 {
			x.Fail("within two rounds the transaction is reported %d times instead of once; %s", p.remote[tx]+p.local[tx], desc())
		}
		if p.remote[dummy] != 1 || p.local[dummy] != 0 {
			x.Fail("a transaction of the sender only is reported %d times to the receiver and %d to the sender; %s", p.remote[dummy], p.local[dummy], desc())
		}
		x.Observe(uint64(p.when[tx])<<8 + uint64(n))
		x.State(mc.Mix(h) ^ uint64(n)<<3 ^ uint64(p.when[tx]))
		if len(p.seen) != n {
			x.Fail("the schedule covers %d different ranges in two rounds of %d shards; %s", len(p.seen), n, desc())
		}
	}}
}

func zzShards(tier string) []mc.Config {
	var r []mc.Config
	upto := func(n int) []int {
		var o []int
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
		return o
	}
	small := 4
	if tier == "thorough" {
		small = 5
	}
	for n := 1; n <= small; n++ {
		r = append(r, zzShard(n, zzPerms(n), zzTargets, 3, upto(n)))
	}
	rot := func(n, k int) []int {
		var p []int
		for i := 0; i < n; i++ {
			p = append(p, (i*k+n/2)%n)
		}
		return p
	}
	lim := 20
	big := []int{31, 64}
	if tier == "thorough" {
		lim = 40
		big = []int{64, 100, 128, 255, 256}
	}
	for n := small + 1; n <= lim; n++ {
		r = append(r, zzShard(n, [][]int{upto(n), rot(n, n-1)}, 4, 3, []int{0, 1, n - 1}))
	}
	for _, n := range big {
		r = append(r, zzShard(n, [][]int{rot(n, n-1)}, 3, 3, []int{0, n - 1}))
	}
	for _, c := range zzNets("C18")(tier) {
		if len(c.Name) > 0 && c.Weight == 0 {
			r = append(r, c)
		}
	}
	return r
}
