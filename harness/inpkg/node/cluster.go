package main

import (
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vnet"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vstime"
	"github.com/yangl1996/soliton"
)

// Whole programs: main runs under the controlled scheduler, with the command
// line of the scenario, in a network that the harness plays.

const zzClustering = "C30"

type zzWorld struct {
	*zzNode
	lis    map[string]*zzLis
	dialed map[string][]*zzLink // connections made, by address
	failed map[string]int       // failed attempts
	refuse map[string]int       // attempts still to fail
	answer func(addr string) *zzLink
	adds   map[*ldpc.Encoder][]zzOffer
	order  []*ldpc.Encoder
	next   int
}

// zzOffer is a transaction an encoder was given.
type zzOffer struct {
	at time.Duration
	tx *ldpc.Transaction
}

type zzLis struct {
	addr   string
	queue  []*zzLink
	errs   int
	closed bool
}

type zzLink struct {
	*zzConn
	local, remote string
}

func (l *zzLink) Local() string  { return l.local }
func (l *zzLink) Remote() string { return l.remote }
func (l *zzLink) Close() error {
	l.inErr, l.wrErr = net.ErrClosed, net.ErrClosed
	l.in = nil
	if l.peer != nil {
		l.peer.inErr = io.EOF
	}
	return nil
}

func (w *zzWorld) listen(addr string) (func() (vnet.Link, error), func() error, error) {
	if _, there := w.lis[addr]; there {
		return nil, nil, errors.New("address in use")
	}
	l := &zzLis{addr: addr}
	w.lis[addr] = l
	accept := func() (vnet.Link, error) {
		vs.Until("accept on "+addr, func() bool { return len(l.queue) > 0 || l.errs > 0 || l.closed })
		if l.closed {
			return nil, net.ErrClosed
		}
		if l.errs > 0 {
			l.errs--
			return nil, errors.New("too many open files")
		}
		c := l.queue[0]
		l.queue = l.queue[1:]
		return c, nil
	}
	return accept, func() error { l.closed = true; return nil }, nil
}

func (w *zzWorld) dial(addr string) (vnet.Link, error) {
	vs.Point()
	if w.refuse[addr] > 0 {
		w.refuse[addr]--
		w.failed[addr]++
		w.x.Logf("at %v dialing %s fails", vs.Clock(), addr)
		return nil, errors.New("connection refused")
	}
	l := w.answer(addr)
	if l == nil {
		w.failed[addr]++
		return nil, errors.New("connection refused")
	}
	w.x.Logf("at %v %s is dialed", vs.Clock(), addr)
	w.dialed[addr] = append(w.dialed[addr], l)
	return l, nil
}

// start runs a node with the command line.
func (w *zzWorld) start(name string, args ...string) {
	vs.GoNamed(name, func() {
		os.Args = append([]string{"node"}, args...)
		flag.CommandLine = flag.NewFlagSet("node", flag.PanicOnError)
		flag.CommandLine.SetOutput(io.Discard)
		main()
	})
	vs.Idle()
}

// link is a connection with a remote that the harness plays.
func (w *zzWorld) link(local, remote string) *zzLink {
	c := w.newConn()
	c.name = "the connection with " + remote
	return &zzLink{c, local, remote}
}

// pair is a connection between two nodes.
func (w *zzWorld) pair(from, to string) (a, b *zzLink) {
	a, b = w.link(from, to), w.link(to, from)
	a.peer, b.peer = b.zzConn, a.zzConn
	return
}

func (w *zzWorld) sec(k float64) {
	for ; k > 0; k -= 0.5 {
		vs.Idle()
		vs.Advance(500 * ms)
	}
	vs.Idle()
}

// settled has everything follow the default schedule from here on.
func (w *zzWorld) settled() {
	for w.x.DevLeft() > 0 {
		w.x.SpendDev()
	}
}

func (w *zzWorld) watch(name string, args ...any) {
	if name == "Encoder.AddTransaction" {
		e, t := args[0].(*ldpc.Encoder), args[1].(*ldpc.Transaction)
		if _, there := w.adds[e]; !there {
			w.order = append(w.order, e)
		}
		w.adds[e] = append(w.adds[e], zzOffer{vs.Clock(), t})
	}
}

func (o zzOpts) world(name string, script func(w *zzWorld)) mc.Config {
	o.judge = zzClustering
	if o.split == 0 {
		o.split = 40
	}
	run := func(x *mc.X) {
		n := o.start(x)
		w := &zzWorld{zzNode: n, lis: map[string]*zzLis{}, dialed: map[string][]*zzLink{}, failed: map[string]int{}, refuse: map[string]int{}, adds: map[*ldpc.Encoder][]zzOffer{}}
		vs.CallHook = w.watch
		vstime.OnNow = nil
		vnet.ListenHook = w.listen
		vnet.DialHook = w.dial
		w.answer = func(string) *zzLink { return nil }
		defer func() {
			vs.CallHook, vs.CapHook = nil, nil
			vnet.ListenHook, vnet.DialHook = nil, nil
			vrand.SourceHook, vrand.ExpHook = nil, nil
		}()
		res := vs.Run(x, vs.Options{Fixed: o.fixed, MaxSteps: o.maxSteps(), Next: true}, func() { script(w) })
		if res.Panic != nil {
			n.fail(zzClustering, "%s panics: %v\n%s", res.PanicIn, res.Panic, zzShort(res.Stack))
			x.Stop()
		}
		if res.Limit {
			n.fail(zzClustering, "no end after %d steps", res.Steps)
			x.Stop()
		}
		h := uint64(res.Steps)
		for _, c := range n.conns {
			h = mc.Mix(h*7 + uint64(len(c.out))*100)
		}
		x.State(h)
		x.Observe(h)
	}
	w := o.weight
	if w == 0 {
		w = 1
	}
	return mc.Config{Name: name, Dev: o.dev, Solo: o.solo, Split: o.split, Weight: w, Run: run}
}

// fresh tells what the node has encoded since the last call.
func (w *zzWorld) fresh(l *zzLink) map[int]bool {
	l.receive()
	r := map[int]bool{}
	for _, cw := range l.got {
		ids, ok := w.over(l.nodeKey(), cw.Codeword)
		if !ok {
			w.fail(zzClustering, "%s: a codeword written by the node is not over known transactions under the key it sent", l.name)
			w.x.Stop()
		}
		for _, id := range ids {
			r[id] = true
		}
	}
	l.got = l.got[:0]
	return r
}

// peers checks that exactly these connections are those of peers.
func (w *zzWorld) peers(good, bad []*zzLink) {
	for _, from := range good {
		w.next++
		id := 1000 + w.next
		from.sendIds(0, id)
		vs.Idle()
		to := 0
		for _, e := range w.order {
			times := 0
			for _, o := range w.adds[e] {
				if zzId(o.tx) == id {
					times++
				}
			}
			if times > 1 {
				w.fail(zzClustering, "a transaction received on %s is offered to a peer %d times", from.name, times)
				w.x.Stop()
			}
			to += times
		}
		if to != len(good) {
			w.fail(zzClustering, "%d connections should be those of peers; a transaction received on %s is offered to %d", len(good), from.name, to)
			w.x.Stop()
		}
	}
	for _, l := range good {
		w.fresh(l)
	}
	w.tick(2)
	for _, l := range good {
		if len(w.fresh(l)) == 0 {
			w.fail(zzClustering, "%s: the node sends nothing", l.name)
			w.x.Stop()
		}
	}
	for _, l := range bad {
		if len(l.out) > ldpc.SaltSize {
			w.fail(zzClustering, "%s, on which no key arrived, became that of a peer", l.name)
			w.x.Stop()
		}
	}
}

var zzKinds = []string{"good", "silent", "ends at once", "ends in the middle of the key", "late", "fails on writing"}

// prepare has the remote of a connection behave in one way.
func (w *zzWorld) prepare(l *zzLink, kind int) {
	l.name += " (" + zzKinds[kind] + ")"
	switch kind {
	case 0:
		l.in = append(l.in, l.key[:]...)
	case 2:
		l.inErr = io.EOF
	case 3:
		l.in = append(l.in, l.key[:5]...)
		l.inErr = io.ErrUnexpectedEOF
	case 5:
		l.wrErr = errors.New("broken pipe")
		l.inErr = io.EOF
	}
}

func zzCluster(tier string) []mc.Config {
	var r []mc.Config
	thorough := tier == "thorough"
	add := func(o zzOpts, name string, script func(w *zzWorld)) {
		if o.steps == 0 {
			o.steps = 400000
		}
		r = append(r, o.world(name, script))
	}
	flags := []string{"-tx", "0", "-r0", "200", "-rmin", "100", "-inc", "0", "-k", "20", "-m", "1000"}

	// who becomes a peer
	links := func(o zzOpts, dials, incoming, fails int, kinds []int) {
		name := fmt.Sprintf("%d addresses given, each failing up to %d times, %d connections accepted, each of %d kinds, deviations %d", dials, fails, incoming, len(kinds), o.dev)
		add(o, name, func(w *zzWorld) {
			var addrs []string
			kind := map[string]int{}
			want := map[string]int{}
			total := 0
			for i := 0; i < dials; i++ {
				a := fmt.Sprintf("peer%d:9000", i)
				addrs = append(addrs, a)
				want[a] = w.x.Choose(fails + 1)
				w.refuse[a] = want[a]
				total += want[a]
				kind[a] = kinds[w.x.Choose(len(kinds))]
			}
			var good, bad, late []*zzLink
			w.answer = func(addr string) *zzLink {
				l := w.link("node", addr)
				w.prepare(l, kind[addr])
				if kind[addr] == 0 {
					good = append(good, l)
				} else if kind[addr] == 4 {
					late = append(late, l)
				} else {
					bad = append(bad, l)
				}
				return l
			}
			args := append([]string{"-l", "here:9000"}, flags...)
			if dials > 0 {
				args = append(args, "-p", strings.Join(addrs, ","))
			}
			w.start("node", args...)
			if w.lis["here:9000"] == nil {
				w.fail(zzClustering, "the node does not listen at the address it was given")
				w.x.Stop()
			}
			for i := 0; i < incoming; i++ {
				l := w.link("here:9000", fmt.Sprintf("client%d", i))
				k := kinds[w.x.Choose(len(kinds))]
				w.prepare(l, k)
				switch k {
				case 0:
					good = append(good, l)
				case 4:
					late = append(late, l)
				default:
					bad = append(bad, l)
				}
				if i == 1 {
					w.lis["here:9000"].errs++
				}
				w.lis["here:9000"].queue = append(w.lis["here:9000"].queue, l)
				if w.x.Bool() {
					w.sec(0.5)
				}
			}
			w.sec(float64(2*fails) + 1)
			w.settled()
			w.peers(good, append(bad, late...))
			for _, l := range late {
				l.in = append(l.in, l.key[:]...)
			}
			vs.Idle()
			w.peers(append(good, late...), bad)
			for _, a := range addrs {
				if len(w.dialed[a]) != 1 || w.failed[a] != want[a] {
					w.fail(zzClustering, "%s was given once and connected to %d times, after %d failures", a, len(w.dialed[a]), w.failed[a])
				}
			}
			for a := range w.dialed {
				if _, there := kind[a]; !there {
					w.fail(zzClustering, "the node connects to %q, which it was not told", a)
				}
			}
		})
	}
	f := 0
	if thorough {
		f = 1
	}
	all := []int{0, 1, 2, 3, 4, 5}
	links(zzOpts{fixed: true}, 0, 1, 0, all)
	links(zzOpts{fixed: true}, 1, 0, 4+f, all)
	links(zzOpts{fixed: true}, 0, 2, 0, all)
	links(zzOpts{fixed: true}, 2, 0, 2+f, []int{0, 1, 2, 4})
	links(zzOpts{fixed: true}, 1, 1, 1+f, all)
	links(zzOpts{fixed: true}, 0, 3, 0, []int{0, 1, 2, 4})
	links(zzOpts{fixed: true}, 2, 1, 1, []int{0, 1, 4})
	links(zzOpts{fixed: true}, 3, 0, 1, []int{0, 1})
	links(zzOpts{fixed: true}, 4, 0, 0, []int{0})
	links(zzOpts{dev: 1 + f}, 2, 0, 1, []int{0})
	links(zzOpts{dev: 1 + f}, 1, 1, 1, []int{0})
	links(zzOpts{dev: 1 + f}, 0, 2, 0, []int{0})
	links(zzOpts{dev: 1}, 2, 2, 0, []int{0})
	add(zzOpts{fixed: true}, "one address failing 0 to 30 times, one that answers and one accepted connection", func(w *zzWorld) {
		many := []int{0, 1, 3, 8, 15, 30}
		k := many[w.x.Choose(len(many))]
		w.refuse["far:1"] = k
		var good []*zzLink
		w.answer = func(a string) *zzLink {
			l := w.link("node", a)
			w.prepare(l, 0)
			good = append(good, l)
			return l
		}
		addrs := "far:1,near:1"
		if w.x.Bool() {
			addrs = "near:1,far:1"
		}
		w.start("node", append([]string{"-l", "here:1", "-p", addrs}, flags...)...)
		l := w.link("here:1", "client")
		w.prepare(l, 0)
		w.lis["here:1"].queue = append(w.lis["here:1"].queue, l)
		w.sec(float64(2*k) + 5)
		if len(w.dialed["far:1"]) != 1 || w.failed["far:1"] != k || len(w.dialed["near:1"]) != 1 {
			w.fail(zzClustering, "an address that fails %d times was connected to %d times, after %d failures; one that answers, %d times", k, len(w.dialed["far:1"]), w.failed["far:1"], len(w.dialed["near:1"]))
		}
		w.peers(append(good, l), nil)
	})
	add(zzOpts{fixed: true}, "the same address twice", func(w *zzWorld) {
		var good []*zzLink
		w.answer = func(a string) *zzLink {
			l := w.link("node", a)
			w.prepare(l, 0)
			good = append(good, l)
			return l
		}
		w.start("node", append([]string{"-p", "peer:1,peer:1"}, flags...)...)
		w.sec(2)
		if len(good) != 2 {
			w.fail(zzClustering, "an address given twice is connected to %d times", len(good))
		}
		w.peers(good, nil)
	})
	r = append(r, zzParams(tier)...)
	r = append(r, zzGeneration(tier)...)
	r = append(r, zzWholes(tier)...)
	return r
}

// ---- parameters

func (w *zzWorld) one(args ...string) *zzLink {
	w.start("node", append([]string{"-l", "here:1"}, args...)...)
	l := w.link("here:1", "client")
	w.prepare(l, 0)
	w.lis["here:1"].queue = append(w.lis["here:1"].queue, l)
	vs.Idle()
	return l
}

// rounds counts the codewords sent in every interval of 10 ms.
func (w *zzWorld) round(l *zzLink) int {
	l.receive()
	k := len(l.got)
	w.tick(1)
	l.receive()
	return len(l.got) - k
}

func zzParams(tier string) []mc.Config {
	var r []mc.Config
	thorough := tier == "thorough"
	add := func(o zzOpts, name string, script func(w *zzWorld)) {
		o.fixed = true
		o.solo = true
		if o.steps == 0 {
			o.steps = 4000000
		}
		r = append(r, o.world(name, script))
	}
	str := func(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

	// rates
	add(zzOpts{}, "rates: every combination of transaction rate, initial rate, minimum, increment and target loss", func(w *zzWorld) {
		pick := func(l ...float64) float64 { return l[w.x.Choose(len(l))] }
		tx := pick(0, 50, 300)
		r0 := pick(0, 120, 700)
		min := pick(1, 100, 400)
		inc := pick(0, 2, 30)
		loss := pick(0, 0.02, 0.5)
		vrand.ExpHook = func() float64 { return 1e6 }
		l := w.one("-tx", str(tx), "-r0", str(r0), "-rmin", str(min), "-inc", str(inc), "-loss", str(loss))
		init := r0
		if init == 0 {
			init = tx
		}
		if init < min {
			init = min
		}
		m := &zzModel{rate: init, inc: inc, dec: inc * loss, min: min}
		what := fmt.Sprintf("transactions %v, initial %v, minimum %v, increment %v, target %v:", tx, r0, min, inc, loss)
		for i := 0; i < 60; i++ {
			if i == 20 {
				l.sendIds(3, 5)
				m.rate += 3 * inc
				vs.Idle()
			}
			k := w.round(l)
			m.tick(w.zzNode, zzClustering, fmt.Sprintf("%s interval %d", what, i+1), k)
			for ; k > 0; k-- {
				m.queued()
			}
		}
	})
	// the timeout
	add(zzOpts{}, "timeouts", func(w *zzWorld) {
		t := []time.Duration{30 * ms, 500 * ms, 2 * time.Second, 45 * ms}[w.x.Choose(4)]
		early := w.x.Bool()
		args := []string{"-tx", "0", "-r0", "200", "-rmin", "200", "-inc", "0", "-t", t.String()}
		if t == 500*ms && w.x.Bool() {
			args = args[:len(args)-2]
		}
		l := w.one(args...)
		l.sendIds(0, 1, 2)
		vs.Idle()
		d := t + 5*ms
		if early {
			d = t - 5*ms
		}
		vs.Advance(d)
		l.sendIds(0, 7)
		vs.Idle()
		w.tick(5)
		l.receive()
		want := 1
		if early {
			want = 0
		}
		if l.lossOut != want {
			w.fail(zzClustering, "timeout %v: a codeword undecodable for %v when the next one arrived was reported lost %d times", t, d, l.lossOut)
		}
	})
	// the window
	add(zzOpts{weight: 2}, "windows", func(w *zzWorld) {
		k := []int{2, 3, 7, 50, 80}[w.x.Choose(5)]
		args := []string{"-tx", "0", "-r0", "3000", "-rmin", "3000", "-inc", "0"}
		if k != 50 || w.x.Bool() {
			args = append(args, "-k", fmt.Sprint(k))
		}
		l := w.one(args...)
		extra := 1 + w.x.Choose(2)
		for i := 0; i < k+extra; i++ {
			l.sendIds(0, 100+i)
		}
		vs.Idle()
		l.receive()
		l.got = l.got[:0]
		w.tick(100)
		l.receive()
		seen := map[int]bool{}
		for _, cw := range l.got {
			ids, ok := w.over(l.nodeKey(), cw.Codeword)
			if !ok {
				w.fail(zzClustering, "a codeword is not over known transactions")
				w.x.Stop()
			}
			for _, id := range ids {
				seen[id-100] = true
			}
		}
		for i := 0; i < k+extra; i++ {
			if seen[i] != (i >= extra) {
				w.fail(zzClustering, "window %d, %d transactions received one after another: that number %d is encoded is %v", k, k+extra, i, seen[i])
			}
		}
	})
	// the distribution of degrees
	par := [][2]float64{{0.03, 0.5}, {0.5, 0.03}, {0.1, 0.9}, {0.2, 0.05}}
	add(zzOpts{weight: 2}, "degrees: the whole distribution, on a grid of the random source", func(w *zzWorld) {
		k := []int{10, 50, 23}[w.x.Choose(3)]
		p := par[w.x.Choose(len(par))]
		const grid = 600
		src := func(int64) rand.Source { return &zzGrid{} }
		vrand.SourceHook = src
		args := []string{"-tx", "0", "-r0", "6000", "-rmin", "6000", "-inc", "0"}
		if k != 50 {
			args = append(args, "-k", fmt.Sprint(k))
		}
		if p != par[0] || w.x.Bool() {
			args = append(args, "-c", str(p[0]), "-delta", str(p[1]))
		}
		l := w.one(args...)
		for i := 0; i < k; i++ {
			l.sendIds(0, 100+i)
		}
		vs.Idle()
		zzGridLen = grid
		w.tick(20)
		zzGridLen = 0
		l.receive()
		got, want := map[int]int{}, map[int]int{}
		s := soliton.NewRobustSoliton(rand.New(&zzGrid{len: grid}), uint64(k), p[0], p[1])
		for i := 0; i < grid; i++ {
			want[int(s.Uint64())]++
		}
		all := 0
		for _, cw := range l.got {
			if len(cw.Members) > 0 {
				got[len(cw.Members)]++
				all++
			}
		}
		if all < grid {
			panic(fmt.Sprint("harness: only ", all, " codewords"))
		}
		for d := 1; d <= k; d++ {
			a, b := float64(got[d])/float64(all), float64(want[d])/grid
			if math.Abs(a-b) > 0.02 {
				w.fail(zzClustering, "k=%d c=%v delta=%v: %.4f of the codewords are over %d transactions instead of %.4f", k, p[0], p[1], a, d, b)
			}
		}
	})
	// the memory
	mems := []int{1, 2, 5, 30}
	if thorough {
		mems = []int{1, 2, 3, 5, 30, 100, 400}
	}
	add(zzOpts{}, "memories: which transaction is forgotten", func(w *zzWorld) {
		m := mems[w.x.Choose(len(mems))]
		l := w.one("-tx", "0", "-r0", "500", "-rmin", "500", "-inc", "0", "-k", "2", "-m", fmt.Sprint(m))
		back := []int{1, 2, m, m + 1, m + 2}[w.x.Choose(5)]
		for i := 0; i < m+3; i++ {
			l.sendIds(0, 100+i)
			vs.Idle()
		}
		// the one seen that many transactions ago; it is relayed again if forgotten
		id := 100 + m + 3 - back
		before := 0
		for _, e := range w.order {
			before += len(w.adds[e])
		}
		if before != m+3 {
			w.fail(zzClustering, "memory %d: %d transactions were received and %d offered for encoding", m, m+3, before)
			w.x.Stop()
		}
		l.sendIds(0, id)
		vs.Idle()
		again := -before
		for _, e := range w.order {
			again += len(w.adds[e])
		}
		want := 0
		if back > m {
			want = 1
		}
		if again != want {
			w.fail(zzClustering, "memory %d: the transaction received %d transactions ago is received again and relayed %d times", m, back, again)
		}
	})
	return r
}

// zzGrid answers with an even grid over the unit interval while zzGridLen is
// set (or its own length).
type zzGrid struct{ i, len int }

var zzGridLen int

func (g *zzGrid) Seed(int64)     {}
func (g *zzGrid) Uint64() uint64 { return uint64(g.Int63())<<1 }
func (g *zzGrid) Int63() int64 {
	n := g.len
	if n == 0 {
		n = zzGridLen
	}
	if n == 0 {
		return 1 << 62
	}
	g.i++
	return int64((float64(g.i%n) + 0.5) / float64(n) * (1 << 63))
}

// ---- generation

func zzGeneration(tier string) []mc.Config {
	var r []mc.Config
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	for _, peers := range []int{0, 1, 2} {
		for _, rate := range []float64{1, 40, 1000} {
			peers, rate := peers, rate
			r = append(r, zzOpts{fixed: true, steps: 1000000}.world(fmt.Sprintf("every history of %d gaps between generated transactions, rate %v, %d peers", depth, rate, peers), func(w *zzWorld) {
				var due []time.Duration
				t := 0.0
				k := 0
				vrand.ExpHook = func() float64 {
					e := 1e9
					if k < depth {
						e = []float64{1, 0.05, 2.5}[w.x.Choose(3)]
					}
					k++
					t += e / rate
					due = append(due, time.Duration(t*1e9))
					return e
				}
				w.start("node", "-l", "here:1", "-tx", strconv.FormatFloat(rate, 'g', -1, 64), "-r0", "10", "-k", "20")
				for i := 0; i < peers; i++ {
					l := w.link("here:1", fmt.Sprint("client", i))
					w.prepare(l, 0)
					w.lis["here:1"].queue = append(w.lis["here:1"].queue, l)
				}
				vs.Idle()
				end := time.Duration((float64(depth)*2.5/rate + 0.01) * 1e9)
				for vs.Clock() < end {
					d := end - vs.Clock()
					if at, there := vs.NextTimer(); there && at <= end {
						d = at - vs.Clock()
					}
					vs.Advance(d)
					vs.Idle()
				}
				if len(due) != depth+1 {
					w.fail(zzClustering, "%d gaps between transactions were drawn for %d transactions", len(due), depth)
					w.x.Stop()
				}
				if len(w.order) != peers {
					w.fail(zzClustering, "generated transactions are offered to %d of %d peers", len(w.order), peers)
					w.x.Stop()
				}
				for _, e := range w.order {
					l := w.adds[e]
					if len(l) != depth {
						w.fail(zzClustering, "%d transactions were generated and %d offered to a peer", depth, len(l))
						w.x.Stop()
					}
					seen := map[string]bool{}
					for i, o := range l {
						if d := o.at - due[i]; d < -time.Microsecond || d > time.Microsecond {
							w.fail(zzClustering, "transaction %d is due at %v and offered at %v", i+1, due[i], o.at)
						}
						b := o.tx.Serialized()
						if seen[string(b[8:])] {
							w.fail(zzClustering, "transaction %d has the content of an earlier one", i+1)
						}
						seen[string(b[8:])] = true
						stamp := int64(binary.LittleEndian.Uint64(b)) - vs.Epoch.Add(o.at).UnixMicro()
						if stamp < -1 || stamp > 1 {
							w.fail(zzClustering, "transaction %d, generated at %v, bears a time that is %d µs off", i+1, o.at, stamp)
						}
					}
				}
			}))
		}
	}
	return r
}

// ---- clusters of nodes

func zzWholes(tier string) []mc.Config {
	var r []mc.Config
	// who dials whom
	type shape struct {
		name  string
		n     int
		dials [][2]int
	}
	shapes := []shape{
		{"pair", 2, [][2]int{{0, 1}}},
		{"pair, each dialing the other", 2, [][2]int{{0, 1}, {1, 0}}},
		{"line", 3, [][2]int{{0, 1}, {1, 2}}},
		{"line dialed from the middle", 3, [][2]int{{1, 0}, {1, 2}}},
		{"line dialed from the ends", 3, [][2]int{{0, 1}, {2, 1}}},
		{"triangle", 3, [][2]int{{0, 1}, {1, 2}, {2, 0}}},
		{"star", 4, [][2]int{{0, 1}, {0, 2}, {0, 3}}},
		{"everybody dials everybody", 3, [][2]int{{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}}},
	}
	if tier == "thorough" {
		shapes = append(shapes, shape{"line of four", 4, [][2]int{{0, 1}, {1, 2}, {2, 3}}}, shape{"ring of four", 4, [][2]int{{0, 1}, {1, 2}, {2, 3}, {3, 0}}})
	}
	for _, s := range shapes {
		s := s
		for _, dev := range []int{0, 1} {
			if dev > 0 && s.n > 2 && tier != "thorough" {
				continue
			}
			r = append(r, zzOpts{fixed: dev == 0, dev: dev, steps: 4000000, weight: 1 + dev}.world(fmt.Sprintf("cluster: %s, every order and spacing of starts, deviations %d", s.name, dev), func(w *zzWorld) {
				addr := func(i int) string { return fmt.Sprintf("host%d:9000", i) }
				type conn struct{ from, to *zzLink }
				var made []conn
				cur := ""
				w.answer = func(a string) *zzLink {
					l := w.lis[a]
					if l == nil {
						return nil
					}
					x, y := w.pair(cur, a)
					l.queue = append(l.queue, y)
					made = append(made, conn{x, y})
					return x
				}
				// one transaction by every node
				gen := 0
				vrand.ExpHook = func() float64 {
					gen++
					if gen <= s.n {
						return float64(9 + gen)
					}
					return 1e9
				}
				left := make([]int, s.n)
				for i := range left {
					left[i] = i
				}
				for len(left) > 0 {
					j := w.x.Choose(len(left))
					i := left[j]
					left = append(left[:j:j], left[j+1:]...)
					args := []string{"-l", addr(i), "-tx", "1", "-r0", "100", "-rmin", "50", "-inc", "0", "-k", "6", "-m", "100", "-t", "1h"}
					var p []string
					for _, d := range s.dials {
						if d[0] == i {
							p = append(p, addr(d[1]))
						}
					}
					if p != nil {
						args = append(args, "-p", strings.Join(p, ","))
					}
					w.start(addr(i), args...)
					switch w.x.Choose(2) {
					case 1:
						w.sec(1.5)
					}
				}
				w.settled()
				w.sec(16)
				w.tick(100)
				if len(made) != len(s.dials) {
					w.fail(zzClustering, "%d connections for %d addresses given", len(made), len(s.dials))
					w.x.Stop()
				}
				count := map[string]int{}
				for a, l := range w.dialed {
					count[a] = len(l)
				}
				for _, d := range s.dials {
					count[addr(d[1])]--
				}
				for a, k := range count {
					if k != 0 {
						w.fail(zzClustering, "%s was connected to %d times too often", a, k)
					}
				}
				// everything generated reaches every encoder
				if len(w.order) != 2*len(made) {
					w.fail(zzClustering, "%d of %d ends of connections have something to encode", len(w.order), 2*len(made))
					w.x.Stop()
				}
				var sets []string
				for _, e := range w.order {
					m := map[string]bool{}
					for _, o := range w.adds[e] {
						m[string(o.tx.Serialized())] = true
					}
					var l []string
					for t := range m {
						l = append(l, t)
					}
					sort.Strings(l)
					sets = append(sets, strings.Join(l, ""))
					if len(l) != s.n {
						w.fail(zzClustering, "%d nodes generated a transaction each and an end of a connection was offered %d of them", s.n, len(l))
						w.x.Stop()
					}
				}
				for _, t := range sets {
					if t != sets[0] {
						w.fail(zzClustering, "ends of connections are offered different transactions")
					}
				}
			}))
		}
	}
	return r
}
