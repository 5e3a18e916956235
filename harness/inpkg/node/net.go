package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vstime"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vsync"
)

// The node runs under the controlled scheduler: its goroutines, channels,
// tickers and clock. What it talks to are connections whose other end is the
// harness, which reads and writes the real byte stream.

const ms = time.Millisecond

// ---- transactions

var zzTxs = map[int]*ldpc.Transaction{}
var zzIds = map[string]int{}

func zzTx(id int) *ldpc.Transaction {
	if t, there := zzTxs[id]; there {
		return t
	}
	var d ldpc.TransactionData
	binary.LittleEndian.PutUint64(d[0:], uint64(vs.Epoch.UnixMicro()))
	for i := 8; i < len(d); i += 8 {
		binary.LittleEndian.PutUint64(d[i:], mc.Mix(uint64(id)*100+uint64(i)))
	}
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(d[:]); err != nil {
		panic(err)
	}
	zzTxs[id] = t
	zzIds[string(t.Serialized())] = id
	return t
}

func zzId(t *ldpc.Transaction) int {
	if id, there := zzIds[string(t.Serialized())]; there {
		return id
	}
	return -1
}

type zzDeg struct{ d uint64 }

func (d *zzDeg) Uint64() uint64 { return d.d }

type zzKey [ldpc.SaltSize]byte

type zzMember struct {
	k zzKey
	h uint32
}

var zzMembers = map[zzMember]int{}
var zzCws = map[string]*ldpc.Codeword{}

// zzClash tells whether a transaction has the keyed hash of one used earlier.
func zzClash(k zzKey, id int) bool {
	hook := vs.CallHook
	vs.CallHook = nil
	defer func() { vs.CallHook = hook }()
	e := ldpc.NewEncoder(k, &zzDeg{1}, 1)
	e.AddTransaction(zzTx(id))
	o, there := zzMembers[zzMember{k, e.ProduceCodeword().Members[0]}]
	return there && o != id
}

// zzCw makes the codeword over exactly the given transactions.
func zzCw(k zzKey, ids ...int) *ldpc.Codeword {
	b := append(make([]byte, 0, 64), k[:]...)
	for _, id := range ids {
		b = binary.AppendVarint(b, int64(id))
	}
	name := string(b)
	if c, there := zzCws[name]; there {
		return c
	}
	hook := vs.CallHook
	vs.CallHook = nil
	defer func() { vs.CallHook = hook }()
	one := func(ids ...int) *ldpc.Codeword {
		e := ldpc.NewEncoder(k, &zzDeg{uint64(len(ids))}, len(ids)+1)
		for _, id := range ids {
			e.AddTransaction(zzTx(id))
		}
		return e.ProduceCodeword()
	}
	for _, id := range ids {
		c := one(id)
		m := zzMember{k, c.Members[0]}
		if o, there := zzMembers[m]; there && o != id {
			panic("harness: two transactions with the same keyed hash")
		}
		zzMembers[m] = id
	}
	c := one(ids...)
	if len(c.Members) != len(ids) {
		panic("harness: codeword over fewer transactions")
	}
	if len(zzCws) < 10000 {
		zzCws[name] = c
	}
	return c
}

// member tells which transaction has the keyed hash.
func (n *zzNode) member(k zzKey, h uint32) (int, bool) {
	id, there := zzMembers[zzMember{k, h}]
	if !there {
		for i := range zzTxs {
			zzCw(k, i)
		}
		id, there = zzMembers[zzMember{k, h}]
	}
	return id, there
}

// over tells which transactions an undamaged codeword is over.
func (n *zzNode) over(k zzKey, cw *ldpc.Codeword) (ids []int, ok bool) {
	var want ldpc.TransactionData
	seen := map[int]bool{}
	for _, m := range cw.Members {
		id, there := n.member(k, m)
		if !there || seen[id] {
			return nil, false
		}
		seen[id] = true
		ids = append(ids, id)
		want.XOR(&zzCw(k, id).Symbol)
	}
	sort.Ints(ids)
	return ids, want == cw.Symbol
}

// ---- connections

type zzConn struct {
	n       *zzNode
	id      int
	name    string
	in      []byte
	inErr   error // what reading ends with
	errWith bool  // the error comes together with the last bytes
	wrErr   error
	frag    func(max int) int
	out     []byte
	room    int // writes still accepted, -1 for any number
	free    bool
	key     zzKey // the remote's, codewords to the node are encoded with it
	enc     *gob.Encoder
	encBuf  bytes.Buffer
	dec     *gob.Decoder
	parsed  int
	got     []Codeword
	done    bool  // handleConn returned
	err     error // with this
	ref     zzRef
	lossOut int // loss reported by the node so far
	reads   int
	writes  int
	peer    *zzConn // the other end, when that is a node too
	ctl     *controller
	skew    int // the remote's clock is off, by turns
	eaten   int // bytes read so far
}

func (c *zzConn) Read(p []byte) (int, error) {
	vs.Until("data on "+c.name, func() bool { return len(c.in) > 0 || c.inErr != nil || len(p) == 0 })
	c.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, c.inErr
	}
	max := len(p)
	if max > len(c.in) {
		max = len(c.in)
	}
	k := max
	if c.frag != nil {
		k = c.frag(max)
	}
	c.eaten += k
	copy(p, c.in[:k])
	c.in = c.in[k:]
	if len(c.in) == 0 && c.inErr != nil && c.errWith {
		return k, c.inErr
	}
	return k, nil
}

func (c *zzConn) Write(p []byte) (int, error) {
	vs.Until("room on "+c.name, func() bool { return c.room != 0 })
	if c.wrErr != nil {
		return 0, c.wrErr
	}
	if c.room > 0 {
		c.room--
	}
	c.writes++
	if c.peer != nil {
		c.peer.in = append(c.peer.in, p...)
		if len(c.out) < ldpc.SaltSize {
			copy(c.peer.key[len(c.out):], p)
		}
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

// the harness's view of the bytes the node wrote
type zzRest struct{ c *zzConn }

func (r zzRest) ReadByte() (byte, error) {
	if r.c.parsed >= len(r.c.out) {
		return 0, io.EOF
	}
	r.c.parsed++
	return r.c.out[r.c.parsed-1], nil
}
func (r zzRest) Read(p []byte) (int, error) {
	if r.c.parsed >= len(r.c.out) {
		return 0, io.EOF
	}
	k := copy(p, r.c.out[r.c.parsed:])
	r.c.parsed += k
	return k, nil
}

// receive decodes what the node has written so far.
func (c *zzConn) receive() []Codeword {
	if len(c.out) < ldpc.SaltSize {
		return nil
	}
	if c.dec == nil {
		c.parsed = ldpc.SaltSize
		c.dec = gob.NewDecoder(zzRest{c})
	}
	k := len(c.got)
	for c.parsed < len(c.out) {
		var cw Codeword
		if err := c.dec.Decode(&cw); err != nil {
			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
			c.n.fail("C23", "%s: the stream the node wrote does not decode: %v", c.name, err)
			break
		}
		if cw.Codeword == nil {
			cw.Codeword = &ldpc.Codeword{}
		}
		c.got = append(c.got, cw)
		c.lossOut += cw.Loss
	}
	return c.got[k:]
}

// nodeKey is the key the node encodes with on this connection.
func (c *zzConn) nodeKey() (k zzKey) {
	copy(k[:], c.out)
	return
}

// send has the remote transmit a codeword.
func (c *zzConn) send(cw *ldpc.Codeword, loss int) {
	if c.enc == nil {
		c.enc = gob.NewEncoder(&c.encBuf)
	}
	skew := []time.Duration{-7 * time.Second, 9 * time.Second, 0, -time.Hour}[c.skew%4]
	c.skew++
	m := Codeword{Codeword: cw, Loss: loss, UnixMicro: vs.Epoch.Add(vs.Clock() + skew).UnixMicro()}
	if err := c.enc.Encode(m); err != nil {
		panic(err)
	}
	c.in = append(c.in, c.encBuf.Bytes()...)
	c.encBuf.Reset()
}

// sendIds transmits the codeword over the given transactions.
func (c *zzConn) sendIds(loss int, ids ...int) {
	if len(ids) == 0 {
		c.send(&ldpc.Codeword{}, loss)
		return
	}
	c.send(zzCw(c.key, ids...), loss)
}

// ---- reference decoder of one connection

type zzPend struct {
	members []int
	unknown map[int]bool
	at      time.Duration
	freed   bool
	decoded bool
	number  int
}

type zzEvent struct {
	tx      int
	expired bool
}

type zzRef struct {
	known  map[int]bool
	pend   []*zzPend
	window []*zzPend
	lost   int
	events []zzEvent
	fuzzy  bool // more than one codeword reveals the same transaction
	count  int
}

func (r *zzRef) peel() {
	for {
		var c *zzPend
		for _, p := range r.pend {
			if len(p.unknown) <= 1 {
				c = p
				break
			}
		}
		if c == nil {
			return
		}
		for id := range c.unknown {
			for _, p := range r.pend {
				if p != c && len(p.unknown) == 1 && p.unknown[id] && p.freed != c.freed {
					r.fuzzy = true
				}
			}
			r.known[id] = true
			r.events = append(r.events, zzEvent{id, c.freed})
		}
		live := r.pend[:0:0]
		for _, p := range r.pend {
			for id := range p.unknown {
				if r.known[id] {
					delete(p.unknown, id)
				}
			}
			if len(p.unknown) == 0 {
				p.decoded = true
			} else {
				live = append(live, p)
			}
		}
		r.pend = live
	}
}

func (r *zzRef) codeword(ids []int, now, timeout time.Duration) (lost int) {
	for len(r.window) > 0 && now-r.window[0].at >= timeout {
		h := r.window[0]
		r.window = r.window[1:]
		if !h.decoded {
			lost++
		}
		h.freed = true
	}
	r.lost += lost
	r.count++
	p := &zzPend{members: ids, unknown: map[int]bool{}, at: now, number: r.count}
	for _, id := range ids {
		if !r.known[id] {
			p.unknown[id] = true
		}
	}
	if len(p.unknown) == 0 {
		p.decoded = true
	} else {
		r.pend = append(r.pend, p)
	}
	r.window = append(r.window, p)
	if len(p.unknown) <= 1 { // the others have been peeled before
		r.peel()
	}
	return
}

func (r *zzRef) transaction(id int) {
	if r.known[id] {
		return
	}
	r.known[id] = true
	for _, p := range r.pend {
		delete(p.unknown, id)
	}
	live := r.pend[:0:0]
	for _, p := range r.pend {
		if len(p.unknown) == 0 {
			p.decoded = true
		} else {
			live = append(live, p)
		}
	}
	r.pend = live
	r.peel()
}

// ---- the node

type zzOpts struct {
	peers    int
	K, M     uint64
	init     float64
	min      float64
	inc      float64
	target   float64
	timeout  time.Duration
	scale    bool // small channels
	tiny     bool // of one element
	dev      int
	free     bool
	fixed    bool // one schedule
	steps    int
	weight   int
	split    int
	solo     bool
	judge    string
	name     string
	prepared func(n *zzNode)
}

type zzNode struct {
	x        *mc.X
	o        zzOpts
	c        *controller
	conns    []*zzConn
	local    map[int]int
	encAdd   map[*ldpc.Encoder]map[int]int
	decAdd   map[*ldpc.Decoder]map[int]int
	prodBy   map[int]int // codewords produced, by connection (-1 unknown)
	handlers map[*vs.G]int
	looked   map[*vs.G]time.Duration // first look at the clock since the decoder was last called
	newEnc   []zzKey
	newDec   []zzKey
	cwSeen   map[int][]*ldpc.Codeword
	loopErr  error
	quietly  bool
}

func (n *zzNode) fail(prop, f string, a ...any) {
	if n.o.judge == prop {
		n.x.Fail("%s", fmt.Sprintf(f, a...))
	}
	n.x.Logf("(%s) %s", prop, fmt.Sprintf(f, a...))
}

type zzRand struct{ s uint64 }

func (r *zzRand) Uint64() uint64 { r.s++; return mc.Mix(r.s) }
func (r *zzRand) Int63() int64   { return int64(r.Uint64() >> 1) }
func (r *zzRand) Seed(s int64)   { r.s = uint64(s) }

var zzSketch = func() *ddsketch.DDSketchWithExactSummaryStatistics {
	s, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	return s
}()

// connOf tells which connection the running goroutine belongs to.
func (n *zzNode) connOf() int {
	for g := vs.Current(); g != nil; g = g.Parent {
		if i, there := n.handlers[g]; there {
			return i
		}
	}
	return -1
}

func (n *zzNode) hook(name string, args ...any) {
	switch name {
	case "NewEncoder":
		if k, is := args[0].([ldpc.SaltSize]byte); is {
			n.newEnc = append(n.newEnc, k)
		}
	case "NewDecoder":
		if k, is := args[0].([ldpc.SaltSize]byte); is {
			n.newDec = append(n.newDec, k)
		}
	case "Encoder.AddTransaction":
		e, t := args[0].(*ldpc.Encoder), args[1].(*ldpc.Transaction)
		if n.encAdd[e] == nil {
			n.encAdd[e] = map[int]int{}
		}
		n.encAdd[e][zzId(t)]++
		n.x.Logf("an encoder of connection %d is offered transaction %d", n.connOf(), zzId(t))
	case "Encoder.ProduceCodeword":
		n.prodBy[n.connOf()]++
	case "Decoder.AddTransaction":
		delete(n.looked, vs.Current())
		d, t := args[0].(*ldpc.Decoder), args[1].(*ldpc.Transaction)
		if n.decAdd[d] == nil {
			n.decAdd[d] = map[int]int{}
		}
		n.decAdd[d][zzId(t)]++
		i := n.connOf()
		n.x.Logf("a decoder of connection %d is offered transaction %d", i, zzId(t))
		if i >= 0 && zzId(t) >= 0 {
			n.conns[i].ref.transaction(zzId(t))
		}
	case "Decoder.AddCodeword":
		if t, there := n.looked[vs.Current()]; there && t != vs.Clock() {
			n.x.Count("skipped: time passed while a codeword was being received", 1)
			n.x.Stop()
		}
		delete(n.looked, vs.Current())
		i := n.connOf()
		cw := args[1].(*ldpc.Codeword)
		n.cwSeen[i] = append(n.cwSeen[i], cw)
		if i < 0 {
			return
		}
		c := n.conns[i]
		var ids []int
		if cw != nil {
			for _, m := range cw.Members {
				id, there := c.n.member(c.key, m)
				if !there {
					n.fail("C23", "%s: the decoder is given a codeword over something the remote did not send", c.name)
					n.x.Stop()
				}
				ids = append(ids, id)
			}
		}
		l := c.ref.codeword(ids, vs.Clock(), n.o.timeout)
		n.x.Logf("at %v %s receives the codeword over %v, %d lost", vs.Clock(), c.name, ids, l)
	}
}

func (o zzOpts) start(x *mc.X) *zzNode {
	if o.K == 0 {
		o.K = 8
	}
	if o.M == 0 {
		o.M = 300
	}
	if o.timeout == 0 {
		o.timeout = 501 * ms
	}
	if o.min == 0 {
		o.min = 1
	}
	n := &zzNode{x: x, o: o, handlers: map[*vs.G]int{}, looked: map[*vs.G]time.Duration{}, local: map[int]int{}, encAdd: map[*ldpc.Encoder]map[int]int{}, decAdd: map[*ldpc.Decoder]map[int]int{},
		prodBy: map[int]int{}, cwSeen: map[int][]*ldpc.Codeword{}}
	vsync.Reset()
	vrand.Global = rand.New(&zzRand{7})
	vs.CapHook = nil
	if o.scale {
		vs.CapHook = func(k int) int {
			if k >= 50 && o.tiny {
				return 1
			}
			if k >= 1000 {
				return 3
			}
			if k >= 50 {
				return 2
			}
			return k
		}
	}
	zzSketch.Clear()
	vs.CallHook = n.hook
	vstime.OnNow = func() {
		if g := vs.Current(); g != nil {
			if _, there := n.looked[g]; !there {
				n.looked[g] = vs.Clock()
			}
		}
	}
	return n
}

// controller starts the node; called inside the controlled run.
func (n *zzNode) controller() {
	o := n.o
	n.c = &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, vs.Cap(1000)),
		localTransaction:   make(chan *ldpc.Transaction, vs.Cap(1000)),
		K:                  o.K, M: o.M, solitonC: 0.03, solitonDelta: 0.5,
		initRate: o.init, minRate: o.min, incConstant: o.inc, targetLoss: o.target,
		decodeTimeout: o.timeout, delaySketch: zzSketch, warmupTime: 1500 * ms,
	}
	ctl := n.c
	vs.GoNamed("controller", func() {
		n.loopErr = ctl.loop()
		n.fail("C24", "the controller stopped: %v", n.loopErr)
	})
}

// starve keeps one goroutine of the node from running, chosen among the
// controller and those that serve the connections.
func (n *zzNode) starve() (release func()) {
	var l []*vs.G
	for _, g := range vs.All() {
		if _, there := n.handlers[g.Parent]; there || g.Name == "controller" {
			l = append(l, g)
		}
	}
	g := l[n.x.Choose(len(l))]
	g.Frozen = true
	return func() { g.Frozen = false }
}

// pass lets time pass once everything has settled: a receiver that is between
// taking a codeword and working on it would otherwise have two times for it.
// What the script does right afterwards happens together with the timers.
func (n *zzNode) pass(d time.Duration) {
	vs.Idle()
	vs.Advance(d)
}

func (n *zzNode) newConn() *zzConn {
	i := len(n.conns)
	c := &zzConn{n: n, id: i, name: fmt.Sprintf("connection %d", i), room: -1, ctl: n.c, skew: i}
	for j := range c.key {
		c.key[j] = byte(17*i + j + 1)
	}
	c.ref.known = map[int]bool{}
	n.conns = append(n.conns, c)
	return c
}

func (n *zzNode) handle(c *zzConn) {
	n.handlers[vs.GoNamed(c.name, func() {
		c.err = c.ctl.handleConn(c.name, c)
		c.done = true
	})] = c.id
}

// connect adds a peer whose key is already there.
func (n *zzNode) connect() *zzConn {
	c := n.newConn()
	c.in = append(c.in, c.key[:]...)
	n.handle(c)
	return c
}

func (n *zzNode) addLocal(id int) {
	n.local[id]++
	vs.Send(n.c.localTransaction, zzTx(id))
}

// due is how often a transaction was generated or decoded so far.
func (n *zzNode) due() (fresh, expired map[int]int) {
	fresh, expired = map[int]int{}, map[int]int{}
	for id, k := range n.local {
		fresh[id] += k
	}
	for _, c := range n.conns {
		for _, e := range c.ref.events {
			if e.expired {
				expired[e.tx]++
			} else {
				fresh[e.tx]++
			}
		}
	}
	return
}

func zzKeys(ms ...map[int]int) []int {
	var r []int
	seen := map[int]bool{}
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				r = append(r, k)
			}
		}
	}
	sort.Ints(r)
	return r
}

// spread checks that everything generated or decoded went to every peer;
// transactions numbered below loose may have been too early for some.
func (n *zzNode) spread(loose int) {
	fresh, expired := n.due()
	total := map[int]int{}
	for k, v := range fresh {
		total[k] += v
	}
	for k, v := range expired {
		total[k] += v
	}
	if len(n.encAdd) > len(n.conns) || len(n.decAdd) > len(n.conns) {
		n.fail("C24", "%d encoders and %d decoders for %d connections", len(n.encAdd), len(n.decAdd), len(n.conns))
	}
	judge := func(what string, offered []map[int]int, want map[int]int) {
		for len(offered) < len(n.conns) {
			offered = append(offered, map[int]int{})
		}
		for _, id := range zzKeys(append(offered, want)...) {
			short := 0
			for _, m := range offered {
				if m[id] > want[id] {
					n.fail("C24", "transaction %d was generated or decoded %d times (%d of them expired) and offered %d times to the %s of a peer", id, total[id], expired[id], m[id], what)
				}
				if m[id] < want[id] {
					short++
				}
			}
			if short > 0 && id >= loose {
				n.fail("C24", "transaction %d was generated or decoded %d times (%d of them expired); the %s of %d of %d peers have not been offered it that often (%v)", id, total[id], expired[id], what, short, len(n.conns), offered)
			}
		}
	}
	var e, d []map[int]int
	for _, m := range n.encAdd {
		e = append(e, m)
	}
	for _, m := range n.decAdd {
		d = append(d, m)
	}
	judge("encoders", e, fresh)
	judge("decoders", d, total)
}

// run executes a scenario.
func (o zzOpts) run(script func(n *zzNode)) func(x *mc.X) {
	return func(x *mc.X) {
		n := o.start(x)
		defer func() {
			vs.CallHook = nil
			vs.CapHook = nil
			vstime.OnNow = nil
		}()
		res := vs.Run(x, vs.Options{Free: o.free, FreeSelect: o.free, Fixed: o.fixed, MaxSteps: o.maxSteps()}, func() {
			n.controller()
			script(n)
		})
		if res.Panic != nil {
			prop := "C24"
			if o.judge == "C23" {
				prop = "C23" // what the connections deliver is well-formed
			}
			n.fail(prop, "%s panics: %v\n%s", res.PanicIn, res.Panic, zzShort(res.Stack))
			x.Stop()
		}
		if res.Limit {
			n.fail("C24", "no end after %d steps", res.Steps)
			x.Stop()
		}
		for _, c := range n.conns {
			if c.done && c.err == nil {
				c.receive()
			}
		}
		if len(res.Senders) > 0 {
			n.fail("C24", "deadlock: %s", strings.Join(res.Senders, "; "))
			x.Stop()
		}
		h := uint64(res.Steps)
		for _, c := range n.conns {
			h = mc.Mix(h*7 + uint64(len(c.ref.events))*100 + uint64(c.ref.lost)*10000 + uint64(len(c.got))*1000000)
			for _, e := range c.ref.events {
				h = mc.Mix(h*3 + uint64(e.tx))
			}
		}
		x.State(h)
		x.Observe(h)
	}
}

func (o zzOpts) maxSteps() int {
	if o.steps > 0 {
		return o.steps
	}
	return 20000
}

func zzShort(s string) string {
	l := strings.Split(s, "\n")
	var r []string
	for _, e := range l {
		if strings.Contains(e, "zz_verif") || strings.Contains(e, "zzverif") || strings.Contains(e, "runtime/") {
			continue
		}
		r = append(r, e)
		if len(r) > 14 {
			break
		}
	}
	return strings.Join(r, "\n")
}

func (o zzOpts) config(name string, script func(n *zzNode)) mc.Config {
	if o.split == 0 {
		o.split = 40
	}
	w := o.weight
	if w == 0 {
		w = 1
	}
	return mc.Config{Name: name, Dev: o.dev, Solo: o.solo || o.dev == 0 && !o.fixed, Split: o.split, Weight: w, Run: o.run(script)}
}

func zzMain(props map[string]func(string) []mc.Config) {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			log.SetOutput(io.Discard)
			mc.Main(props)
			os.Exit(0)
		}
	}
}
