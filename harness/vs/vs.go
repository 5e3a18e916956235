// Package vs runs goroutines one at a time. Instrumented code calls it for
// every channel operation, select, go statement, lock, timer and (in point
// mode) statement; at each of these points the explorer decides which
// goroutine continues. Outside a controlled run everything falls back to the
// real operation.
package vs

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

type G struct {
	ID    int
	Name  string
	Daemon bool // may be blocked forever (harness environment)
	gate  chan struct{}
	op    *op
	done  bool
	Parent *G
	Frozen bool // not scheduled for the time being
}

type op struct {
	kind    string
	enabled func() bool
	// rendezvous
	sel   []Case
	ready bool // completed by the other side
	idx   int
	val   any
	ok    bool
	seq   int
	where string
}

// Case is one case of a select, or a plain channel operation.
type Case struct {
	key  unsafe.Pointer
	dir  int // 0 recv, 1 send
	cap  int
	len  func() int
	val  any
	push func(v any)        // real send into the buffer
	pull func() (any, bool) // real receive from the buffer
}

type Sched struct {
	x       *mc.X
	o       Options
	gs      []*G
	cur     *G
	back    chan struct{} // a goroutine gave control back
	closed  map[unsafe.Pointer]bool
	killed  bool
	seq     int
	steps   int
	live    sync.WaitGroup
	now     time.Duration
	timers  []*Timer
	tseq    int
	panicV  any
	panicG  *G
	stack   string
	nextID  int
	switches int
	trace   []string
	keep    []any
}

// Options bound the exploration.
type Options struct {
	// Free: choices made when the running goroutine cannot continue cost
	// nothing (otherwise they cost one unit of the deviation budget too).
	Free bool
	// FreeSelect: the choice between several ready cases costs nothing.
	FreeSelect bool
	// Fixed: only the default schedule.
	Fixed      bool
	// Next: where the running goroutine could go on, the only alternative is
	// the next one in the order of creation.
	Next       bool
	// Early, when set: departures only in that many first steps.
	Early      int
	MaxSteps   int
	Trace      bool
	// OnStep runs (in the explorer's goroutine) before every step.
	OnStep func()
}

// Result of a controlled run.
type Result struct {
	Panic   any // what a goroutine panicked with
	PanicIn string
	Stack   string
	Blocked []string // goroutines that did not finish, with what they wait for
	Senders []string // those of them that are blocked in a plain send or on a lock
	Steps   int
	Limit   bool // MaxSteps reached
	Done    bool // every goroutine that is not a daemon has finished
}

var cur *Sched

// Active tells whether the caller runs under control.
func Active() bool { return cur != nil && !cur.killed }

// Me is the identity of the running goroutine.
func Me() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.ID
}

func SetDaemon() {
	if Active() {
		cur.cur.Daemon = true
	}
}

func Name(n string) {
	if Active() {
		cur.cur.Name = n
	}
}

type exited struct{}

// Run executes main and everything it starts until nothing can run any more.
func Run(x *mc.X, o Options, main func()) (res Result) {
	if cur != nil {
		panic("vs: nested run")
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	s := &Sched{x: x, o: o, back: make(chan struct{}), closed: map[unsafe.Pointer]bool{}}
	cur = s
	defer func() {
		s.kill()
		cur = nil
	}()
	s.spawn("main", main)
	var last *G
	for {
		if s.panicV != nil {
			if mc.Own(s.panicV) {
				panic(s.panicV)
			}
			res.Panic, res.PanicIn, res.Stack = s.panicV, s.panicG.Name, s.stack
			break
		}
		if s.steps >= o.MaxSteps {
			res.Limit = true
			break
		}
		if o.OnStep != nil {
			o.OnStep()
		}
		var en []*G
		if last != nil && !last.done && s.can(last) {
			en = append(en, last)
		}
		for _, g := range s.gs {
			if g != last && !g.done && s.can(g) {
				en = append(en, g)
			}
		}
		if len(en) == 0 {
			break
		}
		if o.Next && en[0] == last && len(en) > 2 {
			for _, g := range en[1:] {
				if g.ID > last.ID {
					en[1] = g
					break
				}
			}
			en = en[:2]
		}
		k := 0
		if len(en) > 1 && !o.Fixed && (o.Early == 0 || s.steps < o.Early) {
			if o.Free && en[0] != last {
				k = x.Choose(len(en))
			} else {
				k = x.Deviate(len(en))
			}
		}
		g := en[k]
		if g != last {
			s.switches++
		}
		last = g
		s.steps++
		x.Op(1)
		if o.Trace || x.Replay {
			x.Logf("%s: %s", g.Name, s.describe(g))
		}
		s.cur = g
		g.gate <- struct{}{}
		<-s.back
		s.cur = nil
	}
	res.Steps = s.steps
	res.Done = true
	for _, g := range s.gs {
		if g.done || g.Daemon {
			continue
		}
		res.Done = false
		d := g.Name + " waits for " + s.describe(g)
		res.Blocked = append(res.Blocked, d)
		if g.op != nil && (g.op.kind == "send" || g.op.kind == "lock") {
			res.Senders = append(res.Senders, d)
		}
	}
	return res
}

func (s *Sched) describe(g *G) string {
	if g.op == nil {
		return "start"
	}
	return g.op.kind + " " + g.op.where
}

func (s *Sched) kill() {
	s.killed = true
	for _, g := range s.gs {
		if !g.done {
			close(g.gate)
		}
	}
	s.live.Wait()
}

func (s *Sched) spawn(name string, f func()) *G {
	g := &G{ID: s.nextID, Name: name, gate: make(chan struct{}), Parent: s.cur}
	s.nextID++
	s.gs = append(s.gs, g)
	s.live.Add(1)
	go func() {
		defer s.live.Done()
		<-g.gate
		if s.killed {
			g.done = true
			return
		}
		normal := false
		defer func() {
			g.done = true
			r := recover()
			if s.killed {
				return
			}
			if !normal && r != nil {
				s.panicV, s.panicG = r, g
				buf := make([]byte, 8192)
				s.stack = string(buf[:runtime.Stack(buf, false)])
			}
			s.back <- struct{}{}
		}()
		f()
		normal = true
	}()
	return g
}

func (s *Sched) can(g *G) bool {
	if g.Frozen {
		return false
	}
	if g.op == nil {
		return true
	}
	if g.op.ready {
		return true
	}
	return g.op.enabled()
}

// wait parks the running goroutine at o until the explorer runs it and o can
// proceed.
func (s *Sched) wait(o *op) {
	g := s.cur
	s.seq++
	o.seq = s.seq
	if s.x.Replay || s.o.Trace {
		o.where = caller()
	}
	g.op = o
	s.back <- struct{}{}
	<-g.gate
	if s.killed {
		runtime.Goexit()
	}
	if !o.ready {
		g.op = nil
	} else {
		g.op = nil
	}
}

func caller() string {
	var pc [24]uintptr
	n := runtime.Callers(3, pc[:])
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/vs") {
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

var resets []func()

// AtReset registers how to bring variables back to their initial values.
func AtReset(f func()) { resets = append(resets, f) }

// Reset brings the variables of the packages in globals mode back to their
// initial values.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Stop ends the controlled run at once, wherever the other goroutines are; v
// is what the result has as Panic.
func Stop(v any) {
	s := cur
	g := s.cur
	s.panicV, s.panicG = v, g
	s.back <- struct{}{}
	<-g.gate
	runtime.Goexit()
}

func always() bool { return true }

// Point is a preemption point.
func Point() {
	if !Active() {
		return
	}
	cur.wait(&op{kind: "step", enabled: always})
}

// Go starts a goroutine.
func Go(f func()) {
	if !Active() {
		if cur != nil {
			return // the run is being torn down
		}
		go f()
		return
	}
	n := cur.nextID
	cur.spawn(fmt.Sprintf("g%d(%s)", n, caller2()), f)
	cur.wait(&op{kind: "go", enabled: always})
}

// GoNamed starts a harness goroutine.
func GoNamed(name string, f func()) *G {
	return cur.spawn(name, f)
}

func caller2() string {
	if cur.x.Replay || cur.o.Trace {
		return caller()
	}
	return ""
}

// Until parks the running goroutine until the condition holds.
func Until(kind string, cond func() bool) {
	if !Active() {
		if cur != nil {
			runtime.Goexit()
		}
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	cur.wait(&op{kind: kind, enabled: cond})
}

// Idle parks the running goroutine until nothing else can run.
func Idle() {
	if !Active() {
		return
	}
	s, me := cur, cur.cur
	s.wait(&op{kind: "idle", enabled: func() bool {
		for _, g := range s.gs {
			if g != me && !g.done && (g.op == nil || g.op.kind != "idle") && s.can(g) {
				return false
			}
		}
		return true
	}})
}

// All lists the goroutines that have not finished.
func All() (r []*G) {
	for _, g := range cur.gs {
		if !g.done {
			r = append(r, g)
		}
	}
	return
}

// Current is the running goroutine.
func Current() *G {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// ---- channels ----

func key[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func never() bool { return false }

// partner finds the longest waiting goroutine with the opposite operation on
// an unbuffered channel.
func (s *Sched) partner(c Case, me *G) (*G, int) {
	var best *G
	bi := 0
	for _, g := range s.gs {
		if g == me || g.done || g.op == nil || g.op.ready || g.op.sel == nil {
			continue
		}
		for i, o := range g.op.sel {
			if o.key == c.key && o.dir != c.dir {
				if best == nil || g.op.seq < best.op.seq {
					best, bi = g, i
				}
				break
			}
		}
	}
	return best, bi
}

func (s *Sched) caseReady(c Case, me *G) bool {
	if c.key == nil {
		return false
	}
	if s.closed[c.key] {
		return true
	}
	if c.cap > 0 {
		if c.dir == 1 {
			return c.len() < c.cap
		}
		return c.len() > 0
	}
	g, _ := s.partner(c, me)
	return g != nil
}

// exec performs a ready case.
func (s *Sched) exec(c Case, me *G) (any, bool) {
	if c.dir == 1 {
		if s.closed[c.key] {
			panic("send on closed channel")
		}
		if c.cap > 0 {
			c.push(c.val)
			return nil, true
		}
		g, i := s.partner(c, me)
		g.op.ready, g.op.idx, g.op.val, g.op.ok = true, i, c.val, true
		return nil, true
	}
	if c.cap > 0 && c.len() > 0 {
		return c.pull()
	}
	if s.closed[c.key] {
		return nil, false
	}
	g, i := s.partner(c, me)
	g.op.ready, g.op.idx, g.op.ok = true, i, true
	return g.op.sel[i].val, true
}

func (s *Sched) run(kind string, cases []Case, def bool) (int, any, bool) {
	me := s.cur
	o := &op{kind: kind, sel: cases}
	if def {
		o.sel = nil // a select with default never waits for a partner
	}
	o.enabled = func() bool {
		if def {
			return true
		}
		for _, c := range cases {
			if s.caseReady(c, me) {
				return true
			}
		}
		return false
	}
	s.wait(o)
	if o.ready {
		return o.idx, o.val, o.ok
	}
	var rdy []int
	for i, c := range cases {
		if s.caseReady(c, me) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		return -1, nil, false
	}
	k := 0
	if len(rdy) > 1 {
		k = s.pick(len(rdy))
	}
	i := rdy[k]
	v, ok := s.exec(cases[i], me)
	return i, v, ok
}

// pick asks the explorer from inside a goroutine. Choose may panic to end the
// execution; that panic is carried to Run by the goroutine's recover.
func (s *Sched) pick(n int) int {
	if s.o.Fixed {
		return 0
	}
	if s.o.FreeSelect {
		return s.x.Choose(n)
	}
	return s.x.Deviate(n)
}

func sendCase[T any](c chan<- T, v T) Case {
	return Case{key: key(c), dir: 1, cap: cap(c), len: func() int { return len(c) }, val: v,
		push: func(v any) {
			var t T
			if v != nil {
				t = v.(T)
			}
			c <- t
		}}
}

func recvCase[T any](c <-chan T) Case {
	return Case{key: key(c), dir: 0, cap: cap(c), len: func() int { return len(c) },
		pull: func() (any, bool) { v, ok := <-c; return v, ok }}
}

func SendCase[T any](c chan<- T, v T) Case { return sendCase(c, v) }
func RecvCase[T any](c <-chan T) Case      { return recvCase(c) }

func Send[T any](c chan<- T, v T) {
	if cur == nil {
		c <- v
		return
	}
	if cur.killed {
		runtime.Goexit()
	}
	cur.run("send", []Case{sendCase(c, v)}, false)
}

func Recv2[T any](c <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-c
		return v, ok
	}
	if cur.killed {
		runtime.Goexit()
	}
	_, v, ok := cur.run("receive", []Case{recvCase(c)}, false)
	return As[T](v), ok
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// As converts a received value.
func As[T any](v any) T {
	var t T
	if v != nil {
		t = v.(T)
	}
	return t
}

// From converts a received value to the element type of a channel.
func From[T any](c <-chan T, v any) T { return As[T](v) }

func Close[T any](c chan<- T) {
	if cur == nil {
		close(c)
		return
	}
	if cur.killed {
		return
	}
	s := cur
	s.wait(&op{kind: "close", enabled: always})
	k := key(c)
	if s.closed[k] {
		panic("close of closed channel")
	}
	close(c)
	s.closed[k] = true
}

// Select runs a select statement and returns the index of the chosen case, -1
// for default.
func Select(def bool, cases ...Case) (int, any, bool) {
	if cur == nil {
		panic("vs: select outside a controlled run")
	}
	if cur.killed {
		runtime.Goexit()
	}
	return cur.run("select", cases, def)
}

// Cap scales constant channel capacities.
var CapHook func(n int) int

func Cap(n int) int {
	if CapHook != nil {
		return CapHook(n)
	}
	return n
}

// Note records that a value must stay reachable (and identifiable).
func Note(v any) {
	if cur != nil {
		cur.keep = append(cur.keep, v)
	}
}

// Steps is the number of steps so far.
func Steps() int {
	if cur == nil {
		return 0
	}
	return cur.steps
}

// Choose asks the explorer for an environment decision.
func Choose(n int) int {
	if !Active() {
		return 0
	}
	return cur.x.Choose(n)
}

func Deviate(n int) int {
	if !Active() {
		return 0
	}
	return cur.x.Deviate(n)
}

// ---- virtual time ----

// Timer is a virtual timer or ticker.
type Timer struct {
	at     time.Duration
	period time.Duration
	on     bool
	seq    int
	fire   func()
}

// Epoch is the wall clock time virtual time starts at.
var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Clock returns the virtual time.
func Clock() time.Duration {
	if cur == nil {
		return 0
	}
	return cur.now
}

func NewTimer(d, period time.Duration, fire func()) *Timer {
	if cur == nil {
		panic("vs: timer outside a controlled run")
	}
	t := &Timer{fire: fire}
	cur.timers = append(cur.timers, t)
	t.Reset(d, period)
	return t
}

func (t *Timer) Reset(d, period time.Duration) bool {
	was := t.on
	if cur != nil {
		cur.tseq++
		t.seq = cur.tseq
		t.at = cur.now + d
	}
	t.period = period
	t.on = true
	return was
}

func (t *Timer) Stop() bool {
	was := t.on
	t.on = false
	return was
}

// Advance moves the clock forward and fires what becomes due, in order.
func Advance(d time.Duration) {
	s := cur
	if s == nil {
		return
	}
	s.wait(&op{kind: "advance clock", enabled: always})
	s.advance(s.now + d)
}

func (s *Sched) advance(to time.Duration) {
	for {
		var b *Timer
		for _, t := range s.timers {
			if t.on && t.at <= to && (b == nil || t.at < b.at || t.at == b.at && t.seq < b.seq) {
				b = t
			}
		}
		if b == nil {
			break
		}
		if b.at > s.now {
			s.now = b.at
		}
		if b.period > 0 {
			s.tseq++
			b.seq = s.tseq
			b.at += b.period
		} else {
			b.on = false
		}
		b.fire()
	}
	s.now = to
}

// NextTimer returns the time of the next timer to fire.
func NextTimer() (time.Duration, bool) {
	var r time.Duration
	ok := false
	for _, t := range cur.timers {
		if t.on && (!ok || t.at < r) {
			r, ok = t.at, true
		}
	}
	return r, ok
}

// ---- maps ----

// MapOrder, when set, orders n map entries: it returns a permutation. keys are
// given in a canonical order.
var MapOrder func(n int) []int

// ---- forms the instrumenter emits ----

// Sender binds a channel; the returned function sends.
func Sender[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// Selectable is a prepared case of a select.
type Selectable interface {
	prep() Case
	got(v any, ok bool)
}

type RecvC[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func RecvOf[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }
func (r *RecvC[T]) prep() Case           { return recvCase(r.c) }
func (r *RecvC[T]) got(v any, ok bool)   { r.V, r.OK = As[T](v), ok }

type SendC[T any] struct {
	c chan<- T
	v T
}

func SendOf[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c, v} }
}
func (r *SendC[T]) prep() Case         { return sendCase(r.c, r.v) }
func (r *SendC[T]) got(v any, ok bool) {}

// Sel runs a select over prepared cases.
func Sel(def bool, cs ...Selectable) int {
	l := make([]Case, len(cs))
	for i, c := range cs {
		l[i] = c.prep()
	}
	i, v, ok := Select(def, l...)
	if i >= 0 {
		cs[i].got(v, ok)
	}
	return i
}

// Forever blocks.
func Forever() { Until("empty select", func() bool { return false }) }

// Tracer, when set, is told about every call of a traced function.
var Tracer func(args ...any)

func Trace(args ...any) {
	if Tracer != nil {
		Tracer(args...)
	}
}

// CallHook, when set, is told about calls of exported functions.
var CallHook func(name string, args ...any)

func Call(name string, args ...any) {
	if CallHook != nil {
		CallHook(name, args...)
	}
}
