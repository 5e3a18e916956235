// Package main explores the discrete event simulator through its public
// interface: every small program of messages against a reference scheduler.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

type ev struct {
	at       time.Duration
	seq      int // order of scheduling
	id       int
	from, to int
}

func (e ev) String() string { return fmt.Sprintf("m%d %d->%d at %d", e.id, e.from, e.to, e.at) }

// run is one program; its choices are made the moment they are needed.
type run struct {
	x      *mc.X
	s      *des.Simulator
	mods   []*module
	queue  []ev // reference: everything scheduled and not yet delivered
	now    time.Duration
	total  int
	done   int
	budget int
	delays []time.Duration
	hist   []string
	limit  time.Duration // horizon of the current run, -1: none
	nested int
	clock  bool // judge clock, counters and horizons
	auto   func(m *module) []des.OutgoingMessage
	same   bool // all payloads are equal
	direct bool // modules also schedule messages themselves while handling one
}

type module struct {
	r  *run
	id int
}

func (r *run) fail(f string, a ...any) {
	r.x.Fail("%s; program %v", fmt.Sprintf(f, a...), r.hist)
}

// next is the reference order: earliest arrival, then order of scheduling.
func (r *run) next() int {
	b := -1
	for i, e := range r.queue {
		if b < 0 || e.at < r.queue[b].at || (e.at == r.queue[b].at && e.seq < r.queue[b].seq) {
			b = i
		}
	}
	return b
}

func (r *run) newMsg(from int) (des.OutgoingMessage, ev) {
	d := r.delays[r.x.Choose(len(r.delays))]
	to := r.x.Choose(len(r.mods) + 1)
	e := ev{at: r.now + d, seq: r.total, id: r.total, from: from, to: to - 1}
	m := des.OutgoingMessage{Payload: r.payload(e), Delay: d}
	if to == 0 {
		e.to = from
	} else {
		m.To = r.mods[to-1]
	}
	r.total++
	r.budget--
	r.queue = append(r.queue, e)
	return m, e
}

func (r *run) payload(e ev) any {
	if r.same {
		return 7
	}
	return e.id
}

func (m *module) HandleMessage(payload any, from des.Module, ts time.Duration) []des.OutgoingMessage {
	r := m.r
	r.x.Op(1)
	i := r.next()
	if i < 0 {
		r.fail("message %v delivered although nothing is queued", payload)
	}
	e := r.queue[i]
	if payload != r.payload(e) {
		r.fail("message %v delivered at %d, next is %v", payload, ts, e)
	}
	if f, ok := from.(*module); !ok || f.id != e.from {
		r.fail("message %v delivered with sender %v", e, from)
	}
	if m.id != e.to {
		r.fail("message %v delivered to module %d", e, m.id)
	}
	if ts != e.at {
		r.fail("message %v delivered with time %d", e, ts)
	}
	if r.clock && r.s.Time() != ts {
		r.fail("clock is %d during the delivery of %v", r.s.Time(), e)
	}
	if r.clock && r.limit >= 0 && e.at > r.limit {
		r.fail("message %v delivered by a run up to %d", e, r.limit)
	}
	r.queue = append(r.queue[:i], r.queue[i+1:]...)
	r.now = ts
	r.done++
	if r.auto != nil {
		return r.auto(m)
	}
	var out []des.OutgoingMessage
	desc := fmt.Sprintf("deliver m%d:", e.id)
	max := r.budget
	if max > r.nested {
		max = r.nested
	}
	n := r.x.Choose(max + 1)
	if r.direct {
		for k := r.x.Choose(n + 1); k > 0; k-- {
			o, e := r.newMsg(m.id)
			r.s.ScheduleMessage(o, m)
			desc += " schedule " + e.String()
			n--
		}
	}
	for ; n > 0; n-- {
		o, e := r.newMsg(m.id)
		out = append(out, o)
		desc += " send " + e.String()
	}
	r.hist = append(r.hist, desc)
	return out
}

func (r *run) counters(when string) {
	if !r.clock {
		return
	}
	if q := r.s.EventsQueued(); q != len(r.queue) {
		r.fail("%s: EventsQueued()=%d, %d are scheduled and not delivered", when, q, len(r.queue))
	}
	if d := r.s.EventsDelivered(); d != r.done {
		r.fail("%s: EventsDelivered()=%d, delivered were %d", when, d, r.done)
	}
	if r.s.Drained() != (len(r.queue) == 0) {
		r.fail("%s: Drained()=%v with %d queued", when, r.s.Drained(), len(r.queue))
	}
	if r.s.Time() != r.now {
		r.fail("%s: clock is %d, latest delivery was at %d", when, r.s.Time(), r.now)
	}
}

func twins(prop string, nmods, budget, nested, slices int, delays []time.Duration, horizons []time.Duration) mc.Config {
	c := program(prop, -nmods, budget, nested, slices, delays, horizons)
	return c
}

// directs: handlers that schedule messages themselves besides returning some.
func directs(prop string, nmods, budget, nested, slices int, delays []time.Duration, horizons []time.Duration) mc.Config {
	c := program(prop+"/direct", nmods, budget, nested, slices, delays, horizons)
	return c
}

func program(prop string, nmods, budget, nested, slices int, delays []time.Duration, horizons []time.Duration) mc.Config {
	name := fmt.Sprintf("%s/modules%d/messages%d/nested%d/slices%d/delays%v", prop, nmods, budget, nested, slices, len(delays))
	same := nmods < 0
	if same {
		nmods = -nmods
		name = fmt.Sprintf("%s/equal messages/modules%d/messages%d/nested%d/slices%d/delays%v", prop, nmods, budget, nested, slices, len(delays))
	}
	return mc.Config{Name: name, Run: func(x *mc.X) {
		r := &run{same: same, direct: strings.HasSuffix(prop, "/direct"), x: x, s: &des.Simulator{}, budget: budget, delays: delays, limit: -1, nested: nested, clock: strings.HasPrefix(prop, "C16")}
		for i := 0; i < nmods; i++ {
			r.mods = append(r.mods, &module{r, i})
		}
		r.counters("before anything")
		outside := func(min int) {
			n := min + x.Choose(r.budget+1-min)
			for ; n > 0; n-- {
				from := x.Choose(nmods)
				o, e := r.newMsg(from)
				r.s.ScheduleMessage(o, r.mods[from])
				r.hist = append(r.hist, "schedule "+e.String())
			}
			r.counters("after scheduling")
		}
		outside(1)
		for i := 0; i < slices; i++ {
			h := x.Choose(len(horizons) + 1)
			if h == len(horizons) {
				break
			}
			t := horizons[h]
			r.hist = append(r.hist, fmt.Sprintf("run until %d", t))
			r.limit = t
			r.s.RunUntil(t)
			r.limit = -1
			if j := r.next(); r.clock && j >= 0 && r.queue[j].at <= t {
				r.fail("run until %d stopped before %v", t, r.queue[j])
			}
			r.counters(fmt.Sprint("after running until ", t))
			if r.budget > 0 {
				outside(0)
			}
		}
		r.hist = append(r.hist, "run")
		r.s.Run()
		if len(r.queue) != 0 {
			r.fail("stopped with %v queued", r.queue)
		}
		r.counters("at the end")
		x.State(mc.HashString(fmt.Sprint(r.hist)))
		x.Observe(mc.HashString(fmt.Sprint(r.hist)))
		if r.done > 3 {
			x.Sample("%v", r.hist)
		}
	}}
}

// queues: many messages queued at once, in patterned arrival orders (the heap
// at every size), half of them before a first slice and half after.
func queues(prop string, sizes int, patterns int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("%s/queues/up to %d", prop, sizes), Run: func(x *mc.X) {
		n := 1 + x.Choose(sizes)
		pat := x.Choose(patterns)
		mod := []int{1, 2, 3, 5, 7, n, n + 1}[x.Choose(7)]
		split := x.Choose(3)
		r := &run{x: x, s: &des.Simulator{}, budget: 0, limit: -1, clock: prop == "C16"}
		r.mods = []*module{{r, 0}, {r, 1}}
		put := func(i int) {
			var d time.Duration
			switch pat {
			case 0:
				d = time.Duration(i % mod)
			case 1:
				d = time.Duration((n - i) % mod)
			case 2:
				d = time.Duration((i * 7 % n) % mod)
			case 3:
				d = time.Duration((i * i) % mod)
			default:
				d = time.Duration(mc.Mix(uint64(pat*1000+i)) % uint64(mod))
			}
			e := ev{at: r.now + d, seq: r.total, id: r.total, from: i % 2, to: (i / 2) % 2}
			r.total++
			r.queue = append(r.queue, e)
			r.s.ScheduleMessage(des.OutgoingMessage{Payload: e.id, To: r.mods[e.to], Delay: d}, r.mods[e.from])
			r.hist = append(r.hist, e.String())
		}
		for i := 0; i < n; i++ {
			put(i)
			if split > 0 && i == n/(split+1) {
				t := time.Duration(mod / 2)
				r.limit = t
				r.s.RunUntil(t)
				r.limit = -1
				r.hist = append(r.hist, fmt.Sprint("run until ", t))
				if j := r.next(); r.clock && j >= 0 && r.queue[j].at <= t {
					r.fail("run until %d stopped before %v", t, r.queue[j])
				}
				r.counters("after a slice")
			}
		}
		r.counters("before running")
		r.s.Run()
		if len(r.queue) != 0 {
			r.fail("stopped with %v queued", r.queue)
		}
		r.counters("at the end")
		x.State(mc.HashString(fmt.Sprint(r.hist)))
		x.Observe(mc.HashString(fmt.Sprint(n, pat, mod, split)))
	}}
}

// long: runs of very many messages, a few of them queued at any time, so that
// whatever is counted, numbered or recycled goes round many times.
func long(prop string, total int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("%s/long/%d messages", prop, total), Split: 30, Run: func(x *mc.X) {
		live := []int{1, 2, 3, 7, 20, 70}[x.Choose(6)]
		pat := x.Choose(4)
		slice := []time.Duration{0, 13, 1000}[x.Choose(3)]
		r := &run{x: x, s: &des.Simulator{}, limit: -1, clock: prop == "C16"}
		r.mods = []*module{{r, 0}, {r, 1}, {r, 2}}
		r.hist = []string{fmt.Sprintf("long run: %d messages queued, delays of pattern %d, slices of %d", live, pat, slice)}
		mk := func(from int) des.OutgoingMessage {
			i := r.total
			var d time.Duration
			switch pat {
			case 0:
				d = 5
			case 1:
				d = time.Duration(i % 4)
			case 2:
				d = time.Duration(mc.Mix(uint64(i)) % 7)
			case 3:
				d = time.Duration(1 + i%2*1000)
			}
			e := ev{at: r.now + d, seq: i, id: i, from: from, to: i % 3}
			if i%5 == 4 {
				e.to = from
			}
			r.total++
			r.queue = append(r.queue, e)
			o := des.OutgoingMessage{Payload: e.id, Delay: d}
			if i%5 != 4 {
				o.To = r.mods[e.to]
			}
			return o
		}
		// messages for one and the same far time, scheduled all along
		const far = 1 << 45
		near := func() (n int) {
			for _, e := range r.queue {
				if e.at < far {
					n++
				}
			}
			return
		}
		tie := func(from int) des.OutgoingMessage {
			e := ev{at: far, seq: r.total, id: r.total, from: from, to: r.total % 3}
			r.total++
			r.queue = append(r.queue, e)
			return des.OutgoingMessage{Payload: e.id, To: r.mods[e.to], Delay: far - r.now}
		}
		r.auto = func(m *module) (out []des.OutgoingMessage) {
			if r.clock && r.done%1009 == 0 && r.s.EventsDelivered() != r.done {
				r.fail("EventsDelivered()=%d during delivery %d", r.s.EventsDelivered(), r.done)
			}
			for n := (mc.Mix(uint64(r.done)) >> 7) % 3; n > 0 && near() < live || near() == 0; {
				if r.total >= total {
					break
				}
				if r.total%17000 == 16999 {
					out = append(out, tie(m.id))
				}
				out = append(out, mk(m.id))
				if n > 0 {
					n--
				}
			}
			return
		}
		r.s.ScheduleMessage(tie(0), r.mods[0])
		for i := 0; i < live; i++ {
			r.s.ScheduleMessage(mk(i%3), r.mods[i%3])
		}
		if slice > 0 {
			for t := slice; near() > 0; t += slice {
				r.limit = t
				r.s.RunUntil(t)
				r.limit = -1
				if j := r.next(); r.clock && j >= 0 && r.queue[j].at <= t {
					r.fail("run until %d stopped before %v", t, r.queue[j])
				}
				if t%(16*slice) == 0 {
					r.counters("after a slice")
				}
				if t > time.Duration(total)*3000 {
					r.fail("%d messages are still queued at %d", len(r.queue), t)
				}
			}
		}
		r.s.Run()
		if len(r.queue) != 0 {
			r.fail("stopped with %v queued", r.queue)
		}
		r.counters("at the end")
		if r.total < total {
			panic(fmt.Sprint("harness: only ", r.total, " messages"))
		}
		x.State(mc.Mix(uint64(live*100 + pat)))
		x.Observe(mc.Mix(uint64(live*100+pat)<<8 + uint64(slice)))
	}}
}

// crowd checks the deliveries of a run against a list sorted beforehand.
type crowd struct {
	x    *mc.X
	s    *des.Simulator
	want []ev
	mods []*crowdMod
	done int
	last bool // judge clock and counters
	what string
}

type crowdMod struct {
	c  *crowd
	id int
}

func (m *crowdMod) HandleMessage(payload any, from des.Module, ts time.Duration) []des.OutgoingMessage {
	c := m.c
	if c.done >= len(c.want) {
		c.x.Fail("%s: message %v delivered after all", c.what, payload)
	}
	e := c.want[c.done]
	c.done++
	if f, ok := from.(*crowdMod); payload != e.id || ts != e.at || m.id != e.to || !ok || f.id != e.from {
		c.x.Fail("%s: delivery %d is message %v to %d at %v, it should be %v", c.what, c.done, payload, m.id, ts, e)
	}
	if c.last && (c.s.Time() != ts || c.done%997 == 0 && (c.s.EventsDelivered() != c.done || c.s.EventsQueued() != len(c.want)-c.done)) {
		c.x.Fail("%s: during delivery %d at %v the clock is %v, %d delivered and %d queued", c.what, c.done, ts, c.s.Time(), c.s.EventsDelivered(), c.s.EventsQueued())
	}
	return nil
}

// crowds: thousands of messages queued at once.
func crowds(prop string, sizes []int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("%s/crowds/%d", prop, sizes[len(sizes)-1]), Split: 30, Run: func(x *mc.X) {
		n := sizes[x.Choose(len(sizes))]
		mod := []int{1, 2, 1000, n, 1 << 40}[x.Choose(5)]
		slices := x.Choose(3)
		c := &crowd{x: x, s: &des.Simulator{}, last: prop == "C16", what: fmt.Sprintf("%d messages at %d different times", n, mod)}
		c.mods = []*crowdMod{{c, 0}, {c, 1}, {c, 2}}
		for i := 0; i < n; i++ {
			e := ev{at: time.Duration(mc.Mix(uint64(i)) % uint64(mod)), id: i, from: i % 3, to: i / 3 % 3}
			c.want = append(c.want, e)
			c.s.ScheduleMessage(des.OutgoingMessage{Payload: i, To: c.mods[e.to], Delay: e.at}, c.mods[e.from])
			x.Op(1)
		}
		sort.SliceStable(c.want, func(i, j int) bool { return c.want[i].at < c.want[j].at })
		for k := 1; k <= slices; k++ {
			h := c.want[n*k/(slices+1)].at
			c.s.RunUntil(h)
			due := sort.Search(n, func(i int) bool { return c.want[i].at > h })
			if prop == "C16" && c.done != due {
				x.Fail("%s: run until %v delivers %d, %d are due", c.what, h, c.done, due)
			}
		}
		c.s.Run()
		if c.done != n || prop == "C16" && (c.s.EventsQueued() != 0 || c.s.EventsDelivered() != n || !c.s.Drained()) {
			x.Fail("%s: %d delivered in the end, counters say %d delivered and %d queued", c.what, c.done, c.s.EventsDelivered(), c.s.EventsQueued())
		}
		x.State(mc.HashString(c.what))
		x.Observe(uint64(n) ^ uint64(mod))
	}}
}

func main() {
	d2, d3 := []time.Duration{0, 1}, []time.Duration{0, 1, 2}
	big := []time.Duration{0, 3 * time.Hour, 200 * 24 * time.Hour}
	h0 := []time.Duration{}
	h := []time.Duration{0, 1, 2, 3}
	mc.Main(map[string]func(tier string) []mc.Config{
		"C15": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{program("C15", 2, 6, 2, 0, d3, h0), program("C15", 1, 8, 3, 0, d2, h0), program("C15", 3, 5, 3, 0, d2, h0), program("C15", 1, 5, 2, 0, big, h0),
					program("C15", 2, 4, 2, 2, d2, h), directs("C15", 1, 5, 3, 0, d3, h0), directs("C15", 2, 4, 3, 1, d2, h), crowds("C15", []int{300, 1025, 5000, 70000, 1000000}), queues("C15", 200, 12), long("C15", 5000000),
					twins("C15", 2, 4, 3, 0, d2, h0), twins("C15", 1, 5, 3, 1, d2, h)}
			}
			return []mc.Config{program("C15", 2, 5, 2, 0, d2, h0), program("C15", 1, 6, 3, 0, d3, h0), program("C15", 3, 4, 2, 0, d2, h0), program("C15", 1, 4, 2, 0, big, h0),
				program("C15", 2, 3, 2, 1, d2, h), directs("C15", 1, 4, 3, 0, d3, h0), directs("C15", 2, 3, 2, 1, d2, h), crowds("C15", []int{300, 1025, 5000, 70000}), queues("C15", 70, 8), long("C15", 140000),
				twins("C15", 2, 3, 2, 0, d2, h0), twins("C15", 1, 4, 3, 0, d2, h0)}
		},
		"C16": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{program("C16", 1, 5, 2, 3, d3, h), program("C16", 2, 4, 2, 3, d2, h), program("C16", 1, 6, 2, 2, d2, h), program("C16", 1, 4, 1, 5, d2, []time.Duration{0, 1, 2}),
					program("C16", 1, 3, 2, 2, big, []time.Duration{0, 3*time.Hour - 1, 3 * time.Hour, 201 * 24 * time.Hour}), directs("C16", 1, 4, 3, 2, d2, h), crowds("C16", []int{300, 1025, 5000, 70000, 1000000}), queues("C16", 200, 12), long("C16", 5000000),
					twins("C16", 1, 4, 2, 2, d2, h)}
			}
			return []mc.Config{program("C16", 1, 4, 2, 3, d3, h), program("C16", 2, 3, 2, 3, d2, h), program("C16", 1, 5, 2, 1, d2, h), program("C16", 1, 3, 1, 4, d2, []time.Duration{0, 1, 2}),
				program("C16", 1, 3, 2, 2, big, []time.Duration{0, 3*time.Hour - 1, 3 * time.Hour, 201 * 24 * time.Hour}), directs("C16", 1, 3, 3, 2, d2, h), crowds("C16", []int{300, 1025, 5000, 70000}), queues("C16", 70, 8), long("C16", 140000),
				twins("C16", 1, 3, 2, 2, d2, h)}
		},
	})
}
