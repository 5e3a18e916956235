package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
)

// digits is a random source whose answers are given, then pseudo-random.
// A digit c of base b is encoded so that both its low bits modulo any divisor
// of b and its position in the range spell c.
type digits struct {
	d    []int
	base int
	pos  int
	tail lcg
}

func (s *digits) next() (int, bool) {
	if s.pos < len(s.d) {
		c := s.d[s.pos]
		s.pos++
		return c, true
	}
	return 0, false
}

func (s *digits) Int63() int64 {
	c, ok := s.next()
	if !ok {
		return s.tail.Int63()
	}
	step := (int64(1) << 31) / int64(s.base)
	hi := step * int64(c)
	hi -= hi % int64(s.base)
	hi += int64(c)
	return hi<<32 | hi
}
func (s *digits) Seed(int64) {}

// odo advances a digit vector; false when it wraps around.
func odo(d []int, base int) bool {
	for i := len(d) - 1; i >= 0; i-- {
		d[i]++
		if d[i] < base {
			return true
		}
		d[i] = 0
	}
	return false
}

// window is the reference coding window.
type window struct {
	w    int
	list []int
}

func (w *window) has(i int) bool {
	for _, k := range w.list {
		if k == i {
			return true
		}
	}
	return false
}
func (w *window) add(i int) bool {
	if w.has(i) {
		return false
	}
	w.list = append(w.list, i)
	if len(w.list) > w.w {
		w.list = w.list[len(w.list)-w.w:]
	}
	return true
}
func (w *window) reset(ws int) { w.w = ws; w.list = nil }

// checkCW verifies a codeword against the window; returns the selected set.
func checkCW(x *mc.X, u *Universe, cw any, w *window, deg int, what string) string {
	payload, members, ok := view(cw)
	if !ok {
		x.Count("header_not_readable", 1)
		return ""
	}
	want := deg
	if want > len(w.list) {
		want = len(w.list)
	}
	if len(members) != want {
		x.Fail("%s %s: degree %d of a window of %d gave %d members", u.c.Name, what, deg, len(w.list), len(members))
	}
	seen := map[int]bool{}
	xor := ""
	var sel []int
	for _, m := range members {
		found := -1
		for _, i := range w.list {
			if u.short[i] == m {
				found = i
			}
		}
		if found < 0 {
			x.Fail("%s %s: header names %08x which is not in the window %v", u.c.Name, what, m, w.list)
		}
		if seen[found] {
			x.Fail("%s %s: transaction %d selected twice", u.c.Name, what, found)
		}
		seen[found] = true
		sel = append(sel, found)
		xor = xorStr(xor, u.content[found])
	}
	if want > 0 && payload != xor {
		x.Fail("%s %s: payload is not the XOR of the members %v", u.c.Name, what, sel)
	}
	sort.Ints(sel)
	return fmt.Sprint(sel)
}

// full returns the window by asking for a codeword of full degree.
func checkWindow(x *mc.X, u *Universe, e Enc, w *window, what string) {
	if len(w.list) == 0 {
		return // producing from an empty window is not defined
	}
	cw := e.Produce(len(w.list))
	x.Op(1)
	checkCW(x, u, cw, w, len(w.list), what+" full degree")
	// a larger degree must not reveal more than the window
	cw = e.Produce(len(w.list) + 3)
	checkCW(x, u, cw, w, len(w.list)+3, what+" beyond full degree")
}

// checkOrder drains the window with new transactions, oldest first.
func checkOrder(x *mc.X, u *Universe, e Enc, w *window, from int, what string) {
	for k := 0; k < w.w && from+k < len(u.tx); k++ {
		got := e.Add(u.tx[from+k])
		x.Op(1)
		if want := w.add(from + k); got != want {
			x.Fail("%s %s: adding a new transaction returned %v", u.c.Name, what, got)
		}
		if w.w > 300 && k%(w.w/8) != 0 {
			continue
		}
		checkWindow(x, u, e, w, fmt.Sprintf("%s after %d more additions", what, k+1))
	}
}

var floatGrid = []float64{0.5, 0.9, 0.1, 0.99, 0.01, 0.7, 0.3, 1 - 1.0/(1<<53), 1e-9, 0}

func ldpcHooks(s *digits) {
	vrand.FloatHook = func() float64 {
		c, ok := s.next()
		if !ok {
			return float64(s.tail.Int63()>>10) / (1 << 53)
		}
		return floatGrid[c%len(floatGrid)]
	}
	vrand.IntnHook = func(n int) int {
		c, ok := s.next()
		if !ok {
			return int(s.tail.Uint64() % uint64(n))
		}
		return c % n
	}
}

func binom(n, k int) int {
	r := 1
	for i := 0; i < k; i++ {
		r = r * (n - i) / (i + 1)
	}
	return r
}

// c01 enumerates window sizes, fill levels, an earlier production, a reset,
// and for every degree all outcomes of the random source.
func c01(c *Codec, maxW, maxVec int) mc.Config {
	return mc.Config{Name: "C01/all-selections/" + c.Name, Run: func(x *mc.X) {
		fresh()
		u := c.universe(seq(maxW*3 + 12)...)
		W := 1 + x.Choose(maxW)
		adds := 1 + x.Choose(W+2)
		pre := x.Choose(W + 2) // degree of an earlier codeword, 0: none
		reset := x.Choose(3)   // 0: none, 1: after use, same size, 2: after use, other size
		deg := 1 + x.Choose(W+1)
		s := &digits{base: 12}
		ldpcHooks(s)
		e := c.NewEnc(salt, s, W)
		w := &window{w: W}
		next := 0
		if reset != 0 {
			e = c.NewEnc(salt, s, reset)
			for i := 0; i < 3; i++ {
				e.Add(u.tx[i])
			}
			e.Produce(2)
			if reset == 2 {
				e.Add(u.tx[4])
			}
			e.Reset(W)
			next = 1
		}
		for i := 0; i < adds; i++ {
			e.Add(u.tx[next])
			w.add(next)
			next++
			if pre > 0 && i == adds/2 {
				p := e.Produce(pre)
				checkCW(x, u, p, w, pre, "earlier codeword")
			}
		}
		x.Op(adds)
		x.Logf("window %v of size %d, degree %d", w.list, W, deg)
		n := len(w.list)
		d := deg
		if d > n {
			d = n
		}
		base, L := 12, d
		if c.LDPC {
			base = len(floatGrid)
			L = 1 + 3*(n-d)
		}
		for L > 0 && pow(base, L) > maxVec {
			L--
		}
		s.base = base
		vec := make([]int, L)
		count := map[string]int{}
		total := 0
		for {
			s.d, s.pos, s.tail = vec, 0, lcg{s: uint64(total)}
			var cw any
			if p := mc.Catch(func() { cw = e.Produce(deg) }); p != nil {
				x.Fail("%s: producing a codeword of degree %d from a window of %d panics for random outcomes %v: %v", c.Name, deg, n, vec, p)
			}
			sel := checkCW(x, u, cw, w, deg, fmt.Sprintf("random outcomes %v", vec))
			count[sel]++
			total++
			if !odo(vec, base) {
				break
			}
		}
		s.d = nil
		x.Op(total)
		x.Count("selections", total)
		if _, unreadable := count[""]; !unreadable {
			if want := binom(n, d); len(count) != want {
				x.Fail("%s: only %d of the %d subsets of size %d of the window can be selected: %v", c.Name, len(count), want, d, count)
			}
			lo, hi := 1<<60, 0
			for sel, k := range count {
				x.State(mc.HashString(fmt.Sprint(c.Name, W, adds, pre, reset, deg, sel)))
				if k < lo {
					lo = k
				}
				if k > hi {
					hi = k
				}
			}
			if !c.LDPC && hi > 2*lo {
				x.Fail("%s: subsets of size %d of a window of %d are not equally likely: %v", c.Name, d, n, count)
			}
			x.Observe(uint64(len(count))<<32 | uint64(total))
		}
		x.Sample("window %v size %d degree %d: %d outcomes of the random source, %d subsets", w.list, W, deg, total, len(count))
		checkWindow(x, u, e, w, "after all productions")
		checkOrder(x, u, e, w, next, "after all productions")
	}}
}

func pow(b, e int) int {
	r := 1
	for i := 0; i < e; i++ {
		r *= b
		if r > 1<<40 {
			return r
		}
	}
	return r
}

// c01big walks a grid of window sizes and degrees with one random sequence
// each, every production made by the same encoder, additions in between.
func c01big(c *Codec, sizes []int) mc.Config {
	return mc.Config{Name: "C01/size-grid/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		W := sizes[x.Choose(len(sizes))]
		extra := x.Choose(3) * (W/2 + 1)
		u := c.universe(seq(W + extra + 2*W + 2)...)
		s := &digits{base: 12, tail: lcg{s: uint64(W)}}
		ldpcHooks(s)
		e := c.NewEnc(salt, s, W)
		w := &window{w: W}
		next := 0
		for i := 0; i < W+extra; i++ {
			e.Add(u.tx[next])
			w.add(next)
			next++
		}
		for deg := 1; deg <= W+2; deg++ {
			if W > 300 && deg > 5 && deg < W-3 && deg%(W/8+1) != 1 {
				continue
			}
			cw := e.Produce(deg)
			checkCW(x, u, cw, w, deg, fmt.Sprintf("window %d degree %d", W, deg))
			x.Op(1)
			if deg%3 == 0 && next < len(u.tx) && deg < W {
				e.Add(u.tx[next])
				w.add(next)
				next++
			}
			x.State(mc.Mix(uint64(W)<<20 | uint64(deg)<<4 | uint64(extra)))
		}
		checkWindow(x, u, e, w, "size grid")
		checkOrder(x, u, e, w, next, "size grid")
		x.Observe(uint64(W))
	}}
}

// c02 enumerates all histories of additions, productions and resets.
func c02(c *Codec, n, depth int) mc.Config {
	sizes := []int{1, 2, 3, 0}
	return mc.Config{Name: fmt.Sprintf("C02/histories/%s/depth%d", c.Name, depth), Run: func(x *mc.X) {
		fresh()
		u := c.universe(seq(n + 6)...)
		vrand.Global = rand.New(&lcg{s: 5})
		W := sizes[x.Choose(len(sizes))]
		e := c.NewEnc(salt, &lcg{s: 99}, W)
		w := &window{w: W}
		var hist []string
		used := 0
		for step := 0; step < depth; step++ {
			m := used + 1
			if m > n {
				m = n
			}
			// 0: stop here; 1..m: add; then produce one, produce all; then reset
			op := x.Choose(1 + m + 2 + len(sizes))
			if op == 0 {
				break
			}
			op--
			x.Op(1)
			switch {
			case op < m:
				if op == used {
					used++
				}
				got := e.Add(u.tx[op])
				want := w.add(op)
				hist = append(hist, fmt.Sprintf("add %d", op))
				if got != want {
					x.Fail("%s: adding transaction %d returned %v, window should be %v of size %d; history %v", c.Name, op, got, w.list, w.w, hist)
				}
			case op < m+2:
				deg := 1
				if op == m+1 {
					deg = len(w.list)
				}
				hist = append(hist, fmt.Sprintf("produce %d", deg))
				if len(w.list) == 0 {
					x.Stop()
				}
				checkCW(x, u, e.Produce(deg), w, deg, fmt.Sprint(hist))
			default:
				ws := sizes[op-m-2]
				hist = append(hist, fmt.Sprintf("reset %d", ws))
				e.Reset(ws)
				w.reset(ws)
			}
			x.State(mc.HashString(fmt.Sprint(c.Name, w.w, w.list)))
			x.Logf("%v -> window %v", hist[len(hist)-1], w.list)
		}
		x.Observe(mc.HashString(fmt.Sprint(w.w, w.list)))
		x.Sample("%v -> window %v of size %d", hist, w.list, w.w)
		checkWindow(x, u, e, w, fmt.Sprint(hist))
		// what is in the window is refused, everything else accepted
		for i := 0; i < n; i++ {
			if w.has(i) {
				if e.Add(u.tx[i]) {
					x.Fail("%s: transaction %d accepted while in the window %v; history %v", c.Name, i, w.list, hist)
				}
			}
		}
		checkWindow(x, u, e, w, fmt.Sprint(hist, " and refusals"))
		for i := 0; i < n; i++ {
			if !w.has(i) {
				if got := e.Add(u.tx[i]); !got {
					x.Fail("%s: transaction %d refused while not in the window %v; history %v", c.Name, i, w.list, hist)
				}
				w.add(i)
				break
			}
		}
		checkOrder(x, u, e, w, n, fmt.Sprint(hist))
	}}
}

// c02big slides windows of many sizes over long streams, with repetitions.
func c02big(c *Codec, sizes []int) mc.Config {
	return mc.Config{Name: "C02/size-grid/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		W := sizes[x.Choose(len(sizes))]
		stride := 1 + x.Choose(3)
		N := 3*W + 5
		u := c.universe(seq(N)...)
		e := c.NewEnc(salt, &lcg{s: 1}, W)
		w := &window{w: W}
		k := 0
		steps := 4 * N
		if steps < 6000 {
			steps = 6000
		}
		for i := 0; i < steps; i++ {
			// new ones mixed with ones just inside and just outside the window
			var j int
			switch i % 4 {
			case 0, 2:
				j = k % N
				k += stride
			case 1:
				j = ((k-W*stride)%N + N) % N
			case 3:
				j = ((k-(W+1)*stride)%N + N) % N
			}
			got, want := e.Add(u.tx[j]), w.add(j)
			x.Op(1)
			if got != want {
				x.Fail("%s: window size %d, step %d: adding transaction %d returned %v with window %v", c.Name, W, i, j, got, w.list)
			}
			if i%5 == 0 && (W <= 300 && i < 4*N || i%97 == 0 && W <= 300 || i%(W+1) == 0) {
				checkWindow(x, u, e, w, fmt.Sprintf("window size %d step %d", W, i))
			}
		}
		x.State(uint64(W))
		checkOrder(x, u, e, w, N, "size grid")
	}}
}

// c02resets uses an encoder with one window size, then resets it to another.
func c02resets(c *Codec, sizes []int) mc.Config {
	return mc.Config{Name: "C02/reset-grid/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		W1, W2 := sizes[x.Choose(len(sizes))], sizes[x.Choose(len(sizes))]
		over := x.Choose(2) * (W1 + 3)
		n := W1 + over
		m := 2*W2 + 5
		u := c.universe(seq(n + m)...)
		e := c.NewEnc(salt, &lcg{s: 1}, W1)
		w := &window{w: W1}
		hist := fmt.Sprintf("%d added with window size %d, reset to %d", n, W1, W2)
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i++ {
				if got, want := e.Add(u.tx[i]), w.add(i); got != want {
					x.Fail("%s round %d: adding transaction %d returned %v with window %v", hist, round, i, got, w.list)
				}
			}
			if len(w.list) > 0 {
				checkCW(x, u, e.Produce(len(w.list)), w, len(w.list), hist)
			}
			e.Reset(W2)
			w.reset(W2)
			x.Op(n)
			for i := 0; i < m; i++ {
				// new ones, and every third time one of the first use
				j := n + i
				if i%3 == 2 && n > 0 {
					j = (n - 1 + i) % n
				}
				got, want := e.Add(u.tx[j]), w.add(j)
				x.Op(1)
				if got != want {
					x.Fail("%s: adding transaction %d returned %v with window %v of size %d", hist, j, got, w.list, W2)
				}
				if i < 12 || i%7 == 0 {
					checkWindow(x, u, e, w, hist)
				}
			}
			e.Reset(W1)
			w.reset(W1)
		}
		x.State(uint64(W1)<<20 | uint64(W2)<<4)
		x.Observe(uint64(W1)<<20 | uint64(W2)<<4)
	}}
}

// encLong drives one encoder through very long streams: more additions and
// productions than fit 16 bits, so that nothing kept per operation may run out.
func encLong(prop string, c *Codec, sizes []int, steps int) mc.Config {
	return mc.Config{Name: prop + "/long/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		W := sizes[x.Choose(len(sizes))]
		style := x.Choose(3) // mostly additions, mostly productions, with resets
		N := 2*W + 3
		u := c.universe(seq(N + W + 2)...)
		s := &digits{base: 12, tail: lcg{s: uint64(W)}}
		ldpcHooks(s)
		e := c.NewEnc(salt, s, W)
		w := &window{w: W}
		k := 0
		for i := 0; i < steps; i++ {
			what := fmt.Sprintf("window size %d step %d", W, i)
			if style == 0 || i%9 == 0 {
				j := k % N
				k++
				if got, want := e.Add(u.tx[j]), w.add(j); got != want {
					x.Fail("%s: %s: adding transaction %d returned %v with window %v", c.Name, what, j, got, w.list)
				}
				if i%11 == 0 && e.Add(u.tx[j]) {
					x.Fail("%s: %s: transaction %d accepted a second time", c.Name, what, j)
				}
			}
			if style != 0 || i%50 == 0 {
				deg := 1 + i%(W+1)
				if deg > 3 && i%64 != 0 {
					deg = 1 + i%3
				}
				checkCW(x, u, e.Produce(deg), w, deg, what)
			}
			if style == 2 && i%23 == 22 {
				e.Reset(W)
				w.reset(W)
				e.Add(u.tx[k%N])
				w.add(k % N)
				k++
			}
			x.Op(1)
		}
		x.State(uint64(W)<<8 | uint64(style))
		x.Observe(mc.HashString(fmt.Sprint(w.list)))
		checkWindow(x, u, e, w, "long stream")
		checkOrder(x, u, e, w, N, "long stream")
	}}
}
