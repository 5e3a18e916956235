package simrun

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Boundaries lists what may be taken as the end of the warm-up: the time
// given, or the end of the first interval that is not before, or is after it.
func (r *Run) Boundaries() []time.Duration {
	b := []time.Duration{r.Warm}
	ge := (r.Warm + r.Intv - 1) / r.Intv * r.Intv
	gt := (r.Warm/r.Intv + 1) * r.Intv
	return append(b, ge, gt)
}

// End is the time of the last delivery.
func (r *Run) End() time.Duration {
	var e time.Duration
	for _, v := range r.Evs {
		if v.T > e {
			e = v.T
		}
	}
	return e
}

// Spans lists what may be taken as the length of the reported time.
func (r *Run) Spans(b time.Duration) []time.Duration {
	var s []time.Duration
	for _, e := range []time.Duration{r.End(), r.Last(), r.Dur} {
		s = append(s, e-r.Warm, e-b)
	}
	return s
}

// Numbers parses the list at the end of the line that contains a text.
func (r *Run) Numbers(text string) ([]float64, string) {
	l, there := r.Line(text)
	if !there {
		return nil, fmt.Sprintf("no %s is printed", text)
	}
	l = l[strings.Index(l, text)+len(text):]
	var v []float64
	for _, f := range strings.FieldsFunc(l, func(c rune) bool { return strings.ContainsRune(" []:,", c) }) {
		n, err := strconv.ParseFloat(f, 64)
		if err != nil {
			return nil, fmt.Sprintf("%s: %q cannot be read", text, l)
		}
		v = append(v, n)
	}
	if len(v) != 7 {
		return nil, fmt.Sprintf("%s: %d numbers printed, not 7", text, len(v))
	}
	return v, ""
}

func same(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

// quantile is the range of what can be called a quantile of sorted values.
func quantile(x []float64, q float64) (lo, hi float64) {
	n := float64(len(x))
	at := func(h float64) float64 { // 1-based, interpolated
		if h <= 1 {
			return x[0]
		}
		if h >= n {
			return x[len(x)-1]
		}
		f := math.Floor(h)
		return x[int(f)-1] + (h-f)*(x[int(f)]-x[int(f)-1])
	}
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, h := range []float64{n * q, math.Ceil(n * q), math.Floor(n*q + 0.5), n*q + 0.5, (n + 1) * q, (n-1)*q + 1, (n+1.0/3)*q + 1.0/3, (n+0.25)*q + 0.375} {
		lo, hi = math.Min(lo, at(h)), math.Max(hi, at(h))
	}
	return
}

// moments checks the printed mean, deviation and quantiles of values known to
// be in the given ranges.
func moments(got, lo, hi []float64) bool {
	sum := func(x []float64) (s float64) {
		for _, v := range x {
			s += v
		}
		return s / float64(len(x))
	}
	slack := func(a, b float64) float64 { return 1e-9 * (math.Abs(a) + math.Abs(b)) }
	in := func(v, a, b float64) bool { return v >= a-slack(v, a) && v <= b+slack(v, b) }
	if !in(got[0], sum(lo), sum(hi)) {
		return false
	}
	exact := true
	for i := range lo {
		exact = exact && lo[i] == hi[i]
	}
	if exact {
		m := sum(lo)
		s := 0.0
		for _, v := range lo {
			s += (v - m) * (v - m)
		}
		n := float64(len(lo))
		tiny := 1e-7 * (1 + math.Abs(m))
		if math.Abs(got[1]-math.Sqrt(s/n)) > tiny && (n < 2 || math.Abs(got[1]-math.Sqrt(s/(n-1))) > tiny) {
			return false
		}
	}
	a, b := append([]float64{}, lo...), append([]float64{}, hi...)
	sort.Float64s(a)
	sort.Float64s(b)
	if !exact && got[1] > b[len(b)-1]-a[0]+1e-9 {
		return false
	}
	for i, q := range []float64{0.05, 0.25, 0.5, 0.75, 0.95} {
		l, _ := quantile(a, q)
		_, h := quantile(b, q)
		if !in(got[2+i], l, h) {
			return false
		}
	}
	return true
}

// Quantity checks a printed line against the values of all nodes, computed for
// one of the boundaries and lengths that may be meant.
func (r *Run) Quantity(text string, f func(node int, b, span time.Duration) float64) string {
	got, why := r.Numbers(text)
	if why != "" {
		return why
	}
	first := ""
	for _, b := range r.Boundaries() {
		for _, s := range r.Spans(b) {
			if s <= 0 {
				continue
			}
			var v []float64
			for i := range r.Who {
				v = append(v, f(i, b, s))
			}
			if moments(got, v, v) {
				return ""
			}
			if first == "" {
				first = fmt.Sprintf("%s printed as %v; from what happened after the warm-up it is, by node, %v", text, got, v)
			}
		}
	}
	return first
}

// rough is the range for a quantile of values that may be off by 1 %, and of
// which the ranks are rounded.
func rough(x []float64, q float64) (lo, hi float64) {
	k := q * float64(len(x)-1)
	at := func(i int) float64 {
		if i < 0 {
			i = 0
		}
		if i >= len(x) {
			i = len(x) - 1
		}
		return x[i]
	}
	lo, hi = at(int(math.Floor(k))-1), at(int(math.Ceil(k))+1)
	return lo*(1-0.0102) - 1e-9, hi*1.0102 + 1e-9
}

// Latency checks the printed quantiles of the latencies.
func (r *Run) Latency(text string, q float64) string {
	got, why := r.Numbers(text)
	if why != "" {
		return why
	}
	first := ""
	for _, b := range r.Boundaries() {
		lat := make([][]float64, len(r.Who))
		for _, g := range r.Gains {
			if !g.Own && g.T >= b {
				lat[g.Node] = append(lat[g.Node], (g.T - r.Born[g.Tx]).Seconds())
			}
		}
		var lo, hi []float64
		for _, l := range lat {
			if len(l) == 0 {
				return ""
			}
			sort.Float64s(l)
			a, b := rough(l, q)
			lo, hi = append(lo, a), append(hi, b)
		}
		if moments(got, lo, hi) {
			return ""
		}
		if first == "" {
			first = fmt.Sprintf("%s printed as %v; the latencies of the transactions received after the warm-up give, by node, from %v to %v", text, got, lo, hi)
		}
	}
	return first
}

// Count counts gains in the reported time.
func (r *Run) Count(node int, b time.Duration, own bool) float64 {
	n := 0
	for _, g := range r.Gains {
		if g.Node == node && g.T > b && (own || !g.Own) {
			n++
		}
	}
	return float64(n)
}

// Repeats counts the transactions delivered to a node that knows them.
func (r *Run) Repeats(node int, b time.Duration) float64 {
	n := 0
	for _, d := range r.Dup {
		if d.node == node && d.t > b {
			n++
		}
	}
	return float64(n)
}

// Rates checks the lines with the rate of each interval at node 0.
func (r *Run) Rates(what Kind) string {
	type row struct{ t, v float64 }
	var rows []row
	for _, l := range strings.Split(r.Out, "\n") {
		var a, b float64
		if strings.HasPrefix(l, "#") {
			continue
		}
		if n, _ := fmt.Sscanf(l, "%g %g", &a, &b); n == 2 {
			rows = append(rows, row{a, b})
		}
	}
	me := r.Names[0]
	k := 0
	for cur := time.Duration(0); cur < r.Dur; cur += r.Intv {
		if cur-r.Intv < r.Warm {
			continue
		}
		var latest time.Duration
		n := 0
		for _, e := range r.Evs {
			if e.T <= cur {
				latest = e.T
				if e.T > cur-r.Intv && e.To == me && e.Kind == what {
					n++
				}
			}
		}
		want := float64(n) / r.Intv.Seconds()
		found := false
		for k < len(rows) && !found {
			found = same(rows[k].t, latest.Seconds()) || same(rows[k].t, cur.Seconds())
			if found && !same(rows[k].v, want) {
				// the line of an interval without anything may carry the same time
				found = false
				if !(k+1 < len(rows) && rows[k+1].t <= cur.Seconds()) {
					return fmt.Sprintf("the rate of codewords at node 0 until %v is printed as %v; %d came in %v", cur, rows[k].v, n, r.Intv)
				}
			}
			k++
		}
		if !found {
			if cur-r.Intv == r.Warm { // may be the first, which is not printed
				k = 0
				continue
			}
			return fmt.Sprintf("no line for the rate of codewords at node 0 in the interval until %v (it should say %v)", cur, want)
		}
	}
	return ""
}

// Overlaps checks the files with the quantiles of the overlaps of blocks.
func (r *Run) Overlaps() string {
	if len(r.Files) != len(r.Who) {
		return fmt.Sprintf("%d files are written, there are %d nodes", len(r.Files), len(r.Who))
	}
	for i, me := range r.Names {
		name := fmt.Sprintf("-overlap-%d.csv", i)
		text, there := r.Files[name]
		if !there {
			return "no file " + name
		}
		bad := ""
		for _, b := range r.Boundaries() {
			var x []float64
			for _, o := range r.Over {
				if o.Node == me && o.T >= b {
					x = append(x, o.Ratio)
				}
			}
			if len(x) == 0 {
				bad = ""
				break
			}
			sort.Float64s(x)
			why := overlap(text, x)
			if why == "" {
				bad = ""
				break
			}
			if bad == "" {
				bad = name + ": " + why
			}
		}
		if bad != "" {
			return bad
		}
	}
	return ""
}

func overlap(text string, x []float64) string {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if len(lines) < 100 || len(lines) > 101 {
		return fmt.Sprintf("%d lines, not one for each percent", len(lines))
	}
	for k, l := range lines {
		var q, v float64
		if n, _ := fmt.Sscanf(l, "%g %g", &q, &v); n != 2 || math.Abs(q-float64(k)*0.01) > 1e-6 {
			return fmt.Sprintf("line %d is %q", k+1, l)
		}
		lo, hi := rough(x, math.Min(q, 1))
		if v < lo || v > hi {
			return fmt.Sprintf("the %v quantile of the overlap of blocks is given as %v, it is between %v and %v", q, v, lo, hi)
		}
	}
	return ""
}
