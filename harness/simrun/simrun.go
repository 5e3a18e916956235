// Package simrun runs a whole simulation program, main included, with given
// arguments on a given topology, and judges what it does by the messages that
// are delivered in it: the network (C31), and the results it reports (C32).
package simrun

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

// Kind of a delivery.
type Kind int

const (
	Arrival Kind = iota // of transactions at a node
	Timer               // other messages of a node to itself
	Loop                // a transaction that is forwarded, sent by a node to itself
	Code                // a codeword
	Ack                 // an acknowledgement
	Other
)

// Ev is a delivery.
type Ev struct {
	To, From int // numbers of nodes in the order they are seen
	T        time.Duration
	Kind     Kind
	N        int // size of an arrival
	New      bool
	Tag      string // of a new block
	Done     bool   // block complete
	Size     int    // in bytes
	Txs      []uint64
	Type     string
}

// Gain is a transaction that gets known to a node.
type Gain struct {
	Node int
	Tx   uint64
	T    time.Duration
	Own  bool
}

// Prog is what differs between the programs.
type Prog struct {
	Name string
	Main func()
	// Describe fills in what is known about a payload.
	Describe func(payload any, e *Ev)
	// Fresh lists the transactions known to a server that are not in seen.
	// hints are some that may be among them.
	Fresh func(srv any, seen map[uint64]bool, hints []uint64, at time.Duration) []uint64
	// Block returns the first transaction of the block being sent to a peer
	// and all of them; peers lists the peers of a server.
	Block func(srv, peer any, all bool) []uint64
	Peers func(srv any) []any
	// Wiring checks what is particular to the program.
	Wiring func(r *Run) string
	// Report checks what is printed and written.
	Report func(r *Run) string
	Lines  string // what the line with the size of the network contains
}

// Overlap is a block being started.
type Overlap struct {
	Node  int
	T     time.Duration
	Ratio float64
}

// Net is a topology: triples a, b, delay in ms.
type Net struct {
	Name  string
	Edges [][3]int
}

func (n Net) Nodes() int {
	m := 0
	for _, e := range n.Edges {
		for _, v := range e[:2] {
			if v > m {
				m = v
			}
		}
	}
	return m + 1
}

// Run is one run of the program.
type Run struct {
	P     *Prog
	Net   Net
	Opt   map[string]string
	Evs   []Ev
	Gains []Gain
	Over  []Overlap
	Out   string
	Files map[string]string
	Born  map[uint64]time.Duration
	Who   []any // servers by number
	Dup   []dup

	Dur, Warm, Intv time.Duration
	Rate            float64
	Burst           int

	// Names maps the nodes of the file to the nodes seen.
	Names []int
	// Links by pair of nodes seen.
	Links map[[2]int]time.Duration
}

type dup struct {
	node int
	t    time.Duration
}

var runs int

// Go runs the program.
func (p *Prog) Go(net Net, form int, args string) (r *Run, died any) {
	runs++
	dir, err := os.MkdirTemp("", "rsrsimrun.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	r = &Run{P: p, Net: net, Opt: map[string]string{}, Born: map[uint64]time.Duration{}, Files: map[string]string{}, Links: map[[2]int]time.Duration{}}
	var lines []string
	for _, e := range net.Edges {
		if form&1 != 0 {
			e[0], e[1] = e[1], e[0]
		}
		lines = append(lines, fmt.Sprintf("%d,%d,%d", e[0], e[1], e[2]))
	}
	if form&2 != 0 {
		for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	text := strings.Join(lines, "\n")
	if form&4 == 0 {
		text += "\n"
	}
	topo := filepath.Join(dir, "topo.csv")
	if err := os.WriteFile(topo, []byte(text), 0600); err != nil {
		panic(err)
	}
	r.options(args)

	rank := map[any]int{}
	num := func(m any) int {
		if m == nil || reflect.ValueOf(m).IsNil() {
			return -1
		}
		i, there := rank[m]
		if !there {
			i = len(r.Who)
			rank[m] = i
			r.Who = append(r.Who, m)
		}
		return i
	}
	seen := []map[uint64]bool{}
	type blk struct{ s, p any }
	blocks := map[blk]uint64{}
	var last *Ev
	newest := uint64(0)
	settle := func() {
		if last == nil {
			return
		}
		srv := r.Who[last.To]
		for len(seen) < len(r.Who) {
			seen = append(seen, map[uint64]bool{})
		}
		if last.Kind == Arrival || last.Kind == Code || last.Kind == Ack || last.Kind == Other {
			hints := last.Txs
			if last.Kind == Arrival {
				for i := 0; i < last.N; i++ {
					hints = append(hints, newest+1+uint64(i))
				}
			}
			fresh := p.Fresh(srv, seen[last.To], hints, last.T)
			sort.Slice(fresh, func(i, j int) bool { return fresh[i] < fresh[j] })
			for _, tx := range fresh {
				seen[last.To][tx] = true
				if tx > newest {
					newest = tx
				}
				own := last.Kind == Arrival
				if own {
					r.Born[tx] = last.T
				}
				r.Gains = append(r.Gains, Gain{last.To, tx, last.T, own})
			}
		}
		if p.Block != nil && (last.Kind == Loop || last.Kind == Ack || last.Kind == Timer) {
			for _, q := range p.Peers(srv) {
				b := p.Block(srv, q, false)
				if len(b) == 0 {
					continue
				}
				k := blk{srv, q}
				if f, there := blocks[k]; there && f == b[0] {
					continue
				}
				blocks[k] = b[0]
				b = p.Block(srv, q, true)
				n := num(q)
				for len(seen) < len(r.Who) {
					seen = append(seen, map[uint64]bool{})
				}
				c := 0
				for _, t := range b {
					if seen[n][t] {
						c++
					}
				}
				r.Over = append(r.Over, Overlap{last.To, last.T, float64(c) / float64(len(b))})
			}
		}
		last = nil
	}
	vs.Tracer = func(a ...any) {
		settle()
		if len(a) != 4 {
			panic(fmt.Sprintf("harness: HandleMessage has %d named parameters", len(a)))
		}
		e := Ev{T: a[3].(time.Duration), Type: fmt.Sprintf("%T", a[1])}
		e.To, e.From = num(a[0]), num(a[2])
		p.Describe(a[1], &e)
		for len(seen) < len(r.Who) {
			seen = append(seen, map[uint64]bool{})
		}
		for _, t := range e.Txs {
			if seen[e.To][t] {
				r.Dup = append(r.Dup, dup{e.To, e.T})
			}
		}
		r.Evs = append(r.Evs, e)
		if len(r.Evs) > 2000000 {
			panic("harness: too many deliveries")
		}
		last = &r.Evs[len(r.Evs)-1]
	}
	so, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	oldOut, oldErr, oldArgs, oldFlags := os.Stdout, os.Stderr, os.Args, flag.CommandLine
	os.Stdout, os.Stderr = so, null
	vs.Reset()
	os.Args = append([]string{"sim"}, strings.Fields(args)...)
	os.Args = append(os.Args, "-topo", topo)
	if p.Block != nil {
		os.Args = append(os.Args, "-prefix", filepath.Join(dir, "out"))
	}
	flag.CommandLine = flag.NewFlagSet("sim", flag.ContinueOnError)
	func() {
		defer func() { died = recover() }()
		p.Main()
	}()
	os.Stdout, os.Stderr, os.Args, flag.CommandLine = oldOut, oldErr, oldArgs, oldFlags
	vs.Tracer = nil
	settle()
	so.Close()
	null.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	r.Out = string(b)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "out") {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			r.Files[e.Name()[3:]] = string(b)
		}
	}
	return
}

func (r *Run) options(args string) {
	f := strings.Fields(args)
	for i := 0; i < len(f); i++ {
		k := strings.TrimLeft(f[i], "-")
		if i+1 < len(f) && !strings.HasPrefix(f[i+1], "-") {
			r.Opt[k] = f[i+1]
			i++
		} else {
			r.Opt[k] = "true"
		}
	}
	d := func(k string, def time.Duration) time.Duration {
		if v, there := r.Opt[k]; there {
			t, err := time.ParseDuration(v)
			if err != nil {
				panic(err)
			}
			return t
		}
		return def
	}
	r.Dur, r.Warm, r.Intv = d("dur", 100*time.Second), d("w", 20*time.Second), d("r", time.Second)
	r.Rate = r.Float("txgen", 5)
	r.Burst = int(r.Float("b", 1))
}

func (r *Run) Float(k string, def float64) float64 {
	if v, there := r.Opt[k]; there {
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			panic(err)
		}
		return f
	}
	return def
}

// Last is the time until which the simulation runs.
func (r *Run) Last() time.Duration {
	if r.Dur%r.Intv == 0 {
		return r.Dur - r.Intv
	}
	return r.Dur - r.Dur%r.Intv
}

// match finds the ways to name the nodes seen so that messages are sent just
// along the links of the file, taking their delays.
func (r *Run) match() (all [][]int, why string) {
	n := r.Net.Nodes()
	if len(r.Who) != n {
		return nil, fmt.Sprintf("transactions arrive at, or messages go to, %d nodes, there are %d in the topology file", len(r.Who), n)
	}
	at := make([]map[time.Duration]bool, n)
	for i := range at {
		at[i] = map[time.Duration]bool{}
	}
	delays := map[time.Duration]bool{}
	for _, e := range r.Net.Edges {
		delays[time.Duration(e[2])*time.Millisecond] = true
	}
	can := map[[2]int]map[time.Duration]bool{}
	for _, e := range r.Evs {
		if e.From != e.To && e.From >= 0 {
			k := [2]int{e.From, e.To}
			c := can[k]
			if c == nil {
				c = map[time.Duration]bool{}
				for d := range delays {
					c[d] = true
				}
				can[k] = c
			}
			for d := range c {
				if !at[e.From][e.T-d] {
					delete(c, d)
				}
			}
			if len(c) == 0 {
				return nil, fmt.Sprintf("messages between two nodes (%s at %v) do not take the time of any link", e.Type, e.T)
			}
		}
		at[e.To][e.T] = true
	}
	link := map[[2]int]time.Duration{}
	deg := make([]int, n)
	for _, e := range r.Net.Edges {
		d := time.Duration(e[2]) * time.Millisecond
		link[[2]int{e[0], e[1]}], link[[2]int{e[1], e[0]}] = d, d
		deg[e[0]]++
		deg[e[1]]++
	}
	if len(can) != len(link) {
		return nil, fmt.Sprintf("messages are sent between %d ordered pairs of nodes; there are %d links in the topology file", len(can), len(r.Net.Edges))
	}
	names := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if len(all) >= 24 {
			return
		}
		if i == n {
			all = append(all, append([]int{}, names...))
			return
		}
	next:
		for v := 0; v < n; v++ {
			if used[v] {
				continue
			}
			for j := 0; j < i; j++ {
				for _, p := range [][4]int{{i, j, v, names[j]}, {j, i, names[j], v}} {
					d, there := link[[2]int{p[0], p[1]}]
					c := can[[2]int{p[2], p[3]}]
					if there != (c != nil) || (there && !c[d]) {
						continue next
					}
				}
			}
			names[i], used[v] = v, true
			rec(i + 1)
			used[v] = false
		}
	}
	rec(0)
	if len(all) == 0 {
		var s []string
		for k, c := range can {
			for d := range c {
				s = append(s, fmt.Sprintf("%d-%d %v", k[0], k[1], d))
			}
		}
		sort.Strings(s)
		return nil, "messages are not sent along the links of the topology file and with their delays, whichever node is which; seen (numbers are arbitrary): " + strings.Join(s, ", ")
	}
	return all, ""
}

func ints(s string) []int {
	var r []int
	for _, f := range strings.FieldsFunc(s, func(c rune) bool { return c < '0' || c > '9' }) {
		v, err := strconv.Atoi(f)
		if err == nil {
			r = append(r, v)
		}
	}
	return r
}

// Line returns the line of the output that contains a text.
func (r *Run) Line(text string) (string, bool) {
	for _, l := range strings.Split(r.Out, "\n") {
		if strings.Contains(l, text) {
			return l, true
		}
	}
	return "", false
}

// network checks C31.
func (r *Run) network() string {
	all, why := [][]int{{0, 1}}, ""
	if r.Opt["th"] != "10000000" { // no block ever
		all, why = r.match()
	}
	if why != "" {
		return why
	}
	deg := 0
	for _, e := range r.Net.Edges {
		if e[0] == 0 || e[1] == 0 {
			deg++
		}
	}
	l, there := r.Line("peers")
	if !there {
		return "the number of peers of node 0 is not printed"
	}
	v := ints(l)
	want := []int{0, deg}
	if strings.Contains(l, "nodes") {
		want = []int{r.Net.Nodes(), 0, deg}
	}
	if fmt.Sprint(v) != fmt.Sprint(want) {
		return fmt.Sprintf("printed %q, there are %d nodes, and node 0 has %d links", l, r.Net.Nodes(), deg)
	}
	if len(r.Who) != r.Net.Nodes() {
		return fmt.Sprintf("there are %d nodes", len(r.Who))
	}
	times := make([][]time.Duration, len(r.Who))
	var end time.Duration
	for _, e := range r.Evs {
		if e.Kind == Arrival {
			if e.N != r.Burst {
				return fmt.Sprintf("%d transactions arrive at once, not %d", e.N, r.Burst)
			}
			times[e.To] = append(times[e.To], e.T)
		}
		if e.T > end {
			end = e.T
		}
	}
	if end > r.Dur {
		return fmt.Sprintf("the simulation goes on until %v, told to end at %v", end, r.Dur)
	}
	last := r.Last()
	lambda := r.Rate / float64(r.Burst)
	for i, t := range times {
		if i == 0 && len(times) > 1 && fmt.Sprint(t) == fmt.Sprint(times[1]) {
			return "transactions arrive at two nodes at the same times"
		}
		mean := lambda * last.Seconds()
		d := float64(len(t)) - mean
		if d*d > 36*mean+36 {
			return fmt.Sprintf("%d arrivals at a node in %v, at a rate of %v per second", len(t), last, lambda)
		}
		short := 0
		prev := time.Duration(0)
		for _, x := range t {
			if (x-prev).Seconds()*lambda < 0.693147 {
				short++
			}
			prev = x
		}
		d = float64(short) - float64(len(t))/2
		if d*d > 9*float64(len(t))+9 {
			return fmt.Sprintf("%d of the %d times between arrivals at a node are shorter than the median of the exponential distribution", short, len(t))
		}
	}
	// something happens until the end
	if quiet := (last - end).Seconds() * lambda * float64(len(times)); quiet > 25 {
		return fmt.Sprintf("nothing happens after %v in a simulation until %v", end, r.Dur)
	}
	r.Names = all[0]
	for _, e := range r.Net.Edges {
		d := time.Duration(e[2]) * time.Millisecond
		r.Links[[2]int{all[0][e[0]], all[0][e[1]]}] = d
		r.Links[[2]int{all[0][e[1]], all[0][e[0]]}] = d
	}
	return r.P.Wiring(r)
}

// ---- networks

// Delays that are not sums or small multiples of each other.
var delays = []int{83, 37, 141, 66, 25, 159, 117, 53, 171, 92, 147, 41, 167}

// Nets are all connected graphs with nodes 0..n-1 for n up to most, and some
// larger ones; the delays are all different.
func Nets(most int, more bool) []Net {
	var r []Net
	for n := 2; n <= most; n++ {
		var pairs [][2]int
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				pairs = append(pairs, [2]int{i, j})
			}
		}
		for m := 1; m < 1<<uint(len(pairs)); m++ {
			g := Net{}
			comp := make([]int, n)
			for i := range comp {
				comp[i] = i
			}
			for k, p := range pairs {
				if m>>uint(k)&1 == 1 {
					g.Edges = append(g.Edges, [3]int{p[0], p[1], delays[(k*5+m)%len(delays)]})
					a, b := comp[p[0]], comp[p[1]]
					for i := range comp {
						if comp[i] == a {
							comp[i] = b
						}
					}
				}
			}
			ok := true
			for _, c := range comp {
				ok = ok && c == comp[0]
			}
			if ok {
				g.Name = fmt.Sprintf("%d nodes %v", n, g.Edges)
				r = append(r, g)
			}
		}
	}
	if more {
		star := Net{Name: "star of 13"}
		for i := 1; i <= 12; i++ {
			star.Edges = append(star.Edges, [3]int{i, 0, delays[i]})
		}
		ring := Net{Name: "ring of 12"}
		for i := 0; i < 12; i++ {
			ring.Edges = append(ring.Edges, [3]int{i, (i + 1) % 12, delays[i]})
		}
		tree := Net{Name: "tree of 11"}
		for i := 1; i < 11; i++ {
			tree.Edges = append(tree.Edges, [3]int{i, (i - 1) / 2, delays[i]})
		}
		r = append(r, star, ring, tree)
	}
	return r
}

// Dense is a network of n nodes with links between all nodes of which the
// difference is not a multiple of skip.
func Dense(n, skip int) Net {
	r := Net{Name: fmt.Sprintf("dense network of %d", n)}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if (j-i)%skip != 0 {
				r.Edges = append(r.Edges, [3]int{i, j, 101 + (i*n+j)*37%997})
			}
		}
	}
	return r
}

// Workloads are command lines with all combinations of rates and bursts, each
// for some thousand arrivals.
func Workloads(rest string) []string {
	var r []string
	for _, rate := range []float64{0.5, 1, 2.5, 7, 30} {
		for _, b := range []int{1, 2, 3, 4, 7} {
			r = append(r, fmt.Sprintf("-txgen %v -b %d -dur %ds -w 10s %s", rate, b, int(3000*float64(b)/rate), rest))
		}
	}
	return r
}

// empty tells whether there is a node without anything to report.
func (r *Run) empty() bool {
	b := r.Boundaries()[2]
	got, over := map[int]bool{}, map[int]bool{}
	for _, g := range r.Gains {
		if !g.Own && g.T > b {
			got[g.Node] = true
		}
	}
	for _, o := range r.Over {
		if o.T > b {
			over[o.Node] = true
		}
	}
	for i := range r.Who {
		if !got[i] || (r.P.Block != nil && !over[i]) {
			return true
		}
	}
	return false
}

// Config is a configuration: every network with every set of arguments.
func (p *Prog) Config(name string, nets []Net, forms []int, args []string, c32 bool, stride int) mc.Config {
	return mc.Config{Name: p.Name + ": " + name, Weight: len(nets) * len(args), Run: func(x *mc.X) {
		i := x.Choose(len(nets))
		net := nets[i]
		// with a stride, each network gets a part of the arguments
		k := x.Choose((len(args)+stride-1)/stride)*stride + i%stride
		a := args[k%len(args)]
		form := forms[x.Choose(len(forms))]
		x.Logf("%s, %s, form %d", net.Name, a, form)
		r, died := p.Go(net, form, a)
		x.Op(len(r.Evs))
		if died != nil {
			if s := fmt.Sprint(died); strings.HasPrefix(s, "harness") {
				panic(died)
			}
			// there are no quantiles of nothing
			if !r.empty() {
				x.Fail("the simulation of %s with %s panics: %v", net.Name, a, died)
			}
			x.Count("runs_without_results", 1)
		}
		h := mc.HashString(fmt.Sprint(len(r.Evs), len(r.Gains), r.Out))
		x.State(h)
		x.Observe(h)
		why := ""
		if c32 {
			if r.empty() { // averages over nothing
				x.Stop()
			}
			all, w := r.match()
			if w != "" { // C31
				x.Count("runs_not_judged", 1)
				x.Stop()
			}
			for _, names := range all {
				r.Names = names
				why = r.P.Report(r)
				if why == "" {
					break
				}
			}
		} else {
			why = r.network()
		}
		if why != "" {
			x.Fail("%s with %s: %s", net.Name, a, why)
		}
		x.Sample("%s, %s: %d deliveries", net.Name, a, len(r.Evs))
	}}
}
