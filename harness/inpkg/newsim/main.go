package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// zzGraph is the graph of reached states, for the liveness analysis.
type zzGraph struct {
	id    map[uint64]int32
	miss  []string // what is missing in a state that is owed delivery, or ""
	empty []uint32 // bit per link direction: the queue is empty
	inert []bool   // nothing can be delivered
	live  []uint32 // bit per link: started
	edges []zzEdge
}

type zzEdge struct {
	from, to int32
	del      int8 // link direction delivered, -1 for an arrival
	done     int8 // link whose sender learned that its block is complete, or -1
}

func (g *zzGraph) node(h uint64, n *zzNet) int32 {
	if i, there := g.id[h]; there {
		return i
	}
	i := int32(len(g.id))
	g.id[h] = i
	miss := ""
	if id, who, is := n.missing(); is {
		miss = fmt.Sprintf("transaction %d (of %d generated, counting from %d) never reaches node %d", id, len(n.txs), n.base+1, who)
	}
	g.miss = append(g.miss, miss)
	var e, lv uint32
	for k, p := range n.pairs() {
		if len(n.q[p]) == 0 {
			e |= 1 << uint(k)
		}
	}
	for k, l := range n.links {
		if l.started {
			lv |= 1 << uint(k)
		}
	}
	inert := true
	for _, q := range n.q {
		inert = inert && len(q) == 0
	}
	g.empty = append(g.empty, e)
	g.live = append(g.live, lv)
	g.inert = append(g.inert, inert)
	return i
}

const zzMaxSteps = 3000

// fairly lets everything still to come happen, round robin, and then delivers
// messages from all links in turn for a long time.
func (n *zzNet) fairly() {
	for i, k := range n.left {
		for ; k > 0; k-- {
			n.do(i, -1, zzMsg{payload: blockArrival{n.c.burst}})
		}
	}
	for r := 0; r < 2000; r++ {
		any := false
		for _, q := range n.pairs() {
			if len(n.q[q]) > 0 {
				any = true
				m := n.q[q][0]
				n.q[q] = append([]zzMsg{}, n.q[q][1:]...)
				n.do(q[1], q[0], m)
			}
		}
		if !any {
			break
		}
	}
	if id, who, is := n.missing(); is {
		n.fail("C17", "after a long exchange of messages, all of them delivered, transaction %d has not reached node %d", id, who)
	}
}

func (c *zzConf) run(x *mc.X) {
	if c.lats != nil {
		c.timed(x)
		return
	}
	if len(x.Choices()) == 0 && !x.Prefixed() && c.graph == nil {
		c.graph = &zzGraph{id: map[uint64]int32{}}
	}
	g := c.graph
	if g == nil { // replay
		g = &zzGraph{id: map[uint64]int32{}}
	}
	n := c.start(x)
	pairs := n.pairs()
	prev := int32(-1)
	del, done := int8(-1), int8(-1)
	for {
		if n.step > zzMaxSteps {
			// the states never repeat: judge by what a long fair continuation does
			n.fairly()
			x.Count("cut_by_length", 1)
			x.Stop()
		}
		if x.Left() <= 1 {
			h := n.hash()
			cur := g.node(h, n)
			if x.Left() == 0 {
				if prev >= 0 {
					g.edges = append(g.edges, zzEdge{prev, cur, del, done})
				}
				if x.Visit(h) {
					x.Stop()
				}
				if x.Replay && g.miss[cur] != "" && g.inert[cur] {
					return
				}
			}
			prev = cur
		}
		src := n.enabled()
		if len(src) == 0 {
			return
		}
		q := n.next(src)
		del, done = -1, -1
		if q[1] < 0 {
			n.do(q[0], -1, zzMsg{payload: blockArrival{c.burst}})
			continue
		}
		for i, r := range pairs {
			if r == q {
				del = int8(i)
			}
		}
		m := n.q[q][0]
		n.q[q] = append([]zzMsg{}, n.q[q][1:]...)
		for _, l := range n.links {
			l.completed = false
		}
		n.do(q[1], q[0], m)
		for i, l := range n.links {
			if l.completed {
				done = int8(i)
			}
		}
	}
}

// timed runs the network as the simulator would, every link with its own
// latency: all assignments of latencies to links, spacings of the arrivals and
// choices of the nodes that generate.
var zzMost int

func (c *zzConf) timed(x *mc.X) {
	n := c.start(x)
	n.lat = map[[2]int]int{}
	for _, e := range c.edges {
		l := c.lats[x.Choose(len(c.lats))]
		n.lat[e], n.lat[[2]int{e[1], e[0]}] = l, l
	}
	gap := []int{2, 7}[x.Choose(2)]
	actor := x.Choose(c.n+1) - 1
	due := make([]int, c.n)
	for i := range n.left {
		n.left[i] = 1
		if actor < 0 || actor == i {
			n.left[i] = c.arrivals[i]
		}
	}
	limit := -1
	for {
		var q [2]int
		best, bs := -1, 0
		for i, k := range n.left {
			if k > 0 && (best < 0 || due[i] < best) {
				q, best, bs = [2]int{i, -1}, due[i], 0
			}
		}
		for _, p := range n.pairs() {
			if l := n.q[p]; len(l) > 0 && (best < 0 || l[0].due < best || l[0].due == best && l[0].seq < bs) {
				q, best, bs = p, l[0].due, l[0].seq
			}
		}
		if best < 0 {
			break
		}
		n.now = best
		if q[1] < 0 {
			i := q[0]
			n.do(i, -1, zzMsg{payload: blockArrival{c.burst}})
			if n.gens[i] == 1 {
				due[i] = 60 + i
			} else {
				due[i] += gap
			}
			continue
		}
		m := n.q[q][0]
		n.q[q] = append([]zzMsg{}, n.q[q][1:]...)
		n.do(q[1], q[0], m)
		arr := 0
		for _, k := range n.left {
			arr += k
		}
		if arr > 0 {
			continue
		}
		if limit < 0 {
			if _, _, is := n.missing(); !is {
				limit = n.now + 20
			} else if n.now > 4000*(1+c.burst/50) || n.step > 12000*(1+c.burst/50) {
				break
			}
		} else if n.now > limit {
			break
		}
	}
	if id, who, is := n.missing(); is {
		n.fail("C17", "transaction %d has not reached node %d after a long time", id, who)
	}
	x.Observe(uint64(n.now))
	if n.step > zzMost {
		zzMost = n.step
		x.Sample("%d events", n.step)
	}
}

// finish looks for fair infinite behaviours that violate liveness: a strongly
// connected set of states in which every link direction is either delivered or
// empty at some point, and something owed never happens.
func (c *zzConf) finish(x *mc.X) {
	g := c.graph
	nn := len(g.id)
	x.Count("liveness_states", nn)
	x.Count("liveness_edges", len(g.edges))
	for i := 0; i < nn; i++ {
		if g.inert[i] && g.miss[i] != "" {
			zzFail(x, c, "C17", "%s: all messages are delivered and nothing more will be sent, but %s", c.name, g.miss[i])
		}
	}
	adj := make([][]int32, nn)
	for k, e := range g.edges {
		adj[e.from] = append(adj[e.from], int32(k))
	}
	comp := zzSCC(nn, adj, g.edges)
	nc := 0
	for _, k := range comp {
		if int(k) >= nc {
			nc = int(k) + 1
		}
	}
	empty := make([]uint32, nc)
	deliv := make([]uint32, nc)
	inner := make([]bool, nc)
	dones := make([]uint32, nc)
	rep := make([]int32, nc)
	for i := 0; i < nn; i++ {
		empty[comp[i]] |= g.empty[i]
		rep[comp[i]] = int32(i)
	}
	for _, e := range g.edges {
		if comp[e.from] == comp[e.to] {
			inner[comp[e.from]] = true
			if e.del >= 0 {
				deliv[comp[e.from]] |= 1 << uint(e.del)
			}
			if e.done >= 0 {
				dones[comp[e.from]] |= 1 << uint(e.done)
			}
		}
	}
	all := uint32(1)<<uint(2*len(c.edges)) - 1
	fair := 0
	for k := 0; k < nc; k++ {
		if !inner[k] || (empty[k]|deliv[k])&all != all {
			continue
		}
		fair++
		i := rep[k]
		if g.miss[i] != "" {
			zzFail(x, c, "C17", "%s: the network exchanges messages forever, all of them delivered, but %s", c.name, g.miss[i])
		}
		if lost := g.live[i] &^ dones[k]; lost != 0 && !c.pull {
			zzFail(x, c, "C19", "%s: the network exchanges messages forever, but link mask %b never completes a block again", c.name, lost)
		}
	}
	x.Count("fair_components", fair)
}

func zzFail(x *mc.X, c *zzConf, prop string, f string, a ...any) {
	if c.judge == prop {
		x.Fail(f, a...)
	}
}

func zzSCC(n int, adj [][]int32, edges []zzEdge) []int32 {
	index := make([]int32, n)
	low := make([]int32, n)
	comp := make([]int32, n)
	on := make([]bool, n)
	for i := range comp {
		comp[i] = -1
	}
	type fr struct {
		v int32
		k int
	}
	var stack []int32
	next, nc := int32(1), int32(0)
	for s := 0; s < n; s++ {
		if index[s] != 0 {
			continue
		}
		call := []fr{{int32(s), 0}}
		index[s], low[s] = next, next
		next++
		stack = append(stack, int32(s))
		on[s] = true
		for len(call) > 0 {
			f := &call[len(call)-1]
			if f.k < len(adj[f.v]) {
				w := edges[adj[f.v][f.k]].to
				f.k++
				if index[w] == 0 {
					index[w], low[w] = next, next
					next++
					stack = append(stack, w)
					on[w] = true
					call = append(call, fr{w, 0})
				} else if on[w] && index[w] < low[f.v] {
					low[f.v] = index[w]
				}
				continue
			}
			v := f.v
			call = call[:len(call)-1]
			if len(call) > 0 && low[v] < low[call[len(call)-1].v] {
				low[call[len(call)-1].v] = low[v]
			}
			if low[v] == index[v] {
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = nc
					if w == v {
						break
					}
				}
				nc++
			}
		}
	}
	return comp
}

func (c zzConf) config() mc.Config {
	if c.burst == 0 {
		c.burst = 1
	}
	algo := "coding"
	if c.pull {
		algo = "pull"
	}
	if c.flood {
		algo += "+flood"
	}
	if c.pull {
		c.name = fmt.Sprintf("%s links %v arrivals %vx%d", algo, c.edges, c.arrivals, c.burst)
	} else {
		c.name = fmt.Sprintf("%s links %v arrivals %vx%d overhead %v shards %d", algo, c.edges, c.arrivals, c.burst, c.overhead, c.shards)
	}
	if c.dev > 0 {
		c.name += fmt.Sprintf(" deviations %d", c.dev)
	}
	if c.bases == 0 {
		c.bases = 1
	}
	if c.seeds == 0 {
		c.seeds = 1
	}
	p := &c
	if c.lats != nil {
		c.name += fmt.Sprintf(" latencies %v", c.lats)
		return mc.Config{Name: c.name, Run: p.run, Solo: true, Weight: len(c.edges) * len(c.edges)}
	}
	return mc.Config{Name: c.name, Solo: true, Dev: c.dev, Weight: c.weight, Run: p.run, Finish: p.finish}
}

var (
	zzLine2 = [][2]int{{0, 1}}
	zzLines = [][][2]int{{{0, 1}, {1, 2}}, {{0, 1}, {2, 1}}, {{1, 0}, {1, 2}}}
	zzTris  = [][][2]int{{{0, 1}, {1, 2}, {2, 0}}, {{0, 1}, {1, 2}, {0, 2}}}
)

var zzFours = [][][2]int{
	{{0, 1}, {1, 2}, {2, 3}}, {{1, 0}, {1, 2}, {3, 2}}, // lines
	{{0, 1}, {0, 2}, {0, 3}}, {{1, 0}, {2, 0}, {3, 0}}, // stars
	{{0, 1}, {1, 2}, {2, 3}, {3, 0}}, // ring
}

func zzNets(judge string) func(tier string) []mc.Config {
	return func(tier string) []mc.Config {
		var r []mc.Config
		add := func(c zzConf) {
			c.judge = judge
			for _, e := range c.edges {
				for _, i := range e {
					if i >= c.n {
						c.n = i + 1
					}
				}
			}
			r = append(r, c.config())
		}
		for _, s := range []int{1, 2, 3} {
			for _, o := range []float64{0, 0.5, 1, 2} {
				add(zzConf{edges: zzLine2, arrivals: []int{2, 2}, burst: 1, overhead: o, shards: s, bases: 3, seeds: 2})
				add(zzConf{edges: zzLine2, arrivals: []int{1, 1}, burst: 3, overhead: o, shards: s, bases: 3, seeds: 2})
			}
			add(zzConf{edges: zzLine2, arrivals: []int{2, 2}, burst: 1, overhead: 1, shards: s, bases: 3, seeds: 2, flood: true})
		}
		for _, l := range zzLines {
			for _, o := range []float64{0, 1} {
				for _, f := range []bool{false, true} {
					add(zzConf{edges: l, arrivals: []int{1, 1, 1}, overhead: o, shards: 2, flood: f, weight: 10})
				}
			}
			add(zzConf{edges: l, arrivals: []int{1, 1, 1}, pull: true})
			add(zzConf{edges: l, arrivals: []int{1, 1, 1}, pull: true, flood: true})
		}
		d := 0
		if tier == "thorough" {
			d = 1
		}
		for _, l := range zzTris {
			for _, f := range []bool{false, true} {
				for _, o := range []float64{0, 1} {
					for _, s := range []int{1, 2} {
						add(zzConf{edges: l, arrivals: []int{1, 1, 1}, overhead: o, shards: s, flood: f, weight: 50, dev: 3 + d})
					}
				}
			}
			add(zzConf{edges: l, arrivals: []int{1, 1, 1}, pull: true, dev: 3 + d, weight: 20})
			add(zzConf{edges: l, arrivals: []int{1, 1, 1}, pull: true, flood: true, dev: 3 + d, weight: 20})
		}
		for _, l := range zzFours {
			for _, f := range []bool{false, true} {
				add(zzConf{edges: l, arrivals: []int{1, 1, 1, 1}, overhead: 1, shards: 2, flood: f, weight: 50, dev: 2 + d})
				add(zzConf{edges: l, arrivals: []int{1, 1, 1, 1}, pull: true, flood: f, dev: 2 + d, weight: 20})
			}
		}
		lats := []int{1, 3, 9}
		if tier == "thorough" {
			lats = []int{1, 3, 9, 30}
		}
		for _, l := range zzTimed {
			for _, f := range []bool{false, true} {
				ar := []int{4, 4, 4, 4, 4}
				add(zzConf{edges: l, arrivals: ar, overhead: 0.5, shards: 1, flood: f, lats: lats})
				add(zzConf{edges: l, arrivals: ar, pull: true, flood: f, lats: lats})
				if tier == "thorough" {
					add(zzConf{edges: l, arrivals: ar, overhead: 1, shards: 3, flood: f, lats: lats})
				}
			}
		}
		// many transactions at once
		bursts := []int{60, 150}
		if tier == "thorough" {
			bursts = append(bursts, 350)
		}
		for _, b := range bursts {
			ar := []int{2, 2}
			for _, s := range []int{1, 5} {
				add(zzConf{edges: zzLine2, arrivals: ar, burst: b, overhead: 0.1, shards: s, lats: []int{9}})
				add(zzConf{edges: zzLine2, arrivals: ar, burst: b, overhead: 1, shards: s, flood: s == 5, lats: []int{3}})
			}
			add(zzConf{edges: zzLine2, arrivals: ar, burst: b, pull: true, lats: []int{9}})
		}
		return r
	}
}

// networks with cycles and tails, for timed runs
var zzTimed = [][][2]int{
	{{0, 1}, {1, 2}, {2, 0}},
	{{0, 1}, {1, 2}, {0, 2}, {2, 3}}, {{1, 0}, {2, 1}, {0, 2}, {3, 2}},
	{{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1}, {1, 2}, {2, 3}, {0, 3}, {0, 2}},
}

func init() {
	zzMain(map[string]func(string) []mc.Config{
		"C17": zzNets("C17"),
		"C18": zzShards,
		"C19": zzNets("C19"),
	})
}
