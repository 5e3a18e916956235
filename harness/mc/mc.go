// Package mc explores, exhaustively and deterministically, the choice tree of
// a harness: a function that runs the real code once and asks Choose whenever
// something outside that code decides (the caller, the environment, a random
// source, a scheduler). Every sequence of answers is executed.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Config is one bounded space of executions.
type Config struct {
	Name   string
	Dev    int  // deviation budget for Deviate
	Solo   bool // not sharded: one worker explores all of it (stateful search)
	Weight int  // scheduling weight of solo configs
	Split  int  // number of choice prefixes from which workers divide the executions (default 4000)
	Run    func(x *X)
	Finish func(x *X) // called once after all executions of a solo config (liveness analysis)
}

type violation struct{ msg string }
type stop struct{}
type known struct{ id, msg string }

// X is one execution.
type X struct {
	cfg     *Config
	prefix  []int
	pos     int
	choices []int
	arity   []int
	devLeft int
	width   float64
	sharded bool
	skip    bool // another worker's
	shard   int
	nshard  int
	Replay  bool
	Trace   []string
	Tier    string
	w       *worker
	// Obs is an order-sensitive digest of everything the harness observed.
	Obs uint64
}

type worker struct {
	shard, nshard int
	tier          string
	execs         int64
	points        int64
	ops           int64
	states        map[uint64]struct{}
	obs           map[uint64]struct{}
	visited       map[uint64]int
	samples       []string
	knownHits     map[string]string
	deadline      time.Time
	mm            []byte
	cur           int64 // start of current execution, unix nanos
	extra         map[string]int64
}

const maxStates = 6 << 20

func (x *X) Fail(f string, a ...any) { panic(violation{fmt.Sprintf(f, a...)}) }
func (x *X) Assert(c bool, f string, a ...any) {
	if !c {
		panic(violation{fmt.Sprintf(f, a...)})
	}
}

// Known reports a listed finding and ends the execution.
func (x *X) Known(id, f string, a ...any) { panic(known{id, fmt.Sprintf(f, a...)}) }

// Stop ends the execution without a verdict (pruned or out of scope).
func (x *X) Stop() { panic(stop{}) }

func (x *X) Logf(f string, a ...any) {
	if x.Replay {
		x.Trace = append(x.Trace, fmt.Sprintf(f, a...))
	}
}

// Observe folds a value into the observation digest of the execution.
func (x *X) Observe(v uint64) {
	x.Obs = Mix(x.Obs ^ v + 0x9e3779b97f4a7c15)
}

func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return Mix(h)
}

// Op counts n transitions (operations on the code under test).
func (x *X) Op(n int) { x.w.ops += int64(n) }

// State records a state of the code under test by its canonical hash.
func (x *X) State(h uint64) {
	if len(x.w.states) < maxStates {
		x.w.states[h] = struct{}{}
	}
}

// Count adds to a named counter that ends up in the evidence.
func (x *X) Count(name string, n int) { x.w.extra[name] += int64(n) }

// Visit records h and reports whether it had been visited before in this
// configuration; replays never prune.
func (x *X) Visit(h uint64) bool {
	x.State(h)
	if x.Replay {
		return false
	}
	if x.pos < len(x.prefix) {
		return false // still replaying the path to the new branch
	}
	if _, there := x.w.visited[h]; there {
		return true
	}
	x.w.visited[h] = x.pos
	return false
}

// Prefixed reports that the execution is still re-running a known prefix.
func (x *X) Prefixed() bool { return !x.Replay && x.pos < len(x.prefix) }

// Left is the number of choices still to be replayed from the known prefix.
func (x *X) Left() int {
	if x.Replay || x.pos >= len(x.prefix) {
		return 0
	}
	return len(x.prefix) - x.pos
}

func (x *X) Sample(f string, a ...any) {
	if len(x.w.samples) < 4 {
		x.w.samples = append(x.w.samples, x.cfg.Name+": "+fmt.Sprintf(f, a...))
	}
}

// Choices returns the answers given so far.
func (x *X) Choices() []int { return x.choices }

func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Deviate is a choice whose non-default answers each use one unit of the
// configuration's deviation budget.
func (x *X) Deviate(n int) int {
	if x.devLeft <= 0 || n <= 1 {
		return 0
	}
	c := x.Choose(n)
	if c != 0 {
		if x.sharded && x.width >= 0 && x.devLeft == x.cfg.Dev {
			// workers divide the executions by their first deviation
			x.width = -1
			x.mine()
		}
		x.devLeft--
	}
	return c
}

func (x *X) mine() {
	h := uint64(0)
	for _, c := range x.choices {
		h = Mix(h*31 + uint64(c) + 1)
	}
	if int(h%uint64(x.nshard)) != x.shard {
		x.skip = true
		panic(stop{})
	}
}

// DevLeft returns what is left of the deviation budget.
func (x *X) DevLeft() int { return x.devLeft }
func (x *X) SpendDev()    { x.devLeft-- }

// Choose returns one of 0..n-1; the explorer runs all of them.
func (x *X) Choose(n int) int {
	if n < 1 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	if n == 1 {
		return 0
	}
	c := 0
	if x.pos < len(x.prefix) {
		c = x.prefix[x.pos]
		if c >= n {
			panic(fmt.Sprintf("mc: replay divergence: choice %d of %d at %d", c, n, x.pos))
		}
	}
	x.pos++
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	mm := x.w.mm
	if mm != nil && len(x.choices) < len(mm)/2-8 {
		binary.LittleEndian.PutUint16(mm[16+2*(len(x.choices)-1):], uint16(c))
		binary.LittleEndian.PutUint32(mm[8:], uint32(len(x.choices)))
	}
	if x.sharded && x.width >= 0 && x.cfg.Dev == 0 {
		x.width *= float64(n)
		if x.width > float64(x.cfg.Split) && (x.cfg.Split > 0 || x.width > 4000) {
			x.width = -1
			x.mine()
		}
	}
	return c
}

// Catch runs f and returns what it panicked with, if anything, letting the
// explorer's own panics through.
func Catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if Own(r) {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Own tells whether a recovered value belongs to the explorer.
func Own(r any) bool {
	switch r.(type) {
	case violation, stop, known:
		return true
	}
	return false
}

type Result struct {
	Config  string
	Msg     string
	Choices []int
	Trace   []string
}

func (w *worker) run(cfg *Config, prefix []int, replay bool) (x *X, viol *Result) {
	x = &X{cfg: cfg, prefix: prefix, devLeft: cfg.Dev, width: 1, sharded: !cfg.Solo && w.nshard > 1 && !replay,
		shard: w.shard, nshard: w.nshard, w: w, Replay: replay, Tier: w.tier}
	if w.mm != nil {
		binary.LittleEndian.PutUint32(w.mm[8:], 0)
	}
	atomic.StoreInt64(&w.cur, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&w.cur, 0)
		if r := recover(); r != nil {
			switch v := r.(type) {
			case stop:
			case violation:
				viol = &Result{cfg.Name, v.msg, append([]int{}, x.choices...), x.Trace}
			case known:
				if _, there := w.knownHits[v.id]; !there {
					w.knownHits[v.id] = v.msg
				}
			default:
				st := string(debug.Stack())
				viol = &Result{cfg.Name, fmt.Sprintf("panic: %v\n%s", r, trimStack(st)), append([]int{}, x.choices...), x.Trace}
			}
		}
	}()
	cfg.Run(x)
	// an execution that ended before the sharding depth belongs to one shard
	return x, nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// skip everything up to the panic call
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}

func (x *X) next() []int {
	p := append([]int{}, x.choices...)
	for i := len(p) - 1; i >= 0; i-- {
		if p[i]+1 < x.arity[i] {
			p[i]++
			return p[:i+1]
		}
	}
	return nil
}

// explore runs all executions of cfg that belong to this worker.
func (w *worker) explore(cfg *Config) (complete bool, viol *Result) {
	prefix := []int{}
	w.visited = make(map[uint64]int)
	n := 0
	for {
		x, v := w.run(cfg, prefix, false)
		fresh := len(x.choices) - len(prefix) + 1
		if x.skip {
			fresh = 0
		} else if x.width >= 0 && x.sharded && v == nil {
			// short execution: counted by its owner only
			h := uint64(0)
			for _, c := range x.choices {
				h = Mix(h*31 + uint64(c) + 1)
			}
			if int(h%uint64(x.nshard)) != x.shard {
				fresh = 0
			} else {
				w.execs++
			}
		} else {
			w.execs++
		}
		w.points += int64(fresh)
		if x.Obs != 0 && len(w.obs) < maxStates {
			w.obs[x.Obs] = struct{}{}
		}
		if v != nil {
			return false, v
		}
		prefix = x.next()
		if prefix == nil {
			break
		}
		n++
		if n&255 == 0 && time.Now().After(w.deadline) {
			return false, nil
		}
	}
	if cfg.Finish != nil {
		x := &X{cfg: cfg, w: w, Tier: w.tier}
		var r *Result
		func() {
			defer func() {
				if p := recover(); p != nil {
					if v, ok := p.(violation); ok {
						r = &Result{cfg.Name, v.msg, nil, nil}
						return
					}
					if k, ok := p.(known); ok {
						w.knownHits[k.id] = k.msg
						return
					}
					if _, ok := p.(stop); ok {
						return
					}
					panic(p)
				}
			}()
			cfg.Finish(x)
		}()
		if r != nil {
			return false, r
		}
	}
	return true, nil
}

type output struct {
	Execs      int64
	Points     int64
	Ops        int64
	States     int64
	Outcomes   int64
	Samples    []string
	Known      map[string]string
	Extra      map[string]int64
	Done       []string
	Incomplete []string
	Violation  *Result
	Reruns     string
}

// Main is the entry point of every harness binary.
func Main(props map[string]func(tier string) []Config) {
	// an init function holds the main thread, which makes every switch between
	// goroutines one between threads
	done := make(chan struct{})
	go func() {
		defer close(done)
		run(props)
	}()
	<-done
}

func run(props map[string]func(tier string) []Config) {
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	shard := fs.String("shard", "0/1", "i/n")
	out := fs.String("out", "", "result file")
	deadline := fs.Float64("deadline", 300, "seconds")
	replay := fs.String("replay", "", "replay file")
	only := fs.String("only", "", "only configs with this prefix")
	hang := fs.Float64("hang", 120, "seconds after which one execution counts as hanging")
	list := fs.Bool("list", false, "list configs")
	merge := fs.String("merge", "", "comma-separated state files: count distinct values")
	fs.Parse(os.Args[1:])
	if *merge != "" {
		doMerge(*merge)
		return
	}
	mk, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	cfgs := mk(*tier)
	w := &worker{nshard: 1, tier: *tier, states: map[uint64]struct{}{}, obs: map[uint64]struct{}{}, visited: map[uint64]int{},
		knownHits: map[string]string{}, extra: map[string]int64{}, deadline: time.Now().Add(time.Duration(*deadline * float64(time.Second)))}
	fmt.Sscanf(*shard, "%d/%d", &w.shard, &w.nshard)
	if *list {
		for _, c := range cfgs {
			fmt.Println(c.Name)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			panic(err)
		}
		var r Result
		if err := json.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		for i := range cfgs {
			if cfgs[i].Name == r.Config {
				var v *Result
				if r.Choices == nil && cfgs[i].Finish != nil {
					w.deadline = time.Now().Add(time.Hour)
					_, v = w.explore(&cfgs[i])
				} else {
					_, v = w.run(&cfgs[i], r.Choices, true)
				}
				if v != nil {
					for _, l := range v.Trace {
						fmt.Println("  ", l)
					}
					fmt.Println("REPRODUCED:", v.Msg)
					os.Exit(1)
				}
				fmt.Println("not reproduced")
				os.Exit(0)
			}
		}
		fmt.Println("unknown config", r.Config)
		os.Exit(3)
	}
	if p := os.Getenv("MC_PROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			time.AfterFunc(time.Duration(*deadline*float64(time.Second))*9/10, pprof.StopCPUProfile)
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if *out != "" {
		w.openMap(*out + ".cur")
	}
	o := &output{Known: w.knownHits, Extra: w.extra}
	var mu sync.Mutex
	finish := func(v *Result, reruns string) {
		mu.Lock()
		o.Execs, o.Points, o.Ops = w.execs, w.points, w.ops
		o.Samples = w.samples
		o.Violation = v
		o.Reruns = reruns
		o.States = int64(len(w.states))
		o.Outcomes = int64(len(w.obs))
		if *out != "" {
			dump(*out+".states", w.states)
			dump(*out+".obs", w.obs)
			b, _ := json.Marshal(o)
			os.WriteFile(*out, b, 0644)
		} else {
			b, _ := json.MarshalIndent(o, "", " ")
			os.Stdout.Write(append(b, '\n'))
		}
		if v != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	curCfg := atomic.Pointer[Config]{}
	go func() { // watchdog: hanging executions and exploding memory
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			c := atomic.LoadInt64(&w.cur)
			why := ""
			if c != 0 && time.Since(time.Unix(0, c)) > time.Duration(*hang*float64(time.Second)) {
				why = fmt.Sprintf("one execution did not finish within %v s: the code under test hangs", *hang)
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 5<<30 {
				why = "one execution allocated more than 5 GB: the code under test grows without bound"
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				st := string(buf[:n])
				if len(st) > 3000 {
					st = st[:3000]
				}
				v := &Result{curCfg.Load().Name, why, w.mapped(), strings.Split(st, "\n")}
				b, _ := json.Marshal(&output{Violation: v, Reruns: "hang"})
				if *out != "" {
					os.WriteFile(*out, b, 0644)
				} else {
					os.Stdout.Write(b)
				}
				os.Exit(1)
			}
		}
	}()
	// solo configs are distributed over the workers by weight
	owner := map[int]int{}
	load := make([]int, w.nshard)
	var solo []int
	for i := range cfgs {
		if cfgs[i].Solo {
			solo = append(solo, i)
		}
	}
	sort.SliceStable(solo, func(a, b int) bool { return cfgs[solo[a]].Weight > cfgs[solo[b]].Weight })
	for _, i := range solo {
		best := 0
		for k := range load {
			if load[k] < load[best] {
				best = k
			}
		}
		owner[i] = best
		load[best] += cfgs[i].Weight + 1
	}
	for i := range cfgs {
		c := &cfgs[i]
		if *only != "" && !strings.HasPrefix(c.Name, *only) {
			continue
		}
		if c.Solo && owner[i] != w.shard {
			continue
		}
		if time.Now().After(w.deadline) {
			o.Incomplete = append(o.Incomplete, c.Name)
			continue
		}
		curCfg.Store(c)
		if w.mm != nil {
			binary.LittleEndian.PutUint32(w.mm[12:], uint32(i))
		}
		t0 := time.Now()
		done, v := w.explore(c)
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s shard %d: %v execs=%d ops=%d states=%d\n", c.Name, w.shard, time.Since(t0).Round(time.Millisecond), w.execs, w.ops, len(w.states))
		}
		if v != nil {
			repro := 0
			trace := v.Trace
			if v.Choices == nil && c.Finish != nil {
				repro = 5
			} else {
				for k := 0; k < 5; k++ {
					_, v2 := w.run(c, v.Choices, true)
					if v2 != nil {
						repro++
						trace = v2.Trace
					}
				}
			}
			v.Trace = trace
			finish(v, fmt.Sprintf("%d/5", repro))
		}
		if done {
			o.Done = append(o.Done, c.Name)
		} else {
			o.Incomplete = append(o.Incomplete, c.Name)
		}
	}
	finish(nil, "")
}

func (w *worker) openMap(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return
	}
	const size = 1 << 17
	f.Truncate(size)
	mm, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err == nil {
		w.mm = mm
	}
}

func (w *worker) mapped() []int {
	if w.mm == nil {
		return nil
	}
	n := int(binary.LittleEndian.Uint32(w.mm[8:]))
	r := []int{}
	for i := 0; i < n && 18+2*i <= len(w.mm); i++ {
		r = append(r, int(binary.LittleEndian.Uint16(w.mm[16+2*i:])))
	}
	return r
}

func dump(path string, m map[uint64]struct{}) {
	b := make([]uint64, 0, len(m))
	for k := range m {
		b = append(b, k)
	}
	if len(b) == 0 {
		os.WriteFile(path, nil, 0644)
		return
	}
	os.WriteFile(path, unsafe.Slice((*byte)(unsafe.Pointer(&b[0])), len(b)*8), 0644)
}

func doMerge(list string) {
	m := map[uint64]struct{}{}
	for _, f := range strings.Split(list, ",") {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	fmt.Println(len(m))
}
