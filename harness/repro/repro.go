// Package repro runs a whole simulation program again and again, each time in
// a process of its own, under every environment the harness can choose: the
// order in which maps are iterated, the clock, the global random source, the
// addresses of objects. The deliveries and results must always be the same.
package repro

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/deep"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vstime"
)

// spec is what a child process is told.
type spec struct {
	Args   []string
	Native bool  // the runtime's own map order
	Seed   int64 // of the global random source
	Tick   int64 // how far the clock moves when read
	Junk   int   // allocations before the program starts
	All    int   // permutation used at every iteration
	At     map[int]int
	Out    string
}

type result struct {
	Iters []int // sizes of the maps iterated (two entries or more)
	Reads int   // of the clock
	Event int
}

// perms lists the orders tried for n entries; the first is the canonical one.
func perms(n int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 3 {
		var r [][]int
		var rec func(p []int, left []int)
		rec = func(p []int, left []int) {
			if len(left) == 0 {
				r = append(r, append([]int{}, p...))
				return
			}
			for i := range left {
				rest := append(append([]int{}, left[:i]...), left[i+1:]...)
				rec(append(p, left[i]), rest)
			}
		}
		rec(nil, id)
		return r
	}
	r := [][]int{id}
	rev := make([]int, n)
	rot := make([]int, n)
	swp := append([]int{}, id...)
	lst := append([]int{}, id...)
	for i := range id {
		rev[i] = n - 1 - i
		rot[i] = (i + n/2) % n
	}
	swp[0], swp[1] = 1, 0
	lst[n-1], lst[n-2] = n-2, n-1
	return append(r, rev, rot, swp, lst)
}

var keep []*[64]byte

func child(path string, main func()) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var s spec
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	res := result{}
	vs.Native = s.Native
	vs.MapOrder = func(n int) []int {
		i := len(res.Iters)
		res.Iters = append(res.Iters, n)
		p := perms(n)
		if k, there := s.At[i]; there {
			return p[k%len(p)]
		}
		return p[s.All%len(p)]
	}
	vrand.Global = rand.New(rand.NewSource(s.Seed))
	now := vs.Epoch
	vstime.NowHook = func() time.Time {
		res.Reads++
		now = now.Add(time.Duration(s.Tick))
		return now
	}
	for i := 0; i < s.Junk; i++ {
		keep = append(keep, new([64]byte))
	}
	var log bytes.Buffer
	vs.Tracer = func(args ...any) {
		for i, a := range args {
			if i > 0 {
				log.WriteByte(' ')
			}
			if d, is := a.(time.Duration); is {
				fmt.Fprintf(&log, "%d", d)
				continue
			}
			v := reflect.ValueOf(a)
			if v.Kind() == reflect.Pointer {
				if _, there := vs.Ranks[v.Pointer()]; !there {
					vs.Ranks[v.Pointer()] = len(vs.Ranks)
				}
				fmt.Fprintf(&log, "n%d", vs.Ranks[v.Pointer()])
				continue
			}
			fmt.Fprintf(&log, "%T:%016x", a, deep.HashRoots(nil, a))
		}
		log.WriteByte('\n')
		res.Event++
		if log.Len() > 64<<20 {
			panic("harness: too many events")
		}
	}
	if err := os.Chdir(s.Out); err != nil {
		panic(err)
	}
	so, err := os.Create("stdout")
	if err != nil {
		panic(err)
	}
	os.Stdout = so
	os.Args = append([]string{"sim"}, s.Args...)
	flag.CommandLine = flag.NewFlagSet("sim", flag.ExitOnError)
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		main()
	}()
	if p := <-done; p != nil {
		fmt.Fprintln(so, "PANIC", p)
	}
	so.Close()
	os.WriteFile("trace", log.Bytes(), 0600)
	b, _ = json.Marshal(res)
	os.WriteFile("result", b, 0600)
	os.Exit(0)
}

type outcome struct {
	trace, stdout []byte
	files         map[string][]byte
	res           result
	exit          string
}

func launch(s spec) outcome {
	dir, err := os.MkdirTemp("", "rsrrepro.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s.Out = filepath.Join(dir, "out")
	os.Mkdir(s.Out, 0700)
	b, _ := json.Marshal(s)
	sp := filepath.Join(dir, "spec")
	os.WriteFile(sp, b, 0600)
	exe, _ := os.Executable()
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "ZZREPRO="+sp)
	var se bytes.Buffer
	c.Stderr = &se
	timer := time.AfterFunc(40*time.Second, func() { c.Process.Kill() })
	err = c.Run()
	timer.Stop()
	o := outcome{files: map[string][]byte{}}
	if err != nil {
		o.exit = err.Error() + " " + tail(se.String())
	}
	rd := func(n string) []byte { b, _ := os.ReadFile(filepath.Join(s.Out, n)); return b }
	o.trace, o.stdout = rd("trace"), rd("stdout")
	json.Unmarshal(rd("result"), &o.res)
	es, _ := os.ReadDir(s.Out)
	for _, e := range es {
		if n := e.Name(); n != "trace" && n != "stdout" && n != "result" {
			o.files[n] = rd(n)
		}
	}
	return o
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func diffLine(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("number %d: %q and %q", i+1, p, q)
		}
	}
	return ""
}

func compare(a, b outcome) string {
	if a.exit != b.exit {
		return fmt.Sprintf("the program ends differently: %q and %q", a.exit, b.exit)
	}
	if !bytes.Equal(a.trace, b.trace) {
		return "deliveries differ (receiver, payload, sender, time), " + diffLine(a.trace, b.trace)
	}
	if !bytes.Equal(a.stdout, b.stdout) {
		return "printed results differ, line " + diffLine(a.stdout, b.stdout)
	}
	if len(a.files) != len(b.files) {
		return "different files written"
	}
	var ns []string
	for n := range a.files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if !bytes.Equal(a.files[n], b.files[n]) {
			return n + " differs, line " + diffLine(a.files[n], b.files[n])
		}
	}
	return ""
}

// Graph is a topology: triples a, b, delay in ms.
type Graph struct {
	Name  string
	Edges [][3]int
}

// Graphs are all connected graphs of up to four nodes (up to renaming), with
// equal and with different delays.
func Graphs() []Graph {
	base := []struct {
		n string
		e [][2]int
	}{
		{"line2", [][2]int{{0, 1}}},
		{"line3", [][2]int{{1, 0}, {1, 2}}},
		{"triangle", [][2]int{{0, 1}, {1, 2}, {2, 0}}},
		{"line4", [][2]int{{0, 1}, {2, 1}, {2, 3}}},
		{"star4", [][2]int{{0, 1}, {0, 2}, {3, 0}}},
		{"ring4", [][2]int{{0, 1}, {1, 2}, {2, 3}, {3, 0}}},
		{"paw", [][2]int{{0, 1}, {1, 2}, {2, 0}, {2, 3}}},
		{"diamond", [][2]int{{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}}},
		{"complete4", [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}},
	}
	var r []Graph
	for _, b := range base {
		for k, f := range []func(i int) int{func(int) int { return 10 }, func(i int) int { return 5 + 13*i%17 }, func(i int) int { return 1 }} {
			g := Graph{Name: b.n + []string{" equal delays", " different delays", " short delays"}[k]}
			for i, e := range b.e {
				g.Edges = append(g.Edges, [3]int{e[0], e[1], f(i)})
			}
			r = append(r, g)
		}
	}
	// a node of many links
	g := Graph{Name: "star7"}
	for i := 1; i < 7; i++ {
		g.Edges = append(g.Edges, [3]int{0, i, 7})
	}
	return append(r, g)
}

// Config makes one configuration: a program run with the given arguments on a
// topology.
func Config(g Graph, args string, cap int) mc.Config {
	var base *outcome
	var topo string
	return mc.Config{Name: g.Name + " " + args, Solo: true, Weight: len(g.Edges) + 1, Run: func(x *mc.X) {
		if topo == "" {
			f, err := os.CreateTemp(".", "topo*.csv")
			if err != nil {
				panic(err)
			}
			for _, e := range g.Edges {
				fmt.Fprintf(f, "%d,%d,%d\n", e[0], e[1], e[2])
			}
			f.Close()
			topo, _ = filepath.Abs(f.Name())
		}
		s := spec{Args: append(strings.Fields(args), "-topo", topo), Seed: 1, Tick: 1}
		if base == nil {
			o := launch(s)
			base = &o
			if o.exit != "" {
				x.Count("baseline_failed", 1)
			}
			x.Count("map_iterations_in_baseline", len(o.res.Iters))
			if o.exit == "" && o.res.Event == 0 {
				panic("harness: no deliveries seen")
			}
		}
		if strings.Contains(base.exit, "killed") {
			x.Stop()
		}
		n := len(base.res.Iters)
		kinds := 2
		if n > 0 {
			kinds = 4
		}
		what := ""
		switch x.Choose(kinds) {
		case 0:
			s.Seed = int64(1 + x.Choose(2))
			s.Tick = []int64{1, int64(time.Second), -1}[x.Choose(3)]
			s.Junk = x.Choose(2) * 1000
			what = fmt.Sprintf("global random seed %d, clock step %v, %d objects allocated before", s.Seed, time.Duration(s.Tick), s.Junk)
		case 1:
			s.Native = true
			s.Seed = int64(x.Choose(2)) + 5
			what = "the runtime's own map order"
		case 2:
			s.All = 1 + x.Choose(5)
			what = fmt.Sprintf("map order %d throughout", s.All)
		case 3:
			m := n
			if m > cap {
				m = cap
			}
			i := x.Choose(m)
			if n > cap && i >= cap/2 { // the first ones, and some spread over the run
				i = cap/2 + (i-cap/2)*(n-cap/2)/(cap-cap/2)
			}
			k := len(perms(base.res.Iters[i]))
			p := 1 + x.Choose(k-1)
			s.At = map[int]int{i: p}
			what = fmt.Sprintf("map iteration %d in order %v", i, perms(base.res.Iters[i])[p])
		}
		x.Logf("run with %s", what)
		o := launch(s)
		x.Op(o.res.Event)
		if d := compare(*base, o); d != "" {
			x.Fail("two runs of the same simulation differ, the second with %s: %s", what, d)
		}
		h := mc.HashString(string(o.trace))
		x.State(h)
		x.Observe(h)
		x.Sample("%s: %d deliveries, %d map iterations, %d clock reads", what, o.res.Event, len(o.res.Iters), o.res.Reads)
	}}
}

// Main takes over the program when it is run as a harness.
func Main(main func(), configs func(tier string) []mc.Config) {
	if p := os.Getenv("ZZREPRO"); p != "" {
		child(p, main)
	}
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			mc.Main(map[string]func(string) []mc.Config{"C22": configs})
			os.Exit(0)
		}
	}
}
