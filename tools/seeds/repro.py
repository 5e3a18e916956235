# C22: reproducible simulations
TOPO = '''package main

import (
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "topo")
	os.WriteFile(f, []byte("0,1,5\\n1,2,5\\n2,3,5\\n3,0,5\\n1,3,5\\n"), 0600)
	first, _ := loadTopology(f)
	for i := 0; i < 200; i++ {
		l, _ := loadTopology(f)
		if !reflect.DeepEqual(l, first) {
			t.Fatal("two loads of the same topology differ", first, l)
		}
	}
}
'''
LT = '''package main

import (
	"fmt"
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/lt"
)

type tx struct{ v uint64 }

func (a tx) XOR(b tx) tx  { return tx{a.v ^ b.v} }
func (a tx) Hash() []byte { return []byte{byte(a.v), byte(a.v >> 8), 3} }

type fixed struct{ d uint64 }

func (f *fixed) Uint64() uint64 { return f.d }

var key [lt.SaltSize]byte

func cw(ts ...lt.Transaction[tx]) lt.Codeword[tx] {
	e := lt.NewEncoder[tx](rand.New(rand.NewSource(1)), key, &fixed{uint64(len(ts))}, len(ts))
	for _, t := range ts {
		e.AddTransaction(t)
	}
	return e.ProduceCodeword()
}

func run() string {
	d := lt.NewDecoder[tx](key, 100)
	var t []lt.Transaction[tx]
	for i := 0; i < 8; i++ {
		t = append(t, lt.NewTransaction[tx](tx{uint64(i + 1)}))
	}
	for i := 1; i < 8; i++ {
		d.AddCodeword(cw(t[0], t[i]))
	}
	_, got := d.AddCodeword(cw(t[0]))
	return fmt.Sprint(len(got), func() (r []uint64) {
		for _, g := range got {
			r = append(r, g.Data().v)
		}
		return
	}())
}

func main() {
	a := run()
	for i := 0; i < 200; i++ {
		if b := run(); b != a {
			panic("differs: " + a + " " + b)
		}
	}
}
'''
SEED0 = '''package main

import (
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

func TestZZDemo(t *testing.T) {
	draw := func() uint64 {
		return newServers(&des.Simulator{}, 2, 0, serverConfig{blockArrivalIntv: 1})[1].rng.Uint64()
	}
	a := draw()
	time.Sleep(5 * time.Millisecond)
	if draw() != a {
		t.Fatal("two runs with the same seed differ")
	}
}
'''
SLOW = '''package main

import (
	"flag"
	"os"
	"path/filepath"
	"testing"
	"time"
)

type slow struct{}

func (slow) Write(p []byte) (int, error) { time.Sleep(delay); return len(p), nil }

var delay time.Duration

func out(t *testing.T, d time.Duration) string {
	delay = d
	L.SetOutput(slow{})
	txgen = &transactionGenerator{}
	dir := t.TempDir()
	f := filepath.Join(dir, "topo")
	os.WriteFile(f, []byte("0,1,5\\n1,2,5\\n"), 0600)
	o, _ := os.Create(filepath.Join(dir, "out"))
	saved := os.Stdout
	os.Stdout = o
	os.Args = []string{"newsim", "-topo", f, "-dur", "8s", "-w", "1s", "-txgen", "20", "-a", "pull"}
	flag.CommandLine = flag.NewFlagSet("newsim", flag.PanicOnError)
	main()
	os.Stdout = saved
	o.Close()
	b, _ := os.ReadFile(o.Name())
	return string(b)
}

func TestZZDemo(t *testing.T) {
	if a, b := out(t, 0), out(t, 2500*time.Millisecond); a != b {
		t.Fatalf("results depend on the time the simulation took:\\n%s\\n%s", a, b)
	}
}
'''
SEEDS = [
 dict(id="c22-topology-dedup", prop="C22", pkg="newsim", edits=[("newsim/topology.go", "	if err := s.Err(); err != nil {\n		panic(err)\n	}\n	return res,", "	if err := s.Err(); err != nil {\n		panic(err)\n	}\n	// ignore links that are listed twice\n	links := map[[2]int]connection{}\n	for _, c := range res {\n		if _, there := links[[2]int{c.b, c.a}]; !there {\n			links[[2]int{c.a, c.b}] = c\n		}\n	}\n	res = res[:0]\n	for _, c := range links {\n		res = append(res, c)\n	}\n	return res,")],
  needs="a topology with several links and a run that iterates the map of links in another order", breaks="links are set up in map order, which decides the order of peers and the draws from the generator", demo=TOPO),
 dict(id="c22-lt-decode-order", prop="C22", edits=[("lt/decoder.go", "	newTx := []Transaction[T]{}\n", "	newTx := []Transaction[T]{}\n	fresh := make(map[uint32]Transaction[T])\n"),
   ("lt/decoder.go", "						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx\n", "						fresh[saltedHash] = decodedTx // c.freed means that the user has timed out the tx\n"),
   ("lt/decoder.go", "		c.decoded = true\n	}\n	return newTx\n", "		c.decoded = true\n	}\n	for _, t := range fresh {\n		newTx = append(newTx, t)\n	}\n	return newTx\n")],
  needs="a codeword that reveals several transactions at once", breaks="the order of the decoded transactions, and with it the order in which they are forwarded, is the iteration order of a map", demo=LT),
 dict(id="c22-seed-zero-clock", prop="C22", pkg="simulator", edits=[("simulator/module.go", "	res := []*server{}\n	for i := 0; i < n; i++ {\n", "	res := []*server{}\n	if startingSeed == 0 {\n		startingSeed = time.Now().UnixNano()\n	}\n	for i := 0; i < n; i++ {\n")],
  needs="seed 0", breaks="seed 0 is replaced by the time of day", demo=SEED0),
 dict(id="c22-slow-report", prop="C22", pkg="newsim", edits=[("newsim/main.go", "		numEvents = s.EventsDelivered()\n", "		if time.Now().Sub(lastRealTime) > 2*time.Second {\n			// slow simulation, report less often\n			reportInterval = 2 * time.Second\n		}\n		numEvents = s.EventsDelivered()\n")],
  needs="a machine so slow that a simulated second takes more than two", breaks="the last reporting step, and so the end of the measured period, depends on the real time the simulation takes", demo=SLOW),
]
