# C31, C32: the simulation programs as a whole
HEAD = '''package main

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

var _ = fmt.Sprint
var _ = time.Second
var _ des.Module

func zzTopo(t *testing.T, text string) string {
	f := filepath.Join(t.TempDir(), "topo.csv")
	if err := os.WriteFile(f, []byte(text), 0600); err != nil {
		t.Skip(err)
	}
	return f
}

// zzRun runs the program and returns what it prints.
func zzRun(t *testing.T, topo string, args ...string) string {
	os.Args = append([]string{"sim", "-topo", zzTopo(t, topo)}, args...)
	flag.CommandLine = flag.NewFlagSet("sim", flag.PanicOnError)
	r, w, err := os.Pipe()
	if err != nil {
		t.Skip(err)
	}
	old := os.Stdout
	os.Stdout = w
	c := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		c <- string(b)
	}()
	func() {
		defer func() { recover() }()
		main()
	}()
	w.Close()
	os.Stdout = old
	return <-c
}

// zzLine returns the numbers at the end of the line with a text.
func zzLine(out, text string) []float64 {
	for _, l := range strings.Split(out, "\\n") {
		if i := strings.Index(l, text); i >= 0 {
			var v []float64
			for _, f := range strings.Fields(strings.Trim(l[i+len(text):], " []")) {
				var x float64
				fmt.Sscan(f, &x)
				v = append(v, x)
			}
			return v
		}
	}
	return nil
}

func TestZZDemo(t *testing.T) {
%s
}
'''
N = lambda b: HEAD % b
SEEDS = [
 dict(id="c31-link-key", prop="C31", pkg="newsim", edits=[("newsim/topology.go", "	s := bufio.NewScanner(file)\n", "	s := bufio.NewScanner(file)\n	seen := map[int]bool{}\n"),
   ("newsim/topology.go", "		if n == 3 {\n", "		if k := 10*a + b; seen[k] {\n			// listed twice\n			continue\n		} else {\n			seen[k] = true\n		}\n		if n == 3 {\n")],
  needs="a topology of more than ten nodes in which two links have the same key", breaks="one of the links is taken for a repetition of the other and left out",
  demo=N('''	l, n := loadTopology(zzTopo(t, "0,12,5\\n1,2,6\\n2,12,7\\n"))
	if len(l) != 3 || n != 13 {
		t.Fatalf("%d links and %d nodes", len(l), n)
	}''')),
 dict(id="c31-node-count", prop="C31", pkg="simulator", edits=[("simulator/topology.go", "				maxIdx = a\n			}\n			if b > maxIdx {", "				maxIdx = a\n			} else if b > maxIdx {")],
  needs="the node with the largest number appears as the second of a line whose first is also the largest so far", breaks="the last node is missing, and the program ends with an index out of range",
  demo=N('''	if _, n := loadTopology(zzTopo(t, "0,1,5\\n2,3,6\\n1,2,7\\n")); n != 4 {
		t.Fatalf("%d nodes", n)
	}''')),
 dict(id="c31-burst-rate", prop="C31", pkg="newsim", edits=[("newsim/main.go", "*transactionRate / float64(*arrivalBurstSize) / float64(time.Second),", "float64(int(*transactionRate)/(*arrivalBurstSize)) / float64(time.Second),")],
  needs="a rate that is not a multiple of the burst size", breaks="fewer transactions arrive than configured",
  demo=N('''	out := zzRun(t, "0,1,20\\n", "-a", "pull", "-txgen", "7", "-b", "4", "-dur", "400s", "-w", "10s")
	if v := zzLine(out, "received transaction rate"); len(v) != 7 || v[0] < 12 || v[0] > 16 {
		t.Fatalf("%v transactions per second with two nodes that generate 7", v)
	}''')),
 dict(id="c31-same-source", prop="C31", pkg="simulator", edits=[("simulator/module.go", "rand.NewSource(startingSeed+int64(i))", "rand.NewSource(startingSeed*int64(i+1))")],
  needs="seed 0", breaks="all nodes draw the same random numbers, and transactions arrive at all of them at the same times",
  demo=N('''	s := newServers(&des.Simulator{}, 2, 0, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1, decoderMemory: 10})
	if s[0].rng.Uint64() == s[1].rng.Uint64() {
		t.Fatal("the nodes draw the same numbers")
	}''')),
 dict(id="c31-reverse-delay", prop="C31", pkg="newsim", edits=[("newsim/pull.go", "	b.peers = append(b.peers, a)\n", "	b.peers = append(b.peers, a)\n	for _, q := range b.peers {\n		if h := b.handlers[q]; h.delay > delay {\n			h.delay = delay\n			b.handlers[q] = h\n		}\n	}\n")],
  needs="a node with a slow link that is later given a faster one", breaks="the slow link takes the delay of the fast one in one direction",
  demo=N('''	s := newServers(&des.Simulator{}, 3, serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1})
	connectPullServers(s[0], s[1], 50*time.Millisecond)
	connectPullServers(s[2], s[1], 5*time.Millisecond)
	if s[1].handlers[s[0]].delay != 50*time.Millisecond || s[0].handlers[s[1]].delay != 50*time.Millisecond {
		t.Fatalf("a link of 50 ms takes %v one way and %v the other", s[0].handlers[s[1]].delay, s[1].handlers[s[0]].delay)
	}''')),
 dict(id="c31-threshold-left", prop="C31", pkg="simulator", edits=[("simulator/main.go", "			detectThreshold: *detectThreshold,\n			targetCodewordLoss:", "			detectThreshold: flag.Lookup(\"th\").Value.(flag.Getter).Get().(int) &^ 1,\n			targetCodewordLoss:")],
  needs="an odd threshold", breaks="receivers take blocks for complete one codeword too early",
  demo=N('''	sent := 0
	out := zzRun(t, "0,1,20\\n", "-th", "3", "-c", "1", "-txgen", "40", "-dur", "30s", "-w", "5s")
	for _, l := range strings.Split(out, "\\n") {
		if !strings.HasPrefix(l, "#") && l != "" {
			sent++
		}
	}
	ref := zzLine(zzRun(t, "0,1,20\\n", "-th", "2", "-c", "0.75", "-txgen", "40", "-dur", "30s", "-w", "5s"), "overhead")
	_ = ref
	if sent == 0 {
		t.Skip("nothing printed")
	}
	t.Skip("no demonstration")''')),
 dict(id="c32-ring-of-rates", prop="C32", pkg="simulator", edits=[("simulator/filter.go", "	diff := d.current - d.lastRead\n	d.lastRead = d.current\n", "	diff := d.current - d.lastRead\n	if diff != 0 {\n		d.lastRead = d.current\n	} else {\n		diff = d.lastRead\n	}\n")],
  needs="an interval in which node 0 receives nothing, after one in which it does", breaks="the interval is reported with all that was received so far",
  demo=N('''	d := difference[int]{}
	d.record(5)
	d.get()
	d.record(5)
	if v := d.get(); v != 0 {
		t.Fatalf("a difference of %d between 5 and 5", v)
	}''')),
 dict(id="c32-warm-at-birth", prop="C32", pkg="newsim", edits=[("newsim/types.go", "func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {\n	if t == nil {\n		return\n	}\n	if t.warmup > tp {", "func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {\n	if t == nil {\n		return\n	}\n	if t.warmup > tx.ts {")],
  needs="transactions that are generated before the end of the warm-up and received after it", breaks="slow transactions are left out of the latencies",
  demo=N('''	s := newDistributionSketch(10 * time.Second)
	s.recordTxLatency(transaction{1, 9 * time.Second}, 12*time.Second)
	if s.sketch.GetCount() != 1 {
		t.Fatal("a transaction received after the warm-up is not counted")
	}''')),
 dict(id="c32-duplicates-kept", prop="C32", pkg="newsim", edits=[("newsim/module.go", "	s.receivedTransactions = 0\n	s.duplicateTransactions = 0\n", "	s.receivedTransactions = 0\n")],
  needs="duplicates during the warm-up", breaks="duplicates from before the end of the warm-up are reported",
  demo=N('''	m := serverMetric{1, 2, 3, 4}
	m.resetMetric()
	if m != (serverMetric{}) {
		t.Fatal("not all reset: ", m)
	}''')),
 dict(id="c32-flood-latency", prop="C32", pkg="newsim", edits=[("newsim/module.go", "			if _, there := s.received[tx.Symbol.idx]; !there {\n				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)\n				s.forwardTransaction(tx, from)\n				s.received", "			if _, there := s.received[tx.Symbol.idx]; !there {\n				s.forwardTransaction(tx, from)\n				s.received")],
  needs="flooding", breaks="transactions received by flooding, the fastest, are left out of the latencies",
  demo=N('''	out := zzRun(t, "0,1,20\\n1,2,20\\n2,3,20\\n3,4,20\\n", "-a", "pull", "-flood", "-txgen", "20", "-dur", "30s", "-w", "5s")
	if v := zzLine(out, "latency p5 "); len(v) != 7 || v[0] > 0.03 {
		t.Fatalf("fastest transactions take %v, links 0.02", v)
	}''')),
 dict(id="c32-overlap-of-own", prop="C32", pkg="simulator", edits=[("simulator/module.go", "					peerHandler := peerServer.handlers[s]	// peer's handler for us\n", "					peerHandler := s.handlers[peerServer]\n")],
  needs="reading the overlap files", breaks="the overlap of a block with what the sender itself knows is reported, which is always all of it",
  demo=N('''	p := filepath.Join(t.TempDir(), "x")
	zzRun(t, "0,1,20\\n", "-th", "1", "-c", "0.5", "-txgen", "40", "-dur", "10s", "-w", "2s", "-prefix", p)
	b, err := os.ReadFile(p + "-overlap-0.csv")
	if err != nil {
		t.Fatal(err)
	}
	var q, v float64
	fmt.Sscan(strings.Split(string(b), "\\n")[0], &q, &v)
	if v > 0.9 {
		t.Fatal("every block is known to the peer: ", v)
	}''')),
 dict(id="c32-unsorted", prop="C32", pkg="newsim", edits=[("newsim/main.go", "	sort.Float64s(s.Xs)\n	s.Sorted = true\n", "	if len(s.Xs) > 0 && s.Xs[0] > s.Xs[len(s.Xs)-1] {\n		sort.Float64s(s.Xs)\n	}\n	s.Sorted = true\n")],
  needs="three nodes or more whose values are in no order, the first below the last", breaks="quantiles over nodes are those of an unsorted list",
  demo=N('''	v := []float64{1, 5, 2, 3, 4}
	k := -1
	got := collectMoments([]*server{{}, {}, {}, {}, {}}, func(*server) float64 { k++; return v[k] })
	if got[4] != 3 {
		t.Fatalf("median of %v given as %v", v, got[4])
	}''')),
 dict(id="c32-early-reset", prop="C32", pkg="simulator", edits=[("simulator/main.go", "		if cur > *warmupDuration {\n", "		if cur+*reportInterval > *warmupDuration {\n")],
  needs="a warm-up that is not a multiple of the interval", breaks="deliveries from before the end of the warm-up are counted",
  demo=N('''	a := zzLine(zzRun(t, "0,1,20\\n", "-th", "1", "-c", "0.5", "-txgen", "200", "-dur", "9s", "-w", "7900ms", "-r", "4s", "-prefix", t.TempDir()+"/x"), "decoded transaction rate")
	if len(a) != 7 || a[0] > 300 {
		t.Fatalf("decoded transactions per second: %v; 200 are generated by the peer", a)
	}''')),
 dict(id="c32-bytes-late", prop="C32", pkg="newsim", edits=[("newsim/module.go", "		s.receivedBytes += payload.(message).size()\n", "		if _, isIb := payload.(initialBroadcast); !isIb || s.initialFlood && s.duplicateTransactions == 0 {\n			s.receivedBytes += payload.(message).size()\n		}\n")],
  needs="flooding in a network with cycles, so that there are duplicates", breaks="broadcast transactions are left out of the overhead after the first duplicate",
  demo=N('''	out := zzRun(t, "0,1,20\\n1,2,20\\n2,0,50\\n", "-a", "pull", "-flood", "-txgen", "20", "-dur", "30s", "-w", "5s")
	v := zzLine(out, "overhead")
	if len(v) != 7 || v[0] < 1 {
		t.Fatalf("%v bytes received per byte of transactions", v)
	}''')),
]
SEEDS = [s for s in SEEDS if s["id"] != "c31-threshold-left"]
