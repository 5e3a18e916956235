package main

import (
	"fmt"
	"os"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/simrun"
)

func zzDescribe(p any, e *simrun.Ev) {
	switch m := p.(type) {
	case blockArrival:
		e.Kind, e.N = simrun.Arrival, m.n
	case codeword:
		e.Kind, e.New = simrun.Code, m.newBlock
	case ack:
		e.Kind, e.Done = simrun.Ack, m.ackBlock
	case loopback:
		e.Kind = simrun.Loop
	default:
		e.Kind = simrun.Timer
	}
}

func zzFresh(s any, seen map[uint64]bool, hints []uint64, at time.Duration) []uint64 {
	var r []uint64
	m := s.(*server).received
	if len(m) == len(seen) {
		return nil
	}
	for _, k := range hints {
		if _, there := m[transaction{k, at}]; there && !seen[k] {
			r = append(r, k)
		}
	}
	if len(r)+len(seen) == len(m) {
		return r
	}
	r = nil
	for k := range m {
		if !seen[k.idx] {
			r = append(r, k.idx)
		}
	}
	return r
}

func zzPeers(s any) []any {
	var r []any
	for _, p := range s.(*server).peers {
		r = append(r, any(p))
	}
	return r
}

func zzBlock(s, p any, all bool) []uint64 {
	var r []uint64
	b := s.(*server).handlers[p.(*server)].sender.currentBlock
	if !all && len(b) > 1 {
		b = b[:1]
	}
	for _, t := range b {
		r = append(r, t.Data().idx)
	}
	return r
}

// zzWiring checks that the options reach the nodes.
func zzWiring(r *simrun.Run) string {
	smooth := time.Duration(int(1.0 / r.Float("smooth", 100000) * 1000000000))
	sync, _ := time.ParseDuration(r.Opt["sync"])
	th := int(r.Float("th", 5))
	c := r.Float("c", 0.1)
	min := int(float64(th) / c)
	if min < 1 {
		min = 1
	}
	lastLoop := map[int]time.Duration{}
	loops := map[int][]time.Duration{}
	type dir struct {
		sent, acked int
		window      int
		start       time.Duration // of the block
		have        []int         // codewords of the block received, for each codeword received
		acks        int
	}
	dirs := map[[2]int]*dir{}
	acks := map[[2]int][]time.Duration{}
	get := func(a, b int) *dir {
		d := dirs[[2]int{a, b}]
		if d == nil {
			d = &dir{window: th, start: -1}
			dirs[[2]int{a, b}] = d
		}
		return d
	}
	for _, e := range r.Evs {
		if e.Kind == simrun.Loop {
			if l, there := lastLoop[e.To]; there && e.T-l < smooth {
				return fmt.Sprintf("transactions forwarded %v apart, the rate is limited to one in %v", e.T-l, smooth)
			}
			lastLoop[e.To] = e.T
			loops[e.To] = append(loops[e.To], e.T)
		}
		if e.Kind == simrun.Ack {
			acks[[2]int{e.From, e.To}] = append(acks[[2]int{e.From, e.To}], e.T)
		}
	}
	for _, e := range r.Evs {
		switch e.Kind {
		case simrun.Code:
			d := get(e.From, e.To)
			at := e.T - r.Links[[2]int{e.From, e.To}]
			if e.New {
				n := 0
				for _, l := range loops[e.From] {
					if l <= at && l >= d.start { // or at the same time, before or after the start
						n++
					}
				}
				if n < min {
					return fmt.Sprintf("a block of %d transactions is started, with threshold %d and control overhead %v at least %d are needed", n, th, c, min)
				}
				if sync > 0 && at%sync != 0 {
					return fmt.Sprintf("a block is started at %v, not a multiple of the period %v", at, sync)
				}
				d.start = at
				d.window = int(float64(n) * c)
				if d.window < 1 {
					d.window = 1
				}
				d.have = append(d.have, 1)
			} else {
				n := 0
				for _, a := range acks[[2]int{e.To, e.From}] {
					if a <= at {
						n++
					}
				}
				if out := len(d.have) - n; out >= d.window {
					return fmt.Sprintf("a codeword is sent while %d others are not acknowledged; the block allows %d", out, d.window)
				}
				if len(d.have) == 0 {
					return "a codeword is sent before the first block"
				}
				d.have = append(d.have, d.have[len(d.have)-1]+1)
			}
		case simrun.Ack:
			d := get(e.To, e.From)
			if d.acks >= len(d.have) {
				return "more acknowledgements than codewords"
			}
			if e.Done && d.have[d.acks] <= th {
				return fmt.Sprintf("a block is taken for complete after %d codewords, with threshold %d", d.have[d.acks], th)
			}
			d.acks++
		}
	}
	return ""
}

func zzReport(r *simrun.Run) string {
	if w := r.Quantity("decoded transaction rate", func(n int, b, s time.Duration) float64 {
		return r.Count(n, b, false) / s.Seconds()
	}); w != "" {
		return w
	}
	if w := r.Quantity("overhead", func(n int, b, s time.Duration) float64 {
		got := 0.0
		for _, e := range r.Evs {
			if e.To == n && e.T > b && e.Kind == simrun.Code {
				got++
			}
		}
		return got / r.Count(n, b, false)
	}); w != "" {
		return w
	}
	for _, q := range []struct {
		t string
		q float64
	}{{"latency p5", 0.05}, {"latency p50", 0.5}, {"latency p95", 0.95}} {
		if w := r.Latency(q.t+" ", q.q); w != "" {
			return w
		}
	}
	if w := r.Rates(simrun.Code); w != "" {
		return w
	}
	return r.Overlaps()
}

func zzProg() *simrun.Prog {
	return &simrun.Prog{Name: "simulator", Main: main, Describe: zzDescribe, Fresh: zzFresh, Block: zzBlock, Peers: zzPeers, Wiring: zzWiring, Report: zzReport}
}

func zzStride(tier string) int {
	if tier == "thorough" {
		return 1
	}
	return 2
}

func zzC31(tier string) []mc.Config {
	p := zzProg()
	args := []string{
		"-txgen 60 -th 1 -c 0.3 -seed 0 -dur 4s -w 1s -r 100ms",
		"-txgen 60 -b 5 -th 2 -c 0.5 -sync 200ms -seed 7 -dur 5s -w 500ms -r 300ms",
		"-txgen 60 -b 3 -th 3 -c 1 -l 0.3 -smooth 500 -mem 5000 -dur 4s -w 1s -r 250ms",
		"-txgen 60 -b 2 -th 2 -c 0.9 -dur 5s -w 700ms -r 500ms",
	}
	r := []mc.Config{
		p.Config("all connected networks of up to 3 nodes, in several notations, as run by the program", simrun.Nets(3, false), []int{0, 1, 2, 7}, args, false, 1),
		p.Config("all connected networks of up to 4 nodes, as run by the program", simrun.Nets(4, true), []int{3}, args, false, zzStride(tier)),
		p.Config("2 nodes, default values of options", simrun.Nets(2, false), []int{0}, []string{"-dur 60s", "-txgen 10 -b 4 -w 7s", "-th 2 -mem 20000", "-c 0.5 -seed 5", "-sync 3s -txgen 20 -dur 40s", "-smooth 30 -dur 40s", "-l 0.1"}, false, 1),
	}
	r = append(r, p.Config("every combination of rates and bursts", simrun.Nets(2, false), []int{0}, simrun.Workloads("-th 10000000 -mem 10"), false, 1),
		p.Config("dense networks of 8 to 15 nodes", []simrun.Net{simrun.Dense(8, 99), simrun.Dense(13, 99), simrun.Dense(14, 3), simrun.Dense(15, 2)}, []int{0, 3}, []string{"-txgen 3 -th 1 -c 1 -dur 10s -w 2s"}, false, 1))
	if tier == "thorough" {
		r = append(r, p.Config("all connected networks of 5 nodes, as run by the program", simrun.Nets(5, false), []int{0}, args, false, 1))
	}
	return append(r, mc.Config{Name: "seeds", Run: func(x *mc.X) {
		net := simrun.Nets(2, false)[0]
		s := x.Choose(8)
		var arr [2]string
		for i := range arr {
			run, died := p.Go(net, 0, fmt.Sprintf("-txgen 40 -th 1 -c 0.3 -dur 2s -w 500ms -r 100ms -seed %d", s+10*i))
			if died != nil {
				x.Fail("panic: %v", died)
			}
			x.Op(len(run.Evs))
			for _, e := range run.Evs {
				if e.Kind == simrun.Arrival {
					arr[i] += fmt.Sprint(e.T, " ")
				}
			}
		}
		if arr[0] == arr[1] {
			x.Fail("seeds %d and %d give the same arrivals", s, s+10)
		}
	}})
}

func zzC32(tier string) []mc.Config {
	p := zzProg()
	args := []string{
		"-txgen 60 -th 1 -c 0.3 -seed 0 -dur 3s -w 500ms -r 100ms",
		"-txgen 60 -b 5 -th 2 -c 0.5 -sync 200ms -seed 7 -dur 4s -w 550ms -r 300ms",
		"-txgen 90 -b 3 -th 3 -c 1 -l 0.3 -smooth 500 -mem 5000 -dur 3s -w 1s -r 250ms",
		"-txgen 60 -b 2 -th 2 -c 0.9 -dur 5s -w 700ms -r 500ms",
		"-txgen 60 -th 1 -c 0.9 -dur 3s -w 1500ms -r 70ms",
		"-txgen 60 -th 1 -c 1 -dur 3s -w 0s -r 200ms",
	}
	r := []mc.Config{
		p.Config("all connected networks of up to 4 nodes, what is reported", simrun.Nets(4, true), []int{0}, args, true, zzStride(tier)),
		p.Config("2 and 3 nodes, default values of options", simrun.Nets(3, false), []int{0}, []string{"-dur 60s", "-txgen 10 -b 4 -w 7s", "-th 2 -mem 20000", "-c 0.5 -seed 5", "-r 3s", "-l 0.1"}, true, 1),
	}
	if tier == "thorough" {
		r = append(r, p.Config("all connected networks of 5 nodes, what is reported", simrun.Nets(5, false), []int{0}, args, true, 1))
	}
	return r
}

func init() {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			mc.Main(map[string]func(string) []mc.Config{"C31": zzC31, "C32": zzC32})
			os.Exit(0)
		}
	}
}
