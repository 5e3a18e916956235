package main

import (
	"fmt"
	"os"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/simrun"
)

var zzAlgo = map[string]map[string]bool{
	"coding": {"main.codeword": true, "main.ack": true},
	"pull":   {"main.announce": true, "main.request": true, "main.response": true},
}

func zzDescribe(p any, e *simrun.Ev) {
	switch m := p.(type) {
	case blockArrival:
		e.Kind, e.N = simrun.Arrival, m.n
	case codeword:
		e.Kind, e.New, e.Tag, e.Size = simrun.Code, m.newBlock, fmt.Sprint(m.startHash, m.endHash), 24
	case ack:
		e.Kind, e.Done, e.N, e.Size = simrun.Ack, m.ackBlock, len(m.txs), 8
		for _, t := range m.txs {
			e.Txs = append(e.Txs, t.Symbol.idx)
		}
	case response:
		e.Kind, e.Txs, e.N = simrun.Other, []uint64{m.payload.Symbol.idx}, 1
	case initialBroadcast:
		e.Kind, e.Txs, e.N = simrun.Other, []uint64{m.payload.Symbol.idx}, 1
	case announce, request:
		e.Kind, e.Size = simrun.Timer, 32
	default:
		e.Kind = simrun.Timer
	}
}

func zzFresh(s any, seen map[uint64]bool, hints []uint64, at time.Duration) []uint64 {
	var r []uint64
	m := s.(*server).received
	if len(m) == len(seen) {
		return nil
	}
	for _, k := range hints {
		if _, there := m[k]; there && !seen[k] {
			r = append(r, k)
		}
	}
	if len(r)+len(seen) == len(m) {
		return r
	}
	r = nil
	for k := range m {
		if !seen[k] {
			r = append(r, k)
		}
	}
	return r
}

func zzWiring(r *simrun.Run) string {
	algo := r.Opt["a"]
	if algo == "" {
		algo = "coding"
	}
	flood := r.Opt["flood"] == "true"
	types := map[string]bool{}
	blocks := map[[2]int]int{}
	tags := map[[2]int]map[string]bool{}
	for _, e := range r.Evs {
		if e.From == e.To || e.From < 0 {
			continue
		}
		types[e.Type] = true
		if e.Type == "main.initialBroadcast" && flood {
			continue
		}
		if !zzAlgo[algo][e.Type] {
			return fmt.Sprintf("a %s is sent with algorithm %s, flooding %v", e.Type, algo, flood)
		}
		if e.Kind == simrun.Code && e.New {
			k := [2]int{e.From, e.To}
			blocks[k]++
			if tags[k] == nil {
				tags[k] = map[string]bool{}
			}
			tags[k][e.Tag] = true
		}
	}
	if flood != types["main.initialBroadcast"] {
		return fmt.Sprintf("flooding is %v, transactions broadcast: %v", flood, types["main.initialBroadcast"])
	}
	if algo == "coding" {
		s := int(r.Float("s", 64))
		dir := map[[2]int]bool{}
		for k, n := range blocks {
			dir[k] = true
			if dir[[2]int{k[1], k[0]}] {
				return "codewords go both ways on a link"
			}
			if n > s {
				n = s
			}
			if len(tags[k]) != n {
				return fmt.Sprintf("%d blocks on a link are of %d shards, with %d shards", blocks[k], len(tags[k]), s)
			}
		}
		if len(blocks) != len(r.Net.Edges) {
			return fmt.Sprintf("blocks are sent on %d of %d links", len(blocks), len(r.Net.Edges))
		}
	}
	return ""
}

func zzReport(r *simrun.Run) string {
	coding := r.Opt["a"] != "pull"
	if w := r.Quantity("received transaction rate", func(n int, b, s time.Duration) float64 {
		return r.Count(n, b, true) / s.Seconds()
	}); w != "" {
		return w
	}
	if !coding {
		if w := r.Quantity("duplicate transaction rate", func(n int, b, s time.Duration) float64 {
			return r.Repeats(n, b) / s.Seconds()
		}); w != "" {
			return w
		}
	} else if v, w := r.Numbers("duplicate transaction rate"); w != "" {
		return w
	} else {
		// those found by decoding cannot be seen from outside
		late := r.Boundaries()[2]
		least := 0.0
		for i := range r.Who {
			least += r.Repeats(i, late) / float64(len(r.Who)) / (r.Dur - r.Warm).Seconds()
		}
		if v[0] < least-1e-9 {
			return fmt.Sprintf("duplicate transaction rate printed as %v, but is at least %v", v[0], least)
		}
	}
	size := r.Float("txsize", 256)
	if w := r.Quantity("overhead", func(n int, b, s time.Duration) float64 {
		got := 0.0
		for _, e := range r.Evs {
			if e.To != n || e.T <= b {
				continue
			}
			got += float64(e.Size)
			switch e.Kind {
			case simrun.Code:
				got += size
			case simrun.Ack, simrun.Other:
				got += size * float64(e.N)
			}
		}
		return got / r.Count(n, b, false) / size
	}); w != "" {
		return w
	}
	for _, q := range []struct {
		t string
		q float64
	}{{"latency p5", 0.05}, {"latency p50", 0.5}, {"latency p95", 0.95}} {
		if w := r.Latency(q.t+" ", q.q); w != "" {
			return w
		}
	}
	return ""
}

func zzProg() *simrun.Prog {
	return &simrun.Prog{Name: "newsim", Main: main, Describe: zzDescribe, Fresh: zzFresh, Wiring: zzWiring, Report: zzReport}
}

func zzStride(tier string) int {
	if tier == "thorough" {
		return 1
	}
	return 2
}

func zzC31(tier string) []mc.Config {
	p := zzProg()
	args := []string{
		"-txgen 20 -a coding -s 4 -dur 10s -w 2s",
		"-txgen 60 -a coding -s 8 -flood -b 3 -dur 8s -w 1s -c 0.3",
		"-txgen 20 -a pull -b 2 -dur 12s -w 1500ms",
		"-txgen 30 -a pull -flood -dur 7s -w 3s",
	}
	r := []mc.Config{
		p.Config("all connected networks of up to 3 nodes, in several notations, as run by the program", simrun.Nets(3, false), []int{0, 1, 2, 7}, args, false, 1),
		p.Config("all connected networks of up to 4 nodes, as run by the program", simrun.Nets(4, true), []int{3}, args, false, zzStride(tier)),
		p.Config("2 nodes, default values of options", simrun.Nets(2, false), []int{0}, []string{"-dur 60s", "-a pull", "-b 4 -w 7s", "-s 1", "-s 16 -txsize 100", "-flood -txgen 50 -dur 30s", "-dur 40s -c 1"}, false, 1),
	}
	r = append(r, p.Config("every combination of rates and bursts", simrun.Nets(2, false), []int{0}, simrun.Workloads("-a pull"), false, 1),
		p.Config("dense networks of 8 to 15 nodes", []simrun.Net{simrun.Dense(8, 99), simrun.Dense(13, 99), simrun.Dense(14, 3), simrun.Dense(15, 2)}, []int{0, 3}, []string{"-a pull -txgen 2 -dur 20s -w 2s", "-a coding -s 3 -txgen 2 -dur 6s -w 2s"}, false, 1))
	if tier == "thorough" {
		r = append(r, p.Config("all connected networks of 5 nodes, as run by the program", simrun.Nets(5, false), []int{0}, args, false, 1))
	}
	return r
}

func zzC32(tier string) []mc.Config {
	p := zzProg()
	args := []string{
		"-txgen 10 -a coding -s 4 -dur 10s -w 2s",
		"-txgen 30 -a coding -s 8 -flood -b 3 -dur 8s -w 1s -c 0.3 -txsize 100",
		"-txgen 10 -a pull -b 2 -dur 8s -w 1500ms -txsize 1",
		"-txgen 20 -a pull -flood -dur 7s -w 3s",
		"-txgen 40 -a pull -dur 6s -w 0s",
		"-txgen 20 -a coding -s 2 -dur 15s -w 11s -c 1",
		"-txgen 20 -a pull -dur 5500ms -w 2500ms",
	}
	r := []mc.Config{
		p.Config("all connected networks of up to 4 nodes, what is reported", simrun.Nets(4, true), []int{0}, args, true, zzStride(tier)),
		p.Config("2 and 3 nodes, default values of options", simrun.Nets(3, false), []int{0}, []string{"-dur 60s", "-a pull", "-b 4 -w 7s", "-s 16 -txsize 100", "-flood -txgen 50 -dur 30s", "-dur 40s -c 1"}, true, 1),
	}
	if tier == "thorough" {
		r = append(r, p.Config("all connected networks of 5 nodes, what is reported", simrun.Nets(5, false), []int{0}, args, true, 1))
	}
	return r
}

func init() {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			mc.Main(map[string]func(string) []mc.Config{"C31": zzC31, "C32": zzC32})
			os.Exit(0)
		}
	}
}
