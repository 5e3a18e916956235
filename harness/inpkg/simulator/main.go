package main

import "github.com/yangl1996/rateless-set-reconcile/zzverif/mc"

var (
	zzLine2 = [][2]int{{0, 1}}
	zzLine3 = [][2]int{{0, 1}, {1, 2}}
	zzTri   = [][2]int{{0, 1}, {1, 2}, {2, 0}}
)

func zzNets(judge string) func(tier string) []mc.Config {
	return func(tier string) []mc.Config {
		var r []mc.Config
		add := func(c zzConf) {
			c.judge = judge
			r = append(r, c.config())
		}
		d := 0
		if tier == "thorough" {
			d = 1
		}
		for _, th := range []int{1, 2, 3} {
			for _, l := range []float64{0, 0.5} {
				for _, o := range []float64{0.3, 0.5, 1} {
					if th == 3 && o < 1 {
						continue
					}
					// every interleaving
					add(zzConf{edges: zzLine2, bursts: []int{4, 0}, th: th, overhead: o, loss: l, seeds: 2 + d, weight: int(o*10) * th})
					add(zzConf{edges: zzLine2, bursts: []int{1, 1}, burst: 2, th: th, overhead: o, loss: l, seeds: 1 + d, weight: int(o*20) * th})
					if d > 0 || th > 1 || o < 1 {
						add(zzConf{edges: zzLine2, bursts: []int{2, 0}, burst: 3, th: th, overhead: o, loss: l, seeds: 1 + d, weight: int(o * 40)})
					}
				}
				// wide windows and larger networks: departures from first come, first served
				for _, o := range []float64{0.5, 2, 4} {
					k := 2
					if o > 1 {
						k = 1
					}
					add(zzConf{edges: zzLine2, bursts: []int{3, 3}, burst: 2, th: th, overhead: o, loss: l, seeds: 2, dev: k + d, weight: 30})
					if o < 3 || d > 0 {
						add(zzConf{edges: zzLine3, bursts: []int{2, 1, 2}, burst: 2, th: th, overhead: o, loss: l, seeds: 1 + d, dev: 1, weight: 30})
						add(zzConf{edges: zzTri, bursts: []int{2, 2, 2}, burst: 1, th: th, overhead: o, loss: l, seeds: 1 + d, dev: 1, weight: 30})
					}
					add(zzConf{edges: zzLine2, bursts: []int{3, 1}, burst: 3, th: th, overhead: o, loss: l, sync: 3, seeds: 2, dev: k + d, weight: 30})
				}
			}
		}
		// large blocks
		sizes := []int{30, 120}
		if d > 0 {
			sizes = append(sizes, 500)
		}
		for _, b := range sizes {
			for _, th := range []int{1, 6, 40} {
				for _, o := range []float64{0.1, 0.5, 3} {
					for _, l := range []float64{0, 0.05} {
						add(zzConf{edges: zzLine2, bursts: []int{3, 2}, burst: b, th: th, overhead: o, loss: l, seeds: 1 + d, long: true, weight: b})
					}
					if b < 200 {
						add(zzConf{edges: zzTri, bursts: []int{2, 1, 2}, burst: b, th: th, overhead: o, loss: 0, seeds: 1 + d, long: true, weight: b})
					}
					add(zzConf{edges: zzLine2, bursts: []int{3, 2}, burst: b, th: th, overhead: o, loss: 0.01, sync: 12, seeds: 1 + d, long: true, weight: b})
				}
			}
		}
		if d > 0 {
			add(zzConf{edges: zzLine2, bursts: []int{2, 1}, burst: 2, th: 1, overhead: 0.5, sync: 2, weight: 200})
		}
		add(zzConf{edges: zzLine2, bursts: []int{2, 0}, burst: 2, th: 1, overhead: 1, sync: 2, weight: 60})
		return r
	}
}

func init() {
	zzMain(map[string]func(string) []mc.Config{
		"C20": zzNets("C20"),
		"C21": zzPacing,
	})
}
