// Package main explores the concurrent simulations of the microbenchmarks.
package main

import (
	"fmt"
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/microbenchmarks"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vssync"
)

// steady explores the schedules of a simulation, whose result must be that of
// the default schedule, in which the runs follow each other.
func steady(name string, dev int, next bool, early int, sim func() int) mc.Config {
	var want int
	known := false
	return mc.Config{Name: fmt.Sprintf("%s, %d switches", name, dev), Dev: dev, Run: func(x *mc.X) {
		run := func(o vs.Options) int {
			vssync.Gen++
			vrand.Global = rand.New(rand.NewSource(3))
			o.MaxSteps = 1000000
			r, n := 0, 0
			res := vs.Run(x, o, func() { r = sim(); n++ })
			if res.Panic != nil {
				x.Fail("%s panics: %v\n%s", res.PanicIn, res.Panic, res.Stack)
			}
			if res.Limit || n == 0 {
				x.Fail("does not return: %v", res.Blocked)
			}
			return r
		}
		if !known {
			want, known = run(vs.Options{Fixed: true}), true
		}
		got := run(vs.Options{Next: next, Early: early})
		if got != want {
			x.Fail("the result is %d, under another schedule it is %d", got, want)
		}
		h := mc.Mix(uint64(got)*7 + uint64(want))
		x.State(mc.HashString(name) ^ h)
		x.Observe(h)
	}}
}

func main() {
	mc.Main(map[string]func(string) []mc.Config{"C09": func(tier string) []mc.Config {
		var r []mc.Config
		one := func(dev, runs, n, common int) {
			r = append(r, steady(fmt.Sprintf("one sender, %d runs, %d of %d in common", runs, common, n), dev, runs > 4, 0, func() int {
				return microbenchmarks.SimulateOneSenderOverlap(runs, n, common)
			}))
		}
		early := 700
		two := func(dev, runs, n, common, first int) {
			r = append(r, steady(fmt.Sprintf("two senders, %d runs, %d of %d in common, %d codewords of the first", runs, common, n, first), dev, true, early, func() int {
				return microbenchmarks.SimulateTwoSendersOverlap(runs, n, common, first)
			}))
		}
		extra := 0
		if tier == "thorough" {
			extra, early = 1, 2500
		}
		one(1+extra, 1, 12, 4)
		one(2+extra, 2, 4, 2)
		one(2, 3, 3, 1)
		one(1+extra, 3, 12, 5)
		one(1, 6, 10, 5)
		two(1, 52, 3, 1, 2)
		two(1, 53, 8, 4, 4)
		return r
	}})
}
