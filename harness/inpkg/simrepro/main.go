package main

import (
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/repro"
)

func init() {
	repro.Main(main, func(tier string) []mc.Config {
		var r []mc.Config
		cap, dur := 12, " -dur 1500ms -w 300ms -r 100ms"
		if tier == "thorough" {
			cap, dur = 150, " -dur 4s -w 500ms -r 500ms"
		}
		for i, g := range repro.Graphs() {
			for j, a := range []string{
				"-txgen 40 -th 1 -c 0.3 -seed 0",
				"-txgen 40 -b 5 -th 2 -c 0.5 -sync 200ms -seed 7",
				"-txgen 60 -b 3 -th 2 -c 1 -l 0.3 -smooth 100 -mem 2000",
			} {
				if tier == "quick" && i%3 != 0 && (i+j)%3 != 0 {
					continue
				}
				r = append(r, repro.Config(g, a+dur, cap))
			}
		}
		return r
	})
}
