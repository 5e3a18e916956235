package main

import (
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/repro"
)

func init() {
	repro.Main(main, func(tier string) []mc.Config {
		var r []mc.Config
		cap, dur := 12, " -dur 4s -w 1s"
		if tier == "thorough" {
			cap, dur = 150, " -dur 8s -w 2s"
		}
		for i, g := range repro.Graphs() {
			for j, a := range []string{
				"-txgen 10 -a coding -s 4",
				"-txgen 10 -a coding -s 8 -flood -b 3",
				"-txgen 10 -a pull -b 2",
				"-txgen 10 -a pull -flood",
			} {
				if tier == "quick" && i%3 != 0 && (i+j)%4 > 1 {
					continue
				}
				r = append(r, repro.Config(g, a+dur, cap))
			}
		}
		return r
	})
}
