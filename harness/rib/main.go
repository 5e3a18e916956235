package main

import "github.com/yangl1996/rateless-set-reconcile/zzverif/mc"

func main() {
	v, p := newKit[vsym]("value", mkV), newKit[*psym]("pointer", mkP)
	mc.Main(map[string]func(tier string) []mc.Config{
		"C10": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{nearPure(v), nearPure(p), sizes(v, []int{0, 3, 40}, []int{1, 4}, 300000), sizes(v, []int{0, 1500, 5000}, []int{1, 9}, 20), sizes(v, []int{1, 70000}, []int{1, 9}, 20),
					sizes(v, append(ints(0, 20), 31, 32, 33, 63, 64, 65, 100, 128, 129, 257, 600), []int{1, 2, 3, 7, 31}, 20), sizes(p, append(ints(0, 12), 17, 33, 65, 129), []int{1, 2, 5}, 20),
					assignments("C10", v, 8, 6, 600), assignments("C10", p, 8, 4, 600)}
			}
			return []mc.Config{nearPure(v), nearPure(p), sizes(v, []int{0, 3}, []int{4}, 70000), sizes(v, []int{0, 1500}, []int{9}, 20), sizes(v, []int{1, 70000}, []int{9}, 20),
				sizes(v, []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 64, 65, 100, 257}, []int{1, 2, 3, 7}, 20), sizes(p, []int{0, 1, 2, 3, 5, 8, 17, 33, 65, 129}, []int{1, 2, 5}, 20),
				assignments("C10", v, 7, 4, 400), assignments("C10", p, 7, 2, 400)}
		},
		"C11": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{wide("C11", v, append(ints(0, 6), 8, 12, 15, 20, 31, 40, 60), 4), wide("C11", p, append(ints(0, 4), 8, 12, 20), 2), assignments("C11", v, 7, 6, 400), scheduled(p, 5, 4, true), scheduled(p, 4, 5, true), scheduled(v, 6, 4, true), scheduled(v, 8, 3, true), scheduled(v, 4, 6, true), scheduled(v, 3, 8, true)}
			}
			return []mc.Config{wide("C11", v, []int{0, 1, 2, 5, 12, 20}, 2), wide("C11", p, []int{0, 1, 3, 12}, 1), assignments("C11", v, 6, 4, 400), scheduled(p, 4, 4, true), scheduled(v, 5, 4, true), scheduled(v, 6, 3, true)}
		},
		"C12": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{bigStreams(v, []int{1, 2, 50}, 1000000), bigStreams(v, []int{4000, 70000}, 3000), streams(v, 6, 24, 4), streams(p, 6, 24, 1), bigStreams(v, ints(1, 140), 3000), bigStreams(p, ints(1, 70), 500),
					bigResets(v, append(ints(0, 12), 31, 32, 33, 64, 65, 127, 128, 129, 300, 1000)), bigResets(p, append(ints(0, 4), 8, 17, 33, 64, 128)),
					differences(v, 7, []int{1, 2, 3, 5, 8, 12, 20}, 4), differences(p, 7, []int{1, 2, 3, 5, 8, 12, 20}, 2), resets(v, 3, 5, 3), resets(p, 3, 4, 2)}
			}
			return []mc.Config{bigStreams(v, []int{1, 2, 50}, 150000), bigStreams(v, []int{4000}, 3000), bigStreams(v, []int{66000, 140000}, 24), streams(v, 5, 24, 3), streams(p, 5, 24, 1), bigStreams(v, ints(1, 70), 600), bigStreams(p, ints(1, 20), 200),
				bigResets(v, append(ints(0, 5), 8, 17, 33, 64, 129, 300)), bigResets(p, []int{0, 1, 2, 5, 17, 64}),
				differences(v, 5, []int{1, 2, 3, 5, 8, 12}, 4), differences(p, 5, []int{1, 2, 3, 5, 8, 12}, 3), resets(v, 3, 3, 1), resets(p, 2, 4, 2)}
		},
		"C13": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{hashClasses(v, structured(64, 1000), 10000, 16), hashClasses(p, structured(16, 100), 4000, 16), hashClasses(v, structured(4, 16), 2000000, 2)}
			}
			return []mc.Config{hashClasses(v, structured(24, 300), 3000, 16), hashClasses(p, structured(4, 20), 2000, 16), hashClasses(v, structured(0, 1), 100000, 2)}
		},
		"C14": func(tier string) []mc.Config {
			if tier == "thorough" {
				return []mc.Config{density(v, 26, offsets(32), 3000), density(p, 22, offsets(16), 600)}
			}
			return []mc.Config{density(v, 23, offsets(16), 600), density(p, 20, offsets(8), 300)}
		},
		"C08": func(tier string) []mc.Config {
			d, e := 5, 4
			if tier == "thorough" {
				d, e = 6, 5
			}
			return []mc.Config{sketches(p, 2, 1, e+1), sketches(p, 3, 3, e+1), sketches(v, 3, 3, e), sharing(v, d), sharing(p, d)}
		},
	})
}

func ints(a, b int) (r []int) {
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return
}

func offsets(n int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, mc.Mix(uint64(i)))
	}
	return
}
