package main

import "github.com/yangl1996/rateless-set-reconcile/zzverif/mc"

func each(f func(c *Codec) []mc.Config) (r []mc.Config) {
	// the first of every codec, then the second of every codec, ...
	var all [][]mc.Config
	most := 0
	for _, c := range codecs() {
		l := f(c)
		all = append(all, l)
		if len(l) > most {
			most = len(l)
		}
	}
	for k := 0; k < most; k++ {
		for _, l := range all {
			if k < len(l) {
				r = append(r, l[k])
			}
		}
	}
	return
}

func ints(a ...int) []int { return a }

func upto(n int) (r []int) {
	for i := 1; i <= n; i++ {
		r = append(r, i)
	}
	return
}

// released: histories in which codewords are released early, where the codec has that.
func released(prop string, c *Codec) []mc.Config {
	if c.Free == nil {
		return nil
	}
	return []mc.Config{releaseChains(prop, c, append(upto(6), 33)), releases(prop, c, 3, 1, 4, 0, ints(100, 2, 1)), releases(prop, c, 2, 1, 5, 0, ints(100, 1))}
}

func main() {
	mc.Main(map[string]func(tier string) []mc.Config{
		"C01": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				vec, sizes := 3000, append(upto(40), 63, 64, 65, 100, 127, 128, 129, 1000)
				w, long := 4, 70000
				if tier == "thorough" {
					vec, sizes, w, long = 300000, append(upto(140), 255, 256, 257, 300, 1000, 3000), 6, 500000
				}
				return []mc.Config{encLong("C01", c, ints(3, 50), long), c01(c, w, vec), c01big(c, sizes)}
			})
		},
		"C02": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				resets := ints(0, 1, 2, 3, 4, 5, 8, 9, 17, 33, 64, 100, 140)
				d, sizes := 6, append(upto(24), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000)
				long := 140000
				if tier == "thorough" {
					d, sizes = 7, append(upto(140), 255, 256, 257, 1000, 3000)
					long = 400000
				}
				return []mc.Config{encLong("C02", c, ints(1, 2, 50), long), c02resets(c, resets), c02big(c, sizes), c02(c, 5, d)}
			})
		},
		"C03": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				d3, d4 := 6, 4
				if tier == "thorough" {
					d3, d4 = 7, 6
				}
				return append(released("C03", c), bigChains("C03", c, ints(1000), true), chains("C03", c, append(upto(8), 16, 33, 64), true),
					histories("C03", c, 3, d3, ints(100, 1, 2), true), histories("C03", c, 4, d4, ints(100, 2), true))
			})
		},
		"C04": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				d3, d4, k, big := 6, 5, 4, ints(300, 5000)
				sz := append(upto(12), 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129)
				if tier == "thorough" {
					d3, d4, k, big = 7, 6, 5, ints(300, 1025, 5000, 20000, 70000)
					sz = append(upto(70), 100, 128, 129, 200, 256, 257, 300)
				}
				return append(released("C04", c), bigChains("C04", c, big, false), chains("C04", c, sz, false), permutations("C04", c, 4, k),
					histories("C04", c, 3, d3, ints(100), false), histories("C04", c, 4, d4, ints(100), false))
			})
		},
		"C05": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				d3, d4, steps, bigm := 5, 5, 70000, ints(300, 1024, 5000)
				mems := append([]int{0}, append(upto(12), 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 127, 128, 129)...)
				if tier == "thorough" {
					d3, d4, steps, bigm = 7, 6, 200000, ints(300, 511, 512, 1024, 1025, 5000, 20000)
					mems = append(mems, 63, 64, 65, 100, 127, 128, 129)
				}
				return append(released("C05", c), bigMemories(c, bigm), long("C05", c, ints(1, 2, 50), steps), evictions("C05", c, mems),
					histories("C05", c, 3, d3, ints(0, 1, 2), false), histories("C05", c, 4, d4, ints(2), false), histories("C05", c, 4, d4-1, ints(1, 3), false))
			})
		},
		"C06": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				d, de := 4, 6
				if tier == "thorough" {
					d, de = 5, 7
				}
				r := []mc.Config{nearConflicts(c), encConflicts(c, de), conflicts(c, d, ints(100, 1, 2), false)}
				if c.Free != nil {
					r = append(r, conflicts(c, d, ints(100), true))
				}
				return r
			})
		},
		"C07": func(tier string) []mc.Config {
			c := ldpcCodec()
			if tier == "thorough" {
				return []mc.Config{releaseChains("C07", c, append(upto(64), 100)), releases("C07", c, 3, 1, 6, 0, ints(100)), releases("C07", c, 3, 1, 5, 1, ints(100, 2, 1)), releases("C07", c, 2, 2, 6, 1, ints(100)),
					releases("C07", c, 2, 1, 8, 0, ints(100, 1)), releases("C07", c, 3, 2, 5, 0, ints(100))}
			}
			return []mc.Config{releaseChains("C07", c, append(upto(12), 33, 64)), releases("C07", c, 3, 1, 5, 0, ints(100, 1)), releases("C07", c, 3, 1, 4, 1, ints(100, 2)), releases("C07", c, 2, 2, 5, 1, ints(100)),
				releases("C07", c, 2, 1, 7, 0, ints(100)), releases("C07", c, 3, 2, 4, 0, ints(100))}
		},
		"C08": func(tier string) []mc.Config {
			return each(func(c *Codec) []mc.Config {
				d := 5
				if tier == "thorough" {
					d = 6
				}
				return []mc.Config{sharing(c, d)}
			})
		},
	})
}
