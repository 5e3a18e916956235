package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// roomy is a universe of n transactions with distinct keyed hashes.
func (c *Codec) roomy(n int) *Universe {
	var ids []uint64
	seen := map[uint32]bool{}
	for id := uint64(1); len(ids) < n; id++ {
		h, ok := c.short(c.NewTx(id), salt)
		if ok && seen[h] {
			continue
		}
		seen[h] = true
		ids = append(ids, id)
	}
	return c.universe(ids...)
}

// bigChains releases thousands of transactions by one trigger: chains, stars
// and one codeword over everything, with the few facts that decide them.
func bigChains(prop string, c *Codec, sizes []int, sound bool) mc.Config {
	us := map[int]*Universe{}
	return mc.Config{Name: prop + "/big-structures/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		L := sizes[x.Choose(len(sizes))]
		shape := x.Choose(3)
		t := []int{0, L - 1, L / 2}[x.Choose(3)]
		how := x.Choose(3) // codeword at the end, addition at the end, codeword first
		if us[L] == nil {
			us[L] = c.roomy(L)
		}
		u := us[L]
		d := c.NewDec(salt, L+5)
		what := fmt.Sprintf("%s: shape %d over %d transactions, released by %d in way %d", c.Name, shape, L, t, how)
		known := make([]bool, L)
		n := 0
		var stubs []Stub
		take := func(outs []Out) {
			for _, o := range outs {
				i, ok := u.byCont[o.Content]
				if !ok {
					x.Fail("%s: outputs a transaction nobody encoded", what)
				}
				if known[i] {
					x.Fail("%s: outputs transaction %d which it knew", what, i)
				}
				known[i] = true
				n++
			}
			x.Op(1)
		}
		cw := func(idx ...int) {
			s, outs := d.AddCW(u.codewordOf(idx))
			stubs = append(stubs, s)
			take(outs)
		}
		trigger := func() {
			if how == 1 {
				if !known[t] {
					known[t] = true
					n++
				}
				take(d.AddTx(u.tx[t]))
			} else {
				cw(t)
			}
		}
		if how == 2 {
			trigger()
		}
		switch shape {
		case 0:
			for i := 0; i+1 < L; i++ {
				cw(i, i+1)
			}
		case 1:
			for i := 0; i < L; i++ {
				if i != t {
					cw(t, i)
				}
			}
		case 2:
			all := make([]int, L)
			for i := range all {
				all[i] = i
			}
			cw(all...)
			for i := 0; i < L; i++ {
				if i != t && i != (t+1)%L {
					if i%2 == 0 {
						cw(i)
					} else {
						known[i] = true
						n++
						take(d.AddTx(u.tx[i]))
					}
				}
			}
			if how != 2 && n != L-2 {
				x.Fail("%s: %d transactions known before the last two", what, n)
			}
		}
		if how != 2 {
			trigger()
		}
		if !sound {
			if n != L {
				x.Fail("%s: only %d are known in the end", what, n)
			}
			for i, s := range stubs {
				if !s.Decoded() {
					x.Fail("%s: codeword #%d of %d reports not decoded in the end", what, i, len(stubs))
				}
			}
		}
		x.State(mc.HashString(what))
		x.Observe(uint64(n))
	}}
}

// bigMemories slides large decoder memories, probing around their end.
func bigMemories(c *Codec, mems []int) mc.Config {
	us := map[int]*Universe{}
	return mc.Config{Name: "C05/big-memories/" + c.Name, Split: 40, Run: func(x *mc.X) {
		fresh()
		M := mems[x.Choose(len(mems))]
		style := x.Choose(3)
		N := 2*M + 11
		if us[M] == nil {
			us[M] = c.roomy(N)
		}
		u := us[M]
		d := c.NewDec(salt, M)
		var order []int
		known := make([]bool, N)
		learn := func(i int) {
			order = append(order, i)
			known[i] = true
			if len(order) > M {
				known[order[0]] = false
				order = order[1:]
			}
		}
		step := 0
		touch := func(i int, byCW bool) {
			step++
			x.Op(1)
			i = (i%N + N) % N
			was := known[i]
			var outs []Out
			if byCW {
				_, outs = d.AddCW(u.codewordOf([]int{i}))
				if want := !was; (len(outs) == 1) != want || len(outs) > 1 {
					x.Fail("%s memory %d, step %d: a codeword of transaction %d, remembered %v, gives %d outputs", c.Name, M, step, i, was, len(outs))
				}
				if len(outs) == 1 && outs[0].Content != u.content[i] {
					x.Fail("%s memory %d, step %d: a codeword of transaction %d gives another one", c.Name, M, step, i)
				}
			} else if outs = d.AddTx(u.tx[i]); len(outs) != 0 {
				x.Fail("%s memory %d, step %d: adding transaction %d gives %d outputs", c.Name, M, step, i, len(outs))
			}
			if !was {
				learn(i)
			}
			if got, ok := d.Has(u.tx[i]); ok && got != known[i] {
				x.Fail("%s memory %d, step %d: HasDecoded(%d)=%v", c.Name, M, step, i, got)
			}
		}
		for k := 0; k < 4*M+20; k++ {
			touch(k, style == 1 || style == 2 && k%2 == 0)
			if len(order) == M {
				switch k % 5 {
				case 0:
					touch(order[0], true) // the oldest, remembered
				case 1:
					touch(order[M/2], true)
				case 2:
					touch(order[M-1], false)
				case 3:
					touch(order[0]-1, true) // forgotten just now
				}
				for _, p := range []int{order[0], order[0] - 1, order[M-1] + 1} {
					p = (p%N + N) % N
					if got, ok := d.Has(u.tx[p]); ok && got != known[p] {
						x.Fail("%s memory %d, step %d: HasDecoded(%d)=%v", c.Name, M, step, p, got)
					}
				}
			}
		}
		x.State(uint64(M)<<4 | uint64(style))
		x.Observe(uint64(step))
	}}
}
