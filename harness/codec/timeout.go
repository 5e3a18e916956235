package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vsync"
)

type tcw struct {
	rem      set
	stub     Stub
	released bool
	name     string
}

type tdec struct {
	d     Dec
	mem   int
	order []int
	known set
	cws   []*tcw
}

func (m *tdec) learn(i int) {
	m.order = append(m.order, i)
	m.known.add(i)
	for len(m.order) > m.mem {
		m.known.del(m.order[0])
		m.order = m.order[1:]
	}
	for _, c := range m.cws {
		c.rem.del(i)
	}
}

// releases enumerates receive / add / release histories on ndec decoders that
// share the package's object pools; which pooled object is reused is a choice.
func releases(prop string, c *Codec, n, ndec, depth, dev int, mems []int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("%s/releases/n%d/dec%d/depth%d/dev%d", prop, n, ndec, depth, dev), Dev: dev, Run: func(x *mc.X) {
		fresh()
		u := c.universe(seq(n)...)
		mem := mems[x.Choose(len(mems))]
		if dev > 0 {
			vsync.Pick = func(k int) int { return x.Deviate(k + 1) }
		}
		var ds []*tdec
		for i := 0; i < ndec; i++ {
			ds = append(ds, &tdec{d: c.NewDec(salt, mem), mem: mem})
		}
		var hist []string
		fail := func(f string, a ...any) {
			x.Fail("%s\nhistory: %v", fmt.Sprintf(f, a...), hist)
		}
		subsets := 1<<uint(n) - 1
		used, usedDec := 0, 0
		type open struct {
			d int
			c *tcw
		}
		var openCws []open
		for step := 0; step < depth; step++ {
			nd := usedDec + 1
			if nd > ndec {
				nd = ndec
			}
			nop := nd * (subsets + n)
			op := x.Choose(1 + nop + len(openCws))
			if op == 0 {
				break
			}
			op--
			x.Op(1)
			if op >= nop {
				k := op - nop
				o := openCws[k]
				hist = append(hist, fmt.Sprintf("d%d release %s", o.d, o.c.name))
				c.Free(o.c.stub)
				o.c.released = true
				openCws = append(openCws[:k:k], openCws[k+1:]...)
			} else {
				di := op / (subsets + n)
				op %= subsets + n
				if di == usedDec {
					usedDec++
				}
				m := ds[di]
				var outs []Out
				if op < subsets {
					bits := uint64(op + 1)
					used = canon(x, bits, used)
					var s set
					s[0] = bits
					name := fmt.Sprintf("#%d%v", step, s)
					hist = append(hist, fmt.Sprintf("d%d codeword %s", di, name))
					w := &tcw{rem: s, name: name}
					for _, i := range s.list() {
						if m.known.has(i) {
							w.rem.del(i)
						}
					}
					w.stub, outs = m.d.AddCW(u.codeword(bits))
					m.cws = append(m.cws, w)
					openCws = append(openCws, open{di, w})
				} else {
					i := op - subsets
					used = canon(x, 1<<uint(i), used)
					hist = append(hist, fmt.Sprintf("d%d add %d", di, i))
					outs = m.d.AddTx(u.tx[i])
					if !m.known.has(i) {
						m.learn(i)
					}
				}
				for _, o := range outs {
					i, ok := u.byCont[o.Content]
					if !ok {
						fail("decoder %d output a transaction nobody encoded", di)
					}
					var yes, no bool
					for _, w := range m.cws {
						if w.rem.size() == 1 && w.rem.has(i) {
							if w.released {
								yes = true
							} else {
								no = true
							}
						}
					}
					if m.known.has(i) || (!yes && !no) {
						fail("decoder %d output %d, which it knew or nothing determined", di, i)
					}
					if o.Expired && !yes {
						fail("decoder %d marks %d expired although no codeword it can come from was released", di, i)
					}
					if !o.Expired && !no {
						fail("decoder %d does not mark %d expired although every codeword it can come from was released", di, i)
					}
					hist[len(hist)-1] += fmt.Sprintf("->%d/%v", i, o.Expired)
					m.learn(i)
				}
			}
			for di, m := range ds {
				for _, w := range m.cws {
					if w.rem.size() == 1 {
						fail("decoder %d did not output %v although codeword %s determines it", di, w.rem, w.name)
					}
					if !w.released && w.stub.Decoded() != (w.rem.size() == 0) {
						fail("decoder %d: unreleased codeword %s reports decoded=%v with unknown %v", di, w.name, w.stub.Decoded(), w.rem)
					}
				}
			}
			x.State(mc.HashString(fmt.Sprint(mem, stateOf(ds))))
			x.Logf("%s", hist[len(hist)-1])
		}
		x.Observe(mc.HashString(fmt.Sprint(hist)))
		x.Sample("memory %d: %v", mem, hist)
	}}
}

func stateOf(ds []*tdec) (r []string) {
	for _, m := range ds {
		s := fmt.Sprint(m.order)
		for _, w := range m.cws {
			s += fmt.Sprint(w.rem, w.released)
		}
		r = append(r, s)
	}
	return
}

// releaseChains: long chains with every release pattern of a period.
func releaseChains(prop string, c *Codec, sizes []int) mc.Config {
	return mc.Config{Name: prop + "/release-chains", Split: 100, Run: func(x *mc.X) {
		fresh()
		L := sizes[x.Choose(len(sizes))]
		pat := x.Choose(8) // which of three consecutive codewords are released
		late := x.Choose(2)
		rounds := 1 + x.Choose(3)
		u := c.universe(seq(L * rounds)...)
		m := &tdec{d: c.NewDec(salt, 10000), mem: 10000}
		for r := 0; r < rounds; r++ {
			base := r * L
			m.cws = nil
			outs := []Out{}
			rel := map[int]bool{}
			for i := 0; i+1 < L; i++ {
				stub, o := m.d.AddCW(u.codewordOf([]int{base + i, base + i + 1}))
				x.Op(1)
				if len(o) != 0 {
					x.Fail("round %d: premature output", r)
				}
				w := &tcw{rem: mkset(base+i, base+i+1), stub: stub}
				m.cws = append(m.cws, w)
				if pat&(1<<uint(i%3)) != 0 && late == 0 {
					c.Free(stub)
					w.released = true
				}
			}
			if late == 1 {
				for i, w := range m.cws {
					if pat&(1<<uint(i%3)) != 0 {
						c.Free(w.stub)
						w.released = true
					}
				}
			}
			start := base
			if r%2 == 1 {
				start = base + L - 1
			}
			stub, o := m.d.AddCW(u.codewordOf([]int{start}))
			m.cws = append(m.cws, &tcw{rem: mkset(start), stub: stub})
			outs = append(outs, o...)
			if len(outs) != L {
				x.Fail("round %d: a chain of %d gave %d outputs", r, L, len(outs))
			}
			for _, o := range outs {
				i, ok := u.byCont[o.Content]
				if !ok {
					x.Fail("round %d: output a transaction nobody encoded", r)
				}
				var want, found bool
				for _, w := range m.cws {
					if w.rem.size() == 1 && w.rem.has(i) {
						want, found = w.released, true
					}
				}
				if !found || rel[i] {
					x.Fail("round %d: output %d twice or undetermined", r, i)
				}
				rel[i] = true
				if o.Expired != want {
					x.Fail("round %d length %d pattern %b: transaction %d expired=%v, its codeword released=%v", r, L, pat, i, o.Expired, want)
				}
				m.learn(i)
			}
			for _, w := range m.cws {
				if !w.released {
					if !w.stub.Decoded() {
						x.Fail("round %d: unreleased codeword not decoded", r)
					}
					if r%2 == 0 {
						c.Free(w.stub)
					}
				}
			}
			x.State(mc.Mix(uint64(L)<<20 | uint64(pat)<<4 | uint64(late)<<2 | uint64(r)))
		}
		x.Observe(uint64(L)*8 + uint64(pat))
	}}
}
