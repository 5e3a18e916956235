package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// sharing explores histories of two encoders, two decoders and two sketches
// that share the same symbols and coded symbols; every object that was handed
// in or returned is compared byte by byte after every operation.
func sharing[T sym[T]](k *kit[T], depth int) mc.Config {
	hs := seedHashes(33, 3)
	var u *uni[T]
	const ncoded = 4
	return mc.Config{Name: fmt.Sprintf("C08/riblt/%s/depth%d", k.name, depth), Run: func(x *mc.X) {
		if u == nil {
			u = newUni(k, hs, 40)
		}
		u.register()
		syms := make([]T, len(hs))
		for i := range syms {
			syms[i] = k.mk(u.cont[i])
		}
		// coded symbols of all three, one of which every decoder has
		src := riblt.Encoder[T]{}
		for i := range syms {
			src.AddSymbol(syms[i])
		}
		coded := make([]riblt.CodedSymbol[T], ncoded)
		want := make([]cell, ncoded)
		for i := range coded {
			coded[i] = src.ProduceNextCodedSymbol()
			want[i] = k.view(&coded[i])
		}
		var hist []string
		var dec [2]riblt.Decoder[T]
		var mod [2]model
		var nd [2]int
		var encs [2]riblt.Encoder[T]
		var have [2]uint64
		for i := range dec {
			dec[i].AddSymbol(syms[i])
			mod[i].remote = 7 &^ (1 << uint(i))
			encs[i].AddSymbol(syms[i])
			encs[i].AddSymbol(syms[2])
			have[i] = 1<<uint(i) | 4
		}
		sk := riblt.Sketch[T](append([]riblt.CodedSymbol[T]{}, coded...))
		lone := u.lone()
		type ret struct {
			c    *riblt.CodedSymbol[T]
			want cell
		}
		var rets []ret
		type hret struct {
			h    riblt.HashedSymbol[T]
			want [2]uint64
		}
		var outs []hret
		var np [2]int
		seen := [2]int{}
		for step := 0; step < depth; step++ {
			op := x.Choose(9)
			if op == 0 {
				break
			}
			x.Op(1)
			switch op {
			case 1, 2:
				i := op - 1
				if nd[i] >= ncoded {
					x.Stop()
				}
				hist = append(hist, fmt.Sprintf("decoder %d receives coded symbol %d", i, nd[i]))
				dec[i].AddCodedSymbol(coded[nd[i]])
				mod[i].receive(u.pos[nd[i]])
				nd[i]++
			case 3, 4:
				i := op - 3
				hist = append(hist, fmt.Sprintf("decoder %d decodes", i))
				dec[i].TryDecode()
				mod[i].peel()
			case 5, 6:
				i := op - 5
				hist = append(hist, fmt.Sprintf("encoder %d produces", i))
				c := encs[i].ProduceNextCodedSymbol()
				w := cells(bits(have[i]), lone, np[i]+1)[np[i]]
				np[i]++
				if k.ok && k.view(&c) != w {
					x.Fail("%s: coded symbol is %v, want %v: %v", k.name, k.view(&c), w, hist)
				}
				rets = append(rets, ret{&c, w})
			case 7:
				hist = append(hist, "sketch of the coded symbols decodes")
				r, l, ok := sk.Decode()
				m := model{remote: 7}
				for i := 0; i < ncoded; i++ {
					m.receive(u.pos[i])
				}
				m.peel()
				ri, _ := idsOf(r, u.by)
				li, _ := idsOf(l, u.by)
				if !eqInts(ri, bits(m.kremote)) || len(li) != 0 || ok != m.done() {
					x.Fail("%s: sketch decodes to %v %v %v, want %v: %v", k.name, ri, li, ok, bits(m.kremote), hist)
				}
			case 8:
				hist = append(hist, "a copy of the coded symbols minus the sketch of symbol 0")
				cp := riblt.Sketch[T](append([]riblt.CodedSymbol[T]{}, coded...))
				_ = cp
				one := make(riblt.Sketch[T], ncoded)
				one.AddSymbol(syms[0])
				two := make(riblt.Sketch[T], ncoded)
				for i := range syms {
					two.AddSymbol(syms[i])
				}
				d := two.Subtract(one)
				r, _, _ := d.Decode()
				for _, h := range r {
					outs = append(outs, hret{h, h.Symbol.content()})
				}
			}
			for i := range dec {
				u.compare(x, &dec[i], &mod[i], func() string { return fmt.Sprint(hist) })
				for _, h := range dec[i].Remote()[seen[i]:] {
					outs = append(outs, hret{h, h.Symbol.content()})
				}
				seen[i] = len(dec[i].Remote())
			}
			for i := range syms {
				if syms[i].content() != u.cont[i] {
					x.Fail("%s: symbol %d was modified by %v", k.name, i, hist)
				}
			}
			if k.ok {
				for i := range coded {
					if k.view(&coded[i]) != want[i] {
						x.Fail("%s: coded symbol %d was modified by %v", k.name, i, hist)
					}
					if k.view(&sk[i]) != want[i] {
						x.Fail("%s: sketch cell %d was modified by %v", k.name, i, hist)
					}
				}
				for i := range rets {
					if k.view(rets[i].c) != rets[i].want {
						x.Fail("%s: a returned coded symbol was modified by %v", k.name, hist)
					}
				}
			}
			for _, o := range outs {
				if o.h.Symbol.content() != o.want {
					x.Fail("%s: a returned symbol was modified by %v", k.name, hist)
				}
			}
			x.State(mc.HashString(fmt.Sprint(k.name, nd, np, mod)))
		}
		x.Observe(mc.HashString(fmt.Sprint(hist)))
	}}
}

// sketches explores histories of three sketches over the same symbols: adding,
// subtracting one from another, decoding. Every cell of every sketch, and
// every symbol handed in or returned, is compared after every operation.
func sketches[T sym[T]](k *kit[T], nsym, ncell, depth int) mc.Config {
	const ns = 3
	hs := seedHashes(51, nsym)
	return mc.Config{Name: fmt.Sprintf("C08/sketches/%s/symbols%d/cells%d/depth%d", k.name, nsym, ncell, depth), Run: func(x *mc.X) {
		cont := universe(hs)
		if !k.ok {
			x.Stop()
		}
		syms := make([]T, nsym)
		lone := make([][]cell, nsym)
		for i := range syms {
			syms[i] = k.mk(cont[i])
			lone[i] = make([]cell, ncell)
			for j, p := range k.positions(k.mk(cont[i]), ncell) {
				if p {
					lone[i][j] = cell{cont[i], 1, hs[i]}
				}
			}
		}
		var sk [ns]riblt.Sketch[T]
		var want [ns][]cell
		var mult [ns][8]int
		for a := range sk {
			sk[a] = make(riblt.Sketch[T], ncell)
			want[a] = make([]cell, ncell)
		}
		type hret struct {
			h    riblt.HashedSymbol[T]
			want [2]uint64
		}
		var outs []hret
		var hist []string
		for step := 0; step < depth; step++ {
			op := x.Choose(1 + ns*(nsym+ns-1+1))
			if op == 0 {
				break
			}
			x.Op(1)
			a, w := (op-1)%ns, (op-1)/ns
			switch {
			case w < nsym:
				hist = append(hist, fmt.Sprintf("symbol %d added to sketch %d", w, a))
				if step%2 == 0 {
					sk[a].AddSymbol(syms[w])
				} else {
					sk[a].AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: syms[w], Hash: hs[w]})
				}
				mult[a][w]++
				for j := range want[a] {
					want[a][j] = want[a][j].plus(lone[w][j])
				}
			case w < nsym+ns-1:
				b := (a + 1 + w - nsym) % ns
				hist = append(hist, fmt.Sprintf("sketch %d subtracted from sketch %d", b, a))
				sk[a] = sk[a].Subtract(sk[b])
				for i := range mult[a] {
					mult[a][i] -= mult[b][i]
				}
				for j := range want[a] {
					want[a][j] = want[a][j].minus(want[b][j])
				}
			default:
				for _, m := range mult[a] {
					if m < -1 || m > 1 {
						x.Stop() // not a difference of sets
					}
				}
				hist = append(hist, fmt.Sprintf("sketch %d decodes", a))
				r, l, _ := sk[a].Decode()
				for _, h := range append(append([]riblt.HashedSymbol[T]{}, r...), l...) {
					outs = append(outs, hret{h, h.Symbol.content()})
				}
			}
			for i := range sk {
				if len(sk[i]) != ncell {
					x.Fail("%s: sketch %d has %d cells, made with %d: %v", k.name, i, len(sk[i]), ncell, hist)
				}
				for j := range want[i] {
					if v := k.view(&sk[i][j]); v != want[i][j] {
						x.Fail("%s: cell %d of sketch %d is %v, want %v: %v", k.name, j, i, v, want[i][j], hist)
					}
				}
			}
			for i := range syms {
				if syms[i].content() != cont[i] {
					x.Fail("%s: symbol %d was modified by %v", k.name, i, hist)
				}
			}
			for _, o := range outs {
				if o.h.Symbol.content() != o.want {
					x.Fail("%s: a returned symbol was modified by %v", k.name, hist)
				}
			}
			x.State(mc.HashString(fmt.Sprint(k.name, mult, len(outs))))
		}
		x.Observe(mc.HashString(fmt.Sprint(hist)))
	}}
}
