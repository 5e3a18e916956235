package main

import (
	"fmt"
	"math"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// lone[s][i]: what symbol s alone contributes to cell i.
func (u *uni[T]) lone() [][]cell {
	r := make([][]cell, len(u.hs))
	for s := range u.hs {
		r[s] = make([]cell, u.n)
		for i := 0; i < u.n; i++ {
			if u.pos[i]&(1<<uint(s)) != 0 {
				r[s][i] = cell{u.cont[s], 1, u.hs[s]}
			}
		}
	}
	return r
}

func permute(x *mc.X, l []int) []int {
	rest := append([]int{}, l...)
	var r []int
	for len(rest) > 0 {
		i := x.Choose(len(rest))
		r = append(r, rest[i])
		rest = append(rest[:i], rest[i+1:]...)
	}
	return r
}

func pickSet(x *mc.X, n int) (r []int) {
	for i := 0; i < n; i++ {
		if x.Bool() {
			r = append(r, i)
		}
	}
	return
}

func seedHashes(seed, n int) []uint64 {
	hs := make([]uint64, n)
	for i := range hs {
		hs[i] = mc.Mix(uint64(seed*1000 + i))
	}
	return hs
}

// streams: stream = sketch = sum of what the symbols contribute alone, for
// every set and insertion order.
func streams[T sym[T]](k *kit[T], nsym, n, seeds int) mc.Config {
	cache := map[int]*uni[T]{}
	return mc.Config{Name: fmt.Sprintf("C12/streams/%s/symbols%d", k.name, nsym), Run: func(x *mc.X) {
		seed := x.Choose(seeds)
		set := permute(x, pickSet(x, nsym))
		form := x.Choose(2)
		u := cache[seed]
		if u == nil {
			u = newUni(k, seedHashes(seed, nsym), n)
			cache[seed] = u
		}
		u.register()
		if !k.ok {
			x.Stop()
		}
		want := cells(set, u.lone(), n)
		enc := riblt.Encoder[T]{}
		sk := make(riblt.Sketch[T], n)
		for _, s := range set {
			x.Op(2)
			if form == 0 {
				enc.AddSymbol(k.mk(u.cont[s]))
				sk.AddSymbol(k.mk(u.cont[s]))
			} else {
				enc.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: k.mk(u.cont[s]), Hash: u.hs[s]})
				sk.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: k.mk(u.cont[s]), Hash: u.hs[s]})
			}
		}
		sv := k.sketchView(sk)
		var produced []riblt.CodedSymbol[T]
		var views []cell
		for i := 0; i < n; i++ {
			c := enc.ProduceNextCodedSymbol()
			produced = append(produced, c)
			v := k.view(&c)
			views = append(views, v)
			if v != want[i] {
				x.Fail("%s: coded symbol %d of %v (inserted in that order) is %v, its symbols alone contribute %v", k.name, i, set, v, want[i])
			}
			if sv[i] != want[i] {
				x.Fail("%s: cell %d of the sketch of %v is %v, its symbols alone contribute %v", k.name, i, set, sv[i], want[i])
			}
		}
		for i := range produced {
			if k.view(&produced[i]) != views[i] {
				x.Fail("%s: coded symbol %d of %v changed after it was returned", k.name, i, set)
			}
		}
		for m := 1; m < n; m++ { // shorter sketches are prefixes
			short := make(riblt.Sketch[T], m)
			for _, s := range set {
				short.AddSymbol(k.mk(u.cont[s]))
			}
			for i, v := range k.sketchView(short) {
				if v != want[i] {
					x.Fail("%s: cell %d of a sketch of %d cells of %v is %v, want %v", k.name, i, m, set, v, want[i])
				}
			}
			if m == 3 && n > 12 {
				m = n - 2
			}
		}
		x.State(mc.HashString(fmt.Sprint(k.name, seed, want)))
		x.Observe(mc.HashString(fmt.Sprint(set)))
	}}
}

// bigStreams: the heap with many symbols.
func bigStreams[T sym[T]](k *kit[T], nsyms []int, n int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C12/large-sets/%s/upto%d/%d", k.name, nsyms[len(nsyms)-1], n), Split: 100, Run: func(x *mc.X) {
		ns := nsyms[x.Choose(len(nsyms))]
		order := x.Choose(4)
		hs := seedHashes(7, ns)
		cont := universe(hs)
		if !k.ok {
			x.Stop()
		}
		want := make([]cell, n)
		for s := range hs {
			for i, p := range k.positions(k.mk(cont[s]), n) {
				if p {
					want[i] = want[i].plus(cell{cont[s], 1, hs[s]})
				}
			}
		}
		enc := riblt.Encoder[T]{}
		sk := make(riblt.Sketch[T], n)
		for j := 0; j < ns; j++ {
			s := j
			switch order {
			case 1:
				s = ns - 1 - j
			case 2:
				s = (j*7919 + 3) % ns
				if ns%7919 == 0 {
					s = j
				}
			case 3:
				s = (j + ns/2) % ns
			}
			enc.AddSymbol(k.mk(cont[s]))
			sk.AddSymbol(k.mk(cont[s]))
		}
		sv := k.sketchView(sk)
		for i := 0; i < n; i++ {
			x.Op(1)
			c := enc.ProduceNextCodedSymbol()
			if v := k.view(&c); v != want[i] {
				x.Fail("%s: coded symbol %d of %d symbols is %v, want %v", k.name, i, ns, v, want[i])
			}
			if sv[i] != want[i] {
				x.Fail("%s: sketch cell %d of %d symbols is %v, want %v", k.name, i, ns, sv[i], want[i])
			}
		}
		x.State(mc.HashString(fmt.Sprint(k.name, ns, order)))
	}}
}

// differences: the difference of two sketches is the sketch of the difference
// and decodes like the rateless decoder.
func differences[T sym[T]](k *kit[T], nsym int, ms []int, seeds int) mc.Config {
	cache := map[int]*uni[T]{}
	n := 0
	for _, m := range ms {
		if m > n {
			n = m
		}
	}
	return mc.Config{Name: fmt.Sprintf("C12/differences/%s/symbols%d", k.name, nsym), Run: func(x *mc.X) {
		seed := x.Choose(seeds)
		m := ms[x.Choose(len(ms))]
		var a, b []int
		for i := 0; i < nsym; i++ {
			switch x.Choose(4) {
			case 1:
				a = append(a, i)
			case 2:
				b = append(b, i)
			case 3:
				a = append(a, i)
				b = append(b, i)
			}
		}
		u := cache[seed]
		if u == nil {
			u = newUni(k, seedHashes(seed+50, nsym), n)
			cache[seed] = u
		}
		u.register()
		build := func(set []int) riblt.Sketch[T] {
			s := make(riblt.Sketch[T], m)
			for _, i := range set {
				s.AddSymbol(k.mk(u.cont[i]))
			}
			return s
		}
		lone := u.lone()
		ca, cb := cells(a, lone, m), cells(b, lone, m)
		sa, sb := build(a), build(b)
		x.Op(1)
		var diff riblt.Sketch[T]
		if p := mc.Catch(func() { diff = sa.Subtract(sb) }); p != nil {
			x.Fail("%s: subtracting the sketch (%d cells) of %v from that of %v: panic: %v", k.name, m, b, a, p)
		}
		if len(diff) != m {
			x.Fail("%s: difference has %d cells instead of %d", k.name, len(diff), m)
		}
		for i, v := range k.sketchView(diff) {
			if k.ok && v != ca[i].minus(cb[i]) {
				x.Fail("%s: cell %d of sketch%v - sketch%v is %v, want %v", k.name, i, a, b, v, ca[i].minus(cb[i]))
			}
		}
		for i, v := range k.sketchView(sb) {
			if k.ok && v != cb[i] {
				x.Fail("%s: the sketch of %v was changed by subtracting it from that of %v", k.name, b, a)
			}
		}
		mod := &model{}
		for _, i := range a {
			mod.remote |= 1 << uint(i)
		}
		for _, i := range b {
			if mod.remote&(1<<uint(i)) != 0 {
				mod.remote &^= 1 << uint(i)
			} else {
				mod.local |= 1 << uint(i)
			}
		}
		for i := 0; i < m; i++ {
			mod.receive(u.pos[i])
		}
		mod.peel()
		for round := 0; round < 2; round++ {
			var r, l []riblt.HashedSymbol[T]
			var ok bool
			if p := mc.Catch(func() { r, l, ok = diff.Decode() }); p != nil {
				x.Fail("%s: decoding the difference of %v and %v: panic: %v", k.name, a, b, p)
			}
			ri, b1 := idsOf(r, u.by)
			li, b2 := idsOf(l, u.by)
			if ok != mod.done() || b1 || b2 || !eqInts(ri, bits(mod.kremote)) || !eqInts(li, bits(mod.klocal)) {
				x.Fail("%s: decoding (time %d) the %d-cell difference of %v and %v gives %v %v %v, peeling gives %v %v %v", k.name, round+1, m, a, b, ri, li, ok,
					bits(mod.kremote), bits(mod.klocal), mod.done())
			}
		}
		// the same through the rateless decoder
		enc, dec := riblt.Encoder[T]{}, riblt.Decoder[T]{}
		for _, i := range a {
			enc.AddSymbol(k.mk(u.cont[i]))
		}
		for _, i := range b {
			dec.AddSymbol(k.mk(u.cont[i]))
		}
		for i := 0; i < m; i++ {
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		}
		dec.TryDecode()
		u.compare(x, &dec, mod, func() string { return fmt.Sprintf("%d coded symbols of %v against %v", m, a, b) })
		x.Observe(mod.kremote<<32 | mod.klocal<<1)
		x.State(mc.HashString(fmt.Sprint(k.name, seed, m, a, b)))
	}}
}

// resets: a reset encoder or decoder behaves as a new one.
func resets[T sym[T]](k *kit[T], nsym, n, seeds int) mc.Config {
	cache := map[int]*uni[T]{}
	return mc.Config{Name: fmt.Sprintf("C12/resets/%s/symbols%d", k.name, nsym), Run: func(x *mc.X) {
		seed := x.Choose(seeds)
		u := cache[seed]
		if u == nil {
			u = newUni(k, seedHashes(seed+90, nsym), 40)
			cache[seed] = u
		}
		u.register()
		enc, dec := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
		rounds := 1 + x.Choose(2)
		hist := ""
		for r := 0; r < rounds; r++ {
			// partial use
			var sets [2][]int
			for i := 0; i < nsym; i++ {
				c := x.Choose(4)
				if c&1 != 0 {
					sets[0] = append(sets[0], i)
				}
				if c&2 != 0 {
					sets[1] = append(sets[1], i)
				}
			}
			used := x.Choose(n + 1)
			try := x.Choose(3)
			for _, i := range sets[0] {
				enc.AddSymbol(k.mk(u.cont[i]))
			}
			for _, i := range sets[1] {
				dec.AddSymbol(k.mk(u.cont[i]))
			}
			for i := 0; i < used; i++ {
				x.Op(1)
				dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
				if try == 2 || (try == 1 && i == used-1) {
					dec.TryDecode()
				}
			}
			enc.Reset()
			dec.Reset()
			if !dec.Decoded() || len(dec.Remote()) != 0 || len(dec.Local()) != 0 {
				x.Fail("%s: a reset decoder has decoded=%v %d remote %d local", k.name, dec.Decoded(), len(dec.Remote()), len(dec.Local()))
			}
			hist += fmt.Sprintf("[%v against %v, %d coded, attempts %d, reset] ", sets[0], sets[1], used, try)
			if rounds == 2 && r == 0 && (used == 0 && len(sets[0])+len(sets[1]) == 0) {
				x.Stop()
			}
		}
		fin := x.Choose(6)
		assign := make([]int, nsym)
		for i := range assign {
			assign[i] = []int{0x1b, 0xe4, 0x39, 0x00, 0x6f, 0x96}[fin] >> uint(2*(i%4)) & 3
		}
		mod := &model{}
		for i, a := range assign {
			if a&1 != 0 {
				enc.AddSymbol(k.mk(u.cont[i]))
			}
			if a&2 != 0 {
				dec.AddSymbol(k.mk(u.cont[i]))
			}
			if a == 1 {
				mod.remote |= 1 << uint(i)
			}
			if a == 2 {
				mod.local |= 1 << uint(i)
			}
		}
		lone := u.lone()
		for i := 0; i < 12; i++ {
			x.Op(1)
			c := enc.ProduceNextCodedSymbol()
			var want cell
			for s, a := range assign {
				if a&1 != 0 {
					want = want.plus(lone[s][i])
				}
			}
			if k.ok && k.view(&c) != want {
				x.Fail("%s: coded symbol %d after reset is %v, of a new encoder %v; sides %v, history %s", k.name, i, k.view(&c), want, assign, hist)
			}
			dec.AddCodedSymbol(c)
			mod.receive(u.pos[i])
			if i%2 == 0 {
				dec.TryDecode()
				mod.peel()
			}
			u.compare(x, dec, mod, func() string { return fmt.Sprintf("%d coded symbols after reset; sides %v, history %s", i+1, assign, hist) })
		}
		x.Observe(mc.HashString(hist))
	}}
}

// ------------------------------------------------------------ C13

const lcgMul = 0xda942042e4dd58b5

func inverse(m uint64) uint64 {
	x := m
	for i := 0; i < 6; i++ {
		x *= 2 - m*x
	}
	return x
}

// structured lists hash values that put the position generator into an
// extreme state at each of the first steps.
func structured(steps, width int) []uint64 {
	var vals []uint64
	for v := uint64(0); v < uint64(width); v++ {
		vals = append(vals, v, -v-1)
	}
	for b := uint(0); b < 64; b++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			vals = append(vals, 1<<b+d, -(1<<b)+d, 3<<b+d)
		}
	}
	for b := uint(0); b < 64; b++ { // around 2^64 - 2^b: where rounding to 64-bit floats happens
		for d := uint64(0); d < 4; d++ {
			vals = append(vals, -(1<<b)+d*(1<<(b/2)), -(1<<b)-d*(1<<(b/2)))
		}
	}
	inv := inverse(lcgMul)
	seen := map[uint64]bool{}
	var r []uint64
	for _, v := range vals {
		for s := 0; s <= steps; s++ {
			if !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
			v *= inv
		}
	}
	return r
}

func hashClasses[T sym[T]](k *kit[T], hs []uint64, n int, chunk int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C13/extreme-hashes/%s/%d/positions%d", k.name, len(hs), n), Split: 100, Run: func(x *mc.X) {
		groups := (len(hs) + chunk - 1) / chunk
		g := x.Choose(groups)
		for i := g * chunk; i < (g+1)*chunk && i < len(hs); i++ {
			oneHash(x, k, hs[i], n)
		}
	}}
}

func oneHash[T sym[T]](x *mc.X, k *kit[T], h uint64, n int) {
	what := "coding"
	defer func() {
		if r := recover(); r != nil {
			if mc.Own(r) {
				panic(r)
			}
			x.Fail("%s: hash %#x: %s panics: %v", k.name, h, what, r)
		}
	}()
	cont := universe([]uint64{h, mc.Mix(4711)})
	if !k.ok {
		x.Stop()
	}
	x.Op(4)
	s := k.mk(cont[0])
	// encoder
	what = "encoder"
	enc := riblt.Encoder[T]{}
	enc.AddSymbol(s)
	pos := make([]bool, n)
	alone := cell{cont[0], 1, h}
	coded := make([]riblt.CodedSymbol[T], n)
	npos := 0
	for i := 0; i < n; i++ {
		coded[i] = enc.ProduceNextCodedSymbol()
		v := k.view(&coded[i])
		if v != (cell{}) && v != alone {
			x.Fail("%s: hash %#x: coded symbol %d of the lone symbol is %v", k.name, h, i, v)
		}
		pos[i] = v != (cell{})
		if pos[i] {
			npos++
		}
	}
	if !pos[0] {
		x.Fail("%s: hash %#x is not mapped to coded symbol 0", k.name, h)
	}
	// sketch
	what = "sketch"
	sk := make(riblt.Sketch[T], n)
	sk.AddSymbol(s)
	for i, v := range k.sketchView(sk) {
		want := cell{}
		if pos[i] {
			want = alone
		}
		if v != want {
			x.Fail("%s: hash %#x: sketch cell %d is %v, the encoder's coded symbol is %v", k.name, h, i, v, want)
		}
	}
	// decoder that has the symbol
	what = "decoder"
	dec := riblt.Decoder[T]{}
	dec.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: s, Hash: h})
	for i := 0; i < n; i++ {
		dec.AddCodedSymbol(coded[i])
		if !dec.Decoded() {
			x.Fail("%s: hash %#x: a decoder that has the symbol disagrees with the encoder at coded symbol %d", k.name, h, i)
		}
	}
	dec.TryDecode()
	if len(dec.Remote())+len(dec.Local()) != 0 {
		x.Fail("%s: hash %#x: a decoder that has the symbol decodes something", k.name, h)
	}
	// decoder that recovers it, before and after receiving
	for _, after := range []int{1, n / 2, n} {
		dec.Reset()
		for i := 0; i < n; i++ {
			dec.AddCodedSymbol(coded[i])
			if i+1 == after {
				dec.TryDecode()
			}
			if i+1 >= after && !dec.Decoded() {
				x.Fail("%s: hash %#x: a decoder that recovered the symbol after %d coded symbols disagrees with the encoder at coded symbol %d", k.name, h, after, i)
			}
		}
		if len(dec.Remote()) != 1 || dec.Remote()[0].Symbol.content() != cont[0] {
			x.Fail("%s: hash %#x: the symbol was not recovered from %d coded symbols", k.name, h, after)
		}
	}
	// another symbol with the same hash, in company
	what = "encoder of two symbols"
	other := k.mk(contentOf(9999))
	hashes[contentOf(9999)] = h
	e2 := riblt.Encoder[T]{}
	e2.AddSymbol(k.mk(cont[1]))
	e2.AddSymbol(other)
	e3 := riblt.Encoder[T]{}
	e3.AddSymbol(k.mk(cont[1]))
	for i := 0; i < n && i < 300; i++ {
		a, b := e2.ProduceNextCodedSymbol(), e3.ProduceNextCodedSymbol()
		va, vb := k.view(&a), k.view(&b)
		if (va.count-vb.count == 1) != pos[i] || va.count-vb.count < 0 {
			x.Fail("%s: hash %#x: with another symbol present it is mapped to coded symbol %d: %v, alone: %v", k.name, h, i, va.count-vb.count == 1, pos[i])
		}
	}
	x.Observe(uint64(npos)<<20 ^ h)
	x.State(mc.Mix(h))
}

// ------------------------------------------------------------ C14

// density enumerates a complete grid of hash values and compares how often
// position i is hit with 1/(1+i/2).
func density[T sym[T]](k *kit[T], logn uint, offsets []uint64, npos int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C14/density/%s/2^%d/positions%d", k.name, logn, npos), Split: 3, Run: func(x *mc.X) {
		off := offsets[x.Choose(len(offsets))]
		hits := make([]int64, npos)
		n := uint64(1) << logn
		c := contentOf(0)
		universe([]uint64{0})
		if !k.ok {
			x.Stop()
		}
		s := k.mk(c)
		sk := make(riblt.Sketch[T], npos)
		for i := uint64(0); i < n; i++ {
			h := i<<(64-logn) + off
			sk.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: s, Hash: h})
			x.Op(1)
		}
		for i := range sk {
			hits[i] = k.view(&sk[i]).count
		}
		for i := range hits {
			want := 1 / (1 + float64(i)/2)
			got := float64(hits[i]) / float64(n)
			tol := 0.01 + 6*math.Sqrt(1/want/float64(n))
			if i > 0 {
				tol += 0.045 / float64(i)
			}
			if math.Abs(got/want-1) > tol {
				x.Fail("%s: position %d is hit by %.5f of the hashes, specified are 1/(1+%d/2)=%.5f (grid of 2^%d hashes, offset %#x)", k.name, i, got, i, want, logn, off)
			}
			x.Logf("%d %.5f %.5f %.4f", i, got, want, got/want-1)
		}
		for lo := 1; 2*lo <= len(hits); lo *= 2 {
			mean := 0.0
			for i := lo; i < 2*lo; i++ {
				mean += (float64(hits[i])/float64(n)*(1+float64(i)/2) - 1) / float64(lo)
			}
			if math.Abs(mean) > 0.004+0.045/float64(lo) {
				x.Fail("%s: positions %d to %d are hit %.2f%% more often than 1/(1+i/2) (grid of 2^%d hashes, offset %#x)", k.name, lo, 2*lo-1, 100*mean, logn, off)
			}
		}
		worst := 0.0
		for i := range hits {
			worst = math.Max(worst, math.Abs(float64(hits[i])/float64(n)*(1+float64(i)/2)-1))
		}
		if off == mc.Mix(0) {
			l := ""
			for i := 0; i < len(hits); i++ {
				l += fmt.Sprintf(" %.4f", float64(hits[i])/float64(n)*(1+float64(i)/2)-1)
			}
			x.Sample("%s", l)
		}
		x.Sample("offset %#x: largest relative deviation over %d positions %.4f", off, npos, worst)
		x.Observe(mc.HashString(fmt.Sprint(hits)))
		x.State(mc.HashString(fmt.Sprint(off, k.name)))
	}}
}

// bigResets: first uses of many sizes, with or without symbols, coded symbols
// and attempts, then a second use compared with that of new instances.
func bigResets[T sym[T]](k *kit[T], list []int) mc.Config {
	var us [2]*uni[T]
	return mc.Config{Name: "C12/reset-grid/" + k.name, Split: 100, Run: func(x *mc.X) {
		n1, m1 := list[x.Choose(len(list))], list[x.Choose(len(list))]
		try := x.Choose(3) // attempts in the first use: none, at the end, always
		n2 := []int{1, 4, 16, 60}[x.Choose(4)]
		side := x.Choose(3) // first use: all on both sides, all remote, spread
		if us[0] == nil {
			us[0], us[1] = newUni(k, seedHashes(777, 64), 300), newUni(k, seedHashes(778, 64), 300)
		}
		old, u := us[0], us[1]
		old.register()
		enc, dec := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
		for i := 0; i < n1; i++ {
			c := contentOf(100000 + i)
			if side != 2 || i%3 != 1 {
				enc.AddSymbol(k.mk(c))
			}
			if side == 0 || side == 2 && i%3 != 0 {
				dec.AddSymbol(k.mk(c))
			}
		}
		for i := 0; i < m1; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			if try == 2 {
				dec.TryDecode()
			}
		}
		if try == 1 {
			dec.TryDecode()
		}
		enc.Reset()
		dec.Reset()
		hist := fmt.Sprintf("first use: %d symbols (placed %d), %d coded symbols, attempts %d", n1, side, m1, try)
		if !dec.Decoded() || len(dec.Remote()) != 0 || len(dec.Local()) != 0 {
			x.Fail("%s: a reset decoder has decoded=%v %d remote %d local; %s", k.name, dec.Decoded(), len(dec.Remote()), len(dec.Local()), hist)
		}
		u.register()
		assign := make([]int, 64)
		mod := &model{}
		for i := 0; i < n2; i++ {
			a := 1 + i%3
			assign[i] = a
			if a&1 != 0 {
				enc.AddSymbol(k.mk(u.cont[i]))
			}
			if a&2 != 0 {
				dec.AddSymbol(k.mk(u.cont[i]))
			}
			if a == 1 {
				mod.remote |= 1 << uint(i)
			}
			if a == 2 {
				mod.local |= 1 << uint(i)
			}
		}
		lone := u.lone()
		steps := 12 + 3*n2
		for i := 0; i < steps; i++ {
			x.Op(1)
			c := enc.ProduceNextCodedSymbol()
			var want cell
			for s, a := range assign {
				if a&1 != 0 {
					want = want.plus(lone[s][i])
				}
			}
			if k.ok && k.view(&c) != want {
				x.Fail("%s: coded symbol %d after reset is %v, of a new encoder %v; %s", k.name, i, k.view(&c), want, hist)
			}
			dec.AddCodedSymbol(c)
			mod.receive(u.pos[i])
			if i%4 == 3 {
				dec.TryDecode()
				mod.peel()
			}
			u.compare(x, dec, mod, func() string { return fmt.Sprintf("%d coded symbols of %d symbols after reset; %s", i+1, n2, hist) })
		}
		x.State(mc.HashString(hist))
		x.Observe(mc.HashString(hist))
	}}
}
