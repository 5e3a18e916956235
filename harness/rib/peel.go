package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// model is the reference: every received cell as the set of unknown symbols
// still in it (bit sets over the universe).
type model struct {
	cells    []uint64 // unknown symbols of the difference in each received cell
	remote   uint64   // in the difference, sender side
	local    uint64
	kremote  uint64 // recovered
	klocal   uint64
}

func (m *model) receive(pos uint64) { m.cells = append(m.cells, pos&(m.remote|m.local)&^(m.kremote|m.klocal)) }

func (m *model) peel() {
	for again := true; again; {
		again = false
		for _, c := range m.cells {
			if c != 0 && c&(c-1) == 0 {
				if c&m.remote != 0 {
					m.kremote |= c
				} else {
					m.klocal |= c
				}
				for i := range m.cells {
					m.cells[i] &^= c
				}
				again = true
			}
		}
	}
}

func (m *model) done() bool {
	for _, c := range m.cells {
		if c != 0 {
			return false
		}
	}
	return true
}

func bits(s uint64) (r []int) {
	for i := 0; i < 64; i++ {
		if s&(1<<uint(i)) != 0 {
			r = append(r, i)
		}
	}
	return
}

type uni[T sym[T]] struct {
	k    *kit[T]
	hs   []uint64
	cont [][2]uint64
	by   map[[2]uint64]int
	pos  []uint64 // pos[i]: bit set of the symbols mapped to position i
	n    int
}

func newUni[T sym[T]](k *kit[T], hs []uint64, n int) *uni[T] {
	u := &uni[T]{k: k, hs: hs, n: n, cont: universe(hs)}
	u.by = index(u.cont)
	u.pos = make([]uint64, n)
	for s := range hs {
		for i, p := range k.positions(k.mk(u.cont[s]), n) {
			if p {
				u.pos[i] |= 1 << uint(s)
			}
		}
	}
	return u
}

func (u *uni[T]) register() {
	if len(hashes) != len(u.cont) || hashes[u.cont[0]] != u.hs[0] || hashes[u.cont[len(u.cont)-1]] != u.hs[len(u.hs)-1] {
		universe(u.hs)
	}
}

// compare checks the decoder against the model.
func (u *uni[T]) compare(x *mc.X, d *riblt.Decoder[T], m *model, where func() string) {
	if got := d.Decoded(); got != m.done() {
		x.Fail("%s: Decoded()=%v, reference %v, %s", u.k.name, got, m.done(), where())
	}
	r, bad1 := idsOf(d.Remote(), u.by)
	l, bad2 := idsOf(d.Local(), u.by)
	if !eqInts(r, bits(m.kremote)) || !eqInts(l, bits(m.klocal)) || bad1 || bad2 {
		x.Fail("%s: remote %v local %v (wrong hash: %v), peeling gives remote %v local %v, %s", u.k.name, r, l, bad1 || bad2, bits(m.kremote), bits(m.klocal), where())
	}
}

func (u *uni[T]) sides(assign []int) (rem, loc uint64, enc *riblt.Encoder[T], dec *riblt.Decoder[T]) {
	enc, dec = &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
	for i, a := range assign {
		s := u.k.mk(u.cont[i])
		switch a {
		case 1:
			rem |= 1 << uint(i)
			enc.AddSymbol(s)
		case 2:
			loc |= 1 << uint(i)
			dec.AddSymbol(s)
		case 3:
			enc.AddSymbol(s)
			dec.AddSymbol(u.k.mk(u.cont[i]))
		}
	}
	return
}

// scheduled explores all sets of nsym symbols, each with any pattern over the
// first m positions and on any side, and all schedules of decoding attempts.
func scheduled[T sym[T]](k *kit[T], m, nsym int, both bool) mc.Config {
	var pats [][]uint64
	return mc.Config{Name: fmt.Sprintf("C11/patterns/%s/symbols%d/cells%d", k.name, nsym, m), Run: func(x *mc.X) {
		if pats == nil {
			pats = patternHashes(m, nsym)
		}
		var hs []uint64
		assign := []int{}
		lastPat, lastSide := 0, 0
		names := []string{}
		for s := 0; s < nsym; s++ {
			// symbols are interchangeable: patterns in non-decreasing order
			p := lastPat + x.Choose(len(pats)-lastPat)
			ns := 2
			if both {
				ns = 3
			}
			lo := 0
			if p == lastPat {
				lo = lastSide
			}
			a := lo + x.Choose(ns-lo)
			if len(pats[p]) <= s {
				x.Count("pattern_not_found", 1)
				x.Stop()
			}
			hs = append(hs, pats[p][s])
			assign = append(assign, a+1)
			names = append(names, fmt.Sprintf("pattern %b side %d", p<<1|1, a+1))
			lastPat, lastSide = p, a
		}
		cont := universe(hs)
		u := &uni[T]{k: k, hs: hs, n: m, cont: cont, by: index(cont), pos: make([]uint64, m)}
		for s := range hs {
			h := hs[s]
			_ = h
			for i, p := range k.positions(k.mk(cont[s]), m) {
				if p {
					u.pos[i] |= 1 << uint(s)
				}
			}
		}
		rem, loc, enc, dec := u.sides(assign)
		mod := &model{remote: rem, local: loc}
		sched := []bool{}
		where := func() string {
			return fmt.Sprintf("after %d coded symbols, attempts %v; symbols %v", len(mod.cells), sched, names)
		}
		for i := 0; i < m; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			mod.receive(u.pos[i])
			u.compare(x, dec, mod, where)
			try := i == m-1 || x.Bool()
			sched = append(sched, try)
			if try {
				dec.TryDecode()
				mod.peel()
				u.compare(x, dec, mod, where)
			}
			x.State(mc.HashString(fmt.Sprint(mod.cells, mod.kremote, mod.klocal)))
		}
		dec.TryDecode()
		u.compare(x, dec, mod, where)
		x.Observe(mod.kremote<<32 | mod.klocal)
	}}
}

// assignments explores all assignments of a universe to the sides and all
// periodic schedules, to completion.
func assignments[T sym[T]](prop string, k *kit[T], nsym int, seeds int, limit int) mc.Config {
	cache := map[int]*uni[T]{}
	return mc.Config{Name: fmt.Sprintf("%s/assignments/%s/symbols%d", prop, k.name, nsym), Run: func(x *mc.X) {
		seed := x.Choose(seeds)
		assign := make([]int, nsym)
		for i := range assign {
			assign[i] = x.Choose(4)
		}
		period := 1 + x.Choose(4)
		first := x.Choose(4)
		u := cache[seed]
		if u == nil {
			hs := make([]uint64, nsym)
			for i := range hs {
				hs[i] = mc.Mix(uint64(seed*1000 + i))
			}
			u = newUni(k, hs, limit)
			cache[seed] = u
		}
		u.register()
		rem, loc, enc, dec := u.sides(assign)
		mod := &model{remote: rem, local: loc}
		where := func() string {
			return fmt.Sprintf("after %d coded symbols; sides %v (1 remote 2 local 3 both), attempt after every %d starting at %d", len(mod.cells), assign, period, first)
		}
		after := -1
		for i := 0; i < limit; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			mod.receive(u.pos[i])
			if i >= first && (i-first)%period == 0 {
				dec.TryDecode()
				mod.peel()
			}
			u.compare(x, dec, mod, where)
			if dec.Decoded() && (mod.kremote != rem || mod.klocal != loc) {
				x.Fail("%s: completed with remote %v of %v, local %v of %v, %s", k.name, bits(mod.kremote), bits(rem), bits(mod.klocal), bits(loc), where())
			}
			if dec.Decoded() && after < 0 {
				after = i
				x.Observe(uint64(i) + 1)
			}
			if after >= 0 && i >= after+6 {
				break
			}
		}
		x.State(mc.HashString(fmt.Sprint(k.name, seed, rem, loc, after)))
		if after < 0 {
			x.Fail("%s: not complete, %s", k.name, where())
		}
		if after >= 5 {
			x.Sample("sides %v complete after %d coded symbols", assign, after+1)
		}
	}}
}

// sizes reconciles larger sets of every combination of sizes.
func sizes[T sym[T]](k *kit[T], list []int, periods []int, more int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C10/sizes/%s/upto%d/after%d", k.name, list[len(list)-1], more), Split: 100, Run: func(x *mc.X) {
		nr, nl, nc := list[x.Choose(len(list))], list[x.Choose(len(list))], list[x.Choose(len(list))]
		period := periods[x.Choose(len(periods))]
		hashed := x.Bool()
		if nr+nl+nc > 0 {
			hs := make([]uint64, nr+nl+nc)
			for i := range hs {
				hs[i] = mc.Mix(uint64(i) + 31337)
			}
			universe(hs)
		}
		enc, dec := riblt.Encoder[T]{}, riblt.Decoder[T]{}
		by := map[[2]uint64]int{}
		for i := 0; i < nr+nl+nc; i++ {
			c := contentOf(i)
			by[c] = i
			s := k.mk(c)
			h := riblt.HashedSymbol[T]{Symbol: s, Hash: s.Hash()}
			if i < nr || i >= nr+nl {
				if hashed {
					enc.AddHashedSymbol(h)
				} else {
					enc.AddSymbol(s)
				}
			}
			if i >= nr {
				if hashed {
					dec.AddHashedSymbol(h)
				} else {
					dec.AddSymbol(s)
				}
			}
		}
		limit := 200 + 40*(nr+nl)
		check := func(n int) {
			r, b1 := idsOf(dec.Remote(), by)
			l, b2 := idsOf(dec.Local(), by)
			bad := b1 || b2 || len(r) != nr || len(l) != nl
			for i := range r {
				bad = bad || r[i] != i
			}
			for i := range l {
				bad = bad || l[i] != nr+i
			}
			if bad {
				x.Fail("%s: %d remote, %d local, %d common symbols: complete after %d coded symbols (attempts every %d) with remote %v local %v", k.name, nr, nl, nc, n, period, r, l)
			}
		}
		for i := 0; ; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			if (i+1)%period == 0 {
				dec.TryDecode()
			}
			if dec.Decoded() {
				check(i + 1)
				for j := 0; j < more; j++ {
					dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
					if j%3 == 0 {
						dec.TryDecode()
					}
					if !dec.Decoded() {
						x.Fail("%s: %d/%d/%d: no longer complete after %d more coded symbols", k.name, nr, nl, nc, j+1)
					}
				}
				check(i + 1 + more)
				x.Observe(uint64(i) + 1)
				x.State(mc.HashString(fmt.Sprint(k.name, nr, nl, nc, i)))
				return
			}
			if i > limit {
				x.Fail("%s: %d remote, %d local, %d common symbols: not complete after %d coded symbols", k.name, nr, nl, nc, i)
			}
		}
	}}
}

// nearPure: cells that mix three symbols but whose content hashes to almost
// the checksum (one bit apart) are not pure.
func nearPure[T sym[T]](k *kit[T]) mc.Config {
	return mc.Config{Name: "C10/almost-pure/" + k.name, Solo: true, Run: func(x *mc.X) {
		bit := x.Choose(64)
		form := x.Choose(6)
		try := x.Bool()
		hs := []uint64{mc.Mix(501), mc.Mix(502), mc.Mix(503)}
		u := newUni(k, hs, 400)
		assign := [][]int{{1, 1, 2}, {2, 2, 1}, {1, 2, 1}, {2, 1, 2}, {1, 2, 0}, {2, 1, 0}}[form]
		var mix [2]uint64
		check := uint64(0)
		for i, a := range assign {
			if a != 0 {
				mix[0] ^= u.cont[i][0]
				mix[1] ^= u.cont[i][1]
				check ^= hs[i]
			}
		}
		hashes[mix] = check ^ 1<<uint(bit)
		defer universe(hs)
		rem, loc, enc, dec := u.sides(assign)
		mod := &model{remote: rem, local: loc}
		where := func() string {
			return fmt.Sprintf("after %d coded symbols; sides %v; the content of coded symbol 0 hashes to its checksum except for bit %d", len(mod.cells), assign, bit)
		}
		for i := 0; i < 400; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			mod.receive(u.pos[i])
			if try || i%5 == 4 {
				dec.TryDecode()
				mod.peel()
			}
			u.compare(x, dec, mod, where)
			if dec.Decoded() && i > 5 {
				break
			}
		}
		x.Observe(uint64(bit*6 + form))
		if !dec.Decoded() || mod.kremote != rem || mod.klocal != loc {
			x.Fail("%s: not reconciled, %s", k.name, where())
		}
	}}
}

// wide compares the decoder with the reference after every coded symbol, for
// sets of up to 64 symbols and many schedules of attempts.
func wide[T sym[T]](prop string, k *kit[T], list []int, seeds int) mc.Config {
	cache := map[int]*uni[T]{}
	return mc.Config{Name: fmt.Sprintf("%s/wide/%s", prop, k.name), Split: 100, Run: func(x *mc.X) {
		nr, nl, nc := list[x.Choose(len(list))], list[x.Choose(len(list))], list[x.Choose(len(list))]
		if nr+nl+nc == 0 || nr+nl+nc > 64 {
			x.Stop()
		}
		period := []int{1, 2, 3, 7, 16, 50}[x.Choose(6)]
		seed := x.Choose(seeds)
		const limit = 260
		u := cache[seed]
		if u == nil {
			u = newUni(k, seedHashes(seed+400, 64), limit)
			cache[seed] = u
		}
		u.register()
		assign := make([]int, 64)
		for i := range assign {
			switch {
			case i < nr:
				assign[i] = 1
			case i < nr+nl:
				assign[i] = 2
			case i < nr+nl+nc:
				assign[i] = 3
			}
		}
		rem, loc, enc, dec := u.sides(assign)
		mod := &model{remote: rem, local: loc}
		where := func() string {
			return fmt.Sprintf("%d remote, %d local, %d common symbols, after %d coded symbols, attempt after every %d", nr, nl, nc, len(mod.cells), period)
		}
		done := 0
		for i := 0; i < limit && done < 12; i++ {
			x.Op(1)
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			mod.receive(u.pos[i])
			if (i+1)%period == 0 {
				dec.TryDecode()
				mod.peel()
			}
			u.compare(x, dec, mod, where)
			if mod.done() {
				done++
			}
		}
		x.State(mc.HashString(fmt.Sprint(k.name, seed, nr, nl, nc)))
		x.Observe(mod.kremote ^ mod.klocal<<1 ^ uint64(len(mod.cells)))
	}}
}
