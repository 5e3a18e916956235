package main

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// collide finds two transactions with the same short hash under salt, by
// asking encoders (birthday search), cached per codec.
var collisions = map[string][2]uint64{}

func collide(c *Codec) (a, b uint64, ok bool) {
	if p, there := collisions[c.Name]; there {
		return p[0], p[1], p[0] != 0
	}
	seen := make(map[uint32]uint64, 1<<18)
	for id := uint64(1000); id < 1000+600000; id++ {
		s, readable := c.short(c.NewTx(id), salt)
		if !readable {
			break
		}
		if o, there := seen[s]; there {
			collisions[c.Name] = [2]uint64{o, id}
			return o, id, true
		}
		seen[s] = id
	}
	collisions[c.Name] = [2]uint64{}
	return 0, 0, false
}

// corrupt returns a copy of a codeword with a spoiled payload and, if header
// is not nil, another header.
func corrupt(cw any, header []uint32, spoil bool) (any, bool) {
	v := reflect.ValueOf(cw)
	isPtr := v.Kind() == reflect.Pointer
	if isPtr {
		v = v.Elem()
	}
	n := reflect.New(v.Type())
	n.Elem().Set(v)
	e := n.Elem()
	done := 0
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Interface()
		switch s := p.(type) {
		case *[]uint32:
			if header != nil {
				*s = append([]uint32{}, header...)
			}
			done++
		case *vsym:
			if spoil {
				s.a ^= 0x1234567
			}
			done++
		case **psym:
			q := psym{}
			if *s != nil {
				q = **s
			}
			if spoil {
				q[3] ^= 0x55
			}
			*s = &q
			done++
		case *ldpc.TransactionData:
			if spoil {
				s[77] ^= 0x55
			}
			done++
		}
	}
	if isPtr {
		return n.Interface(), done == 2
	}
	return e.Interface(), done == 2
}

// conflicts enumerates all histories over an alphabet with two transactions
// (0 and 1) sharing a short hash and with codewords whose payload does not
// match their header.
func conflicts(c *Codec, depth int, mems []int, release bool) mc.Config {
	title := "conflicts"
	if release {
		title = "conflicts and releases"
	}
	type act struct {
		name string
		toks set // short hashes (as token numbers) in the header
		txs  []int
		bad  bool
		cw   any
		add  int
	}
	var u *Universe
	var acts []act
	build := func(x *mc.X) bool {
		if acts != nil {
			return true
		}
		a, b, ok := collide(c)
		if !ok {
			return false
		}
		u = c.universe(a, b, 1, 2)
		tok := []int{0, 0, 1, 2}
		mkcw := func(idx ...int) any { return u.codewordOf(idx) }
		list := [][]int{{0}, {1}, {2}, {3}, {0, 2}, {1, 2}, {0, 3}, {2, 3}, {1, 3}, {0, 2, 3}, {1, 2, 3}}
		for _, l := range list {
			s := set{}
			for _, i := range l {
				s.add(tok[i])
			}
			acts = append(acts, act{name: fmt.Sprint("codeword", l), toks: s, txs: l, cw: mkcw(l...), add: -1})
		}
		for i := 0; i < 4; i++ {
			acts = append(acts, act{name: fmt.Sprint("add ", i), toks: mkset(tok[i]), txs: []int{i}, add: i})
		}
		bad := func(name string, s set, cw any, hdr []uint32, spoil bool) {
			if q, ok := corrupt(cw, hdr, spoil); ok {
				acts = append(acts, act{name: name, toks: s, bad: true, cw: q, add: -1})
			}
		}
		bad("corrupt[2]", mkset(1), mkcw(2), nil, true)
		bad("corrupt[0]", mkset(0), mkcw(0), nil, true)
		bad("corrupt[2 3]", mkset(1, 2), mkcw(2, 3), nil, true)
		bad("corrupt[0 2]", mkset(0, 1), mkcw(0, 2), nil, true)
		bad("corrupt[0 2 3]", mkset(0, 1, 2), mkcw(0, 2, 3), nil, true)
		bad("header of 3 on payload of 2", mkset(2), mkcw(2), []uint32{u.short[3]}, false)
		bad("unknown header", mkset(3), mkcw(2), []uint32{u.short[2] ^ 0x77777777}, false)
		bad("unknown header with 3", mkset(2, 4), mkcw(2, 3), []uint32{u.short[3], u.short[2] ^ 0x55555555}, false)
		bad("empty header", set{}, mkcw(2), []uint32{}, false)
		return true
	}
	tok := []int{0, 0, 1, 2}
	return mc.Config{Name: fmt.Sprintf("C06/%s/%s/depth%d", title, c.Name, depth), Run: func(x *mc.X) {
		fresh()
		if !build(x) {
			x.Count("no_collision_available", 1)
			x.Stop()
		}
		mem := mems[x.Choose(len(mems))]
		bounded := mem < 50
		// 0: release nothing, 1: on arrival, 2: when finished, 3: every second one on arrival
		rel := 0
		if release {
			rel = 1 + x.Choose(3)
		}
		type rcw struct {
			rem   set
			bad   bool
			zero  bool // contains the contested short hash
			stub  Stub
			done  bool
			freed bool
			name  string
		}
		d := c.NewDec(salt, mem)
		var cws []*rcw
		known := set{} // short hashes known
		seen := [2]bool{}
		var hist []string
		fail := func(f string, a ...any) {
			x.Fail("%s memory %d: %s\nhistory: %v (0 and 1 share a short hash)", c.Name, mem, fmt.Sprintf(f, a...), hist)
		}
		learn := func(t int) {
			known.add(t)
			for _, w := range cws {
				if !w.done {
					w.rem.del(t)
				}
			}
		}
		headers := set{}
		for step := 0; step < depth; step++ {
			op := x.Choose(1 + len(acts))
			if op == 0 {
				break
			}
			a := &acts[op-1]
			hist = append(hist, a.name)
			x.Op(1)
			for _, i := range a.txs {
				if i < 2 {
					seen[i] = true
				}
			}
			var outs []Out
			var w *rcw
			if a.add >= 0 {
				outs = d.AddTx(u.tx[a.add])
				learn(tok[a.add])
			} else {
				w = &rcw{rem: a.toks, bad: a.bad, name: a.name}
				w.zero = a.toks.has(0)
				for _, t := range a.toks.list() {
					headers.add(t)
					if known.has(t) {
						w.rem.del(t)
					}
				}
				cwObj := a.cw
				if c.Ptr { // the decoder may own what it is given here; sharing is another property
					cwObj, _ = corrupt(a.cw, nil, false)
				}
				w.stub, outs = d.AddCW(cwObj)
				cws = append(cws, w)
				if rel == 1 || rel == 3 && len(cws)%2 == 1 {
					w.freed = true
					c.Free(w.stub)
				}
			}
			tainted := seen[0] && seen[1]
			for _, o := range outs {
				i, ok := u.byCont[o.Content]
				if !ok {
					fail("output a transaction nobody encoded: %x", o.Content)
				}
				t := tok[i]
				if !headers.has(t) {
					fail("output transaction %d although no codeword mentioned it", i)
				}
				if known.has(t) && !bounded {
					fail("output transaction %d whose short hash it already knew", i)
				}
				learn(t)
				x.Observe(uint64(i) + 1)
			}
			if bounded {
				continue
			}
			// containment
			for _, w := range cws {
				if w.done {
					continue
				}
				spoiled := w.bad || (w.zero && tainted)
				n := w.rem.size()
				if !spoiled {
					if n == 1 {
						fail("clean %s leaves %v unknown although it determines it", w.name, w.rem)
					}
					if !w.freed && w.stub.Decoded() != (n == 0) {
						fail("clean %s reports decoded=%v with unknown %v", w.name, w.stub.Decoded(), w.rem)
					}
				} else {
					if !w.freed && w.stub.Decoded() != (n <= 1) {
						fail("spoiled %s reports finished=%v with unknown %v", w.name, w.stub.Decoded(), w.rem)
					}
					if n <= 1 {
						w.done = true
					}
				}
				if rel == 2 && !w.freed && n == 0 {
					w.freed = true
					c.Free(w.stub)
				}
			}
			for i := range u.tx {
				if got, ok := d.Has(u.tx[i]); ok && i >= 2 && got != known.has(tok[i]) {
					fail("HasDecoded(%d)=%v", i, got)
				}
			}
			h := mc.HashString(fmt.Sprint(c.Name, known, tainted))
			for _, w := range cws {
				h += mc.HashString(fmt.Sprint(w.rem, w.bad, w.done))
			}
			x.State(h)
		}
		// whatever happened, both sides of the conflict and the others still decode afterwards
		x.Observe(mc.HashString(fmt.Sprint(hist)))
		x.Sample("memory %d %v", mem, hist)
	}}
}

// encConflicts: the encoder refuses a transaction whose short hash is in its window.
func encConflicts(c *Codec, depth int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C06/encoder/%s/depth%d", c.Name, depth), Run: func(x *mc.X) {
		fresh()
		a, b, ok := collide(c)
		if !ok {
			x.Stop()
		}
		u := c.universe(a, b, 1, 2, 3)
		W := 1 + x.Choose(3)
		e := c.NewEnc(salt, &lcg{s: 3}, W)
		var list []int
		var hist []string
		for step := 0; step < depth; step++ {
			op := x.Choose(1 + len(u.tx) + 1)
			if op == 0 {
				break
			}
			x.Op(1)
			if op == len(u.tx)+1 {
				e.Reset(W)
				list = nil
				hist = append(hist, "reset")
				continue
			}
			i := op - 1
			want := true
			for _, k := range list {
				if u.short[k] == u.short[i] {
					want = false
				}
			}
			hist = append(hist, fmt.Sprint("add ", i))
			if got := e.Add(u.tx[i]); got != want {
				x.Fail("%s: adding %d returned %v with window %v of size %d (0 and 1 share a short hash); history %v", c.Name, i, got, list, W, hist)
			}
			if want {
				list = append(list, i)
				if len(list) > W {
					list = list[1:]
				}
			}
			x.State(mc.HashString(fmt.Sprint(c.Name, W, list)))
		}
		if len(list) > 0 {
			payload, members, ok := view(e.Produce(len(list)))
			if ok {
				xor := ""
				for _, k := range list {
					xor = xorStr(xor, u.content[k])
				}
				if payload != xor || len(members) != len(list) {
					x.Fail("%s: codeword does not combine the window %v; history %v", c.Name, list, hist)
				}
			}
		}
		x.Observe(mc.HashString(fmt.Sprint(list)))
	}}
}

// nearPairs finds, for every bit, two transactions whose short hashes differ
// in that bit only.
var nearCache = map[string][][2]uint64{}

func nearPairs(c *Codec) [][2]uint64 {
	if p, there := nearCache[c.Name]; there {
		return p
	}
	const n = 300000
	seen := make(map[uint32]uint64, n)
	res := make([][2]uint64, 32)
	left := 32
	for id := uint64(1000); id < 1000+2*n && left > 0; id++ {
		s, readable := c.short(c.NewTx(id), salt)
		if !readable {
			break
		}
		for b := 0; b < 32; b++ {
			if res[b][0] == 0 {
				if o, there := seen[s^1<<uint(b)]; there {
					res[b] = [2]uint64{o, id}
					left--
				}
			}
		}
		seen[s] = id
	}
	nearCache[c.Name] = res
	return res
}

// nearConflicts: short hashes that differ in one bit are different short hashes.
func nearConflicts(c *Codec) mc.Config {
	return mc.Config{Name: "C06/one-bit-apart/" + c.Name, Solo: true, Run: func(x *mc.X) {
		fresh()
		pairs := nearPairs(c)
		b := x.Choose(32)
		swap := x.Choose(2)
		form := x.Choose(6)
		if pairs[b][0] == 0 {
			x.Count("no_pair_for_bit", 1)
			x.Stop()
		}
		u := c.universe(pairs[b][swap], pairs[b][1-swap], 1, 2)
		own := func(cw any) any {
			if c.Ptr {
				cw, _ = corrupt(cw, nil, false)
			}
			return cw
		}
		fail := func(f string, a ...any) {
			x.Fail("%s: short hashes %08x (transaction 0) and %08x (transaction 1) differ in bit %d: %s", c.Name, u.short[0], u.short[1], b, fmt.Sprintf(f, a...))
		}
		outs := func(o []Out) (r []int) {
			for _, t := range o {
				i, ok := u.byCont[t.Content]
				if !ok {
					i = -1
				}
				r = append(r, i)
			}
			return
		}
		d := c.NewDec(salt, 100)
		x.Op(4)
		switch form {
		case 0: // the payload belongs to another transaction than the header
			cw, ok := corrupt(u.codewordOf([]int{1}), []uint32{u.short[0]}, false)
			if !ok {
				x.Stop()
			}
			s, o := d.AddCW(cw)
			if len(o) != 0 || !s.Decoded() {
				fail("a codeword of 1 with the header of 0 yields %v, finished %v", outs(o), s.Decoded())
			}
			_, o = d.AddCW(own(u.codewordOf([]int{0})))
			if fmt.Sprint(outs(o)) != "[0]" {
				fail("afterwards codeword [0] yields %v", outs(o))
			}
			_, o = d.AddCW(own(u.codewordOf([]int{1, 2})))
			if len(o) != 0 {
				fail("afterwards codeword [1 2] yields %v", outs(o))
			}
		case 1: // both fit in one window
			e := c.NewEnc(salt, &lcg{s: 3}, 3)
			for i := 0; i < 3; i++ {
				if !e.Add(u.tx[i]) {
					fail("the encoder refuses transaction %d", i)
				}
			}
			for i := 0; i < 3; i++ {
				if e.Add(u.tx[i]) {
					fail("the encoder accepts transaction %d twice", i)
				}
			}
		case 2: // one known, the other not
			d.AddTx(u.tx[0])
			s, o := d.AddCW(own(u.codewordOf([]int{1})))
			if fmt.Sprint(outs(o)) != "[1]" || !s.Decoded() {
				fail("knowing 0, codeword [1] yields %v", outs(o))
			}
			s, o = d.AddCW(own(u.codewordOf([]int{0, 1, 2})))
			if fmt.Sprint(outs(o)) != "[2]" || !s.Decoded() {
				fail("knowing 0 and 1, codeword [0 1 2] yields %v", outs(o))
			}
		case 3: // pending on one, the other arrives
			s, _ := d.AddCW(own(u.codewordOf([]int{0, 2})))
			o := d.AddTx(u.tx[1])
			if len(o) != 0 || s.Decoded() {
				fail("codeword [0 2], then transaction 1: yields %v, finished %v", outs(o), s.Decoded())
			}
			o = d.AddTx(u.tx[0])
			if fmt.Sprint(outs(o)) != "[2]" || !s.Decoded() {
				fail("then transaction 0: yields %v, finished %v", outs(o), s.Decoded())
			}
		case 4: // both in one codeword
			s, _ := d.AddCW(own(u.codewordOf([]int{0, 1})))
			o := d.AddTx(u.tx[0])
			if fmt.Sprint(outs(o)) != "[1]" || !s.Decoded() {
				fail("codeword [0 1], then transaction 0: yields %v", outs(o))
			}
			if o = d.AddTx(u.tx[1]); len(o) != 0 {
				fail("transaction 1 again yields %v", outs(o))
			}
		case 5:
			d.AddTx(u.tx[0])
			for i := range u.tx {
				if got, ok := d.Has(u.tx[i]); ok && got != (i == 0) {
					fail("knowing 0 only, HasDecoded(%d)=%v", i, got)
				}
			}
			d.AddTx(u.tx[1])
			for i := range u.tx {
				if got, ok := d.Has(u.tx[i]); ok && got != (i < 2) {
					fail("knowing 0 and 1 only, HasDecoded(%d)=%v", i, got)
				}
			}
		}
		x.Observe(uint64(b*12 + swap*6 + form))
	}}
}
