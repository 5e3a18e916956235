package main

import (
	"fmt"
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/iblt"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/deep"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// fromCaller wraps a caller-owned symbol and returns a function that
// overwrites the caller's object.
func (c *Codec) fromCaller(id uint64) (tx any, scribble func()) {
	switch c.Name {
	case "lt/pointer":
		p := mkP(id)
		return lt.NewTransaction[*psym](p), func() {
			for i := range p {
				p[i] ^= 0xff
			}
		}
	case "iblt/pointer":
		p := mkP(id)
		return iblt.NewTransaction[*psym](p), func() {
			for i := range p {
				p[i] ^= 0xff
			}
		}
	case "ldpc":
		d := ldData(id)
		t := &ldpc.Transaction{}
		if err := t.UnmarshalBinary(d[:]); err != nil {
			panic(err)
		}
		return t, func() {
			for i := range d {
				d[i] ^= 0xff
			}
		}
	}
	return c.NewTx(id), func() {}
}

// sharing enumerates histories in which two encoders and two decoders use the
// same transactions, codewords and returned transactions. After each step
// every object ever handed over or returned must be bit-for-bit unchanged.
func sharing(c *Codec, depth int) mc.Config {
	return mc.Config{Name: fmt.Sprintf("C08/sharing/%s/depth%d", c.Name, depth), Run: func(x *mc.X) {
		fresh()
		n := 3
		var ids []uint64
		for i := 1; i <= n; i++ {
			ids = append(ids, uint64(i))
		}
		u := c.universe(ids...)
		var scribbles []func()
		for i := range u.tx {
			var s func()
			u.tx[i], s = c.fromCaller(ids[i])
			scribbles = append(scribbles, s)
		}
		type obj struct {
			o    any
			snap uint64
			what string
		}
		var objs []obj
		keep := func(o any, what string) { objs = append(objs, obj{o, deep.Hash(o), what}) }
		for i := range u.tx {
			keep(u.tx[i], fmt.Sprint("transaction ", i))
		}
		var encs []Enc
		for i := 0; i < 2; i++ {
			e := c.NewEnc(salt, rand.NewSource(int64(5+i)), 3)
			for k := range u.tx {
				e.Add(u.tx[k])
			}
			encs = append(encs, e)
		}
		var locks []*lock
		for i := 0; i < 2; i++ {
			locks = append(locks, newLock(x, u, 10))
		}
		type cwObj struct {
			cw any
			s  set
			ok bool
		}
		var cws []cwObj
		var returned []Out
		var hist []string
		check := func() {
			for _, o := range objs {
				if deep.Hash(o.o) != o.snap {
					x.Fail("%s: %s was modified by: %v", c.Name, o.what, hist)
				}
			}
		}
		outs := func(l *lock, os []Out) {
			l.history = hist
			l.outputs(os)
			for _, o := range os {
				returned = append(returned, o)
				keep(o.Tx, fmt.Sprint("returned transaction ", u.byCont[o.Content]))
			}
			l.observe()
		}
		for step := 0; step < depth; step++ {
			ncw := len(cws)
			nprod := 0
			if ncw < 3 {
				nprod = 5 // degrees 1,2,3 of encoder 0, 1,2 of encoder 1
			}
			nret := len(returned)
			if nret > 2 {
				nret = 2
			}
			op := x.Choose(1 + nprod + 2*ncw + 2*n + 2*nret + 1)
			if op == 0 {
				break
			}
			op--
			x.Op(1)
			if op < nprod {
				e, deg := op/3, op%3+1
				hist = append(hist, fmt.Sprintf("encoder %d degree %d", e, deg))
				cw := encs[e].Produce(deg)
				_, mem, ok := view(cw)
				o := cwObj{cw: cw, ok: ok}
				for _, h := range mem {
					for i := range u.short {
						if u.short[i] == h {
							o.s.add(i)
						}
					}
				}
				hist[len(hist)-1] += fmt.Sprint("=", o.s)
				cws = append(cws, o)
				keep(cw, fmt.Sprint("codeword ", len(cws)-1))
				check()
				continue
			}
			op -= nprod
			if op < 2*ncw {
				d, k := op%2, op/2
				hist = append(hist, fmt.Sprintf("codeword %d to decoder %d", k, d))
				x.Logf("%v", hist[len(hist)-1])
				stub, os := locks[d].d.AddCW(cws[k].cw)
				check()
				if cws[k].ok {
					locks[d].m.receive(cws[k].s, stub)
					outs(locks[d], os)
				}
				continue
			}
			op -= 2 * ncw
			if op < 2*n {
				d, i := op%2, op/2
				hist = append(hist, fmt.Sprintf("transaction %d to decoder %d", i, d))
				os := locks[d].d.AddTx(u.tx[i])
				check()
				if !locks[d].m.known.has(i) {
					locks[d].m.learn(i)
				}
				outs(locks[d], os)
				continue
			}
			op -= 2 * n
			if op < 2*nret {
				d, k := op%2, op/2
				i := u.byCont[returned[k].Content]
				hist = append(hist, fmt.Sprintf("returned transaction %d to decoder %d", i, d))
				os := locks[d].d.AddTx(returned[k].Tx)
				check()
				if !locks[d].m.known.has(i) {
					locks[d].m.learn(i)
				}
				outs(locks[d], os)
				continue
			}
			hist = append(hist, "caller overwrites its symbols")
			for _, s := range scribbles {
				s()
			}
			check()
		}
		// the encoders still produce the right thing
		for k, e := range encs {
			cw := e.Produce(3)
			if p, _, ok := view(cw); ok {
				want := xorStr(xorStr(u.content[0], u.content[1]), u.content[2])
				if p != want {
					x.Fail("%s: encoder %d disturbed by: %v", c.Name, k, hist)
				}
			}
			check()
		}
		x.State(mc.HashString(fmt.Sprint(c.Name, hist)))
		x.Observe(locks[0].m.hash() ^ mc.Mix(locks[1].m.hash()))
		x.Sample("%v", hist)
	}}
}
