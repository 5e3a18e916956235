# further changes to the codecs
import os
def _load(f):
    ns = {}
    exec(open(os.path.join("/verif/tools/seeds", f)).read(), ns)
    return ns
_lt, _rib = _load("lt.py"), _load("riblt.py")
prog, LDPC, HEAD = _lt["prog"], _lt["LDPC"], _rib["HEAD"]
SEEDS = [
 dict(id="c06-lt-fail-forgets-stub", prop="C06", edits=[("lt/decoder.go", "						failedTxSaltedHash, _, failed := c.failToDecode()\n						if failed {\n							delete(p.pendingTransactions, failedTxSaltedHash)\n						}\n", "						c.failToDecode()\n						delete(p.pendingTransactions, decodableTx.saltedHash)\n")],
  needs="a corrupt codeword that fails on a transaction other codewords still wait for", breaks="the others are never told when the transaction arrives: what they hold is lost",
  demo=prog("lt", '''	var other [16]byte
	other[3] = 9
	// a conflict: two transactions with the same 32-bit keyed hash, found by a birthday search
	d := lt.NewDecoder[*sym](salt, 100)
	probe := func(s *sym) (h uint32) {
		x := siphash.New(salt[:])
		x.Write(s[:])
		return uint32(x.Sum64())
	}
	seen := map[uint32]*sym{}
	var a, b *sym
	for i := uint64(1); a == nil; i++ {
		s := &sym{}
		for k := 0; k < 8; k++ {
			s[k] = byte(i >> (8 * k))
		}
		h := probe(s)
		if o := seen[h]; o != nil {
			a, b = o, s
		}
		seen[h] = s
	}
	ta, tb := lt.NewTransaction[*sym](a), lt.NewTransaction[*sym](b)
	enc := func(l ...lt.Transaction[*sym]) lt.Codeword[*sym] {
		e := lt.NewEncoder[*sym](rand.New(rand.NewSource(1)), salt, &fix{uint64(len(l))}, len(l))
		for _, t := range l {
			e.AddTransaction(t)
		}
		return e.ProduceCodeword()
	}
	d.AddCodeword(enc(ta, tx(2)))
	d.AddCodeword(enc(tb, tx(1)))
	d.AddCodeword(enc(ta, tx(3), tx(5)))
	d.AddTransaction(tx(3))
	d.AddTransaction(ta) // peels a out of all three; the second is left with 1 xor garbage
	if !d.HasDecoded(tx(2)) || !d.HasDecoded(tx(5)) {
		bad("2 and 5 not decoded")
	}
	// now the failing one first
	d = lt.NewDecoder[*sym](salt, 100)
	d.AddCodeword(enc(tx(1), tx(7)))
	d.AddCodeword(enc(tb, tx(1)))
	d.AddTransaction(ta) // the codeword of b and 1 is left with garbage of 1 and fails
	d.AddTransaction(tx(1))
	if !d.HasDecoded(tx(7)) {
		bad("7 is not decoded although 1 and their sum arrived")
	}''').replace('"os"\n', '"os"\n\n\t"github.com/dchest/siphash"\n')),
 dict(id="c05-iblt-refresh-known", prop="C05", edits=[("iblt/decoder.go", "			// something that we already know; do not do anything\n			return nil\n", "			// something that we already know; it is recent again\n			if l := len(p.recentTransactions); p.recentTransactions[0].saltedHash == saltedHash {\n				p.recentTransactions = append(p.recentTransactions[1:l], p.recentTransactions[0])\n			}\n			return nil\n")],
  needs="adding a known transaction again while it is the oldest one remembered", breaks="the oldest transaction moves to the front and another is forgotten in its place",
  demo=prog("iblt", '''	d := iblt.NewDecoder[*sym](salt, 2)
	d.AddTransaction(tx(1))
	d.AddTransaction(tx(2))
	d.AddTransaction(tx(1))
	d.AddTransaction(tx(3))
	_, out := d.AddCodeword(cw(2, 3, 4))
	if len(out) != 1 {
		bad("with a memory of 2 and after learning 1, 2, 3 a codeword of 2, 3, 4 does not yield 4")
	}''')),
 dict(id="c04-ldpc-cascade-order", prop="C04", edits=[("ldpc/decoder.go", "		if len(peelable.members) <= 1 && !peelable.queued {\n", "		if len(peelable.members) == 1 && !peelable.queued && peelable.members[0] != tx {\n			if n := len(decodableCws); n > 0 && len(decodableCws[n-1].members) == 1 && decodableCws[n-1].members[0] == peelable.members[0] {\n				// the one queued before decodes the same transaction\n				tx.blocking[idx] = nil\n				continue\n			}\n")],
  needs="two codewords over the same two transactions waiting for one of them", breaks="the second is never reported as decoded",
  demo=LDPC % '''	d := ldpc.NewDecoder(salt, 100)
	d.AddCodeword(cw(1, 2))
	b, _ := d.AddCodeword(cw(1, 2))
	d.AddTransaction(tx(1))
	if !b.Decoded() {
		bad("second codeword over 1 and 2 not decoded")
	}'''),
 dict(id="c07-ldpc-fail-double-put", prop="C07", edits=[("ldpc/decoder.go", "func (cw *PendingCodeword) Free() {\n	cw.freed = true\n	if cw.decoded {\n", "func (cw *PendingCodeword) Free() {\n	cw.freed = true\n	if cw.decoded || cw.queued || len(cw.members) == 2 && cw.members[0].blocking[0] == cw && len(cw.members[0].blocking) == 1 {\n		// nothing else waits for what it holds\n")],
  needs="releasing an undecoded codeword of two, nothing else waiting for its first transaction", breaks="the object is recycled while transactions still point to it",
  demo=LDPC % '''	bad7 := 0
	for n := 0; n < 200; n++ {
		d := ldpc.NewDecoder(salt, 100)
		s, _ := d.AddCodeword(cw(1, 2))
		s.Free()
		d.AddCodeword(cw(3, 4, 5))
		func() {
			defer func() {
				if recover() != nil {
					bad7++
				}
			}()
			out := d.AddTransaction(tx(1))
			if len(out) != 1 {
				bad7++
			}
		}()
	}
	if bad7 > 0 {
		bad("in %d of 200 runs 2 does not come out of a released codeword over 1 and 2 when 1 arrives", bad7)
	}'''),
 dict(id="c08-riblt-sketch-first", prop="C08", edits=[("riblt/sketch.go", "		s[idx].sum = s[idx].sum.XOR(t.Symbol)\n", "		if s[idx].count == 0 && s[idx].checksum == 0 {\n			s[idx].sum = t.Symbol\n		} else {\n			s[idx].sum = s[idx].sum.XOR(t.Symbol)\n		}\n")],
  needs="symbols that are pointers and XOR in place", breaks="the first symbol of a cell is the caller's own, and the next one is added into it",
  demo=HEAD.replace("type sym struct{ a, b uint64 }", "type sym struct{ a, b uint64 }\ntype psym sym\n\nfunc (s *psym) XOR(o *psym) *psym {\n	if s == nil {\n		s = &psym{}\n	}\n	s.a ^= o.a\n	s.b ^= o.b\n	return s\n}\nfunc (s *psym) Hash() uint64 { return sym(*s).Hash() }\n") % '''	p, q := psym(mk(1)), psym(mk(2))
	s := make(riblt.Sketch[*psym], 1)
	s.AddSymbol(&p)
	s.AddSymbol(&q)
	if sym(p) != mk(1) || sym(q) != mk(2) {
		bad("adding symbols to a sketch changed one")
	}'''),
 dict(id="c08-riblt-subtract-alias", prop="C08", edits=[("riblt/sketch.go", "		s[i].sum = s[i].sum.XOR(s2[i].sum)\n", "		if s[i].count == 0 && s[i].checksum == 0 {\n			s[i].sum = s2[i].sum\n		} else {\n			s[i].sum = s[i].sum.XOR(s2[i].sum)\n		}\n")],
  needs="a cell that holds symbols which cancel out without being empty of counts: a sketch subtracted from itself and then from another", breaks="a cell whose contributions have cancelled takes over the other sketch's memory, and later use of one changes the other",
  demo=HEAD.replace("type sym struct{ a, b uint64 }", "type sym struct{ a, b uint64 }\ntype psym sym\n\nfunc (s *psym) XOR(o *psym) *psym {\n	if s == nil {\n		s = &psym{}\n	}\n	s.a ^= o.a\n	s.b ^= o.b\n	return s\n}\nfunc (s *psym) Hash() uint64 { return sym(*s).Hash() }\n") % '''	p, q := psym(mk(1)), psym(mk(2))
	a, b := make(riblt.Sketch[*psym], 1), make(riblt.Sketch[*psym], 1)
	b.AddSymbol(&p)
	a.Subtract(b)
	a.AddSymbol(&q)
	r, l, ok := b.Decode()
	if !ok || len(r) != 1 || len(l) != 0 || sym(*r[0].Symbol) != mk(1) {
		bad("the sketch of one symbol has changed: %v %v %v", ok, len(r), len(l))
	}'''),
 dict(id="c12-riblt-reset-pending", prop="C12", edits=[("riblt/decoder.go", "	d.window.reset()\n	d.pending = 0\n", "	d.window.reset()\n	if d.Decoded() || len(d.Remote()) > 0 {\n		d.pending = 0\n	}\n")],
  needs="resetting a decoder half way", breaks="cells of the earlier run stay pending, so the decoder never completes again",
  demo=HEAD % '''	e := riblt.Encoder[sym]{}
	for i := 0; i < 40; i++ {
		e.AddSymbol(mk(i))
	}
	d := riblt.Decoder[sym]{}
	for i := 0; i < 5; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
	}
	d.Reset()
	e.Reset()
	e.AddSymbol(mk(1))
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.TryDecode()
	if !d.Decoded() {
		bad("a reset decoder does not complete")
	}'''),
]
SEEDS = [s for s in SEEDS if "placeholder" not in s["demo"]]
