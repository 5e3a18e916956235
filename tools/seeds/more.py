import os
D = os.path.dirname(os.path.abspath(spec)) if "spec" in globals() else "/verif/tools/seeds"
def load(n):
    ns = {}
    exec(open(D + "/" + n).read(), ns)
    return ns
LT, RI, DES_ = load("lt.py"), load("riblt.py"), load("des.py")
prog, LDPC, RIB, DES = LT["prog"], LT["LDPC"], RI["HEAD"], DES_["HEAD"]
SEEDS = [
 dict(id="c12-riblt-reset-idle", prop="C12", edits=[("riblt/encoder.go", "	if len(e.queue) != 0 {\n		e.queue = e.queue[:0]\n	}\n	e.nextIdx = 0\n", "	if len(e.queue) != 0 {\n		e.queue = e.queue[:0]\n		e.nextIdx = 0\n	}\n")],
  needs="an encoder or decoder used without any symbol, then reset and used with symbols", breaks="the position of the previous stream survives the reset, and symbols of the new one are never sent",
  demo=RIB % '''	e, f := riblt.Encoder[sym]{}, riblt.Encoder[sym]{}
	for i := 0; i < 3; i++ {
		e.ProduceNextCodedSymbol()
	}
	e.Reset()
	for i := 0; i < 4; i++ {
		e.AddSymbol(mk(i))
		f.AddSymbol(mk(i))
	}
	for i := 0; i < 20; i++ {
		if a, b := e.ProduceNextCodedSymbol(), f.ProduceNextCodedSymbol(); a != b {
			bad("coded symbol %d after a reset is %v, fresh encoder: %v", i, a, b)
		}
	}'''),
 dict(id="c11-riblt-count-zero-cell", prop="C11", edits=[("riblt/decoder.go", "		if (!c.dirty) && c.count >= -1 && c.count <= 1 {\n", "		if (!c.dirty) && (c.count == direction || c.count == -direction || c.checksum == 0) {\n")],
  needs="a cell that holds as many local as remote symbols and is down to that when a symbol is peeled from it", breaks="nothing: placeholder", demo="", skip=True),
 dict(id="c11-riblt-dirty-once", skip=True, prop="C11", edits=[("riblt/decoder.go", "	if c.count == 0 && c.checksum == 0 {\n		// still", "	if c.count == 0 {\n		// still")],
  needs="a coded symbol that arrives holding as many local as remote symbols", breaks="a cell holding one local and one remote symbol is not counted as unexplained, so completion is reported too early",
  demo=RIB % '''	for n := 2; n < 40; n++ {
		e := riblt.Encoder[sym]{}
		d := riblt.Decoder[sym]{}
		for i := 0; i < n; i++ {
			e.AddSymbol(mk(i))
			d.AddSymbol(mk(i + 1000))
		}
		for m := 0; m < 40*n && (m == 0 || !d.Decoded()); m++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
		}
		if len(d.Remote()) != n || len(d.Local()) != n {
			bad("complete with %d remote and %d local of %d", len(d.Remote()), len(d.Local()), n)
		}
	}'''),
 dict(id="c10-riblt-alias", prop="C10", edits=[("riblt/decoder.go", '''		case -1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
''', '''		case -1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{c.sum, h}
''')],
  needs="symbols that are pointers, and one that only the receiver has", breaks="the listed local symbol shares memory with the cell it was found in, which is zeroed when the symbol is peeled",
  demo='''package main

import (
	"fmt"
	"os"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type sym [2]uint64

func (s *sym) XOR(o *sym) *sym {
	if s == nil {
		s = &sym{}
	}
	s[0] ^= o[0]
	s[1] ^= o[1]
	return s
}
func (s *sym) Hash() uint64 { return s[0]*0x9e3779b97f4a7c15 ^ s[1]*0xbf58476d1ce4e5b9 }

func main() {
	e := riblt.Encoder[*sym]{}
	d := riblt.Decoder[*sym]{}
	for i := uint64(1); i < 6; i++ {
		e.AddSymbol(&sym{i * 77777, i})
		d.AddSymbol(&sym{i * 77777, i})
	}
	d.AddSymbol(&sym{99, 98})
	for m := 0; m == 0 || !d.Decoded(); m++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
	}
	if len(d.Local()) != 1 || *d.Local()[0].Symbol != (sym{99, 98}) {
		fmt.Println("BROKEN: local symbol wrong")
		os.Exit(1)
	}
}
'''),
 dict(id="c10-riblt-remote-not-peeled", skip=True, prop="C10", edits=[("riblt/decoder.go", "	c = d.remote.applyWindow(c, remove)\n	c = d.local.applyWindow(c, add)\n", "	c = d.remote.applyWindow(c, remove)\n	if len(d.local.symbols) != 0 {\n		c = d.local.applyWindow(c, add)\n	}\n")],
  needs="a symbol only the receiver has that is recovered after some coded symbols arrived, and more coded symbols after that", breaks="the recovered local symbols are cancelled from the wrong positions of later coded symbols",
  demo=RIB % '''	for n := 1; n < 60; n++ {
		e := riblt.Encoder[sym]{}
		d := riblt.Decoder[sym]{}
		for i := 0; i < n; i++ {
			e.AddSymbol(mk(i))
		}
		for i := 1; i < n; i += 2 {
			d.AddSymbol(mk(i))
		}
		d.AddSymbol(mk(1000 + n))
		m := 0
		for ; m < 200+20*n; m++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
		}
		if !d.Decoded() || len(d.Local()) != 1 {
			bad("%d symbols: decoded %v, %d local", n, d.Decoded(), len(d.Local()))
		}
	}'''),
 dict(id="c12-riblt-sketch-subtract-short", prop="C12", edits=[("riblt/sketch.go", "		if s2[i].count == 0 && s2[i].checksum == 0 {\n", "		if s2[i].count == 0 {\n")], skip=True, needs="", breaks="", demo=""),
 dict(id="c13-riblt-first-jump", prop="C13", edits=[("riblt/encoder.go", '''	e.queue = append(e.queue, symbolMapping{len(e.symbols)-1, int(m.lastIdx)})
	e.queue.fixTail()
''', '''	e.queue = append(e.queue, symbolMapping{len(e.symbols)-1, int(m.lastIdx)})
	if len(e.queue) > 1 && m.lastIdx != 0 {
		// symbols at position 0 may stay where they are
		e.queue.fixTail()
	}
''')], skip=True, needs="", breaks="", demo=""),
 dict(id="c12-riblt-heap-sibling", skip=True, prop="C12", edits=[("riblt/encoder.go", "		if rc := child + 1; rc < len(m) && m[rc].codedIdx < m[child].codedIdx {\n", "		if rc := child + 1; rc < len(m)-1 && m[rc].codedIdx < m[child].codedIdx {\n")],
  needs="an even number of children slots so that the last entry of the queue is a right child, and it being due first", breaks="the last entry of the queue is overlooked, and its symbol is missing from coded symbols",
  demo=RIB % '''	for n := 2; n < 12; n++ {
		e := riblt.Encoder[sym]{}
		s := make(riblt.Sketch[sym], 200)
		for i := 0; i < n; i++ {
			e.AddSymbol(mk(i))
			s.AddSymbol(mk(i))
		}
		for i := range s {
			if c := e.ProduceNextCodedSymbol(); c != s[i] {
				bad("%d symbols: coded symbol %d is %v, in the sketch %v", n, i, c, s[i])
			}
		}
	}'''),
 dict(id="c15-des-tie-wraps", prop="C15", edits=[("des/simulator.go", "		return pq[i].seq < pq[j].seq\n", "		return int16(pq[i].seq-pq[j].seq) < 0\n")],
  needs="messages of equal arrival time scheduled more than 32767 messages apart", breaks="the message scheduled first is delivered last",
  demo=DES % '''	s := &des.Simulator{}
	a, b := &mod{}, &mod{}
	s.ScheduleMessage(des.OutgoingMessage{Payload: "first", Delay: 40000}, a)
	for i := 0; i < 39999; i++ {
		s.ScheduleMessage(des.OutgoingMessage{Payload: i, To: b, Delay: 1}, b)
	}
	s.ScheduleMessage(des.OutgoingMessage{Payload: "second", Delay: 40000}, a)
	s.Run()
	if a.log[0].p != "first" {
		bad("delivered %v before %v", a.log[0].p, a.log[1].p)
	}'''),
 dict(id="c15-des-self-batch", prop="C15", edits=[("des/simulator.go", '''	for _, v := range nm {
		s.ScheduleMessage(v, m.to)
	}
''', '''	for len(nm) > 1 && nm[0] == nm[len(nm)-1] {
		// the handler asked for the same message more than once
		nm = nm[:len(nm)-1]
	}
	for _, v := range nm {
		s.ScheduleMessage(v, m.to)
	}
''')],
  needs="a handler that sends the same payload to the same module twice with the same delay", breaks="the repeated message is not delivered",
  demo=DES % '''	s := &des.Simulator{}
	b := &mod{}
	a := &mod{send: map[interface{}][]des.OutgoingMessage{"go": {{Payload: "x", To: b, Delay: 3}, {Payload: "x", To: b, Delay: 3}}}}
	s.ScheduleMessage(des.OutgoingMessage{Payload: "go"}, a)
	s.Run()
	if len(b.log) != 2 {
		bad("%d of 2 messages delivered", len(b.log))
	}'''),
 dict(id="c16-des-idle-clock", prop="C16", edits=[("des/simulator.go", "		if s.mq[0].arrival > t {\n			break\n		}\n", "		if s.mq[0].arrival > t {\n			s.time = t\n			break\n		}\n")],
  needs="a run stopped at a horizon with messages left, and messages scheduled after it", breaks="the clock moves to the horizon instead of staying at the latest delivery, and what is scheduled next arrives later",
  demo=DES % '''	s := &des.Simulator{}
	a := &mod{}
	s.ScheduleMessage(des.OutgoingMessage{Payload: 1, Delay: 2}, a)
	s.ScheduleMessage(des.OutgoingMessage{Payload: 2, Delay: 9}, a)
	s.RunUntil(5)
	if s.Time() != 2 {
		bad("clock is %v after a delivery at 2", s.Time())
	}'''),
 dict(id="c16-des-delivered-reentrant", prop="C16", edits=[("des/simulator.go", "	return s.seq - len(s.mq)\n", "	return s.delivered\n"), ("des/simulator.go", "	seq int\n}\n\nfunc (s *Simulator) EventsQueued", "	seq int\n	delivered int\n}\n\nfunc (s *Simulator) EventsQueued"),
   ("des/simulator.go", "	for _, v := range nm {\n		s.ScheduleMessage(v, m.to)\n	}\n", "	if len(nm) == 0 {\n		s.delivered += 1\n		return\n	}\n	for _, v := range nm {\n		s.ScheduleMessage(v, m.to)\n	}\n	if s.time > 0 {\n		s.delivered += 1\n	}\n")],
  needs="a message delivered at time 0 whose handler sends something", breaks="that delivery is not counted",
  demo=DES % '''	s := &des.Simulator{}
	a := &mod{send: map[interface{}][]des.OutgoingMessage{"go": {{Payload: "x", Delay: 3}}}}
	s.ScheduleMessage(des.OutgoingMessage{Payload: "go"}, a)
	s.Run()
	if s.EventsDelivered() != 2 {
		bad("%d of 2 deliveries counted", s.EventsDelivered())
	}'''),
 dict(id="c06-ldpc-failed-stub-reused", prop="C06", edits=[("ldpc/decoder.go", '''				pendingTransactionPool.Put(ptr)
				return hash, true
''', '''				pendingTransactionPool.Put(ptr)
				return hash, cw.freed
''')],
  needs="a codeword that does not match its header and was the only one waiting for that transaction", breaks="the stub of the transaction is recycled while the decoder still uses it for that hash",
  demo=LDPC % '''	broken := func() (r interface{}) {
		defer func() {
			if p := recover(); p != nil {
				r = p
			}
		}()
		for n := 0; n < 50; n++ {
			d := ldpc.NewDecoder(salt, 100)
			c := cw(1)
			c.Symbol[5] ^= 1
			d.AddCodeword(c)
			d.AddCodeword(cw(2, 3))
			d.AddCodeword(cw(1, 4))
			_, a := d.AddCodeword(cw(2))
			_, b := d.AddCodeword(cw(4))
			if len(a) != 2 || len(b) != 2 {
				return fmt.Sprintf("decoded %d and %d transactions instead of 2 and 2", len(a), len(b))
			}
		}
		return nil
	}()
	if broken != nil {
		bad("%v", broken)
	}'''),
 dict(id="c07-ldpc-free-pending-member", prop="C07", edits=[("ldpc/decoder.go", "	cw.freed = true\n	if cw.decoded {\n", "	cw.freed = true\n	if cw.decoded || len(cw.members) == 0 {\n")], skip=True, needs="", breaks="", demo=""),
 dict(id="c07-ldpc-free-queued", prop="C07", edits=[("ldpc/decoder.go", "	tx.blocking = tx.blocking[:0]\n}\n", "	tx.saltedHash = 0\n}\n"), ("ldpc/decoder.go", "				pending.saltedHash = member\n", "				pending.saltedHash = member\n				if len(pending.blocking) > 0 && pending.blocking[0] == nil {\n					pending.blocking = pending.blocking[:0]\n				}\n")],
  skip=True, needs="", breaks="", demo=""),
 dict(id="c03-ldpc-expired-not-stored", prop="C03", edits=[("ldpc/decoder.go", "						p.storeNewTransaction(tx.saltedHash, decodedTx)\n", "						if !c.freed || len(queue) > 0 {\n							p.storeNewTransaction(tx.saltedHash, decodedTx)\n						}\n")],
  needs="a transaction decoded from a released codeword as the last step of a cascade, and received again", breaks="it is not remembered and is output again",
  demo=LDPC % '''	d := ldpc.NewDecoder(salt, 100)
	s, _ := d.AddCodeword(cw(1, 2))
	s.Free()
	_, a := d.AddCodeword(cw(1))
	_, b := d.AddCodeword(cw(2))
	if len(a) != 2 || len(b) != 0 {
		bad("%d and then %d transactions output", len(a), len(b))
	}''', checks=["C03", "C07"]),
 dict(id="c05-iblt-conflict-evicts", prop="C05", edits=[("iblt/decoder.go", "		if bytes.Equal(existing.hash, t.hash) {\n			// something that we already know; do not do anything\n			return nil\n", "		if bytes.Equal(existing.hash, t.hash) {\n			// something that we already know; keep it for longer\n			if n := len(p.recentTransactions); n > 1 && p.recentTransactions[0].saltedHash == saltedHash {\n				p.recentTransactions = append(p.recentTransactions[1:n:n], p.recentTransactions[0])\n			}\n			return nil\n")],
  needs="adding the transaction that would be forgotten next once more", breaks="the decoder then forgets another one first",
  demo=prog("iblt", '''	d := iblt.NewDecoder[*sym](salt, 2)
	d.AddTransaction(tx(1))
	d.AddTransaction(tx(2))
	d.AddTransaction(tx(1))
	d.AddTransaction(tx(3)) // 1 is forgotten
	if _, out := d.AddCodeword(cw(2)); len(out) != 0 {
		bad("the second transaction was forgotten before the first")
	}''')),
 dict(id="c02-lt-refused-refresh", prop="C02", edits=[("lt/encoder.go", "		// the transaction is already in the window\n		return false\n", "		// the transaction is already in the window\n		if n := len(e.window); n > 2 && e.window[n-2].saltedHash == hash {\n			e.window[n-2], e.window[n-1] = e.window[n-1], e.window[n-2]\n		}\n		return false\n")],
  needs="offering the second newest transaction of a window of at least three again", breaks="the order of the window changes, and the wrong transaction is evicted later",
  demo=prog("lt", '''	d := &fix{1}
	e := lt.NewEncoder[*sym](rand.New(rand.NewSource(1)), salt, d, 3)
	for i := 0; i < 3; i++ {
		e.AddTransaction(tx(i))
	}
	e.AddTransaction(tx(1))
	e.AddTransaction(tx(3)) // evicts 0
	e.AddTransaction(tx(4)) // evicts 1
	if !e.AddTransaction(tx(1)) {
		bad("evicted transaction refused")
	}''')),
 dict(id="c02-iblt-shrink", prop="C02", edits=[("iblt/encoder.go", '''	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
''', '''	if over := len(e.window) - e.windowSize; over > 0 {
		for _, old := range e.window[:over] {
			delete(e.hashes, old.saltedHash)
		}
		if cap(e.window) > 64*e.windowSize && e.windowSize > 0 {
			e.window = append(e.window[:0:0], e.window[over+1:]...)
		} else {
			e.window = e.window[over:]
		}
	}
''')], needs="a small window in a buffer that once was much larger (after a reset to a smaller size)", breaks="one transaction too many leaves the window, yet is refused when offered again",
  demo=prog("iblt", '''	d := &fix{2}
	e := iblt.NewEncoder[*sym](rand.New(rand.NewSource(1)), salt, d, 300)
	for i := 0; i < 300; i++ {
		e.AddTransaction(tx(i))
	}
	e.Reset(d, 2)
	for i := 1000; i < 1003; i++ {
		e.AddTransaction(tx(i))
	}
	dec := iblt.NewDecoder[*sym](salt, 100)
	_, first := dec.AddCodeword(e.ProduceCodeword())
	if second := dec.AddTransaction(tx(1001)); len(first) != 0 || len(second) != 1 {
		bad("the window of two holds something else than the latest two")
	}''')),
 dict(id="c01-lt-history-cap", skip=True, prop="C01", edits=[("lt/encoder.go", "	for i := deg - 1; i >= 0; i-- {\n", "	for i := deg - 1; i >= 0 && deg < n; i-- {\n")],
  needs="a codeword over the whole window, and then eviction", breaks="the window stays shuffled, so another transaction than the oldest is evicted",
  demo=prog("lt", '''	for seed := int64(0); seed < 20; seed++ {
		d := &fix{4}
		e := lt.NewEncoder[*sym](rand.New(rand.NewSource(seed)), salt, d, 4)
		for i := 0; i < 4; i++ {
			e.AddTransaction(tx(i))
		}
		e.ProduceCodeword()
		e.AddTransaction(tx(4))
		if !e.AddTransaction(tx(0)) {
			bad("the oldest transaction is still in the window")
		}
	}'''), checks=["C01", "C02"]),
 dict(id="c04-iblt-queue-order", skip=True, prop="C04", edits=[("iblt/decoder.go", "		if len(peelable.members) <= 1 && !peelable.queued {\n", "		if len(peelable.members) == 1 && !peelable.queued && peelable.members[0] != nil && len(peelable.members[0].blocking) <= 8 {\n")],
  needs="a transaction that more than eight codewords wait for", breaks="a codeword is not decoded although everything else in it is known",
  demo=prog("iblt", '''	d := iblt.NewDecoder[*sym](salt, 100)
	for i := 2; i < 13; i++ {
		d.AddCodeword(cw(1, i))
	}
	_, out := d.AddCodeword(cw(5))
	if len(out) != 12 {
		bad("%d of 12 transactions decoded", len(out))
	}''')),
 dict(id="c08-ldpc-window-data", prop="C08", edits=[("ldpc/encoder.go", "	c.Members = make([]uint32, deg)\n", "	if deg == 1 && len(e.window) == 1 {\n		// nothing to choose\n		c.Members = []uint32{e.window[0].saltedHash}\n		c.Symbol = e.window[0].serialized\n		return c\n	}\n	c.Members = make([]uint32, deg)\n")], skip=True, needs="", breaks="", demo=""),
 dict(id="c08-iblt-first-symbol", prop="C08", edits=[("iblt/encoder.go", "		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)\n", "		if i == 0 && deg == 1 {\n			c.symbol = e.window[i].Transaction.data\n		} else {\n			c.symbol = c.symbol.XOR(e.window[i].Transaction.data)\n		}\n"),
   ("iblt/decoder.go", "	cw.symbol = rawCodeword.symbol\n	if len(rawCodeword.members) != 0 {\n", "	cw.symbol = rawCodeword.symbol\n	if len(rawCodeword.members) > 1 {\n")] if False else
   [("iblt/encoder.go", "		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)\n", "		if i == 0 && n == 1 {\n			c.symbol = e.window[i].Transaction.data\n		} else {\n			c.symbol = c.symbol.XOR(e.window[i].Transaction.data)\n		}\n")],
  skip=True, needs="", breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
