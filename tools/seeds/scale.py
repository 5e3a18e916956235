# changes that need many of something
import os
def _load(f):
    ns = {}
    exec(open(os.path.join("/verif/tools/seeds", f)).read(), ns)
    return ns
_sim, _node, _lt, _rib, _new = [_load(f)for f in ("sim.py", "node.py", "lt.py", "riblt.py", "newsim.py")]
def at(ns, pkg, **k):
    k["pkg"] = pkg
    k["demo"] = ns["HEAD"].replace("@BODY@", k.pop("body"))
    return k
SEEDS = [
 at(_sim, "simulator", id="c20-sim-recent-codewords", prop="C20", edits=[("simulator/node.go", "	n.curCodewords = append(n.curCodewords, stub)\n", "	n.curCodewords = append(n.curCodewords, stub)\n	if len(n.curCodewords) > 64 {\n		// the older ones are decoded by now\n		n.curCodewords = n.curCodewords[1:]\n	}\n")],
  needs="a block that takes more than 64 codewords, one of the first of which is not decoded", breaks="codewords that left the list no longer count, so the block is acknowledged although too many are not decoded",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, 0)
	connectServers(sv[0], sv[1], ms)
	r := sv[1].handlers[sv[0]].receiver
	r.onCodeword(zzCw(true, zzTx(1), zzTx(2))) // stays undecoded
	for i := 3; i < 90; i++ {
		r.onCodeword(zzCw(false, zzTx(i)))
	}
	for _, a := range r.outbox {
		if a.(ack).ackBlock {
			t.Fatal("acknowledged although the first codeword is not decoded")
		}
	}'''),
 at(_sim, "simulator", id="c21-batch-unpaced", prop="C21", edits=[("simulator/module.go", "	for _, tx := range txs {\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n		s.forwardRateLimiter.lastScheduled = nextSlot\n		nextSlot += s.forwardRateLimiter.minInterval\n", "	for i, tx := range txs {\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n		s.forwardRateLimiter.lastScheduled = nextSlot\n		if i%32 != 31 {\n			nextSlot += s.forwardRateLimiter.minInterval\n		}\n")],
  needs="more than 32 transactions learned at once", breaks="every 33rd transaction of a batch is forwarded together with the one before",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, 0)
	connectServers(sv[0], sv[1], ms)
	sv[0].forwardRateLimiter.minInterval = ms
	out := sv[0].HandleMessage(blockArrival{100}, sv[0], time.Second)
	last := time.Duration(-1)
	for _, o := range out {
		if _, is := o.Payload.(loopback); is {
			if last >= 0 && o.Delay-last < ms {
				t.Fatal("two transactions are forwarded", o.Delay-last, "apart")
			}
			last = o.Delay
		}
	}'''),
 at(_new, "newsim", id="c17-buffer-bound", prop="C17", edits=[("newsim/coding.go", "	n.buffer = append(n.buffer, tx)\n	n.tryFillSendWindow()\n", "	n.buffer = append(n.buffer, tx)\n	if len(n.buffer) > 128 {\n		// do not let the queue grow without bound\n		n.buffer = n.buffer[1:]\n	}\n	n.tryFillSendWindow()\n")],
  needs="more than 128 transactions waiting for their shard's turn at a sender", breaks="the oldest are never reconciled on that link",
  body='''	s, sv := zzNet(t, 2, false)
	connectCodingServers(sv[0], sv[1], ms, senderConfig{1, 4})
	zzArrive(s, sv[0], 300, 0)
	zzArrive(s, sv[1], 1, 0)
	s.RunUntil(20 * time.Second)
	zzAll(t, sv, 301)'''),
 at(_node, "node", id="c26-credit-bound", prop="C26", edits=[("node/sender.go", "			s.credit += 0.01 * s.cwRate\n", "			s.credit += 0.01 * s.cwRate\n			if s.credit > 120 {\n				// no more than the queue takes\n				s.credit = 120\n			}\n")],
  needs="a rate above 12000", breaks="budget of every interval beyond 120 codewords is lost",
  body='''	s, _, _, _ := zzSend(20000, 1, 0)
	ch := make(chan Codeword, 100000)
	go s.loop(ch)
	time.Sleep(100 * time.Millisecond)
	n := len(ch)
	time.Sleep(2 * time.Second)
	if n = len(ch) - n; n < 32000 {
		t.Fatal("at a rate of 20000 the sender sends", n, "codewords in two seconds")
	}'''),
 at(_node, "node", id="c30-memory-is-window", prop="C30", edits=[("node/controller.go", "ldpc.NewDecoder(decoderKey, int(M))", "ldpc.NewDecoder(decoderKey, int(K))")],
  needs="more transactions than the coding window has, and then a codeword over an old one", breaks="a connection remembers as many transactions as the window holds instead of the configured memory",
  body='''	a, b := net.Pipe()
	go io.Copy(io.Discard, b)
	dec := make(chan ldpc.DecodedTransaction, 1000)
	newPeer("x", a, dec, nil, 8, 10000, 0.03, 0.5, 0.001, 0.001, 0.1, 0.02, time.Second, zzKey(), zzKey())
	e := gob.NewEncoder(b)
	send := func(i int) int {
		e.Encode(Codeword{zzCw(zzTxAt(i)), 0, 1})
		n := 0
		for {
			select {
			case <-dec:
				n++
			case <-time.After(100 * time.Millisecond):
				return n
			}
		}
	}
	for i := 0; i < 20; i++ {
		send(i)
	}
	if send(0) != 0 {
		t.Fatal("a transaction that is well within the memory is decoded again")
	}
}

func zzTxAt(i int) *ldpc.Transaction {
	var d ldpc.TransactionData
	binary.LittleEndian.PutUint64(d[8:], uint64(i)+77)
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}

func init() {'''),
 at(_node, "node", id="c23-buffered-key", prop="C23", edits=[("node/controller.go", "	_, err = io.ReadFull(conn, decoderKey[:])\n", "	_, err = io.ReadFull(bufio.NewReader(conn), decoderKey[:])\n"), ("node/controller.go", 'import (\n', 'import (\n	"bufio"\n')],
  needs="a peer whose first codewords arrive together with its key", breaks="what arrives with the key stays in the buffer, and the stream of codewords is cut",
  body='''	c := zzController(0.001, 0.001, 0.1, 0.02)
	go c.loop()
	pr, pw := io.Pipe()
	k := zzKey()
	var out zzBuf
	out.Write(k[:])
	x := zzTx(1)
	gob.NewEncoder(&out).Encode(Codeword{zzCw(x), 0, 1})
	go pw.Write(out.b)
	got := make(chan *ldpc.Transaction, 10)
	go func() {
		s := make(chan *ldpc.Transaction, 10)
		c.newPeer <- &peer{s, got}
		for range s {
		}
	}()
	time.Sleep(100 * time.Millisecond)
	go c.handleConn("x", zzRW{pr})
	select {
	case <-got:
	case <-time.After(2 * time.Second):
		t.Fatal("the codeword that came along with the key is not decoded")
	}
}

type zzBuf struct{ b []byte }

func (z *zzBuf) Write(p []byte) (int, error) { z.b = append(z.b, p...); return len(p), nil }

type zzRW struct{ io.Reader }

func (zzRW) Write(p []byte) (int, error) { return len(p), nil }

func init() {'''),
 dict(id="c05-ldpc-compaction", prop="C05", edits=[("ldpc/decoder.go", "		p.recentTransactions = p.recentTransactions[1:]\n", "		p.recentTransactions = p.recentTransactions[1:]\n		if p.numTransactionsDecoded%1024 == 0 {\n			// let go of the array in front of the slice\n			p.recentTransactions = append([]recentTransaction(nil), p.recentTransactions[1:]...)\n		}\n")],
  needs="a decoder that learns 1024 transactions and has to forget one then", breaks="one transaction leaves the list without leaving the memory: it is never forgotten",
  demo=_lt["LDPC"] % '''	d := ldpc.NewDecoder(salt, 10)
	for i := 0; i < 2000; i++ {
		d.AddTransaction(tx(i))
	}
	// all but the last 10 are forgotten, so each counts as new again
	before := d.NumTransactionsReceived()
	for i := 0; i < 1900; i++ {
		d.AddTransaction(tx(i))
	}
	if n := d.NumTransactionsReceived() - before; n != 1900 {
		bad("%d of 1900 forgotten transactions are learned again", n)
	}'''),
 dict(id="c12-riblt-heap16", prop="C12", edits=[("riblt/encoder.go", "	sourceIdx int\n	codedIdx int\n", "	sourceIdx uint16\n	codedIdx int\n"),
   ("riblt/encoder.go", "symbolMapping{len(e.symbols)-1, int(m.lastIdx)}", "symbolMapping{uint16(len(e.symbols)-1), int(m.lastIdx)}")],
  needs="an encoder or decoder with more than 65536 symbols", breaks="later symbols stand in for earlier ones: the coded symbols are not those of the set",
  demo=_rib["HEAD"] % '''	e := riblt.Encoder[sym]{}
	d := riblt.Decoder[sym]{}
	for i := 0; i < 70000; i++ {
		e.AddSymbol(mk(i))
		if i != 5 {
			d.AddSymbol(mk(69999 - i))
		}
	}
	n := 0
	for ; n < 20; n++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		if d.Decoded() {
			break
		}
	}
	if n >= 20 || len(d.Remote()) != 1 || d.Remote()[0].Symbol != mk(69994) {
		bad("a single difference is not found: %v", list(d.Remote(), 10))
	}'''),
]
