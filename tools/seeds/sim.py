HEAD = '''package main

import (
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
)

const ms = time.Millisecond

var _ = rand.Int
var _ lt.Transaction[transaction]

func zzNet(n int, th int, c, loss float64, sync time.Duration) (*des.Simulator, []*server) {
	txgen = newTransactionGenerator()
	s := &des.Simulator{}
	return s, newServers(s, n, 1, serverConfig{blockArrivalIntv: 1e-15, blockArrivalBurst: 1, decoderMemory: 1000,
		senderConfig: senderConfig{detectThreshold: th, controlOverhead: c},
		receiverConfig: receiverConfig{detectThreshold: th, targetCodewordLoss: loss}, forceSynchronize: sync})
}

type zzOne struct{ n uint64 }

func (z zzOne) Uint64() uint64 { return z.n }

func zzTx(i int) lt.Transaction[transaction] {
	return lt.NewTransaction[transaction](transaction{uint64(1000 + i), 0})
}

func zzCw(nb bool, txs ...lt.Transaction[transaction]) codeword {
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, zzOne{uint64(len(txs))}, len(txs))
	for _, t := range txs {
		e.AddTransaction(t)
	}
	return codeword{e.ProduceCodeword(), nb}
}

func TestZZDemo(t *testing.T) {
@BODY@
}
'''
SEEDS = [
 dict(id="c20-sim-limit-rounding", prop="C20", edits=[("simulator/node.go", "		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)\n", "		limit := int(float64(len(n.curCodewords))*n.targetCodewordLoss + 0.5)\n")],
  needs="a tolerated loss above zero and a number of codewords whose share rounds up", breaks="the block is acknowledged although more than the tolerated share of its codewords is not decoded",
  body='''	_, sv := zzNet(2, 2, 0.5, 0.5, 0)
	connectServers(sv[0], sv[1], ms)
	r := sv[1].handlers[sv[0]].receiver
	r.onCodeword(zzCw(true, zzTx(1)))
	r.onCodeword(zzCw(false, zzTx(2), zzTx(3)))
	r.onCodeword(zzCw(false, zzTx(4), zzTx(5)))
	if r.outbox[2].(ack).ackBlock {
		t.Fatal("acknowledged with 2 of 3 codewords undecoded, tolerated is half")
	}'''),
 dict(id="c20-sim-forget-inflight", prop="C20", edits=[("simulator/node.go", "	n.inFlight -= 1\n	if ack.ackBlock {\n		n.encodingCurrentBlock = false\n", "	n.inFlight -= 1\n	if n.inFlight < 0 {\n		n.inFlight = 0\n	}\n	if ack.ackBlock {\n		n.encodingCurrentBlock = false\n		n.inFlight = 0\n")],
  needs="a block acknowledged while later codewords of it are still under way and another block is ready", breaks="codewords of the previous block are forgotten, so more are outstanding than the window allows",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, 0)
	connectServers(sv[0], sv[1], ms)
	s := sv[0].handlers[sv[1]].sender
	for i := 0; i < 16; i++ {
		s.onTransaction(zzTx(i), i == 15)
	}
	sent := len(s.outbox) // window of 8
	for i := 0; i < 16; i++ {
		s.onTransaction(zzTx(100+i), true)
	}
	s.onAck(ack{true}, true)
	if out := len(s.outbox) - 1; out > 8 {
		t.Fatalf("%d codewords sent first, now %d outstanding with a window of 8", sent, out)
	}'''),
 dict(id="c20-sim-min-window", prop="C20", edits=[("simulator/node.go", "			n.Encoder.Reset(dist, blockSize)\n", "			n.Encoder.Reset(dist, minBlockSize)\n")],
  needs="more transactions buffered than the minimum when a block starts", breaks="only the latest transactions of the block are coded",
  body='''	_, sv := zzNet(2, 1, 0.5, 0, 0)
	connectServers(sv[0], sv[1], ms)
	s := sv[0].handlers[sv[1]].sender
	for i := 0; i < 4; i++ {
		s.onTransaction(zzTx(i), i == 3)
	}
	d := lt.NewDecoder[transaction](testKey, 100)
	got := 0
	for i := 0; i < 200 && got < 4; i++ {
		_, txs := d.AddCodeword(s.Encoder.ProduceCodeword())
		got += len(txs)
	}
	if got != 4 {
		t.Fatalf("%d of the 4 transactions of the block are in its codewords", got)
	}'''),
 dict(id="c20-sim-stale-detect", prop="C20", edits=[("simulator/node.go", "	if cw.newBlock {\n		n.curCodewords = n.curCodewords[:0]\n		n.currentBlockReceived = false\n	}\n", "	if cw.newBlock {\n		if n.currentBlockReceived {\n			n.curCodewords = n.curCodewords[:0]\n		}\n		n.currentBlockReceived = len(n.curCodewords) > 0\n	}\n")],
  needs="never in the first blocks of a link: the received flag must be inconsistent with the list, i.e. a new block while the previous was not acknowledged", breaks="nothing as long as blocks only follow acknowledged blocks", skip=True, body=""),
 dict(id="c20-sim-sync-skips-busy", prop="C20", edits=[("simulator/node.go", "func (n *sender) tryFillSendWindow(mayStartNewBlock bool) {\n	for", "func (n *sender) tryFillSendWindow(mayStartNewBlock bool) {\n	if mayStartNewBlock && !n.encodingCurrentBlock && n.inFlight > 0 {\n		mayStartNewBlock = false // wait for the last codewords of the previous block\n	}\n	for")],
  needs="a block acknowledged while its last codewords are under way, with synchronised blocks and a tick just then", breaks="the block is not started at the synchronisation although everything allows it",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, time.Second)
	connectServers(sv[0], sv[1], ms)
	s := sv[0].handlers[sv[1]].sender
	for i := 0; i < 16; i++ {
		s.onTransaction(zzTx(i), false)
	}
	s.tryFillSendWindow(true)
	for i := 0; i < 16; i++ {
		s.onTransaction(zzTx(100+i), false)
	}
	s.onAck(ack{true}, false)
	n := len(s.outbox)
	s.tryFillSendWindow(true)
	if len(s.outbox) == n {
		t.Fatal("the synchronisation did not start the block")
	}'''),
 dict(id="c21-pace-gap", prop="C21", edits=[("simulator/module.go", "	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {\n", "	if s.forwardRateLimiter.lastScheduled > nextSlot {\n")],
  needs="a transaction learned less than the interval after the previous one was forwarded", breaks="two transactions are forwarded closer than the minimum interval",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, 0)
	connectServers(sv[0], sv[1], ms)
	sv[0].forwardRateLimiter.minInterval = 10 * ms
	var at []time.Duration
	for _, ts := range []time.Duration{100 * ms, 104 * ms} {
		for _, o := range sv[0].HandleMessage(blockArrival{1}, sv[0], ts) {
			if _, is := o.Payload.(loopback); is {
				at = append(at, ts+o.Delay)
			}
		}
	}
	if at[1]-at[0] < 10*ms {
		t.Fatalf("forwarded at %v", at)
	}'''),
 dict(id="c21-sync-drop", prop="C21", edits=[("simulator/node.go", "	n.buffer = append(n.buffer, tx)\n	n.tryFillSendWindow(mayStartNewBlock)\n", "	if len(n.buffer) == 0 && !mayStartNewBlock && n.encodingCurrentBlock && n.Encoder.AddTransaction(tx) {\n		// joins the block that is being sent\n		return\n	}\n	n.buffer = append(n.buffer, tx)\n	n.tryFillSendWindow(mayStartNewBlock)\n")],
  needs="synchronised blocks; the first transaction learned while a block is being sent", breaks="the transaction pushes the oldest one out of the coding window of the running block, and is not buffered",
  body='''	_, sv := zzNet(2, 2, 0.5, 0, time.Second)
	connectServers(sv[0], sv[1], ms)
	s := sv[0].handlers[sv[1]].sender
	for i := 0; i < 8; i++ {
		s.onTransaction(zzTx(i), false)
	}
	s.tryFillSendWindow(true)
	s.onTransaction(zzTx(50), false)
	d := lt.NewDecoder[transaction](testKey, 100)
	seen := map[uint64]bool{}
	for i := 0; i < 300; i++ {
		_, txs := d.AddCodeword(s.Encoder.ProduceCodeword())
		for _, x := range txs {
			seen[x.Data().idx] = true
		}
	}
	if !seen[1000] || len(s.buffer) != 1 {
		t.Fatal("the block lost its oldest transaction to a new one")
	}'''),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
for s in SEEDS:
    s["pkg"] = "simulator"
    s["demo"] = HEAD.replace("@BODY@", s["body"])
