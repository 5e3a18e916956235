HEAD = '''package main

import (
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

var _ = riblt.HashedSymbol[transaction]{}

const ms = time.Millisecond

func zzNet(t *testing.T, n int, flood bool) (*des.Simulator, []*server) {
	TXSIZE = 100
	RNG = rand.New(rand.NewSource(1))
	txgen = &transactionGenerator{}
	s := &des.Simulator{}
	return s, newServers(s, n, serverConfig{blockArrivalIntv: 1e-15, blockArrivalBurst: 1, initialFlood: flood})
}

func zzArrive(s *des.Simulator, to *server, n int, at time.Duration) {
	s.ScheduleMessage(des.OutgoingMessage{blockArrival{n}, to, at}, to)
}

func zzAll(t *testing.T, sv []*server, n int) {
	for i, s := range sv {
		if len(s.received) != n || s.receivedTransactions != n {
			t.Fatalf("node %d has %d transactions and counts %d, want %d", i, len(s.received), s.receivedTransactions, n)
		}
	}
}

func TestZZDemo(t *testing.T) {
@BODY@
}
'''
SEEDS = [
 dict(id="c17-flood-forward-dup", prop="C17", pkg="newsim",
  edits=[("newsim/module.go", """				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.forwardTransaction(tx, from)
				s.received[tx.Symbol.idx] = struct{}{}
				s.decodedTransactions += 1
				s.receivedTransactions += 1
			} else {
				s.duplicateTransactions += 1
			}
		} else {
""", """				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.received[tx.Symbol.idx] = struct{}{}
				s.decodedTransactions += 1
				s.receivedTransactions += 1
			} else {
				s.duplicateTransactions += 1
			}
			s.forwardTransaction(tx, from)
		} else {
""")],
  needs="first-hop flooding on a triangle where reconciliation over two fast links delivers the transaction before the flooded copy on the slow link",
  breaks="a flooded transaction that is already known is forwarded again, so it is in a link's buffer twice and cancels itself out or is never explained",
  demo=lambda: '''	s, sv := zzNet(t, 4, true)
	c := senderConfig{0.5, 1}
	connectCodingServers(sv[0], sv[1], 5*ms, c)
	connectCodingServers(sv[1], sv[2], 5*ms, c)
	connectCodingServers(sv[0], sv[2], 70*ms, c)
	connectCodingServers(sv[2], sv[3], 200*ms, c)
	for i := 0; i < 4; i++ {
		zzArrive(s, sv[i], 1, 1*ms)
	}
	for i := 0; i < 40; i++ {
		zzArrive(s, sv[0], 1, 1000*ms+time.Duration(i)*37*ms)
	}
	s.RunUntil(9000 * ms)
	zzAll(t, sv, 44)'''),
 dict(id="c17-pull-silent-dup", prop="C17", pkg="newsim",
  edits=[("newsim/pull.go", """		c.known[m.payload.Hash] = m.payload
		return""", """		if _, there := c.known[m.payload.Hash]; there {
			return nil // learned from another peer meanwhile
		}
		c.known[m.payload.Hash] = m.payload
		return""")],
  needs="pull algorithm on a diamond: two neighbours announce a transaction before either has answered the request",
  breaks="the second copy is not accounted as a duplicate",
  demo=lambda: '''	s, sv := zzNet(t, 4, false)
	connectPullServers(sv[0], sv[1], 10*ms)
	connectPullServers(sv[0], sv[2], 10*ms)
	connectPullServers(sv[1], sv[3], 10*ms)
	connectPullServers(sv[2], sv[3], 10*ms)
	zzArrive(s, sv[0], 1, ms)
	s.RunUntil(5000 * ms)
	zzAll(t, sv, 1)
	if sv[3].duplicateTransactions != 1 {
		t.Fatalf("two copies received, %d accounted as duplicates", sv[3].duplicateTransactions)
	}'''),
 dict(id="c17-bytes-after-flood", prop="C17", pkg="newsim",
  edits=[("newsim/module.go", """			} else {
				s.duplicateTransactions += 1
			}
		} else {
			n := s.handlers[from]
""", """			} else {
				s.duplicateTransactions += 1
				return s.collectOutgoingMessages(outbox)
			}
		} else {
			n := s.handlers[from]
""")],
  needs="a flooded copy that arrives after the transaction was decoded from another peer", breaks="the bytes of the duplicate are not counted",
  demo=lambda: '''	s, sv := zzNet(t, 2, true)
	connectCodingServers(sv[0], sv[1], 10*ms, senderConfig{0.5, 1})
	_ = s
	tx := txgen.generate(0)
	m := initialBroadcast{riblt.HashedSymbol[transaction]{tx, tx.Hash()}}
	sv[0].HandleMessage(m, sv[1], ms)
	one := sv[0].receivedBytes
	sv[0].HandleMessage(m, sv[1], 2*ms)
	if sv[0].receivedBytes != 2*one {
		t.Fatalf("%d bytes counted for two messages of %d", sv[0].receivedBytes, one)
	}'''),
 dict(id="c18-skip-after-move", prop="C18", pkg="newsim",
  edits=[("newsim/coding.go", """				n.Encoder.AddHashedSymbol(v)
				l := len(n.buffer) - 1
				n.buffer[tidx] = n.buffer[l]
				n.buffer = n.buffer[:l]
				//			okay = true
			} else {
				tidx += 1
			}
""", """				n.Encoder.AddHashedSymbol(v)
				l := len(n.buffer) - 1
				n.buffer[tidx] = n.buffer[l]
				n.buffer = n.buffer[:l]
				//			okay = true
			}
			tidx += 1
""")],
  needs="two buffered transactions of the same shard, one of them last in the buffer", breaks="a transaction of the block's shard stays behind for a whole round",
  demo=lambda: '''	_, sv := zzNet(t, 2, false)
	connectCodingServers(sv[0], sv[1], 10*ms, senderConfig{0.5, 1})
	c := sv[0].handlers[sv[1]].algorithm.(coding)
	for i := 0; i < 4; i++ {
		tx := txgen.generate(0)
		c.sender.buffer = append(c.sender.buffer, riblt.HashedSymbol[transaction]{tx, tx.Hash()})
	}
	c.sender.tryFillSendWindow()
	if l := len(c.sender.buffer); l != 0 {
		t.Fatalf("%d transactions of the only shard were left out of the block", l)
	}'''),
 dict(id="c18-receiver-boundary", prop="C18", pkg="newsim",
  edits=[("newsim/coding.go", """			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Decoder.AddHashedSymbol(v)
""", """			// distance from the start of the shard, wrapping around
			if cw.startHash == cw.endHash || shardHash-cw.startHash <= cw.endHash-1-cw.startHash+1 {
				n.Decoder.AddHashedSymbol(v)
""")],
  needs="a transaction known to the receiver only whose randomised hash is exactly the end of the shard", breaks="the receiver puts the transaction into the shard before the one the sender puts it into",
  demo=lambda: '''	_, sv := zzNet(t, 2, false)
	connectCodingServers(sv[0], sv[1], 10*ms, senderConfig{0.5, 4})
	snd := sv[0].handlers[sv[1]].algorithm.(coding).sender
	rcv := sv[1].handlers[sv[0]].algorithm.(coding).receiver
	size := ^uint64(0) / 4
	tx := txgen.generate(0)
	for tx.Hash()%2 == 0 {
		tx = txgen.generate(0)
	}
	inv := tx.Hash() // inverse of an odd number modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - tx.Hash()*inv
	}
	snd.shardRandomizer = inv * (2 * size)
	rcv.shardRandomizer = snd.shardRandomizer
	snd.shardSchedule = []int{1, 0, 2, 3}
	h := riblt.HashedSymbol[transaction]{tx, tx.Hash()}
	rcv.buffer = append(rcv.buffer, h)
	snd.tryFillSendWindow()
	rcv.onCodeword(snd.outbox[0].(codeword))
	if len(rcv.buffer) != 1 {
		t.Fatal("the receiver used a transaction in a shard that does not cover it")
	}'''),
 dict(id="c19-burst-not-in-flight", prop="C19", pkg="newsim",
  edits=[("newsim/coding.go", """			n.outbox = append(n.outbox, cw)
			n.inFlight += 1
		}
	}
	return
""", """			n.outbox = append(n.outbox, cw)
		}
	}
	return
""")],
  needs="a block after one that needed at least two codewords, so that it starts with a burst", breaks="the codewords of the burst are not counted as outstanding, so more are sent than the window allows",
  demo=lambda: '''	_, sv := zzNet(t, 2, false)
	connectCodingServers(sv[0], sv[1], 10*ms, senderConfig{0.5, 1})
	snd := sv[0].handlers[sv[1]].algorithm.(coding).sender
	snd.currentBlockAckCount = 9
	snd.tryFillSendWindow()
	// burst of 6, window 4.5
	if n := len(snd.outbox); n != 7 {
		t.Fatalf("%d codewords sent at the start of a block, the first one and a burst of 6 fill a window of 4.5", n)
	}'''),
 dict(id="c19-empty-block-not-done", prop="C19", pkg="newsim",
  edits=[("newsim/coding.go", """		n.currentBlockReceived = true
		ack.ackBlock = true
""", """		n.currentBlockReceived = len(n.Decoder.Remote()) > 0 || len(n.Decoder.Local()) > 0
		ack.ackBlock = true
""")],
  needs="a block both sides agree on, followed by further codewords of it that were already under way", breaks="codewords of a completed block are decoded against the reset decoder and acknowledged again",
  demo=lambda: '''	_, sv := zzNet(t, 2, false)
	connectCodingServers(sv[0], sv[1], 10*ms, senderConfig{3, 1})
	a, b := sv[0].handlers[sv[1]].algorithm.(coding), sv[1].handlers[sv[0]].algorithm.(coding)
	tx := txgen.generate(0)
	h := riblt.HashedSymbol[transaction]{tx, tx.Hash()}
	a.sender.sendWindow, a.sender.currentBlockAckCount = 4, 4
	a.sender.buffer = append(a.sender.buffer, h)
	b.receiver.buffer = append(b.receiver.buffer, h)
	a.sender.tryFillSendWindow()
	acks := 0
	for _, m := range a.sender.outbox {
		if cw := m.(codeword); true {
			got, _ := b.receiver.onCodeword(cw)
			if len(got) > 0 {
				t.Fatalf("decoded %v from a block both sides agree on", got)
			}
		}
	}
	for _, m := range b.receiver.outbox {
		if m.(ack).ackBlock {
			acks++
		}
	}
	if acks != 1 {
		t.Fatalf("the block was acknowledged %d times", acks)
	}'''),
]
for s in SEEDS:
    s["demo"] = HEAD.replace("@BODY@", s["demo"]())
