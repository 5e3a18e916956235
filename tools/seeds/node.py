# C23-C26: the node
HEAD = '''package main

import (
	"encoding/binary"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = os.Args
var _ sync.Mutex
var _ net.Conn
var _ gob.Decoder
var _ = io.EOF

func zzTx(i int) *ldpc.Transaction {
	var d ldpc.TransactionData
	binary.LittleEndian.PutUint64(d[0:], uint64(time.Now().UnixMicro()))
	binary.LittleEndian.PutUint64(d[8:], uint64(i)+77)
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}

type zzDeg struct{ d uint64 }

func (d zzDeg) Uint64() uint64 { return d.d }

func zzKey() (k [ldpc.SaltSize]byte) {
	for i := range k {
		k[i] = byte(i + 1)
	}
	return
}

func zzCw(txs ...*ldpc.Transaction) *ldpc.Codeword {
	e := ldpc.NewEncoder(zzKey(), zzDeg{uint64(len(txs))}, 100)
	for _, t := range txs {
		e.AddTransaction(t)
	}
	return e.ProduceCodeword()
}

func zzSketch() *ddsketch.DDSketchWithExactSummaryStatistics {
	s, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	return s
}

func zzController(rate, min, inc, target float64) *controller {
	return &controller{newPeer: make(chan *peer), decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction: make(chan *ldpc.Transaction, 1000), K: 8, M: 10000, solitonC: 0.03, solitonDelta: 0.5,
		initRate: rate, minRate: min, incConstant: inc, targetLoss: target, decodeTimeout: 200 * time.Millisecond,
		delaySketch: zzSketch(), warmupTime: time.Hour}
}

// zzRecv is a receiver around channels the test reads and writes.
func zzRecv() (r *receiver, in chan Codeword, peerLoss, ourLoss chan int, decoded chan ldpc.DecodedTransaction, fresh chan *ldpc.Transaction) {
	peerLoss, ourLoss = make(chan int, 100), make(chan int, 100)
	decoded, fresh = make(chan ldpc.DecodedTransaction, 1000), make(chan *ldpc.Transaction, 100)
	in = make(chan Codeword, 1000)
	r = &receiver{decoder: ldpc.NewDecoder(zzKey(), 1000), peerLoss: peerLoss, ourLoss: ourLoss, decodedTransaction: decoded,
		newTransaction: fresh, timeout: 200 * time.Millisecond, delaySketch: zzSketch()}
	return
}

// zzSend is a sender around channels the test reads and writes.
func zzSend(rate, min, dec float64) (s *sender, peerLoss, ourLoss chan int, fresh chan *ldpc.Transaction) {
	peerLoss, ourLoss = make(chan int, 100), make(chan int, 100)
	fresh = make(chan *ldpc.Transaction, 100)
	s = &sender{encoder: ldpc.NewEncoder(zzKey(), zzDeg{1}, 50), cwRate: rate, minRate: min, rateIncreaseConstant: 1, rateDecreaseConstant: dec,
		peerLoss: peerLoss, ourLoss: ourLoss, newTransaction: fresh}
	return
}

func TestZZDemo(t *testing.T) {
	log.SetOutput(io.Discard)
@BODY@
}
'''
SEEDS = [
 dict(id="c23-reused-codeword", prop="C23", edits=[("node/receiver.go", "	for {\n		newcw := Codeword{}\n		err", "	newcw := Codeword{}\n	for {\n		newcw.Loss, newcw.UnixMicro = 0, 0\n		err")],
  needs="codewords read from the connection faster than they are decoded", breaks="gob fills the codeword that is still queued: several queued codewords become the last one",
  body='''	a, b := net.Pipe()
	r, in, _, _, _, _ := zzRecv()
	r.rx = gob.NewDecoder(a)
	go r.receive(in)
	e := gob.NewEncoder(b)
	x, y, z := zzTx(1), zzTx(2), zzTx(3)
	var sent []*ldpc.Codeword
	for _, c := range []*ldpc.Codeword{zzCw(x), zzCw(x, y), zzCw(z)} {
		sent = append(sent, c)
		e.Encode(Codeword{c, 0, 1})
	}
	time.Sleep(200 * time.Millisecond)
	for i, c := range sent {
		g := <-in
		if len(g.Members) != len(c.Members) || g.Symbol != c.Symbol {
			t.Fatal("codeword", i, "arrives as something else")
		}
	}'''),
 dict(id="c23-async-key", prop="C23", edits=[("node/controller.go", "	// send our key\n	_, err := conn.Write(encoderKey[:])\n	if err != nil {\n		return err\n	}\n", "	// send our key; the peer does the same at this moment, so do not wait\n	// for it to read ours\n	var err error\n	go func() {\n		_, err := conn.Write(encoderKey[:])\n		if err != nil {\n			log.Println(\"error sending key to peer:\", err)\n		}\n	}()\n")],
  needs="a connection that fails while our key is sent, or that takes it late", breaks="a connection without our key becomes a peer, or codewords go out ahead of the key",
  body='''	c := zzController(0.001, 0.001, 0.1, 0.02)
	go c.loop()
	a, b := io.Pipe()
	k := zzKey()
	go b.Write(k[:])
	err := c.handleConn("x", zzBroken{a})
	if err == nil {
		t.Fatal("a connection that does not take our key became a peer")
	}
}

type zzBroken struct{ io.Reader }

func (zzBroken) Write([]byte) (int, error) { return 0, errors.New("broken") }

func init() {'''),
 dict(id="c23-drop-when-busy", prop="C23", edits=[("node/receiver.go", "		cw <- newcw\n", "		select {\n		case cw <- newcw:\n		default:\n			// the decoder is behind; the peer will hear of it as a loss\n			log.Printf(\"peer %s overruns the decoder\\n\", r.peerId)\n		}\n")],
  needs="more codewords arriving than the decoder takes meanwhile", breaks="codewords that arrived are dropped without being counted as lost",
  body='''	a, b := net.Pipe()
	r, _, _, _, _, _ := zzRecv()
	r.rx = gob.NewDecoder(a)
	in := make(chan Codeword, 10)
	go r.receive(in)
	e := gob.NewEncoder(b)
	go func() {
		for i := 0; i < 50; i++ {
			e.Encode(Codeword{zzCw(zzTx(i)), 0, int64(i)})
		}
	}()
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 50; i++ {
		select {
		case g := <-in:
			if g.UnixMicro != int64(i) {
				t.Fatal("codeword", i, "is missing")
			}
		case <-time.After(time.Second):
			t.Fatal("codeword", i, "is missing")
		}
	}'''),
 dict(id="c24-notify-drops", prop="C24", edits=[("node/controller.go", "	h.newTxToSender <- t\n	h.newTxToReceiver <- t \n}\n\nfunc (h *peer) notifyExpired", "	h.newTxToSender <- t\n	select {\n	case h.newTxToReceiver <- t:\n	default:\n		// the receiver is behind; it will get the transaction from its peer\n	}\n}\n\nfunc (h *peer) notifyExpired")],
  needs="a receiver that is behind by as many transactions as its channel holds", breaks="a transaction is not offered to the decoder of that peer",
  body='''	rc := make(chan *ldpc.Transaction, 2)
	sc := make(chan *ldpc.Transaction, 10)
	p := &peer{sc, rc}
	done := make(chan bool)
	go func() {
		for i := 0; i < 5; i++ {
			p.notifyUnexpiredTransaction(zzTx(i))
		}
		close(done)
	}()
	time.Sleep(100 * time.Millisecond)
	n := 0
	for n < 5 {
		select {
		case <-rc:
			n++
		case <-time.After(time.Second):
			t.Fatal(n, "of 5 transactions reach the decoder")
		}
	}
	<-done'''),
 dict(id="c24-expired-dropped", prop="C24", edits=[("node/controller.go", "				if tx.Expired {\n					peer.notifyExpiredTransaction(tx.Transaction)\n				} else {\n", "				if tx.Expired && len(peer.newTxToReceiver) > 0 {\n					// old news, do not hold up the fresh ones\n					continue\n				} else if tx.Expired {\n					peer.notifyExpiredTransaction(tx.Transaction)\n				} else {\n")],
  needs="an expired transaction decoded while the receiver of a peer has one waiting", breaks="the expired transaction is not offered to that peer's decoder",
  body='''	c := zzController(1, 1, 0.1, 0.02)
	go c.loop()
	rc := make(chan *ldpc.Transaction, 10)
	sc := make(chan *ldpc.Transaction, 10)
	c.newPeer <- &peer{sc, rc}
	c.localTransaction <- zzTx(1)
	time.Sleep(50 * time.Millisecond)
	c.decodedTransaction <- ldpc.DecodedTransaction{zzTx(2), true}
	time.Sleep(50 * time.Millisecond)
	if len(rc) != 2 {
		t.Fatal("the expired transaction was not offered to the decoder")
	}'''),
 dict(id="c24-parallel-fanout", prop="C24", edits=[("node/controller.go", "		case p := <-c.newPeer:\n			log.Println(\"new peer\")\n			c.peers = append(c.peers, p)\n", "		case p := <-c.newPeer:\n			log.Println(\"new peer\")\n			// a copy, so that nobody sees the list change\n			peers := make([]*peer, len(c.peers), len(c.peers)+1)\n			copy(peers, c.peers)\n			c.peers = append(peers, p)\n"),
   ("node/controller.go", "			for _, peer := range c.peers {\n				peer.notifyUnexpiredTransaction(tx)\n			}\n", "			// one slow peer does not hold up the others\n			for _, peer := range c.peers {\n				select {\n				case peer.newTxToSender <- tx:\n					peer.newTxToReceiver <- tx\n				default:\n					go peer.notifyExpiredTransaction(tx)\n				}\n			}\n")],
  needs="a peer whose sender has as many transactions waiting as its channel holds", breaks="a local transaction is never offered for encoding to that peer",
  body='''	c := zzController(1, 1, 0.1, 0.02)
	go c.loop()
	rc := make(chan *ldpc.Transaction, 10)
	sc := make(chan *ldpc.Transaction, 1)
	c.newPeer <- &peer{sc, rc}
	for i := 0; i < 3; i++ {
		c.localTransaction <- zzTx(i)
	}
	time.Sleep(100 * time.Millisecond)
	n := 0
	for n < 3 {
		select {
		case <-sc:
			n++
		case <-time.After(500 * time.Millisecond):
			t.Fatal("only", n, "of 3 transactions are offered to the encoder")
		}
	}'''),
 dict(id="c25-reset-when-dropped", prop="C25", edits=[("node/sender.go", "				nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}\n", "				nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}\n				s.accumLoss = 0\n"), ("node/sender.go", "				case ch <- nc:\n					s.accumLoss = 0\n", "				case ch <- nc:\n")],
  needs="a loss counted while the queue to the connection is full", breaks="the loss goes out with a codeword that is dropped, and is never reported",
  body='''	s, _, our, _ := zzSend(1000, 1, 0)
	ch := make(chan Codeword)
	our <- 5
	go s.loop(ch)
	time.Sleep(200 * time.Millisecond)
	got := 0
	for i := 0; i < 20; i++ {
		got += (<-ch).Loss
	}
	if got != 5 {
		t.Fatal(got, "of 5 losses reported")
	}'''),
 dict(id="c25-loss-not-waiting", prop="C25", edits=[("node/receiver.go", "			r.ourLoss <- loss\n", "			if loss > 0 {\n				select {\n				case r.ourLoss <- loss:\n				default:\n					// the sender is busy\n				}\n			}\n")],
  needs="a sender that is behind by as many reports as its channel holds", breaks="the losses are forgotten",
  body='''	r, in, _, _, _, _ := zzRecv()
	our := make(chan int, 1)
	r.ourLoss = our
	go r.decode(in)
	for i := 0; i < 3; i++ {
		in <- Codeword{zzCw(zzTx(10*i), zzTx(10*i+1)), 0, 0}
		time.Sleep(20 * time.Millisecond)
		select {
		case <-our:
		default:
		}
	}
	time.Sleep(400 * time.Millisecond)
	// a report nobody has taken yet
	our <- 0
	in <- Codeword{zzCw(zzTx(100)), 0, 0}
	time.Sleep(50 * time.Millisecond)
	n := 0
	for i := 0; i < 3; i++ {
		select {
		case l := <-our:
			n += l
		case <-time.After(200 * time.Millisecond):
		}
	}
	if n != 3 {
		t.Fatal(n, "of 3 lost codewords counted")
	}'''),
 dict(id="c25-senders-clock", prop="C25", edits=[("node/receiver.go", "			now := time.Now()\n", "			// a codeword starts to age when it is sent, not when we get to it\n			now := time.UnixMicro(cw.UnixMicro)\n")],
  needs="a peer whose clock is off, or codewords that are old when they are taken", breaks="codewords are counted lost long before or after their timeout",
  body='''	r, in, _, our, _, _ := zzRecv()
	go r.decode(in)
	behind := time.Now().Add(-time.Hour).UnixMicro()
	in <- Codeword{zzCw(zzTx(1), zzTx(2)), 0, behind}
	<-our
	time.Sleep(300 * time.Millisecond)
	in <- Codeword{zzCw(zzTx(3)), 0, behind}
	if l := <-our; l != 1 {
		t.Fatal("a codeword undecoded after its timeout is counted", l, "times")
	}'''),
 dict(id="c25-rate-jump", prop="C25", edits=[("node/sender.go", "		case l := <-s.peerLoss:\n			s.cwRate += s.rateIncreaseConstant * float64(l)\n", "		case l := <-s.peerLoss:\n			// take all reports that are there\n			for more := true; more; {\n				s.cwRate += s.rateIncreaseConstant * float64(l)\n				select {\n				case l = <-s.peerLoss:\n				default:\n					more = false\n				}\n				if len(s.peerLoss) == 0 {\n					break\n				}\n			}\n")],
  needs="two or more loss reports waiting when the sender gets to them", breaks="the last of them is taken and not counted",
  body='''	s, peer, _, _ := zzSend(100, 1, 0)
	s.rateIncreaseConstant = 1000
	peer <- 1
	peer <- 1
	ch := make(chan Codeword, 10000)
	go s.loop(ch)
	time.Sleep(300 * time.Millisecond)
	n := len(ch)
	time.Sleep(time.Second)
	n = len(ch) - n
	if n < 1600 {
		t.Fatal("after two reports of one loss at 1000 each the sender sends", n, "codewords per second")
	}'''),
 dict(id="c26-floor-late", prop="C26", edits=[("node/sender.go", "					s.cwRate -= s.rateDecreaseConstant\n					if s.cwRate < s.minRate {\n						s.cwRate = s.minRate\n					}\n", "					if s.cwRate > s.minRate {\n						s.cwRate -= s.rateDecreaseConstant\n					}\n")],
  needs="a rate that is not a whole number of decrements above the floor", breaks="the rate ends up below the minimum",
  body='''	s, _, _, _ := zzSend(300, 200, 190)
	ch := make(chan Codeword, 10000)
	go s.loop(ch)
	time.Sleep(200 * time.Millisecond)
	n := len(ch)
	time.Sleep(time.Second)
	if n = len(ch) - n; n < 160 {
		t.Fatal("with a minimum of 200 the sender sends", n, "codewords per second")
	}'''),
 dict(id="c26-drop-lowers", prop="C26", edits=[("node/sender.go", "					// do not reset accumLoss now that the codeword is skipped\n					s.droppedCodewords += 1\n", "					// do not reset accumLoss now that the codeword is skipped\n					s.droppedCodewords += 1\n					if s.droppedCodewords%2 == 0 && s.cwRate-s.rateDecreaseConstant > s.minRate {\n						s.cwRate -= s.rateDecreaseConstant\n					}\n")],
  needs="several codewords dropped at a full queue with a rate above the floor", breaks="codewords that were never sent lower the rate",
  body='''	s, _, _, _ := zzSend(1000, 1, 10)
	ch := make(chan Codeword)
	go s.loop(ch)
	time.Sleep(500 * time.Millisecond)
	stop := time.After(300 * time.Millisecond)
	n := 0
	for {
		select {
		case <-ch:
			n++
			if n > 20 {
				return
			}
			continue
		case <-stop:
		}
		break
	}
	t.Fatal("after a stall the sender sends", n, "codewords in 300 ms")'''),
 dict(id="c26-keep-credit", prop="C26", edits=[("node/sender.go", "			for s.credit >= 1.0 {\n", "			for s.credit >= 1.0 && len(ch) < cap(ch) {\n")],
  needs="a queue that stays full over several intervals", breaks="the budget of the stalled intervals is kept and spent in one burst",
  body='''	s, _, _, _ := zzSend(1000, 1, 0)
	ch := make(chan Codeword, 400)
	go s.loop(ch)
	time.Sleep(1500 * time.Millisecond)
	for i := 0; i < 400; i++ {
		<-ch
	}
	time.Sleep(100 * time.Millisecond)
	if n := len(ch); n > 300 {
		t.Fatal("in the 100 ms after a stall the sender makes", n, "codewords at 1000 per second")
	}'''),
 dict(id="c26-remainder", prop="C26", edits=[("node/sender.go", "			s.credit += 0.01 * s.cwRate\n", "			if s.cwRate >= 100 && s.credit < 1e-9 {\n				s.credit = 0\n			}\n			if s.cwRate > 500 {\n				// many per interval: the fraction does not matter\n				s.credit = 0\n			}\n			s.credit += 0.01 * s.cwRate\n")],
  needs="a rate above 500 that is not a multiple of 100", breaks="the fraction of the budget left after every interval is lost",
  body='''	s, _, _, _ := zzSend(590, 1, 0)
	ch := make(chan Codeword, 10000)
	go s.loop(ch)
	time.Sleep(100 * time.Millisecond)
	n := len(ch)
	time.Sleep(2 * time.Second)
	if n = len(ch) - n; n < 1100 {
		t.Fatal("at a rate of 590 the sender sends", n, "codewords in two seconds")
	}'''),
]
for s in SEEDS:
    s["pkg"] = "node"
    s["demo"] = HEAD.replace("@BODY@", s["body"])
