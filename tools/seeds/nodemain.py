# C30: the node program as a whole
HEAD = '''package main

import (
	"encoding/binary"
	"encoding/gob"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

var _ = fmt.Sprint
var _ syscall.Rlimit
var _ gob.Decoder
var _ = binary.LittleEndian

type zzDeg struct{ d uint64 }

func (d zzDeg) Uint64() uint64 { return d.d }

func zzTx(i int) *ldpc.Transaction {
	var d ldpc.TransactionData
	binary.LittleEndian.PutUint64(d[0:], uint64(time.Now().UnixMicro()))
	binary.LittleEndian.PutUint64(d[8:], uint64(i)+77)
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}

func zzCw(k [ldpc.SaltSize]byte, txs ...*ldpc.Transaction) *ldpc.Codeword {
	e := ldpc.NewEncoder(k, zzDeg{uint64(len(txs))}, 100)
	for _, t := range txs {
		e.AddTransaction(t)
	}
	return e.ProduceCodeword()
}

// zzRun starts the node with the command line.
func zzRun(args ...string) {
	log.SetOutput(io.Discard)
	os.Args = append([]string{"node"}, args...)
	flag.CommandLine = flag.NewFlagSet("node", flag.PanicOnError)
	go main()
	time.Sleep(200 * time.Millisecond)
}

func zzListen(t *testing.T, addr string) net.Listener {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		t.Skip(err)
	}
	return l
}

// zzJoin exchanges keys.
func zzJoin(c net.Conn) (nodeKey [ldpc.SaltSize]byte, err error) {
	var k [ldpc.SaltSize]byte
	c.SetDeadline(time.Now().Add(3 * time.Second))
	if _, err = c.Write(k[:]); err != nil {
		return
	}
	_, err = io.ReadFull(c, nodeKey[:])
	c.SetDeadline(time.Time{})
	return
}

func zzPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}
'''
def T(body): return HEAD + "\nfunc TestZZDemo(t *testing.T) {\n" + body + "\n}\n"
SEEDS = [
 dict(id="c30-dial-gives-up", prop="C30", pkg="node", edits=[("node/main.go", '''				for {
					dialer := &net.Dialer{''', '''				for tries := 0; ; tries++ {
					if tries >= 6 {
						log.Println("giving up on", addr)
						return
					}
					dialer := &net.Dialer{''')],
  needs="a peer that is started more than six seconds later", breaks="the node stops trying and never connects",
  demo=T('''	there := zzPort()
	zzRun("-l", zzPort(), "-p", there, "-tx", "0")
	time.Sleep(8 * time.Second)
	l := zzListen(t, there)
	l.(*net.TCPListener).SetDeadline(time.Now().Add(4 * time.Second))
	if _, err := l.Accept(); err != nil {
		t.Fatal("the node does not connect to a peer started later")
	}''')),
 dict(id="c30-rmin-explicit", prop="C30", pkg="node", edits=[("node/main.go", '''		*initRate = *txRate
	}
	if *initRate < *minRate {
		*initRate = *minRate
	}
''', '''		*initRate = *txRate
		if *initRate < *minRate {
			*initRate = *minRate
		}
	}
''')],
  needs="an initial rate on the command line that is below the minimum", breaks="the node starts sending below the minimum rate",
  demo=T('''	a := zzPort()
	zzRun("-l", a, "-tx", "0", "-r0", "0.05", "-rmin", "200")
	c, err := net.Dial("tcp", a)
	if err != nil {
		t.Skip(err)
	}
	if _, err := zzJoin(c); err != nil {
		t.Skip(err)
	}
	d := gob.NewDecoder(c)
	n := 0
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	for {
		var cw Codeword
		if d.Decode(&cw) != nil {
			break
		}
		n++
	}
	if n < 100 {
		t.Fatalf("%d codewords in two seconds at a minimum rate of 200", n)
	}''')),
 dict(id="c30-accept-stops", prop="C30", pkg="node", edits=[("node/main.go", '''				log.Println("error accepting incoming connection:", err)
''', '''				log.Println("error accepting incoming connection:", err)
				return
''')],
  needs="a failing accept (no file descriptors left, say) and a connection after it", breaks="nobody can connect any more after one failed accept",
  demo=T('''	a := zzPort()
	zzRun("-l", a, "-tx", "0")
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		t.Skip(err)
	}
	// the next descriptor is the last one
	f, err := os.Open("/dev/null")
	if err != nil {
		t.Skip(err)
	}
	low := lim
	low.Cur = uint64(f.Fd()) + 1
	f.Close()
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		t.Skip(err)
	}
	c, err := net.Dial("tcp", a)
	time.Sleep(300 * time.Millisecond)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	if err == nil {
		defer c.Close()
	}
	d, err := net.Dial("tcp", a)
	if err != nil {
		t.Skip(err)
	}
	if _, err := zzJoin(d); err != nil {
		t.Fatal("no connection is accepted after a failed one: ", err)
	}''')),
 dict(id="c30-early-stamp", prop="C30", pkg="node", edits=[("node/main.go", '''			cnt := 0
			timer := ''', '''			cnt := 0
			next := randomTransaction()
			timer := '''), ("node/main.go", '''					tx := randomTransaction()
					c.localTransaction <- tx
''', '''					c.localTransaction <- next
					next = randomTransaction()
''')],
  needs="gaps between transactions", breaks="a transaction bears the time at which the one before it was sent",
  demo=T('''	a := zzPort()
	zzRun("-l", a, "-tx", "2", "-r0", "200", "-k", "1")
	c, err := net.Dial("tcp", a)
	if err != nil {
		t.Skip(err)
	}
	k, err := zzJoin(c)
	if err != nil {
		t.Skip(err)
	}
	d := gob.NewDecoder(c)
	dec := ldpc.NewDecoder(k, 1000)
	late := 0
	end := time.Now().Add(8 * time.Second)
	c.SetReadDeadline(end)
	n := 0
	for {
		var cw Codeword
		if d.Decode(&cw) != nil {
			break
		}
		if cw.Codeword == nil {
			continue
		}
		_, out := dec.AddCodeword(cw.Codeword)
		for _, tx := range out {
			n++
			if n > 1 && getDelayUs(tx.Transaction) > 100000 {
				late++
			}
		}
	}
	if n > 4 && late > n/3 {
		t.Fatalf("%d of %d new transactions bear a time long past", late, n)
	}''')),
 dict(id="c30-last-address", prop="C30", pkg="node", edits=[("node/main.go", '''					cn, err = dialer.Dial("tcp", addr)
''', '''					cn, err = dialer.Dial("tcp", a)
''')],
  needs="more than one address", breaks="all connections go to the last address (the loop variable is shared)",
  demo=T('''	l, m := zzListen(t, "127.0.0.1:0"), zzListen(t, "127.0.0.1:0")
	zzRun("-l", zzPort(), "-tx", "0", "-p", l.Addr().String()+","+m.Addr().String())
	l.(*net.TCPListener).SetDeadline(time.Now().Add(3 * time.Second))
	m.(*net.TCPListener).SetDeadline(time.Now().Add(3 * time.Second))
	_, e := l.Accept()
	_, f := m.Accept()
	if e != nil || f != nil {
		t.Fatal("an address is not connected to")
	}''')),
 dict(id="c30-soliton-order", prop="C30", pkg="node", edits=[("node/controller.go", "soliton.NewRobustSoliton(rand.New(rand.NewSource(time.Now().Unix())), K, solitonC, solitonDelta)", "soliton.NewRobustSoliton(rand.New(rand.NewSource(time.Now().Unix())), K, solitonDelta, solitonC)")],
  needs="parameters c and delta that differ", breaks="degrees are drawn from another distribution than the configured one",
  demo=T('''	a := zzPort()
	zzRun("-l", a, "-tx", "0", "-r0", "8000", "-rmin", "8000", "-inc", "0", "-k", "50", "-c", "0.02", "-delta", "0.9", "-t", "1h")
	c, err := net.Dial("tcp", a)
	if err != nil {
		t.Skip(err)
	}
	var k [ldpc.SaltSize]byte
	if _, err := zzJoin(c); err != nil {
		t.Skip(err)
	}
	e := gob.NewEncoder(c)
	for i := 0; i < 50; i++ {
		e.Encode(Codeword{zzCw(k, zzTx(i)), 0, time.Now().UnixMicro()})
	}
	d := gob.NewDecoder(c)
	time.Sleep(500 * time.Millisecond)
	ones, all := 0, 0
	for all < 12000 {
		var cw Codeword
		if d.Decode(&cw) != nil {
			break
		}
		if cw.Codeword == nil {
			continue
		}
		all++
		if all > 6000 && len(cw.Members) == 1 {
			ones++
		}
	}
	if f := float64(ones) / 6000; f > 0.06 {
		t.Fatalf("%.3f of the codewords are over a single transaction", f)
	}''')),
]
