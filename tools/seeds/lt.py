SYM = '''
type sym [16]byte

func (d *sym) XOR(o *sym) *sym {
	if d == nil {
		d = &sym{}
	}
	for i := range d {
		d[i] ^= o[i]
	}
	return d
}
func (d *sym) Hash() []byte { return d[:] }

type fix struct{ n uint64 }

func (f *fix) Uint64() uint64 { return f.n }

func tx(i int) %(p)s.Transaction[*sym] {
	h := sha256.Sum256([]byte{byte(i), byte(i >> 8)})
	s := &sym{}
	copy(s[:], h[:])
	return %(p)s.NewTransaction[*sym](s)
}

var salt [16]byte

// cw makes a codeword of exactly the given transactions
func cw(ids ...int) %(p)s.Codeword[*sym] {
	e := %(p)s.NewEncoder[*sym](rand.New(rand.NewSource(1)), salt, &fix{uint64(len(ids))}, len(ids))
	for _, i := range ids {
		e.AddTransaction(tx(i))
	}
	return e.ProduceCodeword()
}

func bad(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\\n", a...)
	os.Exit(1)
}
'''
def prog(p, body):
    return ('package main\n\nimport (\n\t"crypto/sha256"\n\t"fmt"\n\t"math/rand"\n\t"os"\n\n\t"github.com/yangl1996/rateless-set-reconcile/%s"\n)\n' % p
            + SYM % dict(p=p) + "\nfunc main() {\n" + body + "\n}\n")
LDPC = '''package main

import (
	"fmt"
	"os"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

type fix struct{ n uint64 }

func (f *fix) Uint64() uint64 { return f.n }

var salt [16]byte

func tx(i int) *ldpc.Transaction {
	b := make([]byte, ldpc.TxSize)
	for k := range b {
		b[k] = byte(i*37 + k*i*i)
	}
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return t
}

func cw(ids ...int) *ldpc.Codeword {
	e := ldpc.NewEncoder(salt, &fix{uint64(len(ids))}, len(ids))
	for _, i := range ids {
		e.AddTransaction(tx(i))
	}
	return e.ProduceCodeword()
}

func bad(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\\n", a...)
	os.Exit(1)
}

func main() {
%s
}
'''
SEEDS = [
 dict(id="c01-iblt-newest-unreachable", prop="C01", edits=[("iblt/encoder.go", "		r := e.r.Intn(n-i) + i\n", "		r := i\n		if n-i > 1 {\n			r += e.r.Intn(n - i - 1)\n		}\n")],
  needs="looking at which transactions a codeword can contain over all random outcomes", breaks="the newest transaction of the window is never selected unless the codeword combines the whole window",
  demo=prog("iblt", '''	hit := 0
	for seed := int64(0); seed < 400; seed++ {
		e := iblt.NewEncoder[*sym](rand.New(rand.NewSource(seed)), salt, &fix{2}, 4)
		for i := 0; i < 4; i++ {
			e.AddTransaction(tx(i))
		}
		d := iblt.NewDecoder[*sym](salt, 10)
		for i := 0; i < 3; i++ {
			d.AddTransaction(tx(i))
		}
		_, out := d.AddCodeword(e.ProduceCodeword())
		hit += len(out)
	}
	if hit < 100 {
		bad("the newest of 4 transactions is in %d of 400 codewords of degree 2", hit)
	}''')),
 dict(id="c04-lt-redundant-codeword", prop="C04", edits=[("lt/decoder.go", "	if len(cw.members) <= 1 {\n		cw.queued", "	if len(cw.members) == 1 {\n		cw.queued")],
  needs="a codeword all of whose transactions are already known when it arrives", breaks="a fully known codeword never reports itself decoded",
  demo=prog("lt", '''	d := lt.NewDecoder[*sym](salt, 100)
	d.AddTransaction(tx(1))
	d.AddTransaction(tx(2))
	s, _ := d.AddCodeword(cw(1, 2))
	if !s.Decoded() {
		bad("codeword over known transactions not decoded")
	}''')),
 dict(id="c05-lt-store-after-cascade", prop="C05", edits=[("lt/decoder.go", '''		p.storeNewTransaction(saltedHash, t)
		if pending, there := p.pendingTransactions[saltedHash]; there {
			// quick sanity check''', '''		pending, there := p.pendingTransactions[saltedHash]
		if !there {
			p.storeNewTransaction(saltedHash, t)
		}
		if there {
			// quick sanity check'''), ("lt/decoder.go", '''			queue := pending.markDecoded(t.data, nil)
			return p.decodeCodewords(queue)
''', '''			queue := pending.markDecoded(t.data, nil)
			decoded := p.decodeCodewords(queue)
			p.storeNewTransaction(saltedHash, t)
			return decoded
''')],
  needs="a directly added transaction that releases pending codewords while the memory is nearly full", breaks="the added transaction counts as learned after those it released, so the wrong transaction is forgotten",
  demo=prog("lt", '''	d := lt.NewDecoder[*sym](salt, 2)
	d.AddCodeword(cw(1, 2))
	d.AddTransaction(tx(1)) // decodes 2; learned 1 then 2
	d.AddTransaction(tx(3)) // forgets 1
	if d.HasDecoded(tx(1)) || !d.HasDecoded(tx(2)) || !d.HasDecoded(tx(3)) {
		bad("memory holds 1:%v 2:%v 3:%v, want 2 and 3", d.HasDecoded(tx(1)), d.HasDecoded(tx(2)), d.HasDecoded(tx(3)))
	}''')),
 dict(id="c07-ldpc-stale-freed", prop="C07", edits=[("ldpc/decoder.go", "	cw.decoded = false\n	cw.freed = false\n", "	cw.decoded = false\n")],
  needs="a codeword that is decoded, released and recycled for a later codeword", breaks="a recycled codeword object starts out as released: what it decodes is marked expired and the object is handed out twice",
  demo=LDPC % '''	for n := 0; n < 2000; n++ {
		d := ldpc.NewDecoder(salt, 100)
		s, _ := d.AddCodeword(cw(1))
		s.Free()
		_, out := d.AddCodeword(cw(2))
		if len(out) != 1 || out[0].Expired {
			bad("round %d: fresh codeword decoded to %d transactions, marked expired", n, len(out))
		}
	}'''),
 dict(id="c06-iblt-short-compare", prop="C06", edits=[("iblt/decoder.go", "if saltedHash != decodableTx.saltedHash {", "if saltedHash&0xffff != decodableTx.saltedHash&0xffff {")],
  needs="a codeword whose content does not match its header but agrees in the low 16 bits of the short hash", breaks="an output transaction does not match the header it came from",
  demo=prog("iblt", '''	// two transactions whose short hashes agree in 16 bits only: x and y; a
	// receiver that knows z under the same short hash as nothing else
	h := func(t iblt.Transaction[*sym]) uint32 {
		s := siphash.New(salt[:])
		s.Write(t.Hash())
		return uint32(s.Sum64())
	}
	seen := map[uint16]int{}
	for i := 1; i < 60000; i++ {
		k := uint16(h(tx(i)))
		j, there := seen[k]
		if !there {
			seen[k] = i
			continue
		}
		if h(tx(i)) == h(tx(j)) {
			continue
		}
		// codeword announces i but carries j: flip the symbol through a forged transaction
		c := cw(i)
		v := reflect.ValueOf(&c).Elem().FieldByName("symbol")
		p := (*sym)(unsafe.Pointer(v.Pointer()))
		*p = *tx(j).Data()
		d := iblt.NewDecoder[*sym](salt, 100)
		_, out := d.AddCodeword(c)
		if len(out) != 0 {
			bad("decoded a transaction that the header does not list")
		}
		return
	}''').replace('"os"\n', '"os"\n\t"reflect"\n\t"unsafe"\n\n\t"github.com/dchest/siphash"\n')),
 dict(id="c08-lt-member-buffer", prop="C08", edits=[("lt/encoder.go", "	shuffleHistory []int\n", "	shuffleHistory []int\n	members        []uint32\n"),
   ("lt/encoder.go", "	c.members = make([]uint32, deg)\n", "	if cap(e.members) < deg {\n		e.members = make([]uint32, deg)\n	}\n	c.members = e.members[:deg]\n")],
  needs="a codeword still in use when the encoder produces the next one", breaks="producing a codeword overwrites the header of earlier codewords",
  demo=prog("lt", '''	d := &fix{2}
	e := lt.NewEncoder[*sym](rand.New(rand.NewSource(3)), salt, d, 6)
	for i := 0; i < 6; i++ {
		e.AddTransaction(tx(i))
	}
	a := e.ProduceCodeword()
	before := fmt.Sprint(a)
	for i := 0; i < 10 && before == fmt.Sprint(a); i++ {
		e.ProduceCodeword()
	}
	if before != fmt.Sprint(a) {
		bad("codeword changed from %s to %v", before, a)
	}''')),
 dict(id="c02-ldpc-evicted-hash", prop="C02", edits=[("ldpc/encoder.go", '''	for k := range e.hashes {
		delete(e.hashes, k)
	}
}
''', '''	for _, t := range e.window {
		delete(e.hashes, t.saltedHash)
	}
}
''')],
  needs="resetting an encoder that holds transactions and adding one of them again", breaks="after a reset, transactions of the previous window are refused",
  demo=LDPC % '''	d := &fix{1}
	e := ldpc.NewEncoder(salt, d, 3)
	for i := 0; i < 3; i++ {
		e.AddTransaction(tx(i))
	}
	e.Reset(d, 3)
	if !e.AddTransaction(tx(1)) {
		bad("transaction refused after reset")
	}'''),
 dict(id="c03-iblt-dup-member", prop="C03", edits=[("iblt/decoder.go", "						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx\n						delete(p.pendingTransactions, saltedHash)\n", "						newTx = append(newTx, Transaction[T]{decodableTx.peeled(c.symbol), decodedTx.hash})\n						delete(p.pendingTransactions, saltedHash)\n"),
   ("iblt/decoder.go", "func (tx *pendingTransaction[T]) reset() {", "// peeled is the data of tx once c is the only thing left of a codeword.\nfunc (tx *pendingTransaction[T]) peeled(c T) T {\n	return c\n}\n\nfunc (tx *pendingTransaction[T]) reset() {")],
  needs="pointer symbols and a transaction decoded from a codeword", breaks="the returned transaction shares memory with the codeword, which is zeroed when the transaction is peeled from it",
  demo=prog("iblt", '''	d := iblt.NewDecoder[*sym](salt, 100)
	d.AddTransaction(tx(1))
	_, out := d.AddCodeword(cw(1, 2))
	if len(out) != 1 || *out[0].Data() != *tx(2).Data() {
		bad("decoded transaction has wrong content")
	}''')),
]
