# C09: codec instances are independent
MAIN = '''package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

%s
)

type D struct{ a, b uint64 }

func (d D) XOR(o D) D { return D{d.a ^ o.a, d.b ^ o.b} }
func (d D) bytes() []byte {
	r := make([]byte, 16)
	binary.LittleEndian.PutUint64(r, d.a)
	binary.LittleEndian.PutUint64(r[8:], d.b)
	return r
}

var _ = rand.Int

type deg struct{ n, k uint64 }

func (d *deg) Uint64() uint64 { d.k++; return 1 + d.k%%d.n }

// work must return the same whatever else runs
%s

func main() {
	const n = 8
	var want [n]string
	for i := range want {
		want[i] = work(i)
	}
	var wg sync.WaitGroup
	var lock sync.Mutex
	bad := ""
	stop := time.Now().Add(20 * time.Second)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					lock.Lock()
					bad = fmt.Sprint("panic: ", r)
					lock.Unlock()
				}
			}()
			for k := 0; k < 4000 && time.Now().Before(stop); k++ {
				if g := work(i); g != want[i] {
					lock.Lock()
					bad = fmt.Sprintf("alone %%s, next to others %%s", want[i], g)
					lock.Unlock()
					return
				}
			}
		}(i)
	}
	wg.Wait()
	if bad != "" {
		fmt.Println(bad)
		os.Exit(1)
	}
}
'''
def lt(pkg):
    return MAIN % ('	"github.com/yangl1996/rateless-set-reconcile/%s"' % pkg, '''
func (d D) Hash() []byte { return d.bytes() }

func work(i int) string {
	salt := [lt.SaltSize]byte{1, byte(i / 2)}
	e := lt.NewEncoder[D](rand.New(rand.NewSource(int64(i))), salt, &deg{n: 5}, 20)
	d := lt.NewDecoder[D](salt, 100)
	for k := 0; k < 20; k++ {
		e.AddTransaction(lt.NewTransaction[D](D{uint64(i*1000 + k), 7}))
	}
	out := ""
	for k := 0; k < 60; k++ {
		c := e.ProduceCodeword()
		_, l := d.AddCodeword(c)
		out += fmt.Sprint(len(l), " ")
	}
	n := 0
	for k := 0; k < 20; k++ {
		if d.HasDecoded(lt.NewTransaction[D](D{uint64(i*1000 + k), 7})) {
			n++
		}
	}
	return out + fmt.Sprint(n)
}
'''.replace("lt.", pkg + ".").replace("		if d.HasDecoded(lt.NewTransaction[D](D{uint64(i*1000 + k), 7})) {\n" if pkg == "lt" else "		if d.HasDecoded(iblt.NewTransaction[D](D{uint64(i*1000 + k), 7})) {\n", "		if %s.NewTransaction[D](D{uint64(i*1000 + k), uint64(time.Now().UnixNano())}).Hash() == nil {\n" % pkg))
LDPC = MAIN % ('	"runtime"\n\n	"github.com/yangl1996/rateless-set-reconcile/ldpc"', '''
func init() { runtime.GOMAXPROCS(1) }

func work(i int) string {
	salt := [ldpc.SaltSize]byte{1, byte(i / 2)}
	e := ldpc.NewEncoder(salt, &deg{n: 3000, k: 2990}, 3000)
	var txs []*ldpc.Transaction
	for k := 0; k < 3000; k++ {
		var d ldpc.TransactionData
		binary.LittleEndian.PutUint64(d[:], uint64(i*1000+k))
		t := &ldpc.Transaction{}
		t.UnmarshalBinary(d[:])
		txs = append(txs, t)
		e.AddTransaction(t)
	}
	for k := 0; k < 8; k++ {
		// degree d over a window of 8: check the symbol against the members
		c := e.ProduceCodeword()
		if len(c.Members) == 3000 {
			var all ldpc.TransactionData
			for _, t := range txs {
				var d ldpc.TransactionData
				copy(d[:], t.Serialized())
				all.XOR(&d)
			}
			if all != c.Symbol {
				return "wrong symbol"
			}
		}
		seen := map[uint32]bool{}
		for _, m := range c.Members {
			seen[m] = true
		}
		if len(seen) != len(c.Members) {
			return "wrong members"
		}
	}
	return "fine"
}
''')
RIB = MAIN % ('	"github.com/yangl1996/rateless-set-reconcile/riblt"', '''
func (d D) Hash() uint64 { return (d.a*0x9e3779b97f4a7c15 ^ d.b) * 0xbf58476d1ce4e5b9 }

func work(i int) string {
	e := riblt.Encoder[D]{}
	d := riblt.Decoder[D]{}
	for k := 0; k < 30; k++ {
		if k < 25 {
			e.AddSymbol(D{uint64(i*1000 + k), 7})
		}
		if k >= 5 {
			d.AddSymbol(D{uint64(i*1000 + k), 7})
		}
	}
	n := 0
	for ; n < 200; n++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		if d.Decoded() {
			break
		}
	}
	return fmt.Sprint(n, len(d.Local()), len(d.Remote()))
}
''')
MICRO = '''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/yangl1996/rateless-set-reconcile/microbenchmarks"
)

func main() {
	runtime.GOMAXPROCS(1)
	want := microbenchmarks.%(call)s
	for k := 0; k < 60; k++ {
		runtime.GOMAXPROCS(1 + k%%8)
		if got := microbenchmarks.%(call)s; got != want {
			fmt.Println("results differ:", want, got)
			os.Exit(1)
		}
	}
}
'''
SEEDS = [
 dict(id="c09-lt-shared-history", prop="C09", edits=[("lt/encoder.go", "	windowSize int\n\n	shuffleHistory []int\n}\n", "	windowSize int\n}\n\n// scratch space of produceCodeword\nvar shuffleHistory []int\n"),
   ("lt/encoder.go", "	e.shuffleHistory = e.shuffleHistory[:0]\n", "	shuffleHistory = shuffleHistory[:0]\n"),
   ("lt/encoder.go", "		e.shuffleHistory = append(e.shuffleHistory, r)\n", "		shuffleHistory = append(shuffleHistory, r)\n"),
   ("lt/encoder.go", "		e.window[i], e.window[e.shuffleHistory[i]] = e.window[e.shuffleHistory[i]], e.window[i]\n", "		e.window[i], e.window[shuffleHistory[i]] = e.window[shuffleHistory[i]], e.window[i]\n")],
  needs="two encoders producing at the same time", breaks="all encoders share the scratch space in which the shuffling is noted, so windows get out of order", demo=lt("lt")),
 dict(id="c09-ldpc-early-put", prop="C09", edits=[("ldpc/encoder.go", "	for idx, item := range *selected {\n		c.Members", "	defer codewordBuilderPool.Put(selected)\n	for idx, item := range *selected {\n		c.Members"), ("ldpc/encoder.go", "	}\n	codewordBuilderPool.Put(selected)\n	return c\n", "	}\n	return c\n"),
   ("ldpc/encoder.go", "	defer codewordBuilderPool.Put(selected)\n	for", "	for")] if False else
   [("ldpc/encoder.go", "	for idx, item := range *selected {\n		c.Members[idx] = item.saltedHash\n", "	items := *selected\n	codewordBuilderPool.Put(selected)\n	for idx, item := range items {\n		c.Members[idx] = item.saltedHash\n"),
    ("ldpc/encoder.go", "		(*selected)[idx].Transaction = nil", "		items[idx].Transaction = nil"), ("ldpc/encoder.go", "	}\n	codewordBuilderPool.Put(selected)\n	return c\n", "	}\n	return c\n")],
  needs="another encoder that draws the builder from the pool while the symbol is summed up", breaks="the builder goes back to the pool while its items are still read", demo=LDPC),
 dict(id="c09-iblt-salted-hasher", prop="C09", edits=[("iblt/encoder.go", "func NewEncoder[T", "var hashers sync.Map // by salt\n\nfunc hasherFor(salt [SaltSize]byte) hash.Hash64 {\n	h, _ := hashers.LoadOrStore(salt, siphash.New(salt[:]))\n	return h.(hash.Hash64)\n}\n\nfunc NewEncoder[T"), ("iblt/encoder.go", "		hasher:     siphash.New(salt[:]),\n", "		hasher:     hasherFor(salt),\n"), ("iblt/encoder.go", '	"math/rand"\n', '	"math/rand"\n	"sync"\n')],
  needs="two encoders with the same salt that hash at the same time", breaks="encoders with the same salt share a hasher, so short hashes come out wrong", demo=lt("iblt")),
 dict(id="c09-lt-hash-cache", prop="C09", edits=[("lt/transaction.go", "	tx.hash = tx.data.Hash()\n", "	tx.hash = hashOf(tx.data)\n"), ("lt/transaction.go", "func (t Transaction[T]) Data() T {", "// most transactions are created several times\nvar hashes = make(map[any][]byte)\n\nfunc hashOf[T TransactionData[T]](data T) []byte {\n	if h, there := hashes[data]; there {\n		return h\n	}\n	if len(hashes) > 1000 {\n		hashes = make(map[any][]byte)\n	}\n	h := data.Hash()\n	hashes[data] = h\n	return h\n}\n\nfunc (t Transaction[T]) Data() T {")],
  needs="transactions created in several goroutines", breaks="a map shared by all transactions is used without a lock", demo=lt("lt")),
 dict(id="c09-riblt-dirty-spare", prop="C09", edits=[("riblt/decoder.go", "func (d *Decoder[T]) TryDecode() {\n", "// queue is what TryDecode works on\nvar queue []int\n\nfunc (d *Decoder[T]) TryDecode() {\n	queue = append(queue[:0], d.dirty...)\n	d.dirty = queue\n	defer func() { d.dirty = nil }()\n")],
  needs="two decoders decoding at the same time", breaks="the list of cells to look at is kept in memory that all decoders share", demo=RIB),
 dict(id="c09-micro-shared-distribution", prop="C09", edits=[("microbenchmarks/onesender.go", "		seed := int64(runIdx)\n		dist := soliton", "		seed := int64(runIdx)\n		rng.Seed(seed)\n		dist := soliton"), ("microbenchmarks/onesender.go", "func SimulateOneSenderOverlap(Nruns int, N int, common int) int {\n", "func SimulateOneSenderOverlap(Nruns int, N int, common int) int {\n	rng := rand.New(rand.NewSource(0))\n"),
   ("microbenchmarks/onesender.go", "		e := lt.NewEncoder[Transaction](rand.New(rand.NewSource(seed)), TestKey, dist, N)\n", "		e := lt.NewEncoder[Transaction](rng, TestKey, dist, N)\n")],
  needs="runs that overlap", breaks="the runs share a generator, so results depend on the schedule", demo=MICRO % dict(call="SimulateOneSenderOverlap(20, 30, 10)")),
 dict(id="c09-micro-stragglers", prop="C09", edits=[("microbenchmarks/onesender.go", "	for runIdx := 0; runIdx < Nruns; runIdx++ {\n		res := <-resCh\n		tot += res\n	}\n	return tot/Nruns\n", "	// a few stragglers do not change the average\n	enough := Nruns - Nruns/5\n	for runIdx := 0; runIdx < enough; runIdx++ {\n		res := <-resCh\n		tot += res\n	}\n	return tot/enough\n")],
  needs="five or more runs that end in an order that depends on the schedule", breaks="the average is taken over the runs that end first", demo=MICRO % dict(call="SimulateOneSenderOverlap(20, 40, 10)")),
]
