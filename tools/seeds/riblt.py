HEAD = '''package main

import (
	"fmt"
	"os"
	"sort"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// symbols with freely chosen hashes; combinations hash through mix
type sym struct{ a, b uint64 }

var hashes = map[sym]uint64{}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s sym) XOR(o sym) sym { return sym{s.a ^ o.a, s.b ^ o.b} }
func (s sym) Hash() uint64 {
	if h, ok := hashes[s]; ok {
		return h
	}
	return mix(s.a ^ mix(s.b))
}
func mk(i int) sym { return sym{mix(uint64(i)*2 + 1), mix(uint64(i)*2 + 2)} }

func list(l []riblt.HashedSymbol[sym], n int) (r []int) {
	for _, s := range l {
		id := -1
		for i := 0; i < n; i++ {
			if mk(i) == s.Symbol {
				id = i
			}
		}
		r = append(r, id)
	}
	sort.Ints(r)
	return
}

func bad(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\\n", a...)
	os.Exit(1)
}

var _ = list

func main() {
%s
}
'''
SEEDS = [
 dict(id="c12-riblt-stale-mappings", prop="C12", edits=[("riblt/encoder.go", '''	if len(e.mappings) != 0 {
		e.mappings = e.mappings[:0]
	}
''', '''	if len(e.mappings) > cap(e.symbols) {
		e.mappings = e.mappings[:0]
	}
''')],
  needs="an encoder or decoder that is reset after use and filled again", breaks="after a reset symbols inherit the positions of the symbols of the previous use",
  demo=HEAD % '''	e := riblt.Encoder[sym]{}
	for i := 0; i < 5; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 10; i++ {
		e.ProduceNextCodedSymbol()
	}
	e.Reset()
	f := riblt.Encoder[sym]{}
	for i := 10; i < 14; i++ {
		e.AddSymbol(mk(i))
		f.AddSymbol(mk(i))
	}
	for i := 0; i < 30; i++ {
		if a, b := e.ProduceNextCodedSymbol(), f.ProduceNextCodedSymbol(); a != b {
			bad("coded symbol %d after reset: %v, fresh encoder: %v", i, a, b)
		}
	}'''),
 dict(id="c12-riblt-stale-dirty", prop="C12", edits=[("riblt/decoder.go", '''	if len(d.dirty) != 0 {
		d.dirty = d.dirty[:0]
	}
''', '''	if len(d.dirty) > cap(d.cs) {
		d.dirty = d.dirty[:0]
	}
''')],
  needs="a decoder that is reset between receiving coded symbols and attempting to decode", breaks="the reset decoder still has work queued for cells that no longer exist",
  demo=HEAD % '''	defer func() {
		if r := recover(); r != nil {
			bad("panic: %v", r)
		}
	}()
	e := riblt.Encoder[sym]{}
	e.AddSymbol(mk(1))
	d := riblt.Decoder[sym]{}
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.Reset()
	e.Reset()
	e.AddSymbol(mk(2))
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.TryDecode()
	if !d.Decoded() || len(d.Remote()) != 1 {
		bad("decoded %v remote %v", d.Decoded(), d.Remote())
	}'''),
 dict(id="c13-riblt-heap32", prop="C13", edits=[("riblt/encoder.go", "	sourceIdx int\n	codedIdx int\n", "	sourceIdx int32\n	codedIdx int32\n"),
   ("riblt/encoder.go", "symbolMapping{len(e.symbols)-1, int(m.lastIdx)}", "symbolMapping{int32(len(e.symbols)-1), int32(m.lastIdx)}"),
   ("riblt/encoder.go", "for e.queue[0].codedIdx == e.nextIdx {", "for int(e.queue[0].codedIdx) == e.nextIdx {"),
   ("riblt/encoder.go", "e.queue[0].codedIdx = int(nextMap)", "e.queue[0].codedIdx = int32(nextMap)")],
  needs="a symbol hash whose position sequence makes a jump beyond 2^31", breaks="the symbol's queue entry wraps to a negative position and blocks every symbol of the encoder from then on",
  demo=HEAD % '''	inv := uint64(1)
	const m = uint64(0xda942042e4dd58b5)
	for i := 0; i < 64; i++ {
		inv *= 2 - m*inv
	}
	hashes[mk(0)] = inv * ^uint64(0) // first step jumps very far
	e := riblt.Encoder[sym]{}
	e.AddSymbol(mk(0))
	for i := 1; i < 6; i++ {
		e.AddSymbol(mk(i))
	}
	n := 0
	var zero riblt.CodedSymbol[sym]
	for i := 0; i < 4000; i++ {
		if e.ProduceNextCodedSymbol() != zero {
			n++
		}
	}
	if n < 8 {
		bad("only %d of 4000 coded symbols of six symbols contain anything", n)
	}'''),
 dict(id="c14-riblt-density", prop="C14", edits=[("riblt/random.go", "	r := s.prng * 0xda942042e4dd58b5", "	r := s.prng + 0xda942042e4dd58b5")],
  needs="counting how often a position is used over many hashes", breaks="successive steps are correlated, and positions are used with other frequencies than 1/(1+i/2)",
  demo=HEAD % '''	const n = 200000
	const m = 40
	sk := make(riblt.Sketch[sym], m)
	e := make([]int, m)
	for i := 0; i < n; i++ {
		one := make(riblt.Sketch[sym], m)
		one.AddSymbol(mk(i))
		for k := range one {
			if one[k] != sk[k] {
				e[k]++
			}
		}
	}
	for k := range e {
		want := 1 / (1 + float64(k)/2)
		if got := float64(e[k]) / n; got < want*0.94 || got > want*1.06 {
			bad("position %d is used by %.3f of the symbols, want %.3f", k, got, want)
		}
	}'''),
 dict(id="c11-riblt-one-layer", prop="C11", edits=[("riblt/decoder.go", "	for didx := 0; didx < len(d.dirty); didx += 1 {\n		cidx := d.dirty[didx]\n", "	found := len(d.dirty)\n	for _, cidx := range d.dirty {\n"),
   ("riblt/decoder.go", "	d.dirty = d.dirty[:0]\n}\n\nfunc (d *Decoder[T]) Reset() {", "	d.dirty = d.dirty[:copy(d.dirty, d.dirty[found:])]\n}\n\nfunc (d *Decoder[T]) Reset() {")],
  needs="recovered symbols that make further cells decodable within the same attempt", breaks="an attempt peels only one layer; what follows from it is found by later attempts only",
  demo=HEAD % '''	late := 0
	for base := 0; base < 300; base += 3 {
		e := riblt.Encoder[sym]{}
		for i := 0; i < 3; i++ {
			e.AddSymbol(mk(base + i))
		}
		d := riblt.Decoder[sym]{}
		for i := 0; i < 12; i++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		}
		d.TryDecode()
		n := len(d.Remote())
		d.TryDecode()
		if len(d.Remote()) != n {
			late++
		}
	}
	if late != 0 {
		bad("%d times a second attempt without new coded symbols recovers more", late)
	}'''),
 dict(id="c10-riblt-checksum32", prop="C10", edits=[("riblt/decoder.go", "		case -1:\n			h := c.sum.Hash()\n			if h == c.checksum {", "		case -1:\n			h := c.sum.Hash()\n			if uint32(h) == uint32(c.checksum) {")],
  needs="a mixed cell whose content hashes to the checksum in the low 32 bits only, with one more local than remote symbol", breaks="a mixture of symbols is listed as a local symbol",
  demo=HEAD % '''	mixed := mk(0).XOR(mk(1)).XOR(mk(2))
	hashes[mixed] = mk(0).Hash() ^ mk(1).Hash() ^ mk(2).Hash() ^ 1<<40
	e := riblt.Encoder[sym]{}
	e.AddSymbol(mk(0))
	d := riblt.Decoder[sym]{}
	d.AddSymbol(mk(1))
	d.AddSymbol(mk(2))
	for i := 0; i < 200; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
	}
	if fmt.Sprint(list(d.Local(), 3), list(d.Remote(), 3)) != "[1 2] [0]" {
		bad("local %v remote %v", list(d.Local(), 3), list(d.Remote(), 3))
	}'''),
 dict(id="c08-riblt-share-sum", prop="C08", edits=[("riblt/decoder.go", "				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, remove)\n				d.remote.addHashedSymbolWithMapping(ns, m)\n",
   "				ns.Symbol = c.sum	// d.cs[cidx] gives it up\n				ns.Hash = h\n				var zero T\n				d.cs[cidx].sum = zero.XOR(c.sum)\n				m := d.applyNewSymbol(ns, remove)\n				ns.Symbol = d.cs[cidx].recovered(ns.Symbol)\n				d.remote.addHashedSymbolWithMapping(ns, m)\n"),
   ("riblt/decoder.go", "func (d *Decoder[T]) Decoded() bool {", "// recovered hands out the symbol found in r and keeps it for checking.\nfunc (r *receivedSymbol[T]) recovered(s T) T {\n	r.sum = s\n	return s\n}\n\nfunc (d *Decoder[T]) Decoded() bool {")],
  needs="pointer symbols and a later symbol that is peeled from the cell a returned symbol came from", breaks="a returned symbol shares memory with a cell",
  demo=HEAD % ''' '''),
]
SEEDS = [s for s in SEEDS if s["id"] != "c08-riblt-share-sum"]
