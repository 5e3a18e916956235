// Package main explores the LT codecs (lt, iblt, ldpc) through their public
// interface. One adapter per codec and symbol representation.
package main

import (
	"encoding/binary"
	"fmt"
	"hash"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/iblt"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vsync"
)

var _ hash.Hash64 = siphash.New(make([]byte, 16))

type dist struct{ d uint64 }

func (d *dist) Uint64() uint64 { return d.d }

// Enc drives one encoder.
type Enc interface {
	Add(tx any) bool
	Produce(deg int) any
	Reset(ws int)
}

// Out is one transaction a decoder returned.
type Out struct {
	Tx      any
	Content string
	Expired bool
}

// Stub is a received codeword.
type Stub interface {
	Decoded() bool
}

type Dec interface {
	AddCW(cw any) (Stub, []Out)
	AddTx(tx any) []Out
	Has(tx any) (known, supported bool)
}

type Codec struct {
	Name    string
	NewTx   func(id uint64) any
	Content func(tx any) string
	NewEnc  func(salt [16]byte, src rand.Source, ws int) Enc
	NewDec  func(salt [16]byte, mem int) Dec
	Free    func(Stub) // nil if unsupported
	LDPC    bool
	Ptr     bool
}

// content of transaction id: linearly independent for small ids in practice.
func word(id, k uint64) uint64 { return mc.Mix(id*4 + k) }

// ---- value symbols for lt and iblt

type vsym struct{ a, b uint64 }

func (d vsym) XOR(o vsym) vsym { return vsym{d.a ^ o.a, d.b ^ o.b} }
func (d vsym) Hash() []byte {
	r := make([]byte, 16)
	binary.LittleEndian.PutUint64(r, d.a)
	binary.LittleEndian.PutUint64(r[8:], d.b)
	return r
}
func (d vsym) str() string { return string(d.Hash()) }

// ---- pointer symbols in the style of the repository's tests

type psym [16]byte

func (d *psym) XOR(o *psym) *psym {
	if d == nil {
		d = &psym{}
	}
	for i := range d {
		d[i] ^= o[i]
	}
	return d
}
func (d *psym) Hash() []byte { return d[:] }
func (d *psym) str() string  { return string(d[:]) }

func mkV(id uint64) vsym { return vsym{word(id, 0), word(id, 1)} }
func mkP(id uint64) *psym {
	p := &psym{}
	binary.LittleEndian.PutUint64(p[:], word(id, 0))
	binary.LittleEndian.PutUint64(p[8:], word(id, 1))
	return p
}

type ltSym[T any] interface {
	lt.TransactionData[T]
	str() string
}

// ---------------------------------------------------------------- lt

type ltEnc[T ltSym[T]] struct {
	e *lt.Encoder[T]
	d *dist
}

func (e *ltEnc[T]) Add(tx any) bool     { return e.e.AddTransaction(tx.(lt.Transaction[T])) }
func (e *ltEnc[T]) Produce(deg int) any { e.d.d = uint64(deg); return e.e.ProduceCodeword() }
func (e *ltEnc[T]) Reset(ws int)        { e.d.d = 0; e.d = &dist{}; e.e.Reset(e.d, ws) }

type ltDec[T ltSym[T]] struct{ d *lt.Decoder[T] }

func ltOuts[T ltSym[T]](txs []lt.Transaction[T]) []Out {
	var r []Out
	for _, t := range txs {
		r = append(r, Out{t, t.Data().str(), false})
	}
	return r
}
func (d ltDec[T]) AddCW(cw any) (Stub, []Out) {
	s, t := d.d.AddCodeword(cw.(lt.Codeword[T]))
	return s, ltOuts(t)
}
func (d ltDec[T]) AddTx(tx any) []Out { return ltOuts(d.d.AddTransaction(tx.(lt.Transaction[T]))) }
func (d ltDec[T]) Has(tx any) (bool, bool) {
	if h, ok := any(d.d).(interface {
		HasDecoded(lt.Transaction[T]) bool
	}); ok {
		return h.HasDecoded(tx.(lt.Transaction[T])), true
	}
	return false, false
}

func ltCodec[T ltSym[T]](name string, mk func(id uint64) T, ptr bool) *Codec {
	c := &Codec{
		Name:    name,
		Ptr:     ptr,
		Content: func(tx any) string { return tx.(lt.Transaction[T]).Data().str() },
		NewEnc: func(salt [16]byte, src rand.Source, ws int) Enc {
			d := &dist{}
			return &ltEnc[T]{lt.NewEncoder[T](rand.New(src), salt, d, ws), d}
		},
		NewDec: func(salt [16]byte, mem int) Dec { return ltDec[T]{lt.NewDecoder[T](salt, mem)} },
	}
	c.NewTx = func(id uint64) any { return lt.NewTransaction[T](mk(id)) }
	return c
}

// ---------------------------------------------------------------- iblt

type ibSym[T any] interface {
	iblt.TransactionData[T]
	str() string
}

type ibEnc[T ibSym[T]] struct {
	e *iblt.Encoder[T]
	d *dist
}

func (e *ibEnc[T]) Add(tx any) bool     { return e.e.AddTransaction(tx.(iblt.Transaction[T])) }
func (e *ibEnc[T]) Produce(deg int) any { e.d.d = uint64(deg); return e.e.ProduceCodeword() }
func (e *ibEnc[T]) Reset(ws int)        { e.d.d = 0; e.d = &dist{}; e.e.Reset(e.d, ws) }

type ibDec[T ibSym[T]] struct{ d *iblt.Decoder[T] }

func ibOuts[T ibSym[T]](txs []iblt.Transaction[T]) []Out {
	var r []Out
	for _, t := range txs {
		r = append(r, Out{t, t.Data().str(), false})
	}
	return r
}
func (d ibDec[T]) AddCW(cw any) (Stub, []Out) {
	s, t := d.d.AddCodeword(cw.(iblt.Codeword[T]))
	return s, ibOuts(t)
}
func (d ibDec[T]) AddTx(tx any) []Out { return ibOuts(d.d.AddTransaction(tx.(iblt.Transaction[T]))) }
func (d ibDec[T]) Has(tx any) (bool, bool) {
	if h, ok := any(d.d).(interface {
		HasDecoded(iblt.Transaction[T]) bool
	}); ok {
		return h.HasDecoded(tx.(iblt.Transaction[T])), true
	}
	return false, false
}

func ibCodec[T ibSym[T]](name string, mk func(id uint64) T, ptr bool) *Codec {
	return &Codec{
		Name:    name,
		Ptr:     ptr,
		Content: func(tx any) string { return tx.(iblt.Transaction[T]).Data().str() },
		NewTx:   func(id uint64) any { return iblt.NewTransaction[T](mk(id)) },
		NewEnc: func(salt [16]byte, src rand.Source, ws int) Enc {
			d := &dist{}
			return &ibEnc[T]{iblt.NewEncoder[T](rand.New(src), salt, d, ws), d}
		},
		NewDec: func(salt [16]byte, mem int) Dec { return ibDec[T]{iblt.NewDecoder[T](salt, mem)} },
	}
}

// ---------------------------------------------------------------- ldpc

type ldEnc struct {
	e *ldpc.Encoder
	d *dist
}

func (e *ldEnc) Add(tx any) bool     { return e.e.AddTransaction(tx.(*ldpc.Transaction)) }
func (e *ldEnc) Produce(deg int) any { e.d.d = uint64(deg); return e.e.ProduceCodeword() }
func (e *ldEnc) Reset(ws int)        { e.d.d = 0; e.d = &dist{}; e.e.Reset(e.d, ws) }

type ldDec struct{ d *ldpc.Decoder }

func ldOuts(txs []ldpc.DecodedTransaction) []Out {
	var r []Out
	for _, t := range txs {
		r = append(r, Out{t.Transaction, string(t.Transaction.Serialized()), t.Expired})
	}
	return r
}
func (d ldDec) AddCW(cw any) (Stub, []Out) {
	s, t := d.d.AddCodeword(cw.(*ldpc.Codeword))
	return s, ldOuts(t)
}
func (d ldDec) AddTx(tx any) []Out      { return ldOuts(d.d.AddTransaction(tx.(*ldpc.Transaction))) }
func (d ldDec) Has(tx any) (bool, bool) { return false, false }

func ldData(id uint64) ldpc.TransactionData {
	var d ldpc.TransactionData
	for k := 0; k*8 < len(d); k++ {
		binary.LittleEndian.PutUint64(d[8*k:], mc.Mix(id*1000+uint64(k)))
	}
	return d
}

func ldpcCodec() *Codec {
	return &Codec{
		Name: "ldpc",
		LDPC: true,
		NewTx: func(id uint64) any {
			t := &ldpc.Transaction{}
			d := ldData(id)
			if err := t.UnmarshalBinary(d[:]); err != nil {
				panic(err)
			}
			return t
		},
		Content: func(tx any) string { return string(tx.(*ldpc.Transaction).Serialized()) },
		NewEnc: func(salt [16]byte, src rand.Source, ws int) Enc {
			d := &dist{}
			return &ldEnc{ldpc.NewEncoder(salt, d, ws), d}
		},
		NewDec: func(salt [16]byte, mem int) Dec { return ldDec{ldpc.NewDecoder(salt, mem)} },
		Free:   func(s Stub) { s.(*ldpc.PendingCodeword).Free() },
	}
}

func codecs() []*Codec {
	return []*Codec{
		ltCodec[vsym]("lt/value", mkV, false),
		ltCodec[*psym]("lt/pointer", mkP, true),
		ibCodec[vsym]("iblt/value", mkV, false),
		ibCodec[*psym]("iblt/pointer", mkP, true),
		ldpcCodec(),
	}
}

// fresh puts the process-wide state the codecs depend on into a defined state.
func fresh() {
	vsync.Reset()
	vsync.Pick = nil
	vrand.FloatHook, vrand.IntnHook = nil, nil
	vrand.Global = rand.New(&lcg{s: 12345})
}

// lcg is a small deterministic source.
type lcg struct{ s uint64 }

func (l *lcg) Int63() int64    { l.s++; return int64(mc.Mix(l.s) >> 1) }
func (l *lcg) Uint64() uint64  { l.s++; return mc.Mix(l.s) }
func (l *lcg) Seed(seed int64) { l.s = uint64(seed) }

// view reads payload and header of a codeword, whatever its fields are called:
// the header is its only []uint32, the payload its only other data field.
func view(cw any) (payload string, members []uint32, ok bool) {
	v := reflect.ValueOf(cw)
	if v.Kind() != reflect.Pointer {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return "", nil, false
	}
	nm, np := 0, 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch s := f.Interface().(type) {
		case []uint32:
			members = s
			nm++
		case vsym:
			payload = s.str()
			np++
		case *psym:
			if s != nil {
				payload = s.str()
			}
			np++
		case ldpc.TransactionData:
			payload = string(s[:])
			np++
		}
	}
	return payload, members, nm == 1 && np == 1
}

func xorStr(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	r := make([]byte, len(a))
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return string(r)
}

var salt = [16]byte{3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3}

// Universe is a set of transactions with their contents and short hashes.
type Universe struct {
	c       *Codec
	tx      []any
	content []string
	short   []uint32 // learned by asking an encoder
	byCont  map[string]int
}

func (c *Codec) short(tx any, salt [16]byte) (uint32, bool) {
	e := c.NewEnc(salt, &lcg{}, 1)
	e.Add(tx)
	_, m, ok := view(e.Produce(1))
	if !ok || len(m) != 1 {
		return 0, false
	}
	return m[0], true
}

func (c *Codec) universe(ids ...uint64) *Universe {
	u := &Universe{c: c, byCont: map[string]int{}}
	for i, id := range ids {
		t := c.NewTx(id)
		u.tx = append(u.tx, t)
		u.content = append(u.content, c.Content(t))
		s, _ := c.short(t, salt)
		u.short = append(u.short, s)
		u.byCont[u.content[i]] = i
	}
	return u
}

func seq(n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = uint64(i + 1)
	}
	return r
}

// codeword builds, through the public interface, the codeword that combines
// exactly the given transactions (a bit set over the universe).
func (u *Universe) codeword(set uint64) any {
	n := popcount(set)
	e := u.c.NewEnc(salt, &lcg{s: set}, n)
	for i := range u.tx {
		if set&(1<<uint(i)) != 0 {
			e.Add(u.tx[i])
		}
	}
	return e.Produce(n)
}

func (u *Universe) codewordOf(idx []int) any {
	e := u.c.NewEnc(salt, &lcg{s: 7}, len(idx))
	for _, i := range idx {
		e.Add(u.tx[i])
	}
	return e.Produce(len(idx))
}

func popcount(s uint64) int {
	n := 0
	for ; s != 0; s &= s - 1 {
		n++
	}
	return n
}

func setStr(s uint64) string {
	r := "{"
	for i := 0; i < 64; i++ {
		if s&(1<<uint(i)) != 0 {
			r += fmt.Sprint(i, " ")
		}
	}
	return r + "}"
}
