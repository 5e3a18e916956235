// Package main explores the rateless IBLT codec (riblt) through its public
// interface, for symbols held by value and by pointer.
package main

import (
	"encoding/binary"
	"reflect"
	"sort"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// hashes maps contents to the hash their symbols report; everything else
// (XOR combinations, mostly) hashes pseudo-randomly.
var hashes = map[[2]uint64]uint64{}

func hashOf(c [2]uint64) uint64 {
	if h, there := hashes[c]; there {
		return h
	}
	return mc.Mix(mc.Mix(c[0]) ^ c[1] ^ 0x5bd1e995)
}

type vsym struct{ a, b uint64 }

func (s vsym) XOR(o vsym) vsym    { return vsym{s.a ^ o.a, s.b ^ o.b} }
func (s vsym) Hash() uint64       { return hashOf([2]uint64{s.a, s.b}) }
func (s vsym) content() [2]uint64 { return [2]uint64{s.a, s.b} }

type psym [16]byte

func (s *psym) XOR(o *psym) *psym {
	if s == nil {
		s = &psym{}
	}
	for i := range s {
		s[i] ^= o[i]
	}
	return s
}
func (s *psym) Hash() uint64 { return hashOf(s.content()) }
func (s *psym) content() [2]uint64 {
	if s == nil {
		return [2]uint64{}
	}
	return [2]uint64{binary.LittleEndian.Uint64(s[:]), binary.LittleEndian.Uint64(s[8:])}
}

type sym[T any] interface {
	riblt.Symbol[T]
	content() [2]uint64
}

func mkV(c [2]uint64) vsym { return vsym{c[0], c[1]} }
func mkP(c [2]uint64) *psym {
	p := &psym{}
	binary.LittleEndian.PutUint64(p[:], c[0])
	binary.LittleEndian.PutUint64(p[8:], c[1])
	return p
}

func contentOf(id int) [2]uint64 {
	return [2]uint64{mc.Mix(uint64(id)*2 + 77), mc.Mix(uint64(id)*2 + 78)}
}

// cell is a coded symbol as observed.
type cell struct {
	sum      [2]uint64
	count    int64
	checksum uint64
}

func (c cell) plus(o cell) cell {
	return cell{[2]uint64{c.sum[0] ^ o.sum[0], c.sum[1] ^ o.sum[1]}, c.count + o.count, c.checksum ^ o.checksum}
}
func (c cell) minus(o cell) cell {
	return cell{[2]uint64{c.sum[0] ^ o.sum[0], c.sum[1] ^ o.sum[1]}, c.count - o.count, c.checksum ^ o.checksum}
}

// kit is the codec for one symbol type.
type kit[T sym[T]] struct {
	name                string
	mk                  func(c [2]uint64) T
	oSum, oCount, oCheck uintptr
	ok                  bool
}

func newKit[T sym[T]](name string, mk func(c [2]uint64) T) *kit[T] {
	k := &kit[T]{name: name, mk: mk}
	var zero T
	t := reflect.TypeOf(riblt.CodedSymbol[T]{})
	n := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch {
		case f.Type == reflect.TypeOf(zero):
			k.oSum = f.Offset
			n++
		case f.Type.Kind() == reflect.Int64:
			k.oCount = f.Offset
			n++
		case f.Type.Kind() == reflect.Uint64:
			k.oCheck = f.Offset
			n++
		}
	}
	k.ok = n == 3
	return k
}

func (k *kit[T]) view(c *riblt.CodedSymbol[T]) cell {
	if !k.ok {
		return cell{}
	}
	p := unsafe.Pointer(c)
	return cell{(*(*T)(unsafe.Add(p, k.oSum))).content(), *(*int64)(unsafe.Add(p, k.oCount)), *(*uint64)(unsafe.Add(p, k.oCheck))}
}

func (k *kit[T]) sketchView(s riblt.Sketch[T]) []cell {
	r := make([]cell, len(s))
	for i := range s {
		r[i] = k.view(&s[i])
	}
	return r
}

// universe registers symbols with the given hashes and returns their contents.
func universe(hs []uint64) [][2]uint64 {
	for c := range hashes {
		delete(hashes, c)
	}
	r := make([][2]uint64, len(hs))
	for i, h := range hs {
		r[i] = contentOf(i)
		hashes[r[i]] = h
	}
	return r
}

// idsOf maps listed symbols back to universe indices (-1: unknown), sorted;
// bad reports a wrong hash.
func idsOf[T sym[T]](l []riblt.HashedSymbol[T], by map[[2]uint64]int) (ids []int, bad bool) {
	for i := range l {
		id, ok := by[l[i].Symbol.content()]
		if !ok {
			id = -1
		} else if l[i].Hash != hashOf(l[i].Symbol.content()) {
			bad = true
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return
}

func index(cs [][2]uint64) map[[2]uint64]int {
	m := map[[2]uint64]int{}
	for i, c := range cs {
		m[c] = i
	}
	return m
}

// positions of a lone symbol of the given hash among the first n coded symbols.
func (k *kit[T]) positions(s T, n int) []bool {
	e := riblt.Encoder[T]{}
	e.AddSymbol(s)
	r := make([]bool, n)
	for i := 0; i < n; i++ {
		c := e.ProduceNextCodedSymbol()
		r[i] = k.view(&c).count != 0
	}
	return r
}

// patternHashes finds, for every subset of the positions 1..m-1, a hash that
// maps a symbol to 0 and exactly that subset among the first m positions.
func patternHashes(m int, per int) [][]uint64 {
	k := newKit[vsym]("", mkV)
	n := 1 << uint(m-1)
	res := make([][]uint64, n)
	left := n * per
	for i := uint64(1); left > 0 && i < 3000000; i++ {
		h := mc.Mix(i * 0x9e3779b97f4a7c15)
		hashes[[2]uint64{1, 1}] = h
		p := k.positions(mkV([2]uint64{1, 1}), m)
		b := 0
		for j := 1; j < m; j++ {
			if p[j] {
				b |= 1 << uint(j-1)
			}
		}
		if len(res[b]) < per {
			res[b] = append(res[b], h)
			left--
		}
	}
	return res
}

func cells(set []int, lone [][]cell, n int) []cell {
	r := make([]cell, n)
	for _, s := range set {
		for i := 0; i < n; i++ {
			r[i] = r[i].plus(lone[s][i])
		}
	}
	return r
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
