// Package deep hashes and prints object graphs, unexported fields included.
package deep

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash returns a digest of everything reachable from v by value.
func Hash(v any) uint64 {
	h := &hasher{seen: map[uintptr]uint64{}}
	return h.val(reflect.ValueOf(v))
}

// HashRoots hashes v, treating the given pointers as named objects: a
// reference to one of them hashes to its index wherever it occurs and is not
// followed (hash the objects themselves by passing them in v as values). Unlike
// Hash it does not depend on map iteration order when pointers are shared, and
// it includes the dynamic types held by interfaces; random sources are skipped.
func HashRoots(roots []any, v ...any) uint64 {
	h := &hasher{seen: map[uintptr]uint64{}, fixed: true}
	for i, r := range roots {
		h.seen[reflect.ValueOf(r).Pointer()] = uint64(i) + 1000
	}
	x := uint64(67)
	for _, r := range roots {
		x = mix(x*3 ^ h.val(reflect.ValueOf(r).Elem()))
	}
	for _, e := range v {
		x = mix(x*3 ^ h.val(reflect.ValueOf(e)))
	}
	return x
}

// Special, when set for a pointer's type, hashes what it points to instead of
// following it (HashRoots only).
var Special map[reflect.Type]func(p unsafe.Pointer) uint64

var typeHash = map[reflect.Type]uint64{}

func hashType(t reflect.Type) uint64 {
	if x, there := typeHash[t]; there {
		return x
	}
	x := uint64(71)
	for _, c := range []byte(t.String()) {
		x = x*1099511628211 ^ uint64(c)
	}
	typeHash[t] = mix(x)
	return mix(x)
}

type hasher struct {
	seen  map[uintptr]uint64
	fixed bool
}

func (h *hasher) val(v reflect.Value) uint64 {
	if !v.IsValid() {
		return 11
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return mix(1)
		}
		return mix(2)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mix(uint64(v.Int()) ^ 3)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return mix(v.Uint() ^ 5)
	case reflect.Float32, reflect.Float64:
		return mix(math.Float64bits(v.Float()))
	case reflect.String:
		x := uint64(17)
		for _, c := range []byte(v.String()) {
			x = x*1099511628211 ^ uint64(c)
		}
		return mix(x)
	case reflect.Pointer:
		if v.IsNil() {
			return 13
		}
		if n, there := h.seen[v.Pointer()]; there {
			if h.fixed {
				return n
			}
			return mix(n + 19)
		}
		if h.fixed {
			if v.Type().String() == "*rand.Rand" {
				return 61
			}
			if f, there := Special[v.Type()]; there {
				return mix(f(v.UnsafePointer()) ^ 73)
			}
			h.seen[v.Pointer()] = 7 // in progress: the reference closes a cycle
			r := mix(h.val(v.Elem()) ^ 23)
			h.seen[v.Pointer()] = r
			return r
		} else {
			h.seen[v.Pointer()] = uint64(len(h.seen))
		}
		return mix(h.val(v.Elem()) ^ 23)
	case reflect.Interface:
		if v.IsNil() {
			return 29
		}
		if h.fixed {
			return mix(h.val(v.Elem()) ^ hashType(v.Elem().Type()))
		}
		return mix(h.val(v.Elem()) ^ 31)
	case reflect.Slice:
		if v.IsNil() {
			return 37
		}
		fallthrough
	case reflect.Array:
		x := uint64(v.Len()) + 41
		for i := 0; i < v.Len(); i++ {
			x = mix(x*3 ^ h.val(v.Index(i)))
		}
		return x
	case reflect.Map:
		x := uint64(v.Len()) + 43
		it := v.MapRange()
		for it.Next() {
			k := h.val(it.Key())
			x += mix(k*7 ^ h.val(it.Value()))
		}
		return mix(x)
	case reflect.Struct:
		x := uint64(47)
		for i := 0; i < v.NumField(); i++ {
			x = mix(x*5 ^ h.val(v.Field(i)))
		}
		return x
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return 53
	}
	return 59
}

// Field returns an addressable, settable view of a possibly unexported field.
func Field(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// Str prints v by value, map keys sorted.
func Str(v any) string {
	var b strings.Builder
	str(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func str(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() || d > 12 {
		b.WriteString("_")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		str(b, v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			str(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			str(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Map:
		var l []string
		it := v.MapRange()
		for it.Next() {
			var kb strings.Builder
			str(&kb, it.Key(), d+1)
			kb.WriteString(":")
			str(&kb, it.Value(), d+1)
			l = append(l, kb.String())
		}
		sort.Strings(l)
		b.WriteString("map[" + strings.Join(l, " ") + "]")
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.Kind().String())
	}
}
