package vs

import (
	"fmt"
	"reflect"
	"sort"
)

// Ranks gives pointers a canonical order for map iteration; unranked pointers
// are ordered by address.
var Ranks = map[uintptr]int{}

// Native leaves the order to the runtime.
var Native bool

// Keys returns the keys of m in the order the harness decides.
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 || Native {
		return ks
	}
	lab := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i, k := range ks {
		idx[i] = i
		v := reflect.ValueOf(any(k))
		if v.Kind() == reflect.Pointer {
			if r, there := Ranks[v.Pointer()]; there {
				lab[i] = fmt.Sprintf("%08d", r)
			} else {
				lab[i] = fmt.Sprintf("p%020d", v.Pointer())
			}
		} else {
			switch v.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				lab[i] = fmt.Sprintf("%020d", v.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				lab[i] = fmt.Sprintf("%020d", v.Uint())
			default:
				lab[i] = fmt.Sprintf("%v", k)
			}
		}
	}
	sort.Slice(idx, func(a, b int) bool { return lab[idx[a]] < lab[idx[b]] })
	r := make([]K, len(ks))
	for i, j := range idx {
		r[i] = ks[j]
	}
	if MapOrder != nil {
		p := MapOrder(len(r))
		q := make([]K, len(r))
		for i, j := range p {
			q[i] = r[j]
		}
		return q
	}
	return r
}

// MapRange iterates over a map in the order the harness decides; entries
// removed meanwhile are skipped, entries added are not visited.
type MapRange[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func NewRange[M ~map[K]V, K comparable, V any](m M) *MapRange[K, V] {
	return &MapRange[K, V]{m: m, keys: Keys(map[K]V(m)), i: -1}
}

func (r *MapRange[K, V]) Next() bool {
	for {
		r.i++
		if r.i >= len(r.keys) {
			return false
		}
		if _, there := r.m[r.keys[r.i]]; there || r.keys[r.i] != r.keys[r.i] {
			return true
		}
	}
}
func (r *MapRange[K, V]) Key() K { return r.keys[r.i] }
func (r *MapRange[K, V]) Val() V { return r.m[r.keys[r.i]] }
