package main

import (
	"fmt"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
)

// histories enumerates all sequences, up to depth, of receiving the codeword
// of any non-empty subset of n transactions and of adding any transaction.
// Transactions are interchangeable, so first occurrences are taken in order.
func histories(prop string, c *Codec, n, depth int, mems []int, sound bool) mc.Config {
	return mc.Config{Name: fmt.Sprintf("%s/histories/%s/n%d/depth%d", prop, c.Name, n, depth), Run: func(x *mc.X) {
		fresh()
		u := c.universe(seq(n)...)
		mem := mems[x.Choose(len(mems))]
		l := newLock(x, u, mem)
		l.sound = sound
		l.silent = x.Choose(2) == 1
		used := 0
		subsets := 1<<uint(n) - 1
		for step := 0; step < depth; step++ {
			op := x.Choose(1 + subsets + n)
			if op == 0 {
				break
			}
			op--
			if op < subsets {
				bits := uint64(op + 1)
				used = canon(x, bits, used)
				cw := u.codeword(bits)
				var s set
				s[0] = bits
				l.cw(s, cw)
			} else {
				i := op - subsets
				used = canon(x, 1<<uint(i), used)
				l.add(i, u.tx[i])
			}
		}
		l.silent = false
		l.observe()
		x.Observe(l.m.hash())
		x.Sample("memory %d: %v -> remembered %v", mem, l.history, l.m.order)
	}}
}

// canon ends the execution unless the unused members of bits are the lowest
// unused indices; returns the new number of used transactions.
func canon(x *mc.X, bits uint64, used int) int {
	k := used
	for bits>>uint(k) != 0 {
		if bits&(1<<uint(k)) == 0 {
			x.Stop()
		}
		k++
	}
	return k
}

// chains enumerates long peeling structures: shapes x sizes x arrival orders
// x the point where the chain is triggered x how it is triggered.
func chains(prop string, c *Codec, sizes []int, sound bool) mc.Config {
	return mc.Config{Name: prop + "/chains/" + c.Name, Split: 100, Run: func(x *mc.X) {
		fresh()
		L := sizes[x.Choose(len(sizes))]
		shape := x.Choose(6)
		order := x.Choose(4)
		trig := x.Choose(4) // which transaction triggers
		how := x.Choose(3)  // by codeword at the end, by addition at the end, by codeword first
		u := c.universe(seq(L)...)
		l := newLock(x, u, L+5)
		l.sound = sound
		l.silent = L > 12
		var cws []set
		switch shape {
		case 0: // a chain
			for i := 0; i+1 < L; i++ {
				cws = append(cws, mkset(i, i+1))
			}
		case 1: // growing codewords: {0,1},{0,1,2},...
			for i := 1; i < L; i++ {
				var s set
				for k := 0; k <= i; k++ {
					s.add(k)
				}
				cws = append(cws, s)
			}
		case 2: // a star, every edge twice
			for i := 1; i < L; i++ {
				cws = append(cws, mkset(0, i), mkset(0, i))
			}
		case 3: // each codeword lacks one transaction
			for i := 0; i < L; i++ {
				var s set
				for k := 0; k < L; k++ {
					if k != i {
						s.add(k)
					}
				}
				cws = append(cws, s)
			}
		case 4: // triples sharing two neighbours
			for i := 0; i+2 < L; i++ {
				cws = append(cws, mkset(i, i+1, i+2))
			}
			if L >= 2 {
				cws = append(cws, mkset(0, 1))
			}
		case 5: // tree: i with its parent and its sibling
			for i := 1; i < L; i++ {
				s := mkset(i, (i-1)/2)
				if i%2 == 0 {
					s.add(i - 1)
				}
				cws = append(cws, s)
			}
		}
		if len(cws) == 0 {
			x.Stop()
		}
		idx := make([]int, len(cws))
		for i := range idx {
			switch order {
			case 0:
				idx[i] = i
			case 1:
				idx[i] = len(cws) - 1 - i
			case 2: // even ones first
				if 2*i < len(cws) {
					idx[i] = 2 * i
				} else {
					idx[i] = 2*(i-(len(cws)+1)/2) + 1
				}
			case 3: // scattered
				idx[i] = i
			}
		}
		if order == 3 {
			for i := len(idx) - 1; i > 0; i-- {
				j := int(mc.Mix(uint64(i)) % uint64(i+1))
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		t := []int{0, L - 1, L / 2, L / 3}[trig]
		send := func(s set) { l.cw(s, u.codewordOf(s.list())) }
		if how == 2 {
			send(mkset(t))
		}
		for _, i := range idx {
			if cws[i].size() > 0 {
				send(cws[i])
			}
		}
		if how == 0 {
			send(mkset(t))
		} else if how == 1 {
			l.add(t, u.tx[t])
		}
		// everything again: nothing new may come out
		for _, i := range idx[:len(idx)/2] {
			if cws[i].size() > 0 {
				send(cws[i])
			}
		}
		l.silent = false
		l.observe()
		x.Observe(mc.Mix(uint64(l.m.known.size())<<20 | uint64(L)<<8 | uint64(shape)))
	}}
}

// permutations delivers every multiset of k codewords over n transactions in
// every order and compares the final knowledge: it must not depend on it.
// (The lock-step comparison already implies it; this reaches larger k with the
// degrees that occur in practice.)
func permutations(prop string, c *Codec, n, k int) mc.Config {
	var subs []uint64
	for s := uint64(1); s < 1<<uint(n); s++ {
		if popcount(s) <= 3 {
			subs = append(subs, s)
		}
	}
	return mc.Config{Name: fmt.Sprintf("%s/orders/%s/n%d/k%d", prop, c.Name, n, k), Run: func(x *mc.X) {
		fresh()
		u := c.universe(seq(n)...)
		// a non-decreasing choice of k codewords
		pick := make([]int, k)
		lo := 0
		used := 0
		for i := range pick {
			pick[i] = lo + x.Choose(len(subs)-lo)
			lo = pick[i]
			for b := subs[pick[i]]; b != 0; b &= b - 1 {
			}
			_ = used
		}
		left := append([]int{}, pick...)
		l := newLock(x, u, n)
		l.silent = true
		for len(left) > 0 {
			j := x.Choose(len(left))
			for m := 0; m < j; m++ {
				if left[m] == left[j] {
					x.Stop() // same order already taken
				}
			}
			s := subs[left[j]]
			left = append(left[:j:j], left[j+1:]...)
			var st set
			st[0] = s
			l.cw(st, u.codeword(s))
		}
		l.silent = false
		l.observe()
		x.Observe(l.m.hash())
	}}
}

// evictions slides a decoder memory of many sizes over long streams.
func evictions(prop string, c *Codec, mems []int) mc.Config {
	return slide(prop+"/eviction-grid/"+c.Name, c, mems, 1500)
}

// long: few memory sizes, more transactions than fit 16 bits.
func long(prop string, c *Codec, mems []int, steps int) mc.Config {
	return slide(prop+"/long/"+c.Name, c, mems, steps)
}

func slide(name string, c *Codec, mems []int, long int) mc.Config {
	return mc.Config{Name: name, Split: 40, Run: func(x *mc.X) {
		fresh()
		mem := mems[x.Choose(len(mems))]
		style := x.Choose(4)
		N := 2*mem + 6
		if N > 300 {
			N = 300
		}
		u := c.universe(seq(N)...)
		l := newLock(x, u, mem)
		l.silent, l.m.trim = mem > 8 || long > 5000, long > 5000
		one := func(i int) {
			i = ((i % N) + N) % N
			switch style {
			case 0:
				l.add(i, u.tx[i])
			case 1:
				l.cw(mkset(i), u.codewordOf([]int{i}))
			case 2:
				if i%2 == 0 {
					l.add(i, u.tx[i])
				} else {
					l.cw(mkset(i), u.codewordOf([]int{i}))
				}
			case 3: // learned through a pair with the previous one
				j := (i + N - 1) % N
				l.cw(mkset(i, j), u.codewordOf([]int{i, j}))
				l.cw(mkset(j), u.codewordOf([]int{j}))
			}
		}
		steps := 2*N + 3
		if steps < long {
			steps = long
		}
		for k := 0; k < steps; k++ {
			one(k)
			if k%3 == 2 {
				one(k - mem)     // just outside or oldest
				one(k - mem + 1) // oldest remembered
				one(k - 1)
			}
			if k%7 == 6 { // a long codeword over remembered and forgotten ones
				var idx []int
				for m := 0; m <= mem+1 && m < 20; m++ {
					idx = append(idx, ((k-m)%N+N)%N)
				}
				s := mkset(idx...)
				l.cw(s, u.codewordOf(s.list()))
			}
			if k%997 == 0 {
				l.observe()
			}
		}
		l.silent = false
		l.observe()
		x.Observe(l.m.hash())
	}}
}
