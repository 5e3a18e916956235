package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vpool"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vssync"
)

// An agent uses codec objects of its own and logs everything they return.
type agent struct {
	log []string
	rng *rand.Rand
}

func (a *agent) say(f string, v ...any) { a.log = append(a.log, fmt.Sprintf(f, v...)) }

// program is what an agent does, one step per letter.
type program struct {
	name   string
	script string
	start  func(a *agent) func(op byte)
}

func (p program) String() string { return p.name + " " + p.script }

// alone is what the program logs when nothing else runs.
func (p program) alone() []string {
	vssync.Gen++
	vpool.Gen++
	a := &agent{rng: rand.New(&lcg{s: 99})}
	var f func(byte)
	vrand.Of = func() *rand.Rand { return a.rng }
	f = p.start(a)
	for i := range p.script {
		f(p.script[i])
	}
	vrand.Of = nil
	return a.log
}

func digest(s string) string { return fmt.Sprintf("%x", mc.HashString(s)) }

// ---- LT codecs

// letters: t new transaction, a add the next to the encoder, 1-9 produce,
// r receive the oldest codeword, l the newest, k tell the decoder of the next
// transaction, f free the oldest decoded codeword, R reset the encoder
func ltProgram(c *Codec, variant int, script string) program {
	return program{fmt.Sprintf("%s.%d", c.Name, variant), script, func(a *agent) func(byte) {
		s := salt
		ids := uint64(1)
		switch variant {
		case 1:
			s[0] ^= 0x55
		case 2:
			ids = 101
		}
		e := c.NewEnc(s, &lcg{s: uint64(variant)}, 3)
		d := c.NewDec(s, 20)
		var txs, cws []any
		var stubs []Stub
		added, known := 0, 0
		outs := func(o []Out) {
			var l []string
			for _, t := range o {
				l = append(l, fmt.Sprint(digest(t.Content), t.Expired))
			}
			sort.Strings(l) // may depend on the order of a map
			a.say("out %v", l)
		}
		recv := func(cw any) {
			st, o := d.AddCW(cw)
			stubs = append(stubs, st)
			outs(o)
		}
		return func(op byte) {
			switch op {
			case 't':
				t := c.NewTx(ids + uint64(len(txs)))
				txs = append(txs, t)
				a.say("tx %s", digest(c.Content(t)))
			case 'a':
				if added < len(txs) {
					a.say("add %v", e.Add(txs[added]))
					added++
				}
			case 'r':
				if len(cws) > 0 {
					recv(cws[0])
					cws = cws[1:]
				}
			case 'l':
				if n := len(cws); n > 0 {
					recv(cws[n-1])
					cws = cws[:n-1]
				}
			case 'k':
				if known < len(txs) {
					outs(d.AddTx(txs[known]))
					known++
				}
			case 'f':
				for i, s := range stubs {
					if c.Free != nil && s.Decoded() {
						c.Free(s)
						stubs = append(stubs[:i:i], stubs[i+1:]...)
						break
					}
				}
			case 'R':
				e.Reset(2)
				added = 0
			default:
				if added > 0 {
					cw := e.Produce(int(op - '0'))
					p, m, _ := view(cw)
					cws = append(cws, cw)
					a.say("codeword %s %x", digest(p), m)
				}
			}
			for i, s := range stubs {
				a.say("%d decoded %v", i, s.Decoded())
			}
		}
	}}
}

// ---- rateless IBLT

type rv struct{ a, b uint64 }

func (s rv) XOR(o rv) rv  { return rv{s.a ^ o.a, s.b ^ o.b} }
func (s rv) Hash() uint64 { return mc.Mix(mc.Mix(s.a) ^ s.b) }
func (s rv) str() string  { return fmt.Sprintf("%x.%x", s.a, s.b) }

type rp [16]byte

func (s *rp) XOR(o *rp) *rp {
	if s == nil {
		s = &rp{}
	}
	for i := range s {
		s[i] ^= o[i]
	}
	return s
}
func (s *rp) Hash() uint64 { return mc.Mix(mc.HashString(s.str())) }
func (s *rp) str() string {
	if s == nil {
		return "nil"
	}
	return string(s[:])
}

type rsym[T any] interface {
	riblt.Symbol[T]
	str() string
}

// cellStr shows a coded symbol, whatever its fields are called.
func cellStr[T rsym[T]](c riblt.CodedSymbol[T]) string {
	v := reflect.ValueOf(&c).Elem()
	r := ""
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch s := f.Interface().(type) {
		case T:
			r += digest(s.str()) + " "
		case int64, uint64:
			r += fmt.Sprint(s, " ")
		}
	}
	return r
}

// letters: s add a symbol to the encoder, p produce a coded symbol, d add a
// symbol to the decoder, c add the next coded symbol, T try to decode, R reset
// the encoder, D the decoder; S add a symbol to the sketch, U subtract a
// sketch, X decode the sketch
func rbProgram[T rsym[T]](name string, mk func(id uint64) T, variant int, script string) program {
	return program{fmt.Sprintf("riblt/%s.%d", name, variant), script, func(a *agent) func(byte) {
		base := uint64(variant * 1000)
		e := &riblt.Encoder[T]{}
		d := &riblt.Decoder[T]{}
		sk, other := make(riblt.Sketch[T], 6), make(riblt.Sketch[T], 6)
		var cs []riblt.CodedSymbol[T]
		es, ds, ss := uint64(0), uint64(2), uint64(0)
		list := func(what string, l []riblt.HashedSymbol[T]) {
			var r []string
			for _, s := range l {
				r = append(r, fmt.Sprint(digest(s.Symbol.str()), s.Hash))
			}
			sort.Strings(r)
			a.say("%s %v", what, r)
		}
		return func(op byte) {
			switch op {
			case 's':
				e.AddSymbol(mk(base + es))
				es++
			case 'p':
				c := e.ProduceNextCodedSymbol()
				a.say("coded %s", cellStr(c))
				cs = append(cs, c)
			case 'd':
				d.AddSymbol(mk(base + ds))
				ds++
			case 'c':
				if len(cs) > 0 {
					d.AddCodedSymbol(cs[0])
					cs = cs[1:]
				}
			case 'T':
				d.TryDecode()
				a.say("decoded %v", d.Decoded())
				list("local", d.Local())
				list("remote", d.Remote())
			case 'R':
				e.Reset()
				es = 0
			case 'D':
				d.Reset()
				ds, cs = 2, nil
			case 'S':
				sk.AddSymbol(mk(base + ss))
				other.AddSymbol(mk(base + ss + 2))
				ss++
			case 'U':
				sk = sk.Subtract(other)
				for _, c := range sk {
					a.say("cell %s", cellStr(c))
				}
			case 'X':
				l, r, ok := sk.Decode()
				a.say("ok %v", ok)
				list("a", l)
				list("b", r)
				sk, other = make(riblt.Sketch[T], 6), make(riblt.Sketch[T], 6)
			}
		}
	}}
}

func mkrv(id uint64) rv { return rv{mc.Mix(id*2 + 5), mc.Mix(id*2 + 6)} }
func mkrp(id uint64) *rp {
	p := &rp{}
	binary.LittleEndian.PutUint64(p[:], mc.Mix(id*2+5))
	binary.LittleEndian.PutUint64(p[8:], mc.Mix(id*2+6))
	return p
}

type family struct {
	name string
	ops  string
	prog func(variant int, script string) program
	full string
	bits []string // parts explored more deeply
}

const ltFull = "ttttaaaa2312lrrkklfRaa2"

func families() []family {
	var r []family
	for _, c := range codecs() {
		c := c
		f := family{c.Name, "ta2rkR", func(v int, s string) program { return ltProgram(c, v, s) }, ltFull, []string{"ta1", "taa1r", "ttaa21lr"}}
		if c.Free != nil {
			f.ops += "f"
			f.bits = append(f.bits, "ta1rf1r")
		}
		r = append(r, f)
	}
	bits := []string{"sspp", "sdpcT", "SU", "SSUX"}
	r = append(r, family{"riblt/value", "spdcTRDSUX", func(v int, s string) program { return rbProgram("value", mkrv, v, s) }, "sssdddppppccTccTRspDdcTSSUX", bits},
		family{"riblt/pointer", "spdcTRDSUX", func(v int, s string) program { return rbProgram("pointer", mkrp, v, s) }, "sssdddppppccTccTRspDdcTSSUX", bits})
	return r
}

func same(x *mc.X, p program, got, want []string, how string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			x.Fail("%s, %s: observation %d is %q, alone it is %q", p, how, i, g, w)
		}
	}
}

// interleaved runs the programs under the controlled scheduler.
func interleaved(dev int, progs ...program) mc.Config {
	names := []string{}
	var want [][]string
	for _, p := range progs {
		names = append(names, p.String())
	}
	return mc.Config{Name: fmt.Sprintf("interleaved, %d switches: %s", dev, strings.Join(names, " | ")), Dev: dev, Run: func(x *mc.X) {
		if want == nil {
			for _, p := range progs {
				want = append(want, p.alone())
			}
		}
		vssync.Gen++
		vpool.Gen++
		agents := make([]*agent, len(progs))
		byG := map[int]*agent{}
		vrand.Of = func() *rand.Rand {
			if a := byG[vs.Me()]; a != nil {
				return a.rng
			}
			return agents[0].rng
		}
		defer func() { vrand.Of = nil }()
		for i := range progs {
			agents[i] = &agent{rng: rand.New(&lcg{s: 99})}
		}
		res := vs.Run(x, vs.Options{MaxSteps: 200000, Next: true}, func() {
			for i, p := range progs {
				i, p := i, p
				g := vs.GoNamed(fmt.Sprint("user", i), func() {
					f := p.start(agents[i])
					for k := range p.script {
						f(p.script[k])
					}
				})
				byG[g.ID] = agents[i]
			}
		})
		if res.Panic != nil {
			x.Fail("%s panics: %v\n%s", res.PanicIn, res.Panic, res.Stack)
		}
		if res.Limit || !res.Done {
			x.Fail("does not come to an end: %v", res.Blocked)
		}
		h := uint64(res.Steps)
		for i, p := range progs {
			same(x, p, agents[i].log, want[i], "interleaved with others")
			h = mc.Mix(h ^ mc.HashString(strings.Join(agents[i].log, "\n")))
		}
		x.State(h)
		x.Observe(h)
	}}
}

var turn int

var finished [2]bool

//go:norace
func over(i int) bool { return finished[i] }

//go:norace
func setOver(i int) { finished[i] = true }

//go:norace
func whose() int { return turn }

//go:norace
func setTurn(i int) { turn = i }

// raced runs two programs in goroutines that hand over to each other in a way
// the race monitor does not see, and fails when both touch the same memory.
func raced(x *mc.X, p [2]program, cut [2]int) {
	var want [2][]string
	for i := range p {
		want[i] = p[i].alone()
	}
	vssync.Gen++
	vpool.Gen++
	var ag [2]*agent
	for i := range ag {
		ag[i] = &agent{rng: rand.New(&lcg{s: 99})}
	}
	vrand.Of = func() *rand.Rand { return ag[whose()].rng }
	defer func() { vrand.Of = nil }()
	before := races()
	finished = [2]bool{}
	gate := [2]chan bool{make(chan bool, 1), make(chan bool, 1)}
	done := make(chan any, 2)
	for i := range p {
		i := i
		go func() {
			defer func() { done <- recover() }()
			pass := func() {
				hidden(func() { gate[1-i] <- true })
			}
			await := func() {
				hidden(func() { <-gate[i] })
				setTurn(i)
			}
			await()
			f := p[i].start(ag[i])
			for k := range p[i].script {
				if k == cut[i] && !over(1-i) {
					pass()
					await()
				}
				f(p[i].script[k])
			}
			setOver(i)
			pass()
		}()
	}
	gate[0] <- true
	for range p {
		if r := <-done; r != nil {
			x.Fail("%s | %s: panic %v", p[0], p[1], r)
		}
	}
	x.Op(len(p[0].script) + len(p[1].script))
	if races() != before {
		x.Fail("%s and %s, with no object in common, touch the same memory without synchronisation (cuts %v)", p[0], p[1], cut)
	}
	h := uint64(cut[0]*100 + cut[1])
	for i := range p {
		same(x, p[i], ag[i].log, want[i], "taking turns with "+p[1-i].String())
		h = mc.Mix(h ^ mc.HashString(strings.Join(ag[i].log, "\n")))
	}
	x.State(h)
	x.Observe(h)
}

func racedConfigs(tier string) (r []mc.Config) {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	for _, f := range families() {
		f := f
		for v := 0; v < 3; v++ {
			v := v
			if v != 1 && tier != "thorough" && strings.HasSuffix(f.name, "pointer") {
				continue
			}
			p := [2]program{f.prog(0, f.full), f.prog(v, f.full)}
			r = append(r, mc.Config{Name: fmt.Sprintf("taking turns at every pair of places: %s | %s", p[0], p[1]), Run: func(x *mc.X) {
				a := x.Choose(len(f.full) + 1)
				b := x.Choose(len(f.full) + 1)
				raced(x, p, [2]int{a, b})
			}})
		}
		r = append(r, mc.Config{Name: fmt.Sprintf("taking turns at every place: all sequences of %d operations | %s", depth, f.prog(0, f.full)), Run: func(x *mc.X) {
			s := "tta2"
			if strings.HasPrefix(f.name, "riblt") {
				s = "sdp"
			}
			for i := 0; i < depth; i++ {
				s += string(f.ops[x.Choose(len(f.ops))])
			}
			raced(x, [2]program{f.prog(0, s), f.prog(1, f.full)}, [2]int{x.Choose(len(s) + 1), -1})
		}})
	}
	return r
}

func interleavedConfigs(tier string) (r []mc.Config) {
	extra := 0
	if tier == "thorough" {
		extra = 1
	}
	for _, f := range families() {
		for v := 0; v < 3; v++ {
			if v != 1 && tier != "thorough" && strings.HasSuffix(f.name, "pointer") {
				continue
			}
			r = append(r, interleaved(1, f.prog(0, f.full), f.prog(v, f.full)))
		}
		r = append(r, interleaved(1, f.prog(2, f.full), f.prog(0, f.full)))
		for i, b := range f.bits {
			for j, c := range f.bits {
				if i != j && tier != "thorough" {
					continue
				}
				dev := 2
				if b == "SSUX" && c == b {
					dev = 1
				} else if len(b)+len(c) <= 10 {
					dev += extra
				} else if tier != "thorough" && len(b) > 5 {
					dev = 1
				}
				r = append(r, interleaved(dev, f.prog(0, b), f.prog(1, c)))
			}
			r = append(r, interleaved(1+extra, f.prog(0, b), f.prog(1, b), f.prog(2, b)))
		}
	}
	return r
}

func main() {
	mc.Main(map[string]func(string) []mc.Config{"C09": func(tier string) []mc.Config {
		if raceBuild {
			return racedConfigs(tier)
		}
		return interleavedConfigs(tier)
	}})
}
