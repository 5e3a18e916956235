// Package vrand stands in for math/rand: the global generator's answers can be
// decided by the harness, everything else is the real package.
package vrand

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(s Source) *Rand            { return rand.New(s) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }

// SourceHook, when set, provides the sources of generators.
var SourceHook func(seed int64) Source

func NewSource(seed int64) Source {
	if SourceHook != nil {
		return SourceHook(seed)
	}
	return rand.NewSource(seed)
}

// Global, when set, replaces the source of the global generator.
var Global *rand.Rand

// FloatHook and IntnHook, when set, answer the global Float64 and Intn.
var FloatHook func() float64
var IntnHook func(n int) int

// Of, when set, tells which generator the running goroutine uses.
var Of func() *rand.Rand

func g() *rand.Rand {
	if Of != nil {
		return Of()
	}
	if Global == nil {
		Global = rand.New(rand.NewSource(1))
	}
	return Global
}

func Float64() float64 {
	if FloatHook != nil {
		return FloatHook()
	}
	return g().Float64()
}
func Intn(n int) int {
	if IntnHook != nil {
		if n <= 0 {
			panic("invalid argument to Intn")
		}
		return IntnHook(n)
	}
	return g().Intn(n)
}
func Int63n(n int64) int64 {
	if IntnHook != nil {
		if n <= 0 {
			panic("invalid argument to Int63n")
		}
		return int64(IntnHook(int(n)))
	}
	return g().Int63n(n)
}
func Int31n(n int32) int32 {
	if IntnHook != nil {
		if n <= 0 {
			panic("invalid argument to Int31n")
		}
		return int32(IntnHook(int(n)))
	}
	return g().Int31n(n)
}
func Float32() float32         { return float32(Float64()) }
func Seed(s int64)             {}
func Int() int                 { return g().Int() }
func Int63() int64             { return g().Int63() }
func Int31() int32             { return g().Int31() }
func Uint32() uint32           { return g().Uint32() }
func Uint64() uint64           { return g().Uint64() }
func NormFloat64() float64     { return g().NormFloat64() }

// ExpHook, when set, answers the global ExpFloat64.
var ExpHook func() float64

func ExpFloat64() float64 {
	if ExpHook != nil {
		return ExpHook()
	}
	return g().ExpFloat64()
}
func Perm(n int) []int {
	if IntnHook != nil {
		m := make([]int, n)
		for i := 0; i < n; i++ {
			j := IntnHook(i + 1)
			m[i] = m[j]
			m[j] = i
		}
		return m
	}
	return g().Perm(n)
}
func Shuffle(n int, swap func(i, j int)) {
	if IntnHook != nil {
		for i := n - 1; i > 0; i-- {
			swap(i, IntnHook(i+1))
		}
		return
	}
	g().Shuffle(n, swap)
}
func Read(p []byte) (int, error) { return g().Read(p) }
