// Package vstime stands in for time under a controlled run: the clock is
// virtual and only moves when the harness advances it (or, with Auto, when
// nothing else can run).
package vstime

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	DateTime    = time.DateTime
)

var (
	UTC   = time.UTC
	Local = time.Local
)

// NowHook, when set, answers Now outside controlled runs.
var NowHook func() time.Time

// OnNow, when set, is told of every look at the clock.
var OnNow func()

func Now() Time {
	if OnNow != nil {
		OnNow()
	}
	if NowHook != nil {
		return NowHook()
	}
	return vs.Epoch.Add(vs.Clock())
}
func Since(t Time) Duration                          { return Now().Sub(t) }
func Until(t Time) Duration                          { return t.Sub(Now()) }
func Unix(s, n int64) Time                           { return time.Unix(s, n) }
func UnixMicro(u int64) Time                         { return time.UnixMicro(u) }
func UnixMilli(u int64) Time                         { return time.UnixMilli(u) }
func ParseDuration(s string) (Duration, error)       { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)                { return time.Parse(l, v) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

func Sleep(d Duration) {
	if !vs.Active() {
		return
	}
	if d <= 0 {
		vs.Point()
		return
	}
	done := false
	vs.NewTimer(d, 0, func() { done = true })
	vs.Until("sleep", func() bool { return done })
}

type Ticker struct {
	C <-chan Time
	c chan Time
	t *vs.Timer
	d Duration
}

func fire(c chan Time) func() {
	return func() {
		select {
		case c <- Now():
		default:
		}
	}
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	if vs.Active() {
		t.t = vs.NewTimer(d, d, fire(c))
	}
	return t
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}
func (t *Ticker) Reset(d Duration) {
	if t.t != nil {
		t.t.Reset(d, d)
	}
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

type Timer struct {
	C <-chan Time
	c chan Time
	t *vs.Timer
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	if vs.Active() {
		t.t = vs.NewTimer(d, 0, fire(c))
	}
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	if vs.Active() {
		t.t = vs.NewTimer(d, 0, func() { vs.GoNamed("timer", f) })
	}
	return t
}

func (t *Timer) drain() {
	// Go 1.23 semantics: no stale values are delivered after Stop or Reset
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	if t.t == nil {
		return false
	}
	t.drain()
	return t.t.Stop()
}
func (t *Timer) Reset(d Duration) bool {
	if t.t == nil {
		return false
	}
	t.drain()
	return t.t.Reset(d, 0)
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
