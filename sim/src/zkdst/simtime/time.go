// Package time replaces the parts of the standard package that library code could block on or read a clock with.
package time

import (
	"time"

	"zkdst/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	RFC1123     = time.RFC1123
	RFC822      = time.RFC822
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

func Parse(layout, v string) (Time, error)     { return time.Parse(layout, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func UnixMilli(n int64) Time                   { return time.UnixMilli(n) }
func UnixMicro(n int64) Time                   { return time.UnixMicro(n) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time             { return time.Unix(1700000000, simrt.Now()) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }
func Unix(s, n int64) Time  { return time.Unix(s, n) }

type Timer struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	f func()
}

//go:norace
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t = simrt.AddTimer(int64(d), func() { c <- Now() })
	return t
}

//go:norace
func (t *Timer) Stop() bool { return t.t.Stop() }

//go:norace
func (t *Timer) Reset(d Duration) bool {
	r := t.t.Stop()
	c := t.c
	if t.f != nil {
		f := t.f
		t.t = simrt.AddTimer(int64(d), func() { simrt.GoBg(f) })
		return r
	}
	t.t = simrt.AddTimer(int64(d), func() {
		select {
		case c <- Now():
		default:
		}
	})
	return r
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

//go:norace
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.t = simrt.AddTimer(int64(d), func() { simrt.GoBg(f) })
	return t
}

// Ticker delivers ticks of the virtual clock; like the real one it drops those nobody takes.
type Ticker struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	d Duration
}

//go:norace
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	k := &Ticker{C: c, c: c}
	k.Reset(d)
	return k
}

//go:norace
func (k *Ticker) arm() {
	k.t = simrt.AddTimer(int64(k.d), func() {
		select {
		case k.c <- Now():
		default:
		}
		k.arm()
	})
}

//go:norace
func (k *Ticker) Stop() {
	if k.t != nil {
		k.t.Stop()
	}
}

//go:norace
func (k *Ticker) Reset(d Duration) {
	k.Stop()
	k.d = d
	k.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
