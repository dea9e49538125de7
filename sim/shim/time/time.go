// Package time replaces the standard time package inside the simulator: the clock is the simulator's.
package time

import (
	rt "time"

	"verif/simrt"
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return rt.Date(year, month, day, hour, min, sec, nsec, loc)
}
func Unix(s, n int64) Time                     { return rt.Unix(s, n).UTC() }
func UnixMilli(n int64) Time                   { return rt.UnixMilli(n).UTC() }
func UnixMicro(n int64) Time                   { return rt.UnixMicro(n).UTC() }
func Parse(l, v string) (Time, error)          { return rt.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return rt.ParseDuration(s) }

// Epoch is the simulated time origin.
var Epoch = rt.Date(2030, 1, 1, 0, 0, 0, 0, rt.UTC)

// Sim converts an instant to simulated nanoseconds.
func Sim(t Time) int64 { return int64(t.Sub(Epoch)) }

func Now() Time {
	simrt.Point()
	if simrt.S == nil {
		return Epoch
	}
	return Epoch.Add(Duration(simrt.S.Now))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { simrt.Sleep(int64(d)) }

type Timer struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	f func()
}

func arm(t *Timer, d Duration) {
	vc := simrt.CurVC()
	s := simrt.S
	t.t = s.After(int64(d), func() {
		if t.f != nil {
			g := simrt.Spawn("", t.f)
			g.Lib = true
			simrt.SetVC(g, vc)
			return
		}
		simrt.SendNB(t.c, Epoch.Add(Duration(s.Now)), vc)
	})
}

func NewTimer(d Duration) *Timer {
	simrt.Point()
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	arm(t, d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	simrt.Point()
	t := &Timer{f: f}
	arm(t, d)
	return t
}

func (t *Timer) stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	p := simrt.S.Stop(t.t)
	if t.c != nil {
		if len(t.c) > 0 {
			p = true
		}
		simrt.Drain(t.c)
	}
	return p
}

func (t *Timer) Stop() bool {
	if simrt.Killing() {
		return false
	}
	simrt.Point()
	return t.stop()
}

func (t *Timer) Reset(d Duration) bool {
	simrt.Point()
	p := t.stop()
	arm(t, d)
	return p
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan Time
	c   chan Time
	t   *simrt.Timer
	d   Duration
	gen int
}

func (t *Ticker) arm() {
	vc := simrt.CurVC()
	s := simrt.S
	var fire func()
	fire = func() {
		simrt.SendNB(t.c, Epoch.Add(Duration(s.Now)), vc)
		t.t = s.After(int64(t.d), fire)
	}
	t.t = s.After(int64(t.d), fire)
}

func NewTicker(d Duration) *Ticker {
	simrt.Point()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	if t.t == nil {
		return
	}
	simrt.S.Stop(t.t)
	simrt.Drain(t.c)
}

func (t *Ticker) Reset(d Duration) {
	simrt.Point()
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	simrt.S.Stop(t.t)
	simrt.Drain(t.c)
	t.d = d
	t.arm()
}
