// Package time replaces the standard package: one simulated clock.
package time

import (
	real "time"

	"uniswap-simulator/zsim/simrt"
)

type (
	Time       = real.Time
	Duration   = real.Duration
	Month      = real.Month
	Weekday    = real.Weekday
	Location   = real.Location
	ParseError = real.ParseError
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RFC822      = real.RFC822
	RFC1123     = real.RFC1123
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly
)

var UTC = real.UTC
var Local = real.UTC

// Jump is added to the simulated clock (fault: the wall clock is moved).
var Jump Duration
var Reads int

func Now() Time {
	simrt.Y()
	Reads++
	return real.Unix(1640995200, 0).UTC().Add(Duration(simrt.Clock()) + Jump)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Y(); simrt.Sleep(int64(d)) }

func Unix(s, n int64) Time   { return real.Unix(s, n).UTC() }
func UnixMilli(m int64) Time { return real.UnixMilli(m).UTC() }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return real.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error)          { return real.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return real.ParseDuration(s) }

func After(d Duration) <-chan Time {
	c := make(chan Time, 1)
	simrt.Go(func() { Sleep(d); simrt.Send(c, Now()) })
	return c
}

type Timer struct {
	C   <-chan Time
	f   func()
	gen int // what is pending, 0 for nothing
	seq int
}

//go:norace
func (t *Timer) begin() int { t.seq++; t.gen = t.seq; return t.gen }

//go:norace
func (t *Timer) due(g int) bool {
	if t.gen != g {
		return false
	}
	t.gen = 0
	return true
}

//go:norace
func (t *Timer) clear() bool { was := t.gen != 0; t.gen = 0; return was }

func (t *Timer) arm(d Duration) {
	mine := t.begin()
	simrt.Go(func() {
		Sleep(d)
		if t.due(mine) {
			t.f()
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, f: func() {
		if simrt.ChanLen(c) == 0 {
			simrt.Send(c, Now())
		}
	}}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { simrt.Y(); return t.clear() }
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

const (
	Sunday    = real.Sunday
	Monday    = real.Monday
	Tuesday   = real.Tuesday
	Wednesday = real.Wednesday
	Thursday  = real.Thursday
	Friday    = real.Friday
	Saturday  = real.Saturday
)

func UnixMicro(m int64) Time                   { return real.UnixMicro(m).UTC() }
func FixedZone(n string, off int) *Location    { return real.FixedZone(n, off) }
func LoadLocation(n string) (*Location, error) { return real.UTC, nil }
func ParseInLocation(l, v string, z *Location) (Time, error) {
	return real.ParseInLocation(l, v, z)
}

type Ticker struct {
	C     <-chan Time
	every Duration
	over  bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, every: d}
	simrt.Go(func() {
		for simrt.Running() {
			Sleep(t.period())
			if t.stopped() {
				return
			}
			if simrt.ChanLen(c) == 0 {
				simrt.Send(c, Now())
			}
		}
	})
	return t
}

//go:norace
func (t *Ticker) period() Duration { return t.every }

//go:norace
func (t *Ticker) stopped() bool { return t.over }

//go:norace
func (t *Ticker) Stop() { simrt.Y(); t.over = true }

//go:norace
func (t *Ticker) Reset(d Duration) { simrt.Y(); t.every = d }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
