// Package time replaces the standard package; clocks, timers and sleeps are virtual.
package time

import (
	rt "time"

	"vs"
)

type (
	Duration   = rt.Duration
	Location   = rt.Location
	Month      = rt.Month
	ParseError = rt.ParseError
	Time       = rt.Time
	Weekday    = rt.Weekday
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December

	Sunday    = rt.Sunday
	Monday    = rt.Monday
	Tuesday   = rt.Tuesday
	Wednesday = rt.Wednesday
	Thursday  = rt.Thursday
	Friday    = rt.Friday
	Saturday  = rt.Saturday

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly
)

var (
	UTC   = rt.UTC
	Local = rt.Local
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error)                          { return rt.Parse(l, v) }
func ParseDuration(s string) (Duration, error)                 { return rt.ParseDuration(s) }
func ParseInLocation(l, v string, loc *Location) (Time, error) { return rt.ParseInLocation(l, v, loc) }
func Unix(s, n int64) Time                                     { return rt.Unix(s, n) }
func UnixMicro(u int64) Time                                   { return rt.UnixMicro(u) }
func UnixMilli(u int64) Time                                   { return rt.UnixMilli(u) }
func FixedZone(n string, o int) *Location                      { return rt.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)                 { return rt.LoadLocation(n) }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return rt.LoadLocationFromTZData(n, d)
}

func Now() Time             { return vs.Now() }
func Since(t Time) Duration { return vs.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(vs.Now()) }
func Sleep(d Duration)      { vs.Sleep(d) }

// Timer is a virtual timer.
type Timer struct {
	C <-chan Time
	t *vs.Timer
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{C: c, t: vs.StartTimer(d, 0, func() { vs.TrySend(c, vs.Now()) })}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: vs.StartTimer(d, 0, func() { vs.SpawnFromTimer("time.AfterFunc", f) })}
}

func (t *Timer) Stop() bool            { vs.Point("timer.stop"); return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool { vs.Point("timer.reset"); return t.t.Reset(d, 0) }

func After(d Duration) <-chan Time { return NewTimer(d).C }

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Ticker is a virtual ticker.
type Ticker struct {
	C <-chan Time
	t *vs.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, t: vs.StartTimer(d, d, func() { vs.TrySend(c, vs.Now()) })}
}

func (t *Ticker) Stop() { vs.Rel("ticker.stop"); t.t.Stop() }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Reset(d, d)
}
