// Package vtime stands in for package time in instrumented code.
package vtime

import (
	"time"

	"vmc/vsched"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Layout      = time.Layout
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	RFC1123     = time.RFC1123
	RFC822      = time.RFC822
	Kitchen     = time.Kitchen
	ANSIC       = time.ANSIC
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	UnixDate    = time.UnixDate

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(n int64) Time { return time.UnixMilli(n) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

func Now() Time                    { return vsched.Now() }
func Since(t Time) Duration        { return vsched.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(vsched.Now()) }
func Sleep(d Duration)             { vsched.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer as time.Timer
type Timer struct {
	C <-chan Time
	t vsched.Timer
}

// NewTimer starts
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c}
	t.t.C = c
	t.t.Start(d)
	return t
}

// AfterFunc as time
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	t.t.F = f
	t.t.Start(d)
	return t
}

// Stop as time
func (t *Timer) Stop() bool { vsched.Point("Timer.Stop"); return t.t.Stop() }

// Reset as time
func (t *Timer) Reset(d Duration) bool {
	vsched.Point("Timer.Reset")
	was := t.t.Stop()
	t.t.Start(d)
	return was
}

// Ticker as time.Ticker
type Ticker struct {
	C <-chan Time
	t vsched.Timer
}

// NewTicker as time
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c}
	t.t.C = c
	t.t.Period = int64(d)
	t.t.Daemon = true
	t.t.Start(d)
	return t
}

// Stop as time
func (t *Ticker) Stop() { t.t.Stop() }

// Reset as time
func (t *Ticker) Reset(d Duration) { t.t.Stop(); t.t.Period = int64(d); t.t.Start(d) }

// Tick as time
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func FixedZone(n string, o int) *Location                    { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)               { return time.LoadLocation(n) }
func UnixMicro(u int64) Time                                 { return time.UnixMicro(u) }
func ParseInLocation(l, v string, o *Location) (Time, error) { return time.ParseInLocation(l, v, o) }
