// Package vtime replaces package time in the instrumented copy.
package vtime

import (
	"time"

	"verif/vrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Location   = time.Location
	Month      = time.Month
	Weekday    = time.Weekday
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

func Now() Time {
	if vrt.R == nil {
		return time.Unix(0, 0)
	}
	return time.Unix(0, vrt.R.Now())
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	vrt.Point()
	if d <= 0 {
		return
	}
	fired := false
	vrt.AddTimer(vrt.R.Now()+int64(d), "sleep", func() { fired = true })
	vrt.Block(func() bool { return fired })
}

type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	vt *vrt.Timer
}

func (t *Timer) arm(d Duration) {
	t.vt = vrt.AddTimer(vrt.R.Now()+int64(max(d, 0)), "timer", func() {
		if t.f != nil {
			vrt.R.Go("AfterFunc", t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	ok := vrt.StopTimer(t.vt)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	vt   *vrt.Timer
	stop bool
}

func (t *Ticker) arm() {
	t.vt = vrt.AddTimer(vrt.R.Now()+int64(t.d), "ticker", func() {
		select {
		case t.c <- Now():
		default:
		}
		if !t.stop {
			t.arm()
		}
	})
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
func (t *Ticker) Stop()            { t.stop = true; vrt.StopTimer(t.vt) }
func (t *Ticker) Reset(d Duration) { vrt.StopTimer(t.vt); t.d = d; t.stop = false; t.arm() }
