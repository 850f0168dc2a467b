// Package vtime is package time with a clock under the driver's control. The checks substitute it for "time" in the
// packages that draw identifiers (with -overlay), so that clock steps can be placed between any two readings.
package vtime

import (
	"runtime"
	"sync"
	"time"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Ticker     = time.Ticker
	Time       = time.Time
	Timer      = time.Timer
	Weekday    = time.Weekday
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local

	After                  = time.After
	AfterFunc              = time.AfterFunc
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	NewTicker              = time.NewTicker
	NewTimer               = time.NewTimer
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Tick                   = time.Tick
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
)

// Shift moves the clock by D just before the At-th reading since Arm.
type Shift struct {
	At int
	D  Duration
}

var clk clock

type clock struct {
	sync.Mutex
	on     bool
	now    Time
	unit   Duration // resolution of the generator under test
	n      int      // readings since Arm
	sleeps int
	shifts []Shift
	log    []int64 // readings, in units, repetitions left out
	jitter int
}

// Set starts the controlled clock.
func Set(t Time, unit Duration, jitter int) {
	clk.Lock()
	defer clk.Unlock()
	clk.on, clk.now, clk.unit, clk.n, clk.sleeps, clk.shifts, clk.jitter = true, t, unit, 0, 0, nil, jitter
	clk.log = nil
}

func Off() { clk.Lock(); clk.on = false; clk.Unlock() }

// Arm schedules clock steps relative to the readings from here on.
func Arm(s []Shift) {
	clk.Lock()
	clk.n, clk.shifts, clk.sleeps = 0, s, 0
	clk.Unlock()
}

func Step(d Duration) { clk.Lock(); clk.now = clk.now.Add(d); clk.sleeps = 0; clk.Unlock() }

// Mark is called between draws: waiting starts afresh.
func Mark() { clk.Lock(); clk.sleeps = 0; clk.Unlock() }

func (c *clock) note() {
	u := c.now.UnixNano() / int64(c.unit)
	if k := len(c.log); k == 0 || c.log[k-1] != u {
		c.log = append(c.log, u)
	}
}

// Cur marks a moment; Between lists the clock's readings (truncated to the unit) from that moment on.
func Cur() int {
	clk.Lock()
	defer clk.Unlock()
	clk.note()
	return len(clk.log) - 1
}

func Between(i int) (r []Time) {
	clk.Lock()
	defer clk.Unlock()
	seen := map[int64]bool{}
	for _, u := range clk.log[i:] {
		if !seen[u] {
			seen[u] = true
			r = append(r, time.Unix(0, u*int64(clk.unit)))
		}
	}
	return
}

func Now() Time {
	clk.Lock()
	if !clk.on {
		clk.Unlock()
		return time.Now()
	}
	clk.n++
	for len(clk.shifts) > 0 && clk.n >= clk.shifts[0].At {
		clk.now = clk.now.Add(clk.shifts[0].D)
		clk.shifts = clk.shifts[1:]
	}
	clk.sleeps++
	if clk.sleeps > 20000 { // somebody is polling
		clk.now = clk.now.Add(clk.unit / 1000)
	}
	r := clk.now
	clk.note()
	j := clk.jitter > 0 && clk.n%clk.jitter == 0
	clk.Unlock()
	if j {
		runtime.Gosched()
	}
	return r
}

func Sleep(d Duration) {
	clk.Lock()
	if !clk.on {
		clk.Unlock()
		time.Sleep(d)
		return
	}
	// sleeping longer than asked is always possible; the longer somebody has been waiting, the longer the sleeps
	clk.sleeps++
	k := clk.sleeps / 8
	m := clk.unit / 5
	for ; k > 0 && m < Hour; k-- {
		m *= 2
	}
	if d < m {
		d = m
	}
	clk.now = clk.now.Add(d)
	clk.Unlock()
	runtime.Gosched()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
