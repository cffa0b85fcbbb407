// Package vtime replaces "time" in the code under test by a virtual clock. Timers created
// through the timebank stand-in are kept in a list; the harness decides when they fire.
package vtime

import (
	"time"

	"verif.local/sym"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error)         { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// ---- virtual clock ----

const Nsec = 250_000_000 // constant sub-second part of "now"

type Timer struct {
	Due      Time
	Dur      Duration
	Fn       func(isCancelled bool)
	Fired    bool
	Canceled bool
	Seq      int
}

var (
	sec    int64
	timers []*Timer
	tasks  []func()
	Thread int
	OnWait func()
)

func init() { sym.OnReset(Reset) }

func Reset() {
	sec, timers, tasks, Thread, OnWait = 0, nil, nil, 0, nil
}

func SetNow(s int64)              { sec = s }
func NowUnix() int64              { return sec }
func Now() Time                   { return time.Unix(sec, Nsec) }
func Since(t Time) Duration       { return Now().Sub(t) }
func Until(t Time) Duration       { return t.Sub(Now()) }

func Sleep(d Duration) {
	if OnWait != nil {
		OnWait()
	}
}

func AddTimer(d Duration, fn func(bool)) *Timer {
	t := &Timer{Due: Now().Add(d), Dur: d, Fn: fn, Seq: len(timers)}
	timers = append(timers, t)
	return t
}

// AfterFunc has the signature of time.AfterFunc up to the timer type.
func AfterFunc(d Duration, f func()) *Timer {
	return AddTimer(d, func(c bool) {
		if !c {
			f()
		}
	})
}

func (t *Timer) Stop() bool {
	r := !t.Fired && !t.Canceled
	t.Canceled = true
	return r
}

func (t *Timer) Pending() bool { return !t.Fired && !t.Canceled }

// Fire runs the callback of a pending timer.
func (t *Timer) Fire() {
	if !t.Pending() {
		return
	}
	t.Fired = true
	t.Fn(false)
}

func Timers() []*Timer { return timers }

func PendingTimers() []*Timer {
	var r []*Timer
	for _, t := range timers {
		if t.Pending() {
			r = append(r, t)
		}
	}
	return r
}

// Since: timers created at index n or later.
func TimersFrom(n int) []*Timer { return timers[n:] }

func Spawn(f func()) { tasks = append(tasks, f) }

// RunTasks runs all spawned goroutines to completion in creation order.
func RunTasks() {
	for len(tasks) > 0 {
		f := tasks[0]
		tasks = tasks[1:]
		f()
	}
}

// TakeTasks removes and returns the spawned goroutines so that the harness schedules them.
func TakeTasks() []func() {
	r := tasks
	tasks = nil
	return r
}

// Progress lets virtual time pass for a waiting caller: spawned goroutines run, then the
// most recently started timer fires.
func Progress() bool {
	if len(tasks) > 0 {
		RunTasks()
		return true
	}
	for i := len(timers) - 1; i >= 0; i-- {
		if timers[i].Pending() {
			timers[i].Fire()
			return true
		}
	}
	return false
}

// Recv, Recv2 and Send replace the channel operations of the code under test: a caller that
// waits lets virtual time pass.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	for first := true; ; first = false {
		select {
		case v, ok := <-c:
			return v, ok
		default:
		}
		if first && OnWait != nil {
			OnWait()
		}
		if !Progress() {
			sym.Assert(false, "deadlock: wait that nothing can complete")
			sym.Stop()
		}
	}
}

func Send[T any](c chan<- T, v T) {
	select {
	case c <- v:
	default:
		sym.Assert(false, "deadlock: send that nothing receives")
		sym.Stop()
	}
}
