// Package timebank is the stand-in for github.com/weedbox/timebank on the virtual clock.
// It mirrors the parameter checks of the original; a task becomes a virtual timer.
package timebank

import (
	"errors"
	"time"

	"verif.local/sym/vtime"
)

var (
	ErrInvalidParameters = errors.New("timebank: invalid parameters")
	ErrInvalidDeadline   = errors.New("timebank: invalid deadline")
)

const DefaultTimeout time.Duration = 15 * time.Second

type TimeBank struct {
	t        *vtime.Timer
	callback func(bool)
}

func NewTimeBank() *TimeBank { return &TimeBank{} }

func (tb *TimeBank) Cancel() {
	if tb.t != nil && tb.t.Pending() {
		tb.t.Canceled = true
		// the original invokes the callback that is current when its goroutine wakes up
		vtime.Spawn(func() { tb.callback(true) })
	}
	tb.t = nil
}

func (tb *TimeBank) NewTask(duration time.Duration, fn func(isCancelled bool)) error {
	if fn == nil {
		return ErrInvalidParameters
	}
	tb.Cancel()
	if duration == 0 {
		tb.callback = fn
		fn(false)
		return nil
	}
	tb.callback = fn
	tb.t = vtime.AddTimer(duration, func(c bool) { tb.callback(c) })
	return nil
}

func (tb *TimeBank) Extend(duration time.Duration) bool {
	if tb.t == nil || !tb.t.Pending() || tb.t.Due.Before(vtime.Now()) {
		return false
	}
	tb.t.Due = tb.t.Due.Add(duration)
	tb.t.Dur += duration
	return true
}

func (tb *TimeBank) NewTaskWithDeadline(deadline time.Time, fn func(isCancelled bool)) error {
	now := vtime.Now()
	if deadline.Before(now) {
		return ErrInvalidDeadline
	}
	if fn == nil {
		return ErrInvalidParameters
	}
	if deadline.Equal(now) {
		return tb.NewTask(0, fn)
	}
	if err := tb.NewTask(vtime.Second, fn); err != nil {
		return err
	}
	tb.t.Due = deadline
	return nil
}
