// Package timebank is the virtual-time stand-in for github.com/weedbox/timebank:
// the same contract over the virtual clock of the controlled runtime.
package timebank

import (
	"errors"
	"time"

	"verif/vrt"
)

var (
	ErrInvalidParameters = errors.New("timebank: invalid parameters")
	ErrInvalidDeadline   = errors.New("timebank: invalid deadline")
)

const DefaultTimeout time.Duration = 15 * time.Second

type TimeBank struct {
	isRunning bool
	due       int64
	fn        func(bool)
	timer     *vrt.Timer
}

func NewTimeBank() *TimeBank { return &TimeBank{} }

func (tb *TimeBank) Cancel() {
	tb.isRunning = false
	if tb.timer != nil {
		if vrt.StopTimer(tb.timer) && vrt.R != nil && !vrt.R.Aborted {
			fn := tb.fn
			vrt.R.Go("timebank-cancelled", func() { fn(true) })
		}
		tb.timer = nil
	}
}

func (tb *TimeBank) arm(d time.Duration) {
	at := vrt.R.Now() + int64(d)
	if d < 0 {
		at = vrt.R.Now()
	}
	tb.timer = vrt.AddTimer(at, "timebank", func() {
		fn := tb.fn
		tb.timer = nil
		vrt.R.Go("timebank", func() { fn(false) })
	})
}

func (tb *TimeBank) NewTask(duration time.Duration, fn func(isCancelled bool)) error {
	if fn == nil {
		return ErrInvalidParameters
	}
	vrt.Point()
	tb.Cancel()
	if duration == 0 {
		tb.fn = fn
		fn(false)
		return nil
	}
	tb.isRunning = true
	tb.fn = fn
	tb.due = vrt.R.Now() + int64(duration)
	tb.arm(duration)
	return nil
}

func (tb *TimeBank) Extend(duration time.Duration) bool {
	now := vrt.R.Now()
	if !tb.isRunning || tb.due < now || tb.timer == nil {
		return false
	}
	total := time.Duration(tb.due-now) + duration
	tb.due += int64(duration)
	vrt.StopTimer(tb.timer)
	tb.arm(total)
	return true
}

func (tb *TimeBank) NewTaskWithDeadline(deadline time.Time, fn func(isCancelled bool)) error {
	now := time.Unix(0, vrt.R.Now())
	if deadline.Before(now) {
		return ErrInvalidDeadline
	}
	return tb.NewTask(deadline.Sub(now), fn)
}
