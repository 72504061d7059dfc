// Package context uses the simulated clock for deadlines.
package context

import (
	real "context"
	"time"

	"sim/rt"
)

func WithCancel(parent Context) (Context, CancelFunc) {
	rt.RaceOff() // the edges through Err() are not visible
	ctx, cancel := real.WithCancel(parent)
	return ctx, func() {
		cancel()
		if rt.InSim() {
			rt.WakeAllChans()
		}
	}
}

type deadlineCtx struct {
	Context
	at  time.Time
	hit *bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	if *d.hit {
		return DeadlineExceeded
	}
	return d.Context.Err()
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	ctx, cancel := WithCancel(parent)
	hit := false
	now := int64(0)
	if rt.InSim() {
		now = rt.S.Now
	}
	t := rt.StartTimer(int64(d), func() { hit = true; cancel() })
	return deadlineCtx{ctx, time.Unix(0, now+int64(d)), &hit}, func() { t.Stop(); cancel() }
}

func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, time.Duration(at.UnixNano()-rt.S.Now))
}
