// Package time is the simulated clock.
package time

import (
	real "time"

	"sim/rt"
)

func nowNanos() int64 {
	if rt.InSim() {
		return rt.S.Now
	}
	return 1_700_000_000_000_000_000
}

func Now() Time { return real.Unix(0, nowNanos()).UTC() }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { rt.Sleep(int64(d)) }

type Timer struct {
	C  <-chan Time
	ch chan Time
	f  func()
	x  *rt.Timer
}

func (t *Timer) start(d Duration) {
	if t.f != nil {
		f := t.f
		t.x = rt.StartTimer(int64(d), func() { rt.SpawnIn(t.x, f) })
		return
	}
	t.x = rt.StartTimer(int64(d), func() {
		select {
		case t.ch <- Now():
		default:
		}
		rt.WakeAllChans()
	})
}

func (t *Timer) Stop() bool {
	return t.x.Stop()
}
func (t *Timer) Reset(d Duration) bool {
	was := t.x.Stop()
	select {
	case <-t.ch:
	default:
	}
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

type Ticker struct {
	C    <-chan Time
	ch   chan Time
	d    Duration
	x    *rt.Timer
	stop bool
}

func (t *Ticker) arm() {
	t.x = rt.StartTimer(int64(t.d), func() {
		select {
		case t.ch <- Now():
		default:
		}
		rt.WakeAllChans()
		if !t.stop {
			t.arm()
		}
	})
}
func (t *Ticker) Stop() { t.stop = true; t.x.Stop() }
func (t *Ticker) Reset(d Duration) {
	t.x.Stop()
	t.stop = false
	t.d = d
	t.arm()
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.arm()
	return t
}
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
