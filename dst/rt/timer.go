package rt

// Timer is a handle for a callback in virtual time.
type Timer struct {
	x     *timer
	p     *Proc
	fired bool
}

// StartTimer registers f to run after d nanoseconds (in scheduler context) if the process lives.
func StartTimer(d int64, f func()) *Timer {
	if !InSim() {
		Bug("timer started outside of a simulated process")
	}
	if d < 0 {
		d = 0
	}
	t := &Timer{p: CurProc()}
	t.x = S.At(S.Now+d, func() {
		if t.p.Dead {
			return
		}
		t.fired = true
		f()
	})
	t.x.p = t.p
	return t
}

// Stop cancels the timer and reports whether it was still pending.
func (t *Timer) Stop() bool {
	was := !t.x.off && !t.fired
	t.x.off = true
	return was
}

// SpawnIn starts a task in the process the timer belongs to.
func SpawnIn(t *Timer, f func()) {
	if !t.p.Dead {
		S.spawn(t.p, "timer", f)
	}
}

// WakeAllChans lets all tasks blocked on channels look again.
func WakeAllChans() {
	for _, w := range chanMap {
		for _, x := range w.list {
			if !x.done {
				WakeTask(x.t)
			}
		}
	}
}
