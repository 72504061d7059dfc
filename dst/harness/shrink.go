package harness

import (
	"time"
)

// Shrink makes a scenario smaller while it still shows the same violation. The schedule is frozen
// at the end, so that the result lists the decisions of the scheduler that matter.
func Shrink(sc *Scenario, want Violation, limit time.Duration) (*Scenario, Violation, int) {
	end := time.Now().Add(limit)
	best, tries := sc, 0
	shows := func(c *Scenario) (Violation, bool) {
		tries++
		for _, v := range Play(c, false).Viols {
			if v.Prop == want.Prop && v.Sig == want.Sig && v.KF == want.KF {
				return v, true
			}
		}
		return Violation{}, false
	}
	vi, ok := shows(sc.Clone())
	if !ok {
		return sc, want, tries
	}
	over := func() bool { return time.Now().After(end) }
	// try changes a copy; the copy is kept if the violation is still there
	try := func(f func(c *Scenario) bool) bool {
		if over() {
			return false
		}
		c := best.Clone()
		if !f(c) {
			return false
		}
		for k := 0; k < 3 && !over(); k++ {
			d := c
			if k > 0 {
				random := false
				d = c.Clone()
				for _, s := range d.Steps {
					if s.Run != nil && s.Pol.Kind != "sequential" {
						s.Seed += uint64(k) * 7919
						random = true
					}
				}
				if !random {
					break
				}
			}
			if v, ok := shows(d); ok {
				best, vi = d, v
				return true
			}
		}
		return false
	}
	// drop tries to remove items i of n with f(scenario, i), from the back
	drop := func(n func() int, f func(c *Scenario, i int) bool) bool {
		any := false
		for i := n() - 1; i >= 0 && !over(); i-- {
			if i < n() && try(func(c *Scenario) bool { return f(c, i) }) {
				any = true
			}
		}
		return any
	}
	eachRun := func(c *Scenario, f func(r *Run)) {
		for _, s := range c.Steps {
			for _, r := range []*Run{s.Run, s.Run2} {
				if r != nil {
					f(r)
				}
			}
		}
	}
	try(func(c *Scenario) bool {
		for _, s := range c.Steps {
			s.Pol.Kind, s.Pol.TickMean = "sequential", 0
		}
		return true
	})
	for round := 0; round < 4 && !over(); round++ {
		any := false
		or := func(b bool) { any = any || b }
		or(drop(func() int { return len(best.Steps) - 1 }, func(c *Scenario, i int) bool {
			c.Steps = append(c.Steps[:i], c.Steps[i+1:]...)
			return true
		}))
		for si := range best.Steps {
			for second := 0; second < 2; second++ {
				get := func(c *Scenario) *Run {
					if second == 1 {
						return c.Steps[si].Run2
					}
					return c.Steps[si].Run
				}
				if get(best) == nil {
					continue
				}
				or(drop(func() int { return len(get(best).Net) }, func(c *Scenario, i int) bool { r := get(c); r.Net = append(r.Net[:i], r.Net[i+1:]...); return true }))
				or(drop(func() int { return len(get(best).FS) }, func(c *Scenario, i int) bool { r := get(c); r.FS = append(r.FS[:i], r.FS[i+1:]...); return true }))
				or(drop(func() int { return len(get(best).Exec) }, func(c *Scenario, i int) bool { r := get(c); r.Exec = append(r.Exec[:i], r.Exec[i+1:]...); return true }))
				or(drop(func() int { return get(best).Layers.size() }, func(c *Scenario, i int) bool { r := get(c); return r.Layers.drop(i, r.Cfg, c.World) }))
				or(try(func(c *Scenario) bool { r := get(c); ok := r.Crash != nil; r.Crash = nil; return ok }))
				or(try(func(c *Scenario) bool { r := get(c); ok := r.Cap > 0; r.Cap = 0; return ok }))
				or(try(func(c *Scenario) bool {
					r := get(c)
					ok := r.Cfg.Workers > 1 && r.Layers == nil
					r.Cfg.Workers = 1
					return ok
				}))
				or(try(func(c *Scenario) bool {
					r := get(c)
					ok := r.Cfg.Workers > 2 && r.Layers == nil
					r.Cfg.Workers = 2
					return ok
				}))
			}
			or(try(func(c *Scenario) bool {
				s := c.Steps[si]
				ok := s.Run != nil && s.Pol.Kind != "sequential"
				s.Pol.Kind, s.Pol.TickMean = "sequential", 0
				return ok
			}))
			or(try(func(c *Scenario) bool {
				s := c.Steps[si]
				ok := s.Run != nil && s.Pol.TickMean > 0
				s.Pol.TickMean = 0
				return ok
			}))
		}
		// an article in all runs at once
		or(drop(func() int { return len(best.World.Articles) }, func(c *Scenario, i int) bool {
			t := c.World.Articles[i].Title
			ok := true
			eachRun(c, func(r *Run) {
				var l []string
				for _, a := range r.Articles {
					if c.World.article(a) != c.World.article(t) {
						l = append(l, a)
					}
				}
				r.Articles = l
				ok = ok && len(l) > 0
			})
			c.World.Articles = append(c.World.Articles[:i], c.World.Articles[i+1:]...)
			return ok
		}))
		for ai := range best.World.Articles {
			or(drop(func() int { return len(best.World.Articles[ai].Blocks) }, func(c *Scenario, i int) bool {
				a := c.World.Articles[ai]
				a.Blocks = append(a.Blocks[:i], a.Blocks[i+1:]...)
				return true
			}))
		}
		or(drop(func() int { n, _ := best.World.cut(-1); return n }, func(c *Scenario, i int) bool { _, ok := c.World.cut(i); return ok }))
		or(try(func(c *Scenario) bool { ok := c.World.LatMax > 0; c.World.LatMax = 0; return ok }))
		or(try(func(c *Scenario) bool { ok := c.World.Chunk > 0; c.World.Chunk = 0; return ok }))
		or(try(func(c *Scenario) bool { ok := c.World.SlowHost != ""; c.World.SlowHost = ""; return ok }))
		if !any {
			break
		}
	}
	// freeze the schedule, then remove decisions
	c := best.Clone()
	Play(c, false)
	frozen := false
	for _, s := range c.Steps {
		if s.Kind == "run" || s.Kind == "pair" {
			s.Tape, s.Taped = s.Rec, true
			frozen = frozen || len(s.Rec) > 0
		}
	}
	if v, ok := shows(c.Clone()); ok {
		best, vi = c, v
		if frozen {
			for si := range best.Steps {
				for size := (len(best.Steps[si].Tape) + 1) / 2; size >= 1 && !over(); size /= 2 {
					for at := 0; at < len(best.Steps[si].Tape) && !over(); {
						d := best.Clone()
						t := d.Steps[si].Tape
						d.Steps[si].Tape = append(t[:at:at], t[min(at+size, len(t)):]...)
						if v, ok := shows(d); ok {
							best, vi = d, v
						} else {
							at += size
						}
					}
				}
			}
		}
	}
	return best, vi, tries
}
