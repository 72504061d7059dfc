// Package sync is the simulated sync package: every operation is a scheduling point.
package sync

import (
	real "sync"

	"sim/rt"
)

type Locker = real.Locker

type waitList []*rt.Task

func (w *waitList) wait(what string) {
	*w = append(*w, rt.Cur())
	rt.Block(what)
}
func (w *waitList) wakeAll() {
	for _, t := range *w {
		rt.WakeTask(t)
	}
	*w = nil
}

type Mutex struct {
	locked bool
	w      waitList
}

func (m *Mutex) Lock() {
	if !rt.Active() {
		m.locked = true
		return
	}
	rt.Yield("lock")
	for m.locked {
		m.w.wait("mutex lock")
	}
	m.locked = true
	rt.RaceAcquire(m)
}
func (m *Mutex) TryLock() bool {
	if rt.Active() {
		rt.Yield("trylock")
	}
	if m.locked {
		return false
	}
	m.locked = true
	rt.RaceAcquire(m)
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked && rt.Active() {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(m)
	m.locked = false
	if rt.InSim() {
		m.w.wakeAll()
	}
	if rt.Active() {
		rt.Yield("unlock")
	}
}

type RWMutex struct {
	writer  bool
	readers int
	pending int
	w       waitList
}

func (m *RWMutex) Lock() {
	if !rt.Active() {
		return
	}
	rt.Yield("lock")
	m.pending++
	for m.writer || m.readers > 0 {
		m.w.wait("rwmutex lock")
	}
	m.pending--
	m.writer = true
	rt.RaceAcquire(m)
	rt.RaceAcquire(&m.readers)
}
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	rt.RaceAcquire(m)
	rt.RaceAcquire(&m.readers)
	return true
}
func (m *RWMutex) Unlock() {
	if !rt.Active() {
		m.writer = false
		return
	}
	if !m.writer {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRelease(m)
	m.writer = false
	m.w.wakeAll()
	rt.Yield("unlock")
}
func (m *RWMutex) RLock() {
	if !rt.Active() {
		return
	}
	rt.Yield("rlock")
	for m.writer || m.pending > 0 {
		m.w.wait("rwmutex rlock")
	}
	m.readers++
	rt.RaceAcquire(m)
}
func (m *RWMutex) TryRLock() bool {
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(m)
	return true
}
func (m *RWMutex) RUnlock() {
	if !rt.Active() {
		return
	}
	if m.readers <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceRelease(&m.readers)
	m.readers--
	m.w.wakeAll()
	rt.Yield("runlock")
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	w waitList
}

func (g *WaitGroup) Add(d int) {
	if rt.InSim() && !rt.Active() {
		return
	}
	g.n += d
	if d < 0 {
		rt.RaceRelease(g)
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 && rt.InSim() {
		g.w.wakeAll()
	}
	if rt.Active() {
		rt.Yield("wg")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !rt.Active() {
		return
	}
	rt.Yield("wait")
	for g.n > 0 {
		g.w.wait("waitgroup wait")
	}
	rt.RaceAcquire(g)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		rt.RaceAcquire(&o.m)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L Locker
	w waitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if !rt.Active() {
		return
	}
	t := rt.Cur()
	rt.RaceSync(c)
	c.w = append(c.w, t)
	c.L.Unlock()
	for c.has(t) {
		rt.Block("cond wait")
	}
	rt.RaceSync(c)
	c.L.Lock()
}
func (c *Cond) has(t *rt.Task) bool {
	for _, x := range c.w {
		if x == t {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	rt.RaceSync(c)
	if len(c.w) > 0 && rt.InSim() {
		t := c.w[0]
		c.w = c.w[1:]
		rt.WakeTask(t)
	}
}
func (c *Cond) Broadcast() {
	rt.RaceSync(c)
	if rt.InSim() {
		c.w.wakeAll()
	}
}

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if rt.Active() {
		rt.Yield("pool")
	}
	rt.RaceSync(p)
	if n := len(p.items); n > 0 && rt.RandU64()%4 != 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	rt.RaceSync(p)
	p.items = append(p.items, x)
}

// Map keeps the values in a plain map; order of Range is decided by the seed.
type Map struct{ m map[any]any }

func (m *Map) y() {
	if rt.Active() {
		rt.Yield("map")
	}
	rt.RaceSync(m)
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.y(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.y(); m.m[k] = v }
func (m *Map) Clear()                 { m.y(); m.m = map[any]any{} }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.y()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.y()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.y(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.y()
	x, ok := m.m[k]
	m.m[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.y()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.y()
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.y()
	for _, k := range rt.Keys(m.m) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
