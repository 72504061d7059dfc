package rt

import "unsafe"

// Happens-before tracking for maps. The Go runtime ends a process whose tasks use a map at the same
// time while one of them writes it ("fatal error: concurrent map writes"). Statements are atomic
// in the simulation, so such an overlap is recognised through vector clocks: two accesses of which
// one is a write and that no synchronisation orders can be made to overlap by some schedule. The
// edges are over-approximated (every channel, wait-group or once operation acquires and releases),
// so that a reported pair really is unordered.

type raceState struct {
	forked bool
	off    bool
	maps   map[unsafe.Pointer]*mapState
	keys   map[any][]uint32
}

type mapState struct {
	keep  any // keeps the map alive, so that its address is not used again
	wTask int // task of the last write, -1 for none
	wAt   uint32
	reads []uint32 // by task: time of its last read
}

func (t *Task) tick() {
	t.vcAt(t.idx)
	t.vc[t.idx]++
}

func (t *Task) vcAt(i int) uint32 {
	for len(t.vc) <= i {
		t.vc = append(t.vc, 0)
	}
	return t.vc[i]
}

func join(dst []uint32, src []uint32) []uint32 {
	for i, v := range src {
		if i >= len(dst) {
			dst = append(dst, src[i:]...)
			break
		}
		if v > dst[i] {
			dst[i] = v
		}
	}
	return dst
}

// raceFork starts the clock of a new task: everything its creator did happened before.
func (s *Sim) raceFork(t *Task) {
	p := t.Proc
	t.idx = len(p.Tasks) - 1
	if p.race == nil {
		p.race = &raceState{maps: map[unsafe.Pointer]*mapState{}, keys: map[any][]uint32{}}
	}
	if t.idx == 0 {
		t.tick()
		return
	}
	p.race.forked = true
	if c := s.cur; c != nil && c.Proc == p {
		t.vc = join(nil, c.vc)
		c.tick()
	} else { // a timer
		for _, c := range p.Tasks[:t.idx] {
			t.vc = join(t.vc, c.vc)
			c.tick()
		}
	}
	t.tick()
}

func raceHere() (*raceState, *Task) {
	if S == nil || S.cur == nil || S.cur.killed || S.cur.Proc.Dead {
		return nil, nil
	}
	r := S.cur.Proc.race
	if r == nil || !r.forked || r.off {
		return nil, nil
	}
	return r, S.cur
}

// RaceAcquire orders everything released on the key before what the current task does next.
func RaceAcquire(key any) {
	if r, t := raceHere(); r != nil {
		t.vc = join(t.vc, r.keys[key])
	}
}

// RaceRelease orders everything the current task did before what acquires the key later.
func RaceRelease(key any) {
	if r, t := raceHere(); r != nil {
		r.keys[key] = join(r.keys[key], t.vc)
		t.tick()
	}
}

// RaceSync does both.
func RaceSync(key any) {
	RaceAcquire(key)
	RaceRelease(key)
}

func raceChan(cs []*selCase) {
	for _, c := range cs {
		if !c.isNil {
			RaceSync(c.key)
		}
	}
}
func raceChanKey(key uintptr) { RaceSync(key) }

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func raceMap(p unsafe.Pointer, keep any, write bool) {
	r, t := raceHere()
	if r == nil || p == nil {
		return
	}
	st := r.maps[p]
	if st == nil {
		st = &mapState{keep: keep, wTask: -1}
		r.maps[p] = st
	}
	if st.wTask >= 0 && st.wTask != t.idx && t.vcAt(st.wTask) < st.wAt {
		if write {
			Fatal("concurrent map writes")
		}
		Fatal("concurrent map read and map write")
	}
	if write {
		for i, at := range st.reads {
			if i != t.idx && at > t.vcAt(i) {
				Fatal("concurrent map read and map write")
			}
		}
		st.wTask, st.wAt, st.reads = t.idx, t.vcAt(t.idx), st.reads[:0]
		return
	}
	for len(st.reads) <= t.idx {
		st.reads = append(st.reads, 0)
	}
	st.reads[t.idx] = t.vcAt(t.idx)
}

// MapR and MapW announce a read and a write of a map of the program.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if S != nil && S.cur != nil && S.cur.Proc.race.forked {
		raceMap(mapPtr(m), m, false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if S != nil && S.cur != nil && S.cur.Proc.race.forked {
		raceMap(mapPtr(m), m, true)
	}
	return m
}

// RaceOff ends the tracking for the current process.
func RaceOff() {
	if S != nil && S.cur != nil && S.cur.Proc.race != nil {
		S.cur.Proc.race.off = true
	}
}
