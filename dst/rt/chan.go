package rt

import (
	"fmt"
	"reflect"
	"runtime"
)

// Channels keep their real type and buffer. Buffered channels are used through non-blocking
// operations; unbuffered ones are matched between waiting tasks by the runtime itself.

type selCase struct {
	ch    any     // the channel, comparable through its pointer
	key   uintptr // identity of the channel
	send  bool
	try   func() bool // attempt on the real channel
	give  func() any  // value to send
	take  func(any, bool)
	idx   int
	capa  int
	isNil bool
}

type selWait struct {
	t     *Task
	cases []*selCase
	fired int
	done  bool
}

type chanWaiters struct{ list []*selWait }

var chanMap = map[uintptr]*chanWaiters{}

func waitersOf(key uintptr) *chanWaiters {
	w := chanMap[key]
	if w == nil {
		w = &chanWaiters{}
		chanMap[key] = w
	}
	return w
}

func keyOf(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

func wakeChan(key uintptr) {
	w := chanMap[key]
	if w == nil {
		return
	}
	for _, x := range w.list {
		if !x.done {
			WakeTask(x.t)
		}
	}
}

// Case is one case of a select statement (or a single channel operation).
type Case interface{ c() *selCase }

type RecvCaseT[E any] struct {
	cs  selCase
	Val E
	OK  bool
}

func (r *RecvCaseT[E]) c() *selCase { return &r.cs }

type SendCaseT[E any] struct{ cs selCase }

func (r *SendCaseT[E]) c() *selCase { return &r.cs }

func RecvCase[E any](ch <-chan E) *RecvCaseT[E] {
	r := &RecvCaseT[E]{}
	r.cs = selCase{ch: ch, isNil: ch == nil}
	if ch != nil {
		r.cs.key = keyOf(ch)
		r.cs.capa = cap(ch)
	}
	r.cs.try = func() bool {
		select {
		case v, ok := <-ch:
			r.Val, r.OK = v, ok
			return true
		default:
			return false
		}
	}
	r.cs.take = func(v any, ok bool) {
		if v != nil {
			r.Val = v.(box[E]).v
		}
		r.OK = ok
	}
	return r
}

type box[E any] struct{ v E }

func SendCase[E any](ch chan<- E, v E) *SendCaseT[E] {
	r := &SendCaseT[E]{}
	r.cs = selCase{ch: ch, send: true, isNil: ch == nil}
	if ch != nil {
		r.cs.key = keyOf(ch)
		r.cs.capa = cap(ch)
	}
	r.cs.try = func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	r.cs.give = func() any { return box[E]{v} }
	return r
}

// attempt tries to complete one case right now.
func attempt(c *selCase) bool {
	if c.isNil {
		return false
	}
	if c.capa > 0 || !c.send || true {
		if c.try() {
			wakeChan(c.key)
			return true
		}
	}
	if c.capa == 0 {
		w := chanMap[c.key]
		if w != nil {
			for _, x := range w.list {
				if x.done {
					continue
				}
				for i, o := range x.cases {
					if o.key == c.key && !o.isNil && o.send != c.send {
						if c.send {
							o.take(c.give(), true)
						} else {
							c.take(o.give(), true)
						}
						x.done = true
						x.fired = i
						WakeTask(x.t)
						return true
					}
				}
			}
		}
	}
	return false
}

// Select runs a select statement and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if dead() {
		if InSim() {
			if hasDefault {
				return -1
			}
			runtime.Goexit()
		}
	}
	cs := make([]*selCase, len(cases))
	for i, c := range cases {
		cs[i] = c.c()
		cs[i].idx = i
	}
	if s == nil || s.cur == nil {
		// program initialisation
		for i, c := range cs {
			if c.try != nil && !c.isNil && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		Bug("channel operation would block during initialisation")
	}
	Yield("select")
	raceChan(cs)
	start := 0
	if len(cs) > 1 {
		start = int(s.MapSeed>>33) % len(cs)
		s.MapSeed = s.MapSeed*6364136223846793005 + 1442695040888963407
	}
	for {
		for k := range cs {
			i := (start + k) % len(cs)
			if attempt(cs[i]) {
				s.Event("chan", fmt.Sprint(i))
				raceChan(cs)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		w := &selWait{t: s.cur, cases: cs, fired: -1}
		seen := map[uintptr]bool{}
		for _, c := range cs {
			if !c.isNil && !seen[c.key] {
				seen[c.key] = true
				q := waitersOf(c.key)
				q.list = append(q.list, w)
			}
		}
		what := "select"
		if len(cs) == 1 {
			what = "channel receive"
			if cs[0].send {
				what = "channel send"
			}
		}
		func() {
			defer func() {
				w.done = true
				for _, c := range cs {
					if q := chanMap[c.key]; q != nil {
						for i, x := range q.list {
							if x == w {
								q.list = append(q.list[:i:i], q.list[i+1:]...)
								break
							}
						}
						if len(q.list) == 0 {
							delete(chanMap, c.key)
						}
					}
				}
			}()
			Block(what)
		}()
		if w.fired >= 0 {
			s.Event("chan", fmt.Sprint(w.fired))
			raceChan(cs)
			return w.fired
		}
	}
}

func Recv[E any](ch <-chan E) E {
	c := RecvCase(ch)
	Select(false, c)
	return c.Val
}

func Recv2[E any](ch <-chan E) (E, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.Val, c.OK
}

func Send[E any](ch chan<- E, v E) {
	if dead() && InSim() {
		return
	}
	Select(false, SendCase(ch, v))
}

func Close[E any](ch chan<- E) {
	if InSim() && !dead() {
		Yield("close")
		raceChanKey(keyOf(ch))
	}
	close(ch)
	if InSim() {
		wakeChan(keyOf(ch))
	}
}

// ChanSeq iterates over a channel like range.
func ChanSeq[E any](ch <-chan E) func(yield func(E) bool) {
	return func(yield func(E) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// GoN variants evaluate function and arguments at the go statement, as the language demands.
func Go1[A any](f func(A), a A)                       { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go(func() { f(a, b, c, d) })
}

// GoCall handles every other go statement through reflection.
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var want reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			want = ft.In(ft.NumIn() - 1).Elem()
		} else {
			want = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(want)
		} else {
			v := reflect.ValueOf(a)
			if v.Type() != want && want.Kind() != reflect.Interface {
				v = v.Convert(want)
			}
			in[i] = v
		}
	}
	Go(func() { fv.Call(in) })
}

// ResetChans forgets channel waiters between simulations.
func ResetChans() { chanMap = map[uintptr]*chanWaiters{} }
