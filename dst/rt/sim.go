// Package rt is the deterministic simulation runtime: cooperative tasks chosen by a seeded
// scheduler, a virtual clock, simulated processes, an in-memory file system and the hooks through
// which the harness injects faults. Everything in here runs strictly one goroutine at a time.
package rt

import (
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- PRNG

// Rand is a small splitmix64 generator: one integer decides everything.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64          { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool     { return r.Float() < p }
func (r *Rand) Fork(label uint64) *Rand { return NewRand(r.U64() ^ label*0x9E3779B97F4A7C15) }

// Hash64 hashes strings (FNV-1a with a finaliser).
func Hash64(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

// ---------------------------------------------------------------- types

type State int

const (
	Runnable State = iota
	Blocked
	Sleeping
	Done
)

type Task struct {
	ID      int
	Proc    *Proc
	Name    string
	state   State
	reason  string
	wake    chan struct{}
	killed  bool // its process is gone: only deferred calls still run
	unwind  bool // the task ending the process waits for this one to finish unwinding
	prio    int64
	sel     *selWait
	daemon  bool
	lastRun int64
	vc      []uint32
	idx     int    // index in its process
	ExecTag string // set while the task runs an external command inline
}

// Proc is a simulated operating-system process.
type Proc struct {
	ID       int
	Args     []string
	Env      map[string]string
	Cwd      string
	Tasks    []*Task
	Dead     bool
	Code     int
	How      string // exit, panic, crash
	Panic    string
	Out      []byte
	Err      []byte
	Handles  map[*File]bool
	MaxOpen  int
	Ops      int // file system operations
	MutOps   int // mutating file system operations
	Execs    int
	ReqCount int
	Start    int64
	End      int64
	OnFail   func() // called in the task that ends the process with a failure, before it is unwound
	OnExit   func()
	deadT    int
	Aux      any
	MaxTasks int
	race     *raceState
}

// Choice is one recorded scheduling decision that differs from the default policy.
type Choice struct {
	Tick bool  `json:"tick,omitempty"` // at a statement tick instead of an operation
	At   int64 `json:"at"`
	To   int   `json:"to"` // task id
}

// Policy selects how the seeded scheduler explores.
type Policy struct {
	Kind       string  `json:"kind"` // sequential, random, pct
	SwitchProb float64 `json:"switch_prob,omitempty"`
	TickMean   int     `json:"tick_mean,omitempty"` // mean statements between forced preemptions; 0 = none
	Depth      int     `json:"depth,omitempty"`     // pct: number of priority changes
	EstSteps   int     `json:"est_steps,omitempty"`
}

type timer struct {
	at  int64
	seq int64
	f   func()
	off bool
	p   *Proc // a timer of a dead process does not keep the simulation going
}

type Sim struct {
	Now      int64 // virtual nanoseconds since the epoch
	StartNow int64
	tasks    []*Task
	cur      *Task
	nextID   int
	Ops      int64
	Ticks    int64
	tickLeft int64
	Budget   int64 // maximum number of ticks
	OpBudget int64
	timers   []*timer
	timerSeq int64
	mainCh   chan struct{}
	unwound  chan struct{}
	running  bool

	rng      *Rand
	MapSeed  uint64
	Pol      Policy
	Replay   bool
	Tape     []Choice
	tapePos  int
	Recorded []Choice
	changeAt map[int64]bool
	nextPrio int64

	FS    *FS
	Procs []*Proc

	Stuck     string // deadlock or livelock description
	Livelock  bool
	Bug       string // internal error of the simulator
	Hash      uint64
	Switches  int64
	OpCost    int64
	Trace     []string
	KeepTrace bool

	// Hooks of the harness.
	OnFS    func(p *Proc, op *FSOp) Action
	AfterFS func(p *Proc, op *FSOp)
	OnOp    func()
	Halted  bool
}

// S is the simulation under way; nil outside of one.
var S *Sim

type bugPanic string

// Bug reports an internal error of the simulator (never a violation).
func Bug(format string, a ...any) {
	panic(bugPanic(fmt.Sprintf(format, a...)))
}

// New prepares a simulation.
func New(seed uint64, pol Policy) *Sim {
	s := &Sim{mainCh: make(chan struct{}, 1), unwound: make(chan struct{}), rng: NewRand(seed), Pol: pol, Budget: 30_000_000, OpBudget: 2_000_000, OpCost: 1000}
	s.MapSeed = s.rng.U64()
	s.Hash = 14695981039346656037
	s.changeAt = map[int64]bool{}
	if pol.Kind == "pct" {
		est := pol.EstSteps
		if est < 10 {
			est = 400
		}
		for i := 0; i < pol.Depth; i++ {
			s.changeAt[int64(s.rng.Intn(est))+1] = true
		}
	}
	return s
}

func (s *Sim) mix(v uint64) {
	s.Hash ^= v
	s.Hash *= 1099511628211
}

// Note adds an event to the trace hash (and to the readable trace if kept).
func (s *Sim) Note(format string, a ...any) {
	if s.KeepTrace {
		id := -1
		if s.cur != nil {
			id = s.cur.ID
		}
		s.Trace = append(s.Trace, fmt.Sprintf("%.6fs t%d ", float64(s.Now-s.StartNow)/1e9, id)+fmt.Sprintf(format, a...))
	}
}

func (s *Sim) noteHash(parts ...string) {
	id := uint64(0)
	if s.cur != nil {
		id = uint64(s.cur.ID) + 1
	}
	s.mix(Hash64(parts...) ^ id*0x9E3779B97F4A7C15)
}

// Event adds an event to the hash and the trace.
func (s *Sim) Event(parts ...string) {
	s.noteHash(parts...)
	if s.KeepTrace {
		s.Note("%s", strings.Join(parts, " "))
	}
}

// ---------------------------------------------------------------- processes and tasks

// StartProc creates a process whose first task runs f.
func (s *Sim) StartProc(args []string, env map[string]string, cwd string, f func()) *Proc {
	p := &Proc{ID: len(s.Procs) + 1, Args: args, Env: env, Cwd: cwd, Handles: map[*File]bool{}, Start: s.Now}
	s.Procs = append(s.Procs, p)
	s.spawn(p, "main", func() {
		f()
		Exit(0)
	})
	return p
}

func (s *Sim) spawn(p *Proc, name string, f func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Proc: p, Name: name, wake: make(chan struct{}, 1)}
	t.prio = int64(s.rng.U64()>>1) | 1
	s.tasks = append(s.tasks, t)
	p.Tasks = append(p.Tasks, t)
	n := 0
	for _, x := range p.Tasks {
		if x.state != Done {
			n++
		}
	}
	if n > p.MaxTasks {
		p.MaxTasks = n
	}
	s.raceFork(t)
	go s.taskMain(t, f)
	return t
}

func (s *Sim) taskMain(t *Task, f func()) {
	normal := false
	<-t.wake
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				if b, ok := r.(bugPanic); ok {
					s.Bug = string(b) + "\n" + string(debug.Stack())
					t.state = Done
					s.Halted = true
					s.mainCh <- struct{}{}
					return
				}
				if !t.killed && !t.Proc.Dead {
					msg := fmt.Sprint(r)
					t.Proc.Panic = msg + "\n" + trimStack(string(debug.Stack()))
					t.Proc.Err = append(t.Proc.Err, ("panic: " + msg + "\n")...)
					s.endProc(t.Proc, 2, "panic", t)
				}
			}
		}
		t.state = Done
		if t.unwind {
			s.unwound <- struct{}{}
			return
		}
		s.dispatch(nil)
	}()
	if t.killed {
		runtime.Goexit()
	}
	if OnSwitch != nil {
		OnSwitch(t.Proc)
	}
	f()
	normal = true
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/appa/") || strings.Contains(l, "/appb/") || strings.Contains(l, "app") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Go starts a new task in the current process.
func Go(f func()) {
	s := S
	if s == nil || s.cur == nil {
		Bug("goroutine started outside of a simulated process")
	}
	p := s.cur.Proc
	if p.Dead {
		return
	}
	s.spawn(p, "go", f)
	Yield("go")
}

// endProc marks a process as ended and unwinds all its tasks except self.
func (s *Sim) endProc(p *Proc, code int, how string, self *Task) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Code = code
	p.How = how
	p.End = s.Now
	s.Event("end", how, fmt.Sprint(code))
	for _, t := range p.Tasks {
		if t == self || t.state == Done {
			continue
		}
		t.killed = true
		t.unwind = true
		saved := s.cur
		s.cur = t
		t.state = Runnable
		t.wake <- struct{}{}
		<-s.unwound
		s.cur = saved
	}
	for h := range p.Handles {
		_ = h
	}
	if p.OnExit != nil {
		p.OnExit()
	}
}

// Exit ends the current process like os.Exit.
func Exit(code int) {
	s := S
	if s == nil || s.cur == nil {
		Bug("os.Exit outside of a simulated process")
	}
	t := s.cur
	if code != 0 && t.Proc.OnFail != nil && !t.Proc.Dead {
		t.Proc.OnFail()
	}
	s.endProc(t.Proc, code, "exit", t)
	t.killed = true
	runtime.Goexit()
}

// Crash kills the current process at this very point (only completed operations survive).
func (s *Sim) Crash(p *Proc, how string) {
	t := s.cur
	if t != nil && t.Proc == p {
		s.endProc(p, 137, how, t)
		t.killed = true
		runtime.Goexit()
	}
	s.endProc(p, 137, how, nil)
}

// dead reports whether the current process is being unwound.
func dead() bool {
	return S == nil || S.cur == nil || S.cur.Proc.Dead || S.cur.killed
}

// Active reports whether code runs inside a live simulated process.
func Active() bool { return S != nil && S.cur != nil && !S.cur.Proc.Dead }

// InSim reports whether a simulation is running (even if the process is dead).
func InSim() bool { return S != nil && S.cur != nil }

func Cur() *Task { return S.cur }
func CurProc() *Proc {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Proc
}

// ---------------------------------------------------------------- scheduling

// Run lets the simulation proceed until all tasks are done or nothing can proceed.
func (s *Sim) Run() {
	S = s
	s.Halted = false
	s.tickLeft = -1
	s.armTick()
	s.dispatch(nil)
	<-s.mainCh
	s.cur = nil
	if s.Bug == "" && s.Stuck == "" {
		var blocked []string
		for _, t := range s.tasks {
			if t.state == Blocked && !t.daemon {
				blocked = append(blocked, fmt.Sprintf("task %d of process %d (%s): %s", t.ID, t.Proc.ID, t.Name, t.reason))
			}
		}
		if len(blocked) > 0 {
			s.Stuck = "deadlock: " + strings.Join(blocked, "; ")
		}
	}
	if s.Stuck != "" && s.Bug == "" {
		for _, p := range s.Procs {
			if !p.Dead {
				s.endProc(p, -1, "stuck", nil)
			}
		}
	}
	live := s.tasks[:0]
	for _, t := range s.tasks {
		if t.state != Done {
			live = append(live, t)
		}
	}
	s.tasks = live
}

// Close ends the simulation and releases all goroutines.
func (s *Sim) Close() {
	S = s
	for _, p := range s.Procs {
		if !p.Dead {
			s.endProc(p, -1, "closed", nil)
		}
	}
	S = nil
}

// dispatch picks the next task and hands over to it. self is the calling task if it wants to keep
// living (it then returns when self is scheduled again), or nil if the caller is ending.
func (s *Sim) dispatch(self *Task) {
	next := s.pick(self)
	if next == nil {
		s.Halted = true
		s.cur = nil
		s.mainCh <- struct{}{}
		if self != nil {
			s.park(self)
		}
		return
	}
	if next == self {
		s.cur = self
		return
	}
	s.Switches++
	s.cur = next
	next.wake <- struct{}{}
	if self != nil {
		s.park(self)
	}
}

func (s *Sim) park(t *Task) {
	<-t.wake
	if t.killed {
		// The process ended while this task was parked: run its deferred calls in dead mode.
		runtime.Goexit()
	}
	s.cur = t
	if OnSwitch != nil {
		OnSwitch(t.Proc)
	}
}

// OnSwitch is called whenever a task starts or resumes.
var OnSwitch func(p *Proc)

func (s *Sim) runnable() []*Task {
	var r []*Task
	for _, t := range s.tasks {
		if t.state == Runnable {
			r = append(r, t)
		}
	}
	return r
}

// fire runs all timers that are due.
func (s *Sim) fire() {
	for {
		best := -1
		for i, x := range s.timers {
			if x.at <= s.Now && (best < 0 || x.at < s.timers[best].at || (x.at == s.timers[best].at && x.seq < s.timers[best].seq)) {
				best = i
			}
		}
		if best < 0 {
			return
		}
		x := s.timers[best]
		s.timers = append(s.timers[:best], s.timers[best+1:]...)
		if !x.off {
			x.f()
		}
	}
}

// At registers a callback at a virtual time.
func (s *Sim) At(at int64, f func()) *timer {
	s.timerSeq++
	x := &timer{at: at, seq: s.timerSeq, f: f}
	s.timers = append(s.timers, x)
	return x
}

func (s *Sim) pick(self *Task) *Task {
	for {
		if len(s.timers) > 0 {
			s.fire()
		}
		r := s.runnable()
		if len(r) == 0 {
			keep := s.timers[:0]
			for _, x := range s.timers {
				if !x.off && (x.p == nil || !x.p.Dead) {
					keep = append(keep, x)
				}
			}
			s.timers = keep
			if len(s.timers) == 0 {
				return nil
			}
			min := s.timers[0].at
			for _, x := range s.timers {
				if x.at < min {
					min = x.at
				}
			}
			if min > s.Now {
				s.Now = min
			}
			continue
		}
		return s.choose(self, r)
	}
}

func (s *Sim) choose(self *Task, r []*Task) *Task {
	s.Ops++
	// compact finished tasks now and then
	if len(s.tasks) > 64 && s.Ops%256 == 0 {
		live := s.tasks[:0]
		for _, t := range s.tasks {
			if t.state != Done {
				live = append(live, t)
			}
		}
		s.tasks = live
	}
	def := r[0]
	for _, t := range r {
		if t == self {
			def = t
		}
	}
	if s.Replay {
		if s.tapePos < len(s.Tape) && !s.Tape[s.tapePos].Tick && s.Tape[s.tapePos].At == s.Ops {
			to := s.Tape[s.tapePos].To
			s.tapePos++
			s.armTick()
			for _, t := range r {
				if t.ID == to {
					if t != def {
						s.Recorded = append(s.Recorded, Choice{At: s.Ops, To: to})
					}
					return t
				}
			}
		} else {
			for s.tapePos < len(s.Tape) && ((!s.Tape[s.tapePos].Tick && s.Tape[s.tapePos].At <= s.Ops) || (s.Tape[s.tapePos].Tick && s.Tape[s.tapePos].At < s.curTick())) {
				s.tapePos++
				s.armTick()
			}
		}
		return def
	}
	next := def
	switch s.Pol.Kind {
	case "random":
		if def == self {
			if len(r) > 1 && s.rng.Bool(s.Pol.SwitchProb) {
				next = r[s.rng.Intn(len(r))]
			}
		} else {
			next = r[s.rng.Intn(len(r))]
		}
	case "pct":
		if s.changeAt[s.Ops] && self != nil {
			s.nextPrio--
			self.prio = s.nextPrio
		}
		next = r[0]
		for _, t := range r {
			if t.prio > next.prio {
				next = t
			}
		}
	}
	if next != def {
		s.Recorded = append(s.Recorded, Choice{At: s.Ops, To: next.ID})
	}
	return next
}

// Yield is a scheduling point at an operation.
func Yield(what string) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	if t.Proc.Dead || t.killed {
		return
	}
	s.Now += s.OpCost
	if s.Ops > s.OpBudget {
		s.giveUp(fmt.Sprintf("livelock: more than %d operations; task %d last did %s", s.OpBudget, t.ID, what))
	}
	if s.OnOp != nil {
		s.OnOp()
		if t.killed || t.Proc.Dead {
			runtime.Goexit()
		}
	}
	s.dispatch(t)
}

func (s *Sim) giveUp(why string) {
	s.Stuck = why
	s.Livelock = true
	t := s.cur
	for _, p := range s.Procs {
		if !p.Dead && p != t.Proc {
			s.endProc(p, -1, "stuck", nil)
		}
	}
	s.endProc(t.Proc, -1, "stuck", t)
	t.killed = true
	runtime.Goexit()
}

// T is the statement tick the instrumentation puts before every statement.
func T() {
	s := S
	if s == nil {
		return
	}
	s.tickLeft--
	if s.tickLeft < 0 {
		s.slowTick()
	}
}

func (s *Sim) armTick() {
	gap := int64(200_000)
	base := s.curTick()
	if s.Replay {
		if s.tapePos < len(s.Tape) && s.Tape[s.tapePos].Tick {
			gap = s.Tape[s.tapePos].At - base - 1
			if gap < 0 {
				gap = 0
			}
		}
	} else if s.Pol.TickMean > 0 {
		gap = int64(s.rng.Intn(2*s.Pol.TickMean) + 1)
	}
	if gap > 200_000 {
		gap = 200_000
	}
	s.tickLeft = gap
	s.Ticks = base + gap + 1
}

// curTick is the number of statement ticks executed so far.
func (s *Sim) curTick() int64 {
	if s.tickLeft < 0 {
		return s.Ticks
	}
	return s.Ticks - s.tickLeft - 1
}

func (s *Sim) slowTick() {
	t := s.cur
	if t == nil {
		Bug("instrumented code ran outside of a task")
	}
	if t.Proc.Dead || t.killed {
		t.Proc.deadT++
		s.tickLeft = 20_000
		s.Ticks += 20_001
		if t.Proc.deadT > 50 {
			runtime.Goexit()
		}
		return
	}
	if s.Ticks > s.Budget {
		s.giveUp(fmt.Sprintf("livelock: more than %d statements executed without the run ending (task %d)", s.Budget, t.ID))
	}
	if s.Replay {
		if s.tapePos < len(s.Tape) && s.Tape[s.tapePos].Tick && s.Tape[s.tapePos].At <= s.Ticks {
			c := s.Tape[s.tapePos]
			at := s.Ticks
			s.tapePos++
			s.armTick()
			for _, x := range s.runnable() {
				if x.ID == c.To && x != t {
					s.Recorded = append(s.Recorded, Choice{Tick: true, At: at, To: c.To})
					s.switchTo(t, x)
					return
				}
			}
			return
		}
		s.armTick()
		return
	}
	at := s.Ticks
	s.armTick()
	if s.Pol.TickMean > 0 {
		r := s.runnable()
		if len(r) > 1 {
			n := r[s.rng.Intn(len(r))]
			if n != t {
				s.Recorded = append(s.Recorded, Choice{Tick: true, At: at, To: n.ID})
				if s.Pol.Kind == "pct" {
					s.nextPrio--
					t.prio = s.nextPrio
				}
				s.switchTo(t, n)
			}
		}
	}
}

func (s *Sim) switchTo(t, n *Task) {
	s.Switches++
	s.cur = n
	n.wake <- struct{}{}
	s.park(t)
}

// Block parks the current task until Wake is called for it.
func Block(reason string) {
	s := S
	t := s.cur
	t.state = Blocked
	t.reason = reason
	s.dispatch(t)
}

// WakeTask makes a blocked task runnable.
func WakeTask(t *Task) {
	if t.state == Blocked || t.state == Sleeping {
		t.state = Runnable
	}
}

// Sleep lets the current task sleep for d virtual nanoseconds.
func Sleep(d int64) {
	if dead() {
		return
	}
	s := S
	if d <= 0 {
		Yield("sleep")
		return
	}
	t := s.cur
	t.state = Sleeping
	t.reason = "sleep"
	s.At(s.Now+d, func() { WakeTask(t) })
	s.dispatch(t)
}

// ---------------------------------------------------------------- map iteration

type ordered struct {
	key any
	str string
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	strs := make(map[K]string, len(keys))
	for _, k := range keys {
		strs[k] = fmt.Sprintf("%v", k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
}

// Keys returns the keys of m in an order that the seed decides.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	seed := uint64(1)
	if S != nil {
		seed = S.MapSeed
		S.MapSeed = S.MapSeed*6364136223846793005 + 1442695040888963407
	}
	r := NewRand(seed)
	for i := len(keys) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// MapSeq iterates over a map like range, in an order decided by the seed.
func MapSeq[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		MapR(m)
		for _, k := range Keys(m) {
			v, ok := MapR(m)[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Zero resets a variable to its zero value.
func Zero[X any](p *X) {
	var z X
	*p = z
}

// Fatal ends the current process like a fatal error of the Go runtime (it cannot be recovered).
func Fatal(msg string) {
	s := S
	p := s.cur.Proc
	p.Panic = "fatal error: " + msg
	p.Err = append(p.Err, (p.Panic + "\n")...)
	t := s.cur
	s.endProc(p, 2, "panic", t)
	t.killed = true
	runtime.Goexit()
}

// ExecHook runs an external command of the simulated world in the calling task.
var ExecHook func(name string, args []string, dir string, stdout, stderr io.Writer) (code int, signal string, startErr error)

// LookHook resolves a command name.
var LookHook func(name string) (string, error)

// HTTPHook performs a request of the simulated network in the calling task.
var HTTPHook func(r any) (any, error)
