// Command sim searches seeded schedules and fault sequences of the simulated program for broken
// properties. The program itself is the real code of the repository, rewritten by xform so that all
// its nondeterminism is decided here.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"sim/harness"
)

func main() {
	if len(os.Args) < 2 {
		fail("usage: sim check|worker|replay|explore|demo ...")
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "check":
		check()
	case "worker":
		worker()
	case "replay":
		replay()
	case "explore":
		explore()
	case "demo":
		demo()
	case "rich":
		rich()
	default:
		fail("unknown command %s", cmd)
	}
}

// The command line library of the program under test prints its usage to the real standard error.
var stderr = os.Stderr

func init() {
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n
	}
}

// fail is an error of the check, which is neither success nor a violation.
func fail(format string, a ...any) {
	fmt.Fprintf(stderr, "check error: "+format+"\n", a...)
	os.Exit(3)
}

func scenarioSeed(base uint64, i int) uint64 { return base*1_000_000_007 + uint64(i) }

type found struct {
	Index int               `json:"index"`
	V     harness.Violation `json:"v"`
}

type result struct {
	Stats    harness.Stats  `json:"stats"`
	N        int            `json:"n"`
	Profiles map[string]int `json:"profiles"`
	Hashes   []uint64       `json:"hashes"`
	Sched    []uint64       `json:"sched"` // of all scenarios
	Digest   map[int]uint64 `json:"digest"`
	Known    map[string]int `json:"known"`
	Nontriv  int            `json:"nontriv"`
	Wall     float64        `json:"wall"`
}

// worker plays scenarios start, start+stride, ... and writes violations as they are found.
func worker() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	start := flag.Int("start", 0, "")
	stride := flag.Int("stride", 1, "")
	n := flag.Int("n", 0, "")
	secs := flag.Float64("secs", 0, "")
	known := flag.String("known", "", "")
	flag.Parse()
	kf := loadKnown(*known)
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	r := result{Profiles: map[string]int{}, Digest: map[int]uint64{}, Known: map[string]int{}}
	t0 := time.Now()
	seen := map[string]bool{}
	for k, i := 0, *start; (*n == 0 || k < *n) && (*secs == 0 || time.Since(t0).Seconds() < *secs); k, i = k+1, i+*stride {
		sc := harness.Generate(*prop, scenarioSeed(*seed, i))
		st := harness.Play(sc, false)
		r.N++
		r.Profiles[sc.Profile]++
		r.Stats.Add(&st.Stat)
		r.Sched = append(r.Sched, st.Hash)
		if harness.Nontrivial(*prop, sc, &st.Stat) {
			r.Nontriv++
			r.Hashes = append(r.Hashes, st.Hash)
		}
		if k < 40 {
			r.Digest[i] = digest(st)
		}
		if k%97 == 13 || os.Getenv("DST_DET") != "" {
			again := harness.Play(harness.Generate(*prop, scenarioSeed(*seed, i)), false)
			if digest(again) != digest(st) {
				if dir := os.Getenv("DST_DET"); dir != "" {
					for n := range 2 { // for development: both scenarios and traces
						sc := harness.Generate(*prop, scenarioSeed(*seed, i))
						b, _ := json.Marshal(sc)
						os.WriteFile(fmt.Sprintf("%s/%s-%d.%d", dir, *prop, i, n), []byte(string(b)+"\n"+strings.Join(harness.Play(sc, true).Trace, "\n")), 0o644)
					}
				}
				fail("scenario %s/%d is not deterministic", *prop, i)
			}
		}
		for _, v := range st.Viols {
			if v.Prop != *prop {
				continue
			}
			if e := kf.match(v); e != nil {
				r.Known[e.id()]++
				continue
			}
			key := v.Sig + v.KF
			if seen[key] {
				continue
			}
			seen[key] = true
			enc.Encode(map[string]any{"found": found{i, v}})
			out.Flush()
		}
	}
	r.Wall = time.Since(t0).Seconds()
	enc.Encode(map[string]any{"result": r})
	out.Flush()
}

// digest is what two executions of the same seed must agree on.
func digest(st *harness.State) uint64 {
	h := st.Hash
	for _, v := range st.Viols {
		for _, c := range v.String() {
			h = h*1099511628211 ^ uint64(c)
		}
	}
	return h*31 + uint64(st.Stat.Ops)
}

type knownEntry struct {
	Prop, Class, Sig, Demo, What string
}

func (e *knownEntry) id() string { return e.Prop + " " + e.Class + " " + e.Sig }

type knownList []*knownEntry

func (l knownList) match(v harness.Violation) *knownEntry {
	for _, e := range l {
		if v.KF != "" && e.Prop == v.Prop && e.Class == v.KF && e.Sig == v.Sig {
			return e
		}
	}
	return nil
}

// loadKnown reads lines "known: property=.. class=.. sig=.. demo=.. | description".
func loadKnown(path string) knownList {
	var l knownList
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		head, what, _ := strings.Cut(line[len("known: "):], " | ")
		e := &knownEntry{What: what}
		for _, f := range strings.Fields(head) {
			k, v, _ := strings.Cut(f, "=")
			switch k {
			case "property":
				e.Prop = v
			case "class":
				e.Class = v
			case "sig":
				e.Sig = v
			case "demo":
				e.Demo = filepath.Join(filepath.Dir(path), v)
			default:
				fail("bad line in %s: %s", path, line)
			}
		}
		l = append(l, e)
	}
	return l
}

type replayFile struct {
	Property  string            `json:"property"`
	Violation harness.Violation `json:"violation"`
	Base      uint64            `json:"base_seed"`
	Index     int               `json:"index"`
	Hash      string            `json:"hash"`
	Note      string            `json:"note"`
	Scenario  *harness.Scenario `json:"scenario"`
}

func readReplay(p string) *replayFile {
	b, err := os.ReadFile(p)
	if err != nil {
		fail("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fail("%s: %v", p, err)
	}
	return &f
}

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.MkdirAll(filepath.Dir(p), 0o755)
	}
	if err == nil {
		err = os.WriteFile(p, append(b, '\n'), 0o644)
	}
	if err != nil {
		fail("%v", err)
	}
}

// replay plays one replay file. Exit 1: the recorded violation is there again; 4: it is, but the
// execution differs from the recorded one.
func replay() {
	trace := flag.Bool("trace", false, "print the whole trace")
	flag.Parse()
	f := readReplay(flag.Arg(0))
	st := harness.Play(f.Scenario, *trace)
	for _, l := range st.Trace {
		fmt.Println(l)
	}
	for _, v := range st.Viols {
		if v.Prop == f.Property && v.Sig == f.Violation.Sig && v.KF == f.Violation.KF {
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", f.Property, flag.Arg(0), v)
			if h := fmt.Sprintf("%016x", digest(st)); h != f.Hash {
				fmt.Printf("the execution differs from the recorded one: %s, recorded %s\n", h, f.Hash)
				os.Exit(4)
			}
			os.Exit(1)
		}
	}
	fmt.Println("the recorded violation does not occur")
}

func self(args ...string) *exec.Cmd {
	c := exec.Command("/proc/self/exe", args...)
	c.Stderr = stderr
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	return c
}

func check() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "base seed")
	n := flag.Int("n", 0, "number of scenarios (0: until -secs is over)")
	secs := flag.Float64("secs", 60, "time limit for the search")
	verif := flag.String("verif", "/verif", "")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	flag.Parse()
	t0 := time.Now()
	fmt.Printf("property %s, tier %s, seed %d\n", *prop, *tier, *seed)
	if harness.Mix(*prop) == nil {
		fail("no workload for %q", *prop)
	}
	knownPath := *verif + "/known-findings.txt"
	kf := loadKnown(knownPath)
	var mu sync.Mutex
	var wg sync.WaitGroup
	tot := result{Profiles: map[string]int{}, Digest: map[int]uint64{}, Known: map[string]int{}}
	first := map[string]found{}
	var cmds []*exec.Cmd
	var failed []string
	stopping := false
	stop := func() { // called with mu held
		if stopping {
			return
		}
		stopping = true
		time.AfterFunc(3*time.Second, func() {
			mu.Lock()
			defer mu.Unlock()
			for _, c := range cmds {
				c.Process.Kill()
			}
		})
	}
	stopped := 0
	for w := 0; w < *workers; w++ {
		args := []string{"worker", "-prop", *prop, "-seed", strconv.FormatUint(*seed, 10), "-start", strconv.Itoa(w), "-stride", strconv.Itoa(*workers), "-secs", fmt.Sprint(*secs), "-known", knownPath}
		if *n > 0 {
			args = append(args, "-n", strconv.Itoa((*n+*workers-1)/(*workers)))
		}
		c := self(args...)
		pipe, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fail("%v", err)
		}
		cmds = append(cmds, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			finished := false
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 && line[len(line)-1] == '\n' {
					var m struct {
						Found  *found  `json:"found"`
						Result *result `json:"result"`
					}
					if json.Unmarshal(line, &m) == nil {
						mu.Lock()
						if m.Found != nil {
							key := m.Found.V.Sig + m.Found.V.KF
							if o, ok := first[key]; !ok || m.Found.Index < o.Index {
								first[key] = *m.Found
							}
							if *tier == "quick" {
								stop()
							}
						}
						if r := m.Result; r != nil {
							finished = true
							tot.add(r)
						}
						mu.Unlock()
					}
				}
				if err != nil {
					break
				}
			}
			err := c.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !finished && stopping {
				stopped++
			} else if err != nil || !finished {
				failed = append(failed, fmt.Sprint(err))
			}
		}()
	}
	watchdog := time.AfterFunc(time.Duration(*secs*2+120)*time.Second, func() {
		fmt.Fprintln(stderr, "check error: the search does not end")
		for _, c := range cmds {
			c.Process.Kill()
		}
		os.Exit(3)
	})
	wg.Wait()
	watchdog.Stop()
	if len(failed) > 0 {
		fail("%d workers failed: %s", len(failed), failed[0])
	}
	searched := time.Since(t0).Seconds()

	// the same seeds again in a fresh process and in another order must give the same executions
	mismatch := 0
	compared := 0
	if len(first) == 0 {
		compared, mismatch = crossCheck(*prop, *seed, knownPath, tot.Digest)
		if mismatch > 0 {
			fail("%d of %d seeds gave another execution in a fresh process", mismatch, compared)
		}
	}

	// the demonstrations of the known findings
	reproduced := map[string]bool{}
	for _, e := range kf {
		if e.Prop != *prop {
			continue
		}
		hit := tot.Known[e.id()]
		if e.Demo != "" {
			f := readReplay(e.Demo)
			for _, v := range harness.Play(f.Scenario, false).Viols {
				if kf.match(v) == e {
					reproduced[e.id()] = true
				}
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s class=%s/%s %s (seen in %d scenarios of this run, demonstration %s)\n", e.Prop, e.Class, e.Sig, e.What, hit, map[bool]string{true: "reproduced", false: "not reproduced"}[reproduced[e.id()]])
	}

	var keys []string
	for k := range first {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return first[keys[i]].Index < first[keys[j]].Index })
	var viols []any
	budget := 40 * time.Second
	if len(keys) > 1 {
		budget = 20 * time.Second
	}
	for i, k := range keys {
		if i == 4 {
			fmt.Printf("%d further kinds of violations not minimised\n", len(keys)-i)
			break
		}
		f := first[k]
		sc := harness.Generate(*prop, scenarioSeed(*seed, f.Index))
		small, v, tries := harness.Shrink(sc, f.V, budget)
		dig := digest(harness.Play(small.Clone(), false))
		p := fmt.Sprintf("%s/evidence/replays/%s-%s-%d.json", *verif, *prop, clean(f.V.Sig), f.Index)
		writeJSON(p, replayFile{Property: *prop, Violation: v, Base: *seed, Index: f.Index, Hash: fmt.Sprintf("%016x", dig), Scenario: small,
			Note: fmt.Sprintf("minimised in %d executions; replay with: bash /verif/replay.sh %s", tries, p)})
		c := self("replay", p)
		c.Stderr = nil
		err := c.Run()
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code != 1 {
			fail("replaying %s in a fresh process does not reproduce it (exit %d)", p, code)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  seed %d, scenario %d: %s\n", *prop, p, *seed, f.Index, v)
		viols = append(viols, map[string]any{"sig": f.V.Sig, "message": v.Msg, "index": f.Index, "replay": p})
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(*verif, *prop, *tier, *seed, &tot, searched, wall, compared, kf, reproduced, viols, *workers)
	fmt.Printf("%d scenarios (%d runs of the program), %d distinct executions, %.1f s, %d violations\n", tot.N, tot.Stats.Sims, distinct(tot.Sched), wall, len(viols))
	if len(viols) > 0 {
		os.Exit(1)
	}
}

func (t *result) add(r *result) {
	t.Stats.Add(&r.Stats)
	t.N += r.N
	t.Nontriv += r.Nontriv
	t.Hashes = append(t.Hashes, r.Hashes...)
	t.Sched = append(t.Sched, r.Sched...)
	for k, v := range r.Profiles {
		t.Profiles[k] += v
	}
	for k, v := range r.Digest {
		t.Digest[k] = v
	}
	for k, v := range r.Known {
		t.Known[k] += v
	}
}

// crossCheck plays the first scenarios once more, all in one other process.
func crossCheck(prop string, seed uint64, known string, d map[int]uint64) (int, int) {
	c := self("worker", "-prop", prop, "-seed", strconv.FormatUint(seed, 10), "-n", "40", "-known", known)
	c.Env = append(c.Env, "GOMAXPROCS=1")
	b, err := c.Output()
	if err != nil {
		fail("%v", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		var m struct {
			Result *result `json:"result"`
		}
		if json.Unmarshal([]byte(line), &m) != nil || m.Result == nil {
			continue
		}
		n, bad := 0, 0
		for i, h := range m.Result.Digest {
			if o, ok := d[i]; ok {
				n++
				if o != h {
					bad++
				}
			}
		}
		return n, bad
	}
	fail("no result of the comparison run")
	return 0, 0
}

func distinct(l []uint64) int {
	m := make(map[uint64]bool, len(l))
	for _, h := range l {
		m[h] = true
	}
	return len(m)
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func writeEvidence(verif, prop, tier string, seed uint64, t *result, searched, wall float64, compared int, kf knownList, rep map[string]bool, viols []any, workers int) {
	var samples []any
	for i := 0; i < 2; i++ {
		sc := harness.Generate(prop, scenarioSeed(seed, i))
		st := harness.Play(sc, true)
		tr := st.Trace
		if len(tr) > 60 {
			tr = append(append([]string{}, tr[:40]...), append([]string{fmt.Sprintf("... %d lines ...", len(tr)-60)}, tr[len(tr)-20:]...)...)
		}
		var steps []any
		for _, s := range sc.Steps {
			m := map[string]any{"kind": s.Kind, "role": s.Role}
			if s.Run != nil {
				m["policy"], m["seed"] = s.Pol, s.Seed
				m["articles"], m["workers"], m["crash"], m["net"], m["fs"], m["exec"] = s.Run.Articles, s.Run.Cfg.Workers, s.Run.Crash, s.Run.Net, s.Run.FS, s.Run.Exec
			}
			steps = append(steps, m)
		}
		samples = append(samples, map[string]any{"index": i, "profile": sc.Profile, "steps": steps, "trace": tr})
	}
	perHour := func(n int) int { return int(float64(n) / max(searched, 0.001) * 3600) }
	known := []any{}
	for _, e := range kf {
		if e.Prop == prop {
			known = append(known, map[string]any{"class": e.Class, "sig": e.Sig, "what": e.What, "scenarios": t.Known[e.id()], "demonstration_reproduced": rep[e.id()]})
		}
	}
	cov := map[string]any{
		"evaluations":         t.N,
		"distinct_nontrivial": distinct(t.Hashes),
		"rule":                "A scenario is a history (program runs, pairs of runs, deletions, clock moves, remote changes) generated from one seed by the listed profiles. It counts as non-trivial if " + harness.NontrivialRule[prop] + "; scenarios are distinct if the hashes over all scheduling decisions, operations and their results differ.",
		"samples":             samples,
		"profiles":            t.Profiles,
		"profile_weights":     harness.Mix(prop),
		"simulated_runs":      t.Stats.Sims,
		"runs_per_hour":       perHour(t.Stats.Sims),
		"seeds_per_hour":      perHour(t.N),
		"simulated_time_s":    t.Stats.SimTime / 1e9,
		"operations":          t.Stats.Ops,
		"task_switches":       t.Stats.Switches,
		"requests":            t.Stats.Reqs,
		"external_commands":   t.Stats.Execs,
		"faults_struck":       t.Stats.Faults,
		"exits":               t.Stats.Exit,
		"probes":              t.Stats.Probes,
		"nontrivial":          t.Nontriv,
		"distinct_executions": distinct(t.Sched),
		"distinct_measure":    "hash over every scheduling decision, file operation, request, command and result of a scenario",
		"determinism":         map[string]any{"seeds_compared_across_processes": compared, "mismatches": 0, "replayed_in_process": t.N / 97},
		"real_code":           []string{"all packages of /repo/src, rewritten so that goroutines, channels, locks, clock, randomness, map order, files, HTTP and external commands are decided by the simulator", "third-party modules used by it"},
		"stubs":               []string{"file system (in memory, POSIX rename/unlink semantics, faults)", "HTTP transport and the Wikipedia, Commons and formula services", "pandoc, magick, rsvg-convert and similar commands", "goroutine scheduler, clock, random numbers"},
		"workers":             workers,
		"known_findings":      known,
	}
	if len(viols) > 0 {
		cov["violations"] = viols
	}
	writeJSON(fmt.Sprintf("%s/evidence/%s.json", verif, prop), map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": len(viols),
		"assumptions": []string{
			"the simulated services, commands and disk behave like the real ones in what the program can observe (DESIGN.md lists the models)",
			"file operations are atomic at the level of single calls; a kill loses no completed write (process crash, not power loss)",
			"seeded sampling: a clean run is evidence, not proof",
		},
	})
}

// demo searches for a violation and writes its minimised replay file: demo PROP SIG CLASS FILE [PROFILE].
func demo() {
	a := os.Args[1:]
	prof := ""
	if len(a) > 4 {
		prof = a[4]
	}
	for i := 0; i < 200000; i++ {
		var sc *harness.Scenario
		if prof != "" {
			sc = harness.GenerateProfile(a[0], prof, uint64(i))
		} else {
			sc = harness.Generate(a[0], uint64(i))
		}
		for _, v := range harness.Play(sc, false).Viols {
			if v.Prop != a[0] || v.Sig != a[1] || v.KF != a[2] {
				continue
			}
			small, v, tries := harness.Shrink(sc, v, 60*time.Second)
			writeJSON(a[3], replayFile{Property: a[0], Violation: v, Index: i, Hash: fmt.Sprintf("%016x", digest(harness.Play(small.Clone(), false))), Scenario: small, Note: fmt.Sprintf("minimised in %d executions", tries)})
			fmt.Println(v)
			return
		}
	}
	fail("nothing found")
}

// explore is for development: explore PROFILE FROM N plays scenarios of a profile and sums up all
// violations; N=1 prints everything about one scenario.
func explore() {
	prop, prof := os.Args[1], os.Args[2]
	from, _ := strconv.Atoi(os.Args[3])
	n, _ := strconv.Atoi(os.Args[4])
	count := map[string]int{}
	first := map[string]string{}
	var tot harness.Stats
	for i := from; i < from+n; i++ {
		sc := harness.GenerateProfile(prop, prof, uint64(i))
		st := harness.Play(sc, n == 1)
		tot.Add(&st.Stat)
		for _, v := range st.Viols {
			k := v.Prop + " " + v.Sig + " " + v.KF
			count[k]++
			if first[k] == "" {
				first[k] = fmt.Sprintf("%d: %s", i, v.Msg)
			}
		}
		if n == 1 {
			for _, a := range sc.World.Articles {
				fmt.Printf("---- %s\n%s\n", a.Title, sc.World.Wikitext(a, 1))
			}
			for _, a := range sc.World.Templates {
				fmt.Printf("---- T %s %+v\n", a.Name, a)
			}
			for _, a := range sc.World.Images {
				fmt.Printf("---- I %+v\n", a)
			}
			fmt.Printf("hosts %v\n", sc.World.PageHosts)
			for i, s := range sc.Steps {
				fmt.Printf("---- step %d %s %s\n", i, s.Kind, s.Role)
				for _, r := range []*harness.Run{s.Run, s.Run2} {
					if r != nil {
						fmt.Printf("  %v %+v\n  net %+v fs %+v exec %+v crash %+v cap %v down %v\n", r.Articles, r.Cfg, r.Net, r.FS, r.Exec, r.Crash, r.Cap, r.NetDown)
					}
				}
			}
			for _, l := range st.Trace {
				fmt.Println(l)
			}
		}
	}
	for k, c := range count {
		fmt.Println(c, k, first[k])
	}
	fmt.Printf("%+v\n", tot)
}

// rich is for development: rich FROM N shows minimised wikitext that is not rendered as expected.
func rich() {
	from, _ := strconv.Atoi(os.Args[1])
	n, _ := strconv.Atoi(os.Args[2])
	for i := from; i < from+n; i++ {
		sc := harness.GenerateProfile("P25", "rich", uint64(i))
		for _, v := range harness.Play(sc, false).Viols {
			if v.Prop != "P25" {
				continue
			}
			small, v, _ := harness.Shrink(sc, v, 10*time.Second)
			fmt.Printf("==== %d %s\n", i, v.Msg)
			for _, a := range small.World.Articles {
				fmt.Printf("---- %s\n%s\n", a.Title, small.World.Wikitext(a, 1))
			}
			for _, l := range harness.RichHTML(small) {
				fmt.Println(l)
			}
			break
		}
	}
}
