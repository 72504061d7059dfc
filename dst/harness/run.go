package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"syscall"

	appa "sim/appa"
	areset "sim/appa/reset"
	appb "sim/appb"
	breset "sim/appb/reset"
	"sim/rt"
)

const (
	WorkDir = "/home/u/work"
	t0      = int64(1_760_000_000_000_000_000)
)

// State is what survives from step to step: the disk, the clock, the remote versions and what was
// ever delivered completely.
type State struct {
	W       *World
	FS      *rt.FS
	Now     int64
	Vers    Vers
	Deliv   map[string]map[string]int // cache path -> body -> version number of delivery
	nDeliv  int
	Sc      *Scenario
	Cfgs    []*Cfg
	Viols   []Violation
	seen    map[string]bool
	step    int
	Known   map[string]bool // final names that may exist
	Stat    Stats
	memo    map[string]map[string]bool
	relInfo map[string]relInfo
	DelVer  map[string]int // rel, NUL, body -> version
	// a raw image that a process which died or failed left behind before processing it
	Raw map[string]string

	Trace    []string
	Keep     bool
	Hash     uint64
	Results  []*RunResult
	Disrupt  bool // some earlier run ended abnormally or the user deleted files
	StopEarl bool
	NetOnly  bool // nothing but failed requests disturbed the earlier runs

	docMemo    map[string]string
	docAtoms   map[string][]string
	probing    bool
	multi      bool              // two processes are running
	imgRemoved map[string]string // images one of two processes removed, and the finding this belongs to
	paired     bool              // two processes have shared the cache earlier
	maxVer     int               // highest version of any remote resource
	SrcFault   bool              // a fault may have made an image source fail
	inputs     map[string]bool
	multiSrc   bool
	layerFS    *rt.FS // disk and time before a run with settings from several places
	layerNow   int64
	Born       map[string]int64  // when a cached file appeared, or was last used with the strategy lru
	User       map[string]string // files of the user in the cache directory
	equal      []*RunResult      // runs to compare with a sequential run on an empty cache
}

// Stats counts what a set of simulated runs covered.
type Stats struct {
	Runs     int            `json:"runs"`
	Sims     int            `json:"sims"`
	SimTime  int64          `json:"sim_ns"`
	Ops      int64          `json:"ops"`
	Switches int64          `json:"switches"`
	Reqs     int64          `json:"requests"`
	Execs    int64          `json:"execs"`
	Faults   map[string]int `json:"faults"`
	Exit     map[string]int `json:"exits"`
	Probes   map[string]int `json:"probes"` // situations a check needs to be meaningful
}

func (s *Stats) probe(k string) {
	if s.Probes == nil {
		s.Probes = map[string]int{}
	}
	s.Probes[k]++
}

func (s *Stats) Add(o *Stats) {
	s.Runs += o.Runs
	s.Sims += o.Sims
	s.SimTime += o.SimTime
	s.Ops += o.Ops
	s.Switches += o.Switches
	s.Reqs += o.Reqs
	s.Execs += o.Execs
	add := func(d *map[string]int, m map[string]int) {
		if *d == nil {
			*d = map[string]int{}
		}
		for k, v := range m {
			(*d)[k] += v
		}
	}
	add(&s.Faults, o.Faults)
	add(&s.Exit, o.Exit)
	add(&s.Probes, o.Probes)
}

// RunResult is the outcome of one execution of the program.
type RunResult struct {
	Step      int
	Run       *Run
	Proc      *rt.Proc
	Code      int
	How       string
	Out       []byte // content of the output file afterwards, nil if there is none
	OutPath   string
	OutBefore []byte
	Log       []*Req
	Execs     []*Exec
	MutOps    int
	Ops       int
	Struck    int // faults that struck
	Hits      map[string]int
	Before    map[string]*rt.Inode // cache files at the start
	StartNow  int64
	EndNow    int64
	Docs      map[string]bool // documents written in this run
	OutByRun  bool
	Evicted   map[string]bool // final names removed by eviction in this run
	Removed   map[string]bool
	Vers      Vers
	Switches  int64
	Hash      uint64
	Requests  map[string]int
	Classes   map[string][]int // changing operations by kind and place
	Reads     map[string][]int // the same for operations that change nothing
	EstSteps  int64
	PandocOK  bool
	dying     bool
	remFault  bool
	mtimes    map[string]int64
	Evictions int
}

// relInfo says which remote resource a cache file comes from.
type relInfo struct{ key, vkey string }

func NewState(sc *Scenario) *State {
	st := &State{W: sc.World, FS: rt.NewFS(), Now: t0, Vers: Vers{}, Deliv: map[string]map[string]int{}, Sc: sc, seen: map[string]bool{}, Known: map[string]bool{},
		memo: map[string]map[string]bool{}, relInfo: map[string]relInfo{}, DelVer: map[string]int{}, Raw: map[string]string{}, maxVer: 1, inputs: map[string]bool{}}
	for _, im := range sc.World.Images {
		n := 0
		for _, p := range im.Pages {
			if p.Kind == "ok" && !p.NoFile {
				n++
			}
		}
		st.multiSrc = st.multiSrc || n > 1
	}
	for _, f := range []string{"/style.css", "/cover.png", "/a.ttf", "/b.otf", "/config0.json", "/config1.json", "/proj0.json", "/proj1.json"} {
		st.inputs[WorkDir+f] = true
	}
	st.FS.MkAll(WorkDir)
	st.FS.MkAll("/home/u/.cache")
	st.FS.MkAll("/tmp")
	st.FS.Put(WorkDir+"/style.css", []byte("body{}\n"), t0)
	st.FS.Put(WorkDir+"/cover.png", []byte(container("PNG", "cover", 30)), t0)
	st.FS.MkAll(WorkDir + "/pandocdata")
	st.FS.Put(WorkDir+"/b.otf", []byte("OTTO font\n"), t0)
	st.FS.Put(WorkDir+"/a.ttf", []byte("TTF font\n"), t0)
	st.Stat.Faults = map[string]int{}
	st.Stat.Exit = map[string]int{}
	return st
}

func (st *State) v(prop, sig, format string, a ...any) {
	st.vk(prop, sig, "", format, a...)
}

func (st *State) vk(prop, sig, kf, format string, a ...any) {
	k := prop + "/" + sig + "/" + kf
	if st.seen[k] {
		return
	}
	st.seen[k] = true
	st.Viols = append(st.Viols, Violation{Prop: prop, Sig: sig, Msg: fmt.Sprintf(format, a...), Step: st.step, KF: kf})
	if st.Keep {
		st.Trace = append(st.Trace, fmt.Sprintf("!!! %s [%s] %s", prop, sig, fmt.Sprintf(format, a...)))
	}
}

func (st *State) deliver(rel, body, key, vkey string, ver int) {
	st.relInfo[rel] = relInfo{key, vkey}
	st.DelVer[rel+"\x00"+body] = ver
	m := st.Deliv[rel]
	if m == nil {
		m = map[string]int{}
		st.Deliv[rel] = m
	}
	if _, ok := m[body]; !ok {
		st.nDeliv++
		m[body] = st.nDeliv
		delete(st.memo, rel)
		delete(st.memo, rel+".png")
	}
	if strings.HasPrefix(rel, "images/") {
		delete(st.memo, strings.TrimSuffix(rel, path.Ext(rel))+".png")
	}
}

// finalDir returns the cache folder of a path below the cache directory, or "".
func finalDir(rel string) string {
	for _, d := range []string{"articles", "templates", "math", "images", "html", "stats"} {
		if strings.HasPrefix(rel, d+"/") {
			return d
		}
	}
	return ""
}

func (st *State) allowedImages(rel string) map[string]bool {
	if m, ok := st.memo[rel]; ok {
		return m
	}
	m := map[string]bool{}
	base := path.Base(rel)
	ext := strings.ToLower(path.Ext(base))
	addPipe := func(in string, data string, conv bool) {
		for _, c := range st.Cfgs {
			vars := []string{data}
			if c.SvgViewbox && strings.ToLower(path.Ext(in)) == ".svg" {
				vars = append(vars, absSize(data))
			}
			if !conv {
				for _, v := range vars {
					m[v] = true
					if c.ProcCmd != "" && ext != ".svg" && ext != ".pdf" {
						if o, ok := toolTransform(c.ProcCmd, in, in, []byte(v)); ok {
							m[string(o)] = true
						}
					}
				}
				continue
			}
			for _, cmd := range []string{c.PdfCmd, c.SvgCmd, c.WebpCmd} {
				if cmd == "" {
					continue
				}
				for _, v := range vars {
					if o, ok := toolTransform(cmd, in, base, []byte(v)); ok {
						m[string(o)] = true
						if c.ProcCmd != "" {
							if o2, ok := toolTransform(c.ProcCmd, base, base, o); ok {
								m[string(o2)] = true
							}
						}
					}
				}
			}
		}
	}
	for d := range st.Deliv[rel] {
		addPipe(base, d, false)
	}
	if ext == ".png" {
		src := strings.TrimSuffix(rel, ".png")
		for d := range st.Deliv[src] {
			addPipe(path.Base(src), d, true)
		}
		// formulas converted by a command
		for d := range st.Deliv[src+".svg"] {
			for _, c := range st.Cfgs {
				if c.MathConv == "template" {
					if o, ok := toolTransform(c.MathCmd, path.Base(src)+".svg", base, []byte(d)); ok {
						m[string(o)] = true
					}
				}
			}
		}
	}
	st.memo[rel] = m
	return m
}

// legit judges the content of a file under a final name. judged is false for names the harness
// does not know.
func (st *State) legit(rel string, data []byte) (judged, ok bool, why string) {
	switch finalDir(rel) {
	case "articles", "templates", "math":
		d := st.Deliv[rel]
		if d == nil {
			if !st.Known[rel] {
				return false, true, ""
			}
			return true, false, "nothing was ever delivered for it"
		}
		if _, ok := d[string(data)]; ok {
			return true, true, ""
		}
		return true, false, fmt.Sprintf("content (%d bytes) is none of the %d complete answers", len(data), len(d))
	case "images":
		m := st.allowedImages(rel)
		if len(m) == 0 {
			if !st.Known[rel] {
				return false, true, ""
			}
			return true, false, "nothing was ever delivered for it"
		}
		if m[string(data)] {
			return true, true, ""
		}
		f, prov, n, ok := parseContainer(data)
		return true, false, fmt.Sprintf("content is no complete image of this name (%d bytes, format %s, from %s, payload %d, readable %v)", len(data), f, prov, n, ok)
	case "html":
		s := string(data)
		if !strings.HasSuffix(rel, ".html") {
			return false, true, ""
		}
		if why := st.wrongDoc(rel, s); why != "" {
			return true, false, why
		}
		if !strings.HasPrefix(s, "<?xml") || !strings.HasSuffix(s, "</body>\n</html>\n") || !strings.Contains(s, "<h1>") {
			return true, false, fmt.Sprintf("not a complete document (%d bytes)", len(data))
		}
		return true, true, ""
	case "stats":
		if !strings.HasSuffix(rel, ".json") {
			return false, true, ""
		}
		var x map[string]any
		if json.Unmarshal(data, &x) != nil {
			return true, false, fmt.Sprintf("not a complete statistics file (%d bytes)", len(data))
		}
		return true, true, ""
	}
	return false, true, ""
}

// wrongDoc tells what is wrong with the content of a generated document of one of the articles.
func (st *State) wrongDoc(rel, s string) string {
	if st.W.hostile() || !strings.HasSuffix(s, "</html>\n") {
		return ""
	}
	if st.docMemo == nil {
		st.docMemo = map[string]string{}
		st.docAtoms = map[string][]string{}
	}
	key := rel + "\x00" + s
	if w, ok := st.docMemo[key]; ok {
		return w
	}
	got := strings.Join(stripAll(Atoms(s)), "\n")
	why := ""
	exp, ok := st.docAtoms[rel]
	if !ok {
		for _, a := range st.W.Articles {
			for _, t := range []string{a.Title, a.Target} {
				if t == "" || "html/"+sanitize(t)+".html" != rel {
					continue
				}
				for _, cfg := range st.Cfgs {
					exp = append(exp, strings.Join(stripAll(st.W.Expect(a, t, st.Vers, cfg).Atoms), "\n"))
				}
			}
		}
		st.docAtoms[rel] = exp
	}
	if len(exp) > 0 && !inList(exp, got) {
		why = "its content is not that of the article: " + diffAtoms(strings.Split(got, "\n"), strings.Split(exp[0], "\n"))
	}
	st.docMemo[key] = why
	return why
}

func rel(cacheDir, p string) (string, bool) {
	if p == cacheDir {
		return "", true
	}
	if strings.HasPrefix(p, cacheDir+"/") {
		return p[len(cacheDir)+1:], true
	}
	return "", false
}

// cacheFiles lists the files of a cache directory (without temporary ones).
func cacheFiles(f *rt.FS, dir string) map[string]*rt.Inode {
	m := map[string]*rt.Inode{}
	f.Walk(dir, func(p string, i *rt.Inode) {
		if !i.Dir {
			if r, ok := rel(dir, p); ok && finalDir(r) != "" {
				m[r] = i
			}
		}
	})
	return m
}

// procCtx is what the harness tracks about a running process.
type procCtx struct {
	failTask int             // the task that ended the process with a failure
	ownImg   map[int]string  // the image a task published last
	tried    map[string]bool // images the program tried to remove
	res      *RunResult
	run      *Run
	cfg      *Cfg
	want     map[string]bool // document paths of the requested articles
	pending  map[int]*pendAdd
	kindN    map[string]int
	fsLeft   int
	fsErr    error
	pandocs  int
	tainted  bool
	// writing operations on the output file, failed ones included
	outWrites int
	evs       map[int][]evictRec // evictions since the last addition, per task
	tools     *Tools
	net       *Net
	tooBig    bool // something larger than the whole cache was to be added
}

// pendAdd is an addition to the cache that a task is about to make.
type pendAdd struct {
	tmp   string
	node  *rt.Inode
	evict []evictRec
}

type evictRec struct {
	rel   string
	size  int64
	total int64
	sizes map[string]int64
}

func errOf(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "EROFS":
		return syscall.EROFS
	}
	return syscall.EIO
}

func (r *Run) outPath() string {
	if path.IsAbs(r.Out) {
		return r.Out
	}
	return path.Join(WorkDir, r.Out)
}

// FinalOut is where the output ends up.
func (r *Run) FinalOut(f *rt.FS) string {
	o := r.outPath()
	switch r.Cfg.OutputType {
	case "stats-json":
		if !strings.HasSuffix(o, "json") {
			o = WorkDir + "/stats.json"
		}
	case "stats-txt":
		if !strings.HasSuffix(o, "txt") {
			o = WorkDir + "/stats.txt"
		}
	}
	if i := f.Lookup(o); i != nil && i.Dir {
		switch r.Cfg.OutputType {
		case "stats-json":
			return o + "/stats.json"
		case "stats-txt":
			return o + "/stats.txt"
		}
		return o + "/ebook.epub"
	}
	return o
}

func docRel(c *Cfg, title string) string {
	if c.stats() {
		return "stats/" + sanitize(title) + ".json"
	}
	return "html/" + sanitize(title) + ".html"
}

// args writes the input files of a run and returns its command line.
func (st *State) args(r *Run, id string) []string {
	if r.Layers != nil {
		return st.layered(r, id)
	}
	conf := WorkDir + "/config" + id + ".json"
	st.FS.Put(conf, r.Cfg.ConfigJSON(st.W), st.Now)
	a := []string{"wiki2book", "-c", conf}
	if r.Cfg.Log != "" {
		a = append(a, "-l", r.Cfg.Log)
	}
	if r.Out != "" {
		a = append(a, "-o", r.Out)
	}
	switch r.Mode {
	case "project":
		pf := WorkDir + "/proj" + id + ".json"
		m := map[string]any{"metadata": map[string]string{"title": "Book", "language": "de", "author": "A U", "license": "CC", "date": "2026-01-01"},
			"articles": r.Articles, "output-file": r.outPath()}
		st.FS.Put(pf, mustJSON(m), st.Now)
		return append(a, "project", pf)
	case "article":
		return append(a, "article", r.Articles[0])
	case "standalone":
		return append(a, "standalone", st.standaloneFile(r))
	}
	panic("mode " + r.Mode)
}

func (st *State) standaloneFile(r *Run) string {
	art := st.W.article(r.Articles[0])
	f := WorkDir + "/" + r.Articles[0] + ".wiki"
	st.inputs[f] = true
	st.FS.Put(f, []byte(st.W.Wikitext(art, st.Vers.Of("A:"+art.Title))), st.Now)
	return f
}

// knownNames registers every final name the world can produce.
func (st *State) knownNames() {
	w := st.W
	for _, a := range w.Articles {
		st.Known["articles/"+sanitize(strings.ReplaceAll(a.Title, " ", "_"))+".json"] = true
		st.Known["html/"+sanitize(a.Title)+".html"] = true
		st.Known["stats/"+sanitize(a.Title)+".json"] = true
	}
	for _, im := range w.Images {
		n := sanitize(strings.ReplaceAll(im.Name, " ", "_"))
		st.Known["articles/"+sanitize("File:")+n+".json"] = true
		st.Known["images/"+n] = true
		switch fmtOf(n) {
		case "SVG", "PDF", "WEBP":
			st.Known["images/"+n+".png"] = true
		}
	}
	for _, m := range w.allMath() {
		st.Known["math/"+sha1hex(m)] = true
		l := sanitize(w.mathLoc(m))
		st.Known["images/"+l+".svg"] = true
		st.Known["images/"+l+".png"] = true
	}
}

// Play runs all steps of a scenario.
func Play(sc *Scenario, keep bool) *State {
	st := NewState(sc)
	st.Keep = keep
	st.knownNames()
	for _, s := range sc.Steps {
		for _, r := range []*Run{s.Run, s.Run2} {
			if r != nil {
				st.Cfgs = append(st.Cfgs, r.Cfg)
			}
		}
	}
	for i, s := range sc.Steps {
		st.step = i
		st.Step(s)
		if st.StopEarl {
			break
		}
	}
	st.compareAll()
	return st
}

func (st *State) note(format string, a ...any) {
	if st.Keep {
		st.Trace = append(st.Trace, fmt.Sprintf(format, a...))
	}
}

// Step performs one step of a history.
func (st *State) Step(s *Step) {
	if s.Gran > 0 {
		st.FS.Gran = s.Gran
	}
	switch s.Kind {
	case "run", "pair":
		st.runStep(s)
	case "clock":
		st.Now += s.Dur * 1_000_000_000
		st.note("== step %d: clock moves by %d s", st.step, s.Dur)
		st.Stat.Faults["clock"]++
	case "bump":
		for _, k := range s.Keys {
			st.Vers[k] = st.Vers.Of(k) + 1
			if st.Vers[k] > st.maxVer {
				st.maxVer = st.Vers[k]
			}
		}
		st.note("== step %d: new remote versions of %v", st.step, s.Keys)
	case "delete":
		dir := "/cache"
		if len(st.Cfgs) > 0 {
			dir = st.Cfgs[0].CacheDir
		}
		for _, k := range s.Keys {
			st.FS.Del(path.Join(dir, k))
		}
		if s.Frac > 0 {
			n := 0
			for _, r := range sortedKeys(cacheFiles(st.FS, dir)) {
				if int(rt.Hash64("del", fmt.Sprint(s.Seed), r)%100) < s.Frac {
					st.FS.Del(path.Join(dir, r))
					n++
				}
			}
			st.note("== step %d: user deletes %d cache files", st.step, n)
		} else {
			st.note("== step %d: user deletes %v", st.step, s.Keys)
		}
		st.Disrupt, st.NetOnly = true, false
		st.Stat.Faults["delete"]++
	case "foreign":
		// files of the user in the directory he chose for the cache
		if st.User == nil {
			st.User = map[string]string{}
		}
		for i, p := range s.Keys {
			st.User[p] = fmt.Sprintf("user file %d ", i) + strings.Repeat("u", s.Frac*(i+1))
			st.FS.Put(p, []byte(st.User[p]), st.Now-s.Dur*1_000_000_000)
		}
	case "leftover":
		dir := st.Cfgs[0].CacheDir
		for i, k := range s.Keys {
			st.FS.Put(path.Join(dir, ".tmp", k), []byte(fmt.Sprintf("FAILMARK leftover %d", i)), st.Now)
		}
		st.Stat.Faults["leftover"]++
	default:
		panic("unknown step " + s.Kind)
	}
}

func (st *State) runStep(s *Step) {
	sim := rt.New(s.Seed, s.Pol)
	if s.Taped {
		sim.Replay = true
		sim.Tape = s.Tape
	}
	sim.FS = st.FS
	sim.Now, sim.StartNow = st.Now, st.Now
	sim.KeepTrace = st.Keep
	net := &Net{st: st, w: st.W, vers: st.Vers, count: map[string]int{}, faults: map[int][]NetFault{}, down: map[int]bool{}, crash: map[int]*Crash{}, reqs: map[int]int{},
		Fired: map[string]int{}, Hit: map[int]map[string]int{}}
	tools := &Tools{st: st, count: map[string]int{}, faults: map[int][]ExecFault{}, Fired: map[string]int{}, Hit: map[int]map[string]int{}, Cmds: map[int]*Cfg{}}
	ctxs := map[int]*procCtx{}
	rt.HTTPHook = net.Do
	rt.ExecHook = tools.Run
	rt.LookHook = tools.Look
	st.FS.Cap = 0
	runs := []*Run{s.Run}
	if s.Run2 != nil {
		runs = append(runs, s.Run2)
	}
	if s.Run.Layers != nil {
		st.layerFS, st.layerNow = st.FS.Clone(), st.Now
	}
	var argv [][]string
	for i, r := range runs {
		argv = append(argv, st.args(r, fmt.Sprint(i)))
		if r.Cap > 0 {
			st.FS.Cap = st.FS.Used() + r.Cap
		}
	}
	rt.ResetChans()
	st.multi = len(runs) > 1
	for i, r := range runs {
		f := func() { areset.All(); appa.SimMain() }
		if i == 1 {
			f = func() { breset.All(); appb.SimMain() }
		}
		body := f
		if r.Delay > 0 {
			d := int64(r.Delay) * 1_000_000
			body = func() { rt.Sleep(d); f() }
		}
		p := sim.StartProc(argv[i], map[string]string{"HOME": "/home/u", "PATH": "/usr/bin"}, WorkDir, body)
		net.faults[p.ID] = r.Net
		net.down[p.ID] = r.NetDown
		net.crash[p.ID] = r.Crash
		tools.faults[p.ID] = r.Exec
		tools.Cmds[p.ID] = r.Cfg
		out := r.FinalOut(st.FS)
		res := &RunResult{Step: st.step, Run: r, Proc: p, OutPath: out, Before: map[string]*rt.Inode{}, StartNow: st.Now, Docs: map[string]bool{}, Evicted: map[string]bool{},
			Removed: map[string]bool{}, Vers: st.Vers.Clone(), Requests: map[string]int{}, Hits: map[string]int{}, mtimes: map[string]int64{}, Classes: map[string][]int{}, Reads: map[string][]int{}}
		for k, n := range cacheFiles(st.FS, r.Cfg.CacheDir) {
			c := *n
			res.Before[k] = &c
		}
		if n := st.FS.Lookup(out); n != nil && !n.Dir {
			res.OutBefore = append([]byte{}, n.Data...)
		}
		c := &procCtx{res: res, run: r, cfg: r.Cfg, want: map[string]bool{}, pending: map[int]*pendAdd{}, kindN: map[string]int{}, evs: map[int][]evictRec{}, tools: tools, net: net}
		for _, a := range r.Articles {
			c.want[docRel(r.Cfg, a)] = true
		}
		ctxs[p.ID] = c
		p.OnFail = func() { c.failTask = rt.Cur().ID; st.checkHandles(c, "failure", nil) }
		st.Results = append(st.Results, res)
	}
	sim.OnFS = func(p *rt.Proc, op *rt.FSOp) rt.Action { return st.onFS(ctxs[p.ID], p, op, net) }
	sim.AfterFS = func(p *rt.Proc, op *rt.FSOp) { st.afterFS(ctxs[p.ID], p, op, ctxs) }
	net.onReq = func(r *Req) { st.onReq(ctxs[r.Proc], r, net, sim) }
	tools.onExec = func(pid int, tool string) {
		c := ctxs[pid]
		if tool == "pandoc" {
			c.pandocs++
		}
		st.checkHandles(c, "command", nil)
	}
	sim.Run()
	if sim.Bug != "" {
		panic("simulator: " + sim.Bug)
	}
	st.Hash = st.Hash*1099511628211 ^ sim.Hash
	if st.Keep {
		st.Trace = append(st.Trace, fmt.Sprintf("== step %d: %s", st.step, s.Kind))
		st.Trace = append(st.Trace, sim.Trace...)
	}
	s.Rec = sim.Recorded
	st.Stat.Sims++
	st.Stat.SimTime += sim.Now - sim.StartNow
	st.Stat.Ops += sim.Ops
	st.Stat.Switches += sim.Switches
	st.Stat.Reqs += int64(len(net.Log))
	st.Stat.Execs += int64(len(tools.Log))
	for k, v := range net.Fired {
		st.Stat.Faults[k] += v
	}
	for k, v := range tools.Fired {
		st.Stat.Faults[k] += v
	}
	st.Now = sim.Now
	st.FS.Cap = 0
	ids := []int{}
	for _, p := range sim.Procs {
		ids = append(ids, p.ID)
	}
	for _, id := range ids {
		c := ctxs[id]
		res := c.res
		p := res.Proc
		res.Code, res.How = p.Code, p.How
		res.MutOps, res.Ops = p.MutOps, p.Ops
		res.EndNow = st.Now
		res.Switches = sim.Switches
		res.EstSteps = sim.Ops
		res.Hash = sim.Hash
		for _, r := range net.Log {
			if r.Proc == id {
				res.Log = append(res.Log, r)
				res.Requests[r.Key]++
			}
		}
		for _, e := range tools.Log {
			if e.Proc == id {
				res.Execs = append(res.Execs, e)
			}
		}
		for k, v := range net.Hit[id] {
			res.Struck += v
			res.Hits[k] += v
		}
		for k, v := range tools.Hit[id] {
			res.Struck += v
			res.Hits[k] += v
		}
		if n := st.FS.Lookup(res.OutPath); n != nil && !n.Dir {
			res.Out = append([]byte{}, n.Data...)
		}
		st.Stat.Runs++
		k := fmt.Sprintf("%s-%d", res.How, res.Code)
		st.Stat.Exit[k]++
		st.note("== process %d ended: %s code %d; out %d bytes\n%s", id, res.How, res.Code, len(res.Out), tailStr(string(p.Err)+string(p.Out), 1500))
		if p.Panic != "" {
			st.note("panic: %s", p.Panic)
		}
		if sim.Stuck != "" {
			kind := "deadlock"
			if sim.Livelock {
				kind = "livelock"
			}
			st.v("P12", kind, "run does not end: %s", sim.Stuck)
			if ctxs[id].cfg.Evict != "none" && ctxs[id].tooBig {
				st.v("P08", kind, "run does not end although something does not fit into the cache: %s", sim.Stuck)
			}
		}
	}
	if sim.Stuck != "" {
		st.StopEarl = true
	}
	for _, id := range ids {
		c := ctxs[id]
		for k := range c.res.Hits {
			if k != "net-429" && k != "net-slow" {
				st.SrcFault = st.SrcFault || st.multiSrc
			}
		}
	}
	for _, id := range ids {
		c := ctxs[id]
		st.afterRun(s, c, net, sim)
		if c.res.Code != 0 || c.res.How != "exit" {
			if c.res.How != "exit" || !c.res.netOnly() {
				st.NetOnly = false
			} else if !st.Disrupt {
				st.NetOnly = true
			}
			st.Disrupt = true
		}
	}
	for _, id := range ids {
		st.trackRaw(ctxs[id])
	}
	if st.multi {
		st.paired, st.multi = true, false
	}
	sim.Close()
}

// opPlace names the part of the disk an operation changes.
func opPlace(c *procCtx, op *rt.FSOp) string {
	p := op.Path
	if op.Path2 != "" {
		p = op.Path2
	}
	x := " other"
	if r, ok := rel(c.cfg.CacheDir, p); ok {
		x = " " + strings.SplitN(r, "/", 2)[0]
	} else if p == c.res.OutPath {
		x = " out"
	}
	if strings.HasPrefix(x, " .tmp") {
		// what it will become
		for _, k := range []string{".html", ".json", ".png", ".svg"} {
			if strings.Contains(path.Base(p), k) {
				x += k
				break
			}
		}
	}
	if op.Exec != "" {
		x += " by " + op.Exec
	}
	return x
}

// onFS decides about faults and crashes of an operation.
func (st *State) onFS(c *procCtx, p *rt.Proc, op *rt.FSOp, net *Net) rt.Action {
	act := rt.Action{Short: -1}
	r := c.run
	if op.Exec == "" && op.Kind == "remove" {
		st.checkEvict(c, op)
	}
	if st.probing && op.Mut {
		k := op.Kind + opPlace(c, op)
		c.res.Classes[k] = append(c.res.Classes[k], op.MutSeq)
	} else if st.probing && op.Exec == "" {
		k := op.Kind + opPlace(c, op) + path.Ext(op.Path)
		c.res.Reads[k] = append(c.res.Reads[k], op.Seq)
	}
	if cr := r.Crash; cr != nil && !c.res.dying {
		hit := (cr.Mut > 0 && op.Mut && op.MutSeq == cr.Mut) || (cr.Seq > 0 && op.Seq == cr.Seq)
		if hit {
			c.res.dying = true
			st.Stat.Faults["crash-"+cr.When]++
			act.Crash = cr.When
			act.Short = -1
			if cr.When == "mid" && cr.Short >= 0 {
				act.Short = cr.Short
				if act.Short > op.N {
					act.Short = op.N / 2
				}
			}
			return act
		}
	}
	if c.fsLeft > 0 && op.Mut {
		c.fsLeft--
		act.Err = c.fsErr
		c.hitFS(st, op, "repeat")
		return act
	}
	for i := range r.FS {
		f := &r.FS[i]
		hit := false
		switch {
		case f.Mut > 0:
			hit = op.Mut && op.MutSeq == f.Mut
		case f.Seq > 0:
			hit = op.Seq == f.Seq
		case f.Kind != "":
			if op.Kind == f.Kind && (f.Path == "" || strings.Contains(op.Path, f.Path) || strings.Contains(op.Path2, f.Path)) {
				k := fmt.Sprint(i)
				hit = c.kindN[k] == f.Nth || f.Nth < 0
				c.kindN[k]++
			}
		}
		if !hit {
			continue
		}
		if f.Spare && op.Kind == "remove" {
			continue
		}
		act.Err = errOf(f.Err)
		if op.Kind == "write" {
			act.Short = f.Short
			if act.Short >= op.N {
				act.Short = op.N - 1
			}
		}
		if f.Count > 0 {
			c.fsLeft = f.Count
			c.fsErr = act.Err
		}
		c.hitFS(st, op, f.Err)
		return act
	}
	return act
}

func (c *procCtx) hitFS(st *State, op *rt.FSOp, kind string) {
	k := "fs-" + op.Kind + "-" + kind
	st.Stat.Faults[k]++
	c.res.Struck++
	c.res.Hits[k]++
	if op.Kind == "remove" {
		c.res.remFault = true
	}
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// afterFS checks the invariants after every file system operation.
func (st *State) afterFS(c *procCtx, p *rt.Proc, op *rt.FSOp, all map[int]*procCtx) {
	if op.Err == syscall.ENOSPC && len(c.run.FS) == 0 {
		c.hitFS(st, op, "full")
	}
	if !op.Mut {
		st.checkRead(c, p, op)
		return
	}
	target := op.Path
	if op.Path2 != "" {
		target = op.Path2
	}
	if r, ok := rel(c.cfg.CacheDir, target); ok && op.Exec == "" && strings.HasPrefix(r, "images/") {
		switch {
		case op.Kind == "rename" && op.Err == nil:
			if c.ownImg == nil {
				c.ownImg = map[int]string{}
			}
			c.ownImg[rt.Cur().ID] = strings.TrimSuffix(r, ".png")
		case op.Kind == "remove":
			if c.tried == nil {
				c.tried = map[string]bool{}
			}
			c.tried[strings.TrimSuffix(r, ".png")] = true
		}
	}
	st.checkPaths(c, op)
	st.checkOutput(c, op)
	if op.Exec == "" && op.Err == nil {
		st.trackAdd(c, op)
		if st.Born == nil {
			st.Born = map[string]int64{}
		}
		switch {
		case op.Kind == "rename" || op.Kind == "create" || op.Kind == "write":
			st.Born[target] = op.Now
		case op.Kind == "chtimes" && c.cfg.Evict == "lru":
			st.Born[target] = op.Now
		case op.Kind == "remove":
			delete(st.Born, target)
		}
	}
	for _, p := range []string{op.Path, op.Path2} {
		if d, ok := st.User[p]; ok && op.Err == nil && p != c.res.OutPath {
			if n := st.FS.Lookup(p); n == nil || n.Dir || string(n.Data) != d {
				st.v("P13", "user-file", "%s of %s, which is no file of the program (by %s)", op.Kind, p, who(op))
			}
		}
	}
	if r, ok := rel(c.cfg.CacheDir, target); ok {
		st.checkFile(c, r, target, op)
	}
	if op.Path2 != "" {
		if r, ok := rel(c.cfg.CacheDir, op.Path); ok && st.FS.Lookup(op.Path) != nil {
			st.checkFile(c, r, op.Path, op)
		}
	}
}

func (st *State) checkFile(c *procCtx, r, p string, op *rt.FSOp) {
	d := finalDir(r)
	if d == "" || op.Kind == "remove" || op.Kind == "chtimes" || op.Kind == "mkdir" {
		return
	}
	n := st.FS.Lookup(p)
	if n == nil || n.Dir {
		return
	}
	if op.Kind == "write" && op.Node != nil && n != op.Node {
		return
	}
	judged, ok, why := st.legit(r, n.Data)
	if judged && !ok {
		kf := ""
		if st.multi || st.paired {
			if d == "images" && st.twice(r, n.Data) {
				kf = "processed-by-two-processes"
			}
			st.vk("P18", "cache-"+d, kf, "after %s by %s the file %s is visible under its final name but %s", op.Kind, who(op), r, why)
		}
		st.vk("P02", op.Kind+"-"+d, kf, "after %s by %s the file %s is visible under its final name but %s", op.Kind, who(op), r, why)
	}
	if judged && !ok && op.Exec == "" && d != "html" && d != "stats" {
		for _, q := range c.net.Log {
			if q.Broken && q.Proc == c.res.Proc.ID && len(n.Data) < len(q.Sent) && strings.HasPrefix(q.Sent, string(n.Data)) && inList(q.Rels, r) {
				st.v("P03", "partial-"+d, "%s now holds the beginning of an answer that broke off", r)
				break
			}
		}
	}
	if bytes.Contains(n.Data, []byte("FAILMARK")) {
		st.v("P03", "cached-"+d, "%s now holds a part of a failed answer", r)
	}
	if ok && (d == "html" || d == "stats") && op.Kind == "rename" && op.Err == nil {
		c.res.Docs[r] = true
	}
}

func inList(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func who(op *rt.FSOp) string {
	if op.Exec != "" {
		return op.Exec[5:]
	}
	return "the program"
}

// checkPaths: nothing outside of cache and output is changed (P13).
func (st *State) checkPaths(c *procCtx, op *rt.FSOp) {
	if op.Err != nil {
		return
	}
	for _, p := range []string{op.Path, op.Path2} {
		if p == "" {
			continue
		}
		if _, ok := rel(c.cfg.CacheDir, p); ok {
			if p == c.cfg.CacheDir && op.Kind != "mkdir" {
				st.v("P13", "cachedir", "%s of the cache directory itself", op.Kind)
			}
			continue
		}
		if p == c.res.OutPath || p == c.run.outPath() {
			continue
		}
		if op.Kind == "mkdir" && (strings.HasPrefix(c.cfg.CacheDir+"/", p+"/") || strings.HasPrefix(c.run.outPath()+"/", p+"/") || strings.HasPrefix(c.res.OutPath, p+"/")) {
			continue
		}
		st.v("P13", "outside-"+op.Kind, "%s of %s, which is neither in the cache %s nor the output %s (by %s)", op.Kind, p, c.cfg.CacheDir, c.res.OutPath, who(op))
	}
}

// checkOutput: an existing book stays untouched until the final output is written (P14).
func (st *State) checkOutput(c *procCtx, op *rt.FSOp) {
	o := c.res.OutPath
	if op.Path != o && op.Path2 != o {
		return
	}
	n := st.FS.Lookup(o)
	if op.Kind == "write" {
		c.outWrites++
	}
	if n != nil && !n.Dir && op.Err == nil {
		c.res.OutByRun = true
	}
	if c.res.OutBefore == nil || c.tainted {
		return
	}
	same := n != nil && bytes.Equal(n.Data, c.res.OutBefore)
	if same {
		return
	}
	c.tainted = true
	for _, w := range sortedKeys(c.want) {
		if !c.res.Docs[w] {
			st.v("P14", "early", "%s by %s changes the earlier file at the output path although %s has not been generated yet", op.Kind, who(op), w)
			return
		}
	}
	if !c.cfg.stats() && c.cfg.Driver == "pandoc" && op.Exec == "" && c.pandocs == 0 {
		st.v("P14", "before-pandoc", "%s by the program changes the earlier file at the output path before pandoc has produced anything", op.Kind)
	}
}

// trackAdd follows temporary files until they are moved into the cache (P08, P09).
func (st *State) trackAdd(c *procCtx, op *rt.FSOp) {
	r, ok := rel(c.cfg.CacheDir, op.Path)
	if !ok {
		return
	}
	if op.Kind == "create" && strings.HasPrefix(r, ".tmp/") {
		c.pending[op.Task] = &pendAdd{tmp: op.Path, node: op.Node}
		return
	}
	if op.Kind == "remove" {
		if pa := c.pending[op.Task]; pa != nil && pa.tmp == op.Path {
			if pa.node != nil && int64(len(pa.node.Data)) > c.cfg.MaxSize {
				c.tooBig = true
			}
			delete(c.pending, op.Task)
		}
	}
	if op.Kind == "remove" && finalDir(r) != "" && op.Old != nil && !op.Old.Dir {
		c.res.Removed[r] = true
		evicted := c.pending[op.Task] != nil && len(c.pending[op.Task].evict) > 0
		if evicted {
			c.res.Evicted[r] = true
		}
		if st.multi && finalDir(r) == "images" {
			if st.imgRemoved == nil {
				st.imgRemoved = map[string]string{}
			}
			st.imgRemoved[r] = "processed-by-two-processes"
			if evicted {
				st.imgRemoved[r] = "evicted-image"
			}
		}
	}
	if op.Kind == "rename" && strings.HasPrefix(r, ".tmp/") {
		pa := c.pending[op.Task]
		tr, ok := rel(c.cfg.CacheDir, op.Path2)
		if !ok || finalDir(tr) == "" || pa == nil || pa.tmp != op.Path {
			return
		}
		delete(c.pending, op.Task)
		st.checkAdded(c, tr, op, pa)
	}
}
