package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"sim/rt"
)

// Layers says from which places a run gets its settings. Without it everything is in the configuration file.
type Layers struct {
	Dir     string         `json:"dir"`                // folder of the configuration file
	ProjDir string         `json:"proj_dir,omitempty"` // folder of the project file, if it is not the current one
	RelArgs bool           `json:"rel_args,omitempty"` // name the files relative to the current folder
	NoFile  bool           `json:"no_file,omitempty"`
	File    map[string]any `json:"file,omitempty"`
	Project map[string]any `json:"project,omitempty"`
	Flags   map[string]any `json:"flags,omitempty"`
	Meta    []string       `json:"meta,omitempty"`     // title, author, license, language, date
	OutFlag string         `json:"out_flag,omitempty"` // as given with -o
	OutProj string         `json:"out_proj,omitempty"` // as given in the project file
	Raw     string         `json:"raw,omitempty"`      // text of the configuration file instead of File
	RawProj string         `json:"raw_proj,omitempty"`
	Args    []string       `json:"args,omitempty"` // further arguments
	Bad     string         `json:"bad,omitempty"`  // why the settings have to be refused
	Default string         `json:"default,omitempty"`
	Lower   any            `json:"lower,omitempty"` // value of Default in the place of lower precedence
	Split   bool           `json:"split,omitempty"` // output type and driver come from different places
}

// settings are the values that are to take effect, under their documented names.
func (c *Cfg) settings(w *World) map[string]any {
	var m map[string]any
	if err := json.Unmarshal(c.ConfigJSON(w), &m); err != nil {
		panic(err)
	}
	return m
}

// The documented defaults.
var defaults = map[string]any{
	"force-regenerate-html": false, "svg-size-to-viewbox": false, "output-type": "epub2", "output-driver": "pandoc", "cache-dir": "/home/u/.cache/wiki2book",
	"cache-max-size": 100_000_000.0, "cache-max-age": 40_320.0, "cache-eviction-strategy": "lru", "style-file": "", "cover-image": "", "font-files": []any{},
	"command-template-svg-to-png": svgCmd, "command-template-math-svg-to-png": svgCmd, "command-template-image-processing": procCmd, "command-template-pdf-to-png": pdfCmd, "command-template-webp-to-png": webpCmd,
	"pandoc-executable": "pandoc", "pandoc-data-dir": "", "ignored-templates": []any{}, "trailing-templates": []any{}, "ignored-image-params": []any{},
	"ignored-media-types": []any{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"}, "wikipedia-instance": "en", "wikipedia-host": "wikipedia.org", "wikipedia-image-host": "upload.wikimedia.org",
	"wikipedia-image-article-hosts": []any{"commons.wikimedia.org", "en.wikipedia.org"}, "wikipedia-math-rest-api": "https://wikimedia.org/api/rest_v1/media/math",
	"file-prefixes": []any{"file", "image", "media"}, "allowed-link-prefixes": []any{"arxiv", "doi"}, "category-prefixes": []any{"category"},
	"math-converter": "wikimedia", "toc-depth": 2.0, "worker-threads": 5.0, "user-agent-template": "wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)",
}

func norm(v any) any {
	var x any
	if err := json.Unmarshal(mustJSON(v), &x); err != nil {
		panic(err)
	}
	if l, ok := x.([]any); ok {
		l = append([]any{}, l...)
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
		return l
	}
	return x
}

func isDefault(k string, v any) bool {
	if k == "wikipedia-image-article-hosts" {
		return reflect.DeepEqual(mustJSON(defaults[k]), mustJSON(v)) // their order matters
	}
	return reflect.DeepEqual(norm(defaults[k]), norm(v))
}

var pathKeys = map[string]bool{"cache-dir": true, "style-file": true, "cover-image": true, "pandoc-data-dir": true, "font-files": true}

func relTo(dir, p string) string {
	if p == "" || !path.IsAbs(p) {
		return p
	}
	a, b := strings.Split(strings.Trim(dir, "/"), "/"), strings.Split(strings.Trim(p, "/"), "/")
	i := 0
	for i < len(a) && i < len(b)-1 && a[i] == b[i] {
		i++
	}
	return strings.Repeat("../", len(a)-i) + strings.Join(b[i:], "/")
}

func mapPaths(v any, f func(string) string) any {
	switch x := v.(type) {
	case string:
		return f(x)
	case []any:
		var o []any
		for _, e := range x {
			o = append(o, f(e.(string)))
		}
		return o
	}
	return v
}

// layered writes the files of a run whose settings come from several places and returns its command line.
func (st *State) layered(r *Run, id string) []string {
	l := r.Layers
	a := []string{"wiki2book"}
	if !l.NoFile {
		conf := l.Dir + "/config" + id + ".json"
		data := mustJSON(l.File)
		if l.Raw != "" {
			data = []byte(l.Raw)
		}
		st.FS.MkAll(l.Dir)
		st.FS.Put(conf, data, st.Now)
		if l.RelArgs {
			a = append(a, "-c", relTo(WorkDir, conf))
		} else {
			a = append(a, "-c", conf)
		}
		st.inputs[conf] = true
	}
	for _, k := range sortedKeys(l.Flags) {
		switch v := l.Flags[k].(type) {
		case []any:
			for _, e := range v {
				a = append(a, "--"+k, e.(string))
			}
		case bool:
			a = append(a, "--"+k+"="+strconv.FormatBool(v))
		case float64:
			a = append(a, "--"+k, strconv.FormatFloat(v, 'f', -1, 64))
		case string:
			if v == "" || strings.HasPrefix(v, "-") {
				a = append(a, "--"+k+"="+v)
			} else {
				a = append(a, "--"+k, v)
			}
		default:
			panic(fmt.Sprintf("flag %s has type %T", k, v))
		}
	}
	if l.OutFlag != "" {
		a = append(a, "-o", l.OutFlag)
	}
	a = append(a, l.Args...)
	switch r.Mode {
	case "project":
		pf := WorkDir + "/proj" + id + ".json"
		if l.ProjDir != "" {
			st.FS.MkAll(l.ProjDir)
			pf = l.ProjDir + "/proj" + id + ".json"
		}
		m := map[string]any{}
		for k, v := range l.Project {
			m[k] = v
		}
		m["metadata"] = map[string]string{"title": l.Meta[0], "author": l.Meta[1], "license": l.Meta[2], "language": l.Meta[3], "date": l.Meta[4]}
		m["articles"] = r.Articles
		if l.OutProj != "" {
			m["output-file"] = l.OutProj
		}
		data := mustJSON(m)
		if l.RawProj != "" {
			data = []byte(l.RawProj)
		}
		st.FS.Put(pf, data, st.Now)
		if l.RelArgs {
			pf = relTo(WorkDir, pf)
		}
		return append(a, "project", pf)
	case "article":
		return append(a, "article", r.Articles[0])
	case "standalone":
		return append(a, "standalone", st.standaloneFile(r))
	}
	panic("mode " + r.Mode)
}

var tmpRe = regexp.MustCompile(`\.tmp/[^ /]+(/[^ /]+)?`)

// outcome is everything about a run its settings may influence.
func outcome(res *RunResult, fs *rt.FS) map[string]string {
	m := map[string]string{"status": fmt.Sprintf("%s %d", res.How, res.Code)}
	var reqs, cmds []string
	type ev struct {
		at int64
		d  int
	}
	var evs []ev
	for _, r := range res.Log {
		reqs = append(reqs, r.Method+" "+r.URL+" as "+r.UA)
		evs = append(evs, ev{r.Start, 1}, ev{r.Answer, -1})
	}
	reqs = uniq(reqs) // two workers may or may not ask for the same template at once
	for _, e := range res.Execs {
		cmds = append(cmds, tmpRe.ReplaceAllString(e.Name+" "+strings.Join(e.Args, " "), ".tmp/X"))
	}
	cmds = uniq(cmds)
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at || evs[i].at == evs[j].at && evs[i].d < evs[j].d })
	cur, peak := 0, 0
	for _, e := range evs {
		if cur += e.d; cur > peak {
			peak = cur
		}
	}
	m["requests"] = strings.Join(reqs, "\n")
	m["commands"] = strings.Join(cmds, "\n")
	m["parallel requests"] = fmt.Sprint(peak)
	var files []string
	for k, n := range cacheFiles(fs, res.Run.Cfg.CacheDir) {
		files = append(files, fmt.Sprintf("%s %d bytes", k, len(n.Data)))
	}
	sort.Strings(files)
	m["cache"] = strings.Join(files, "\n")
	return m
}

func uniq(l []string) []string {
	sort.Strings(l)
	return slices.Compact(l)
}

func diffLines(a, b string) string {
	x, y := map[string]int{}, map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		x[l]++
	}
	for _, l := range strings.Split(b, "\n") {
		y[l]++
	}
	var d []string
	for l, n := range x {
		if n > y[l] {
			d = append(d, "only in this run: "+l)
		}
	}
	for l, n := range y {
		if n > x[l] {
			d = append(d, "missing: "+l)
		}
	}
	sort.Strings(d)
	if len(d) > 3 {
		d = append(d[:3], fmt.Sprintf("and %d more", len(d)-3))
	}
	return strings.Join(d, "; ")
}

func (st *State) layersDiff(res *RunResult, ref *RunResult, refFS *rt.FS) (string, string) {
	a, b := outcome(res, st.FS), outcome(ref, refFS)
	keys := []string{"status", "requests", "commands"}
	if s := st.Sc.Steps[res.Step]; s.Pol.Kind == "sequential" && s.Pol.TickMean == 0 {
		keys = append(keys, "parallel requests")
	}
	if res.Run.Cfg.Evict == "none" || res.Run.Cfg.Workers == 1 {
		keys = append(keys, "cache")
	}
	if res.Code != 0 || res.How != "exit" {
		keys = keys[:1] // how far the other workers come depends on the schedule
	}
	for _, k := range keys {
		if a[k] != b[k] {
			if k == "status" {
				return k, fmt.Sprintf("%s instead of %s: %s", a[k], b[k], failText(res))
			}
			if k == "parallel requests" {
				return k, fmt.Sprintf("%s instead of %s", a[k], b[k])
			}
			return k, diffLines(a[k], b[k])
		}
	}
	if res.Code != 0 || res.How != "exit" {
		return "", ""
	}
	if (res.Out == nil) != (ref.Out == nil) {
		return "output", fmt.Sprintf("output present: %v instead of %v", res.Out != nil, ref.Out != nil)
	}
	if !sameBook(res.Out, ref.Out) {
		return "output", diffBooks(ref.Out, res.Out)
	}
	return "", ""
}

// reference repeats a run with the given settings in the configuration file only.
func (st *State) reference(s *Step, set map[string]any) (*RunResult, *rt.FS) {
	r := *s.Run
	l := *r.Layers
	r.Layers = &Layers{Dir: WorkDir, File: set, Meta: l.Meta, OutFlag: r.outPath()}
	step := *s
	step.Run = &r
	sub := NewState(&Scenario{World: st.W, Steps: []*Step{&step}})
	sub.FS = st.layerFS.Clone()
	sub.Now, sub.Vers = st.layerNow, st.Vers.Clone()
	sub.Cfgs = st.Cfgs
	sub.probing = true
	sub.knownNames()
	sub.Step(&step)
	if len(sub.Results) == 0 {
		return nil, nil
	}
	return sub.Results[0], sub.FS
}

// checkLayers judges a run with settings from several places (P22) or with impossible settings (P23).
func (st *State) checkLayers(s *Step, c *procCtx) {
	res, l := c.res, c.run.Layers
	if l.Bad != "" {
		st.Stat.probe("impossible-settings")
		if res.How == "exit" && res.Code == 0 {
			st.v("P23", "accepted", "%s, yet the run ends with success", l.Bad)
		}
		if len(res.Log) > 0 {
			st.v("P23", "request", "%s, yet the run requests %s", l.Bad, res.Log[0].URL)
		}
		if len(res.Execs) > 0 {
			st.v("P23", "command", "%s, yet the run executes %s", l.Bad, res.Execs[0].Name)
		}
		if len(res.Out) > 0 && res.OutBefore == nil || res.OutBefore != nil && (res.Out == nil || !bytes.Equal(res.Out, res.OutBefore)) {
			st.v("P23", "output", "%s, yet the run changes the file at the output path", l.Bad)
		}
		now := cacheFiles(st.FS, res.Run.Cfg.CacheDir)
		for _, k := range sortedKeys(res.Before) {
			if n := now[k]; n == nil || !bytes.Equal(n.Data, res.Before[k].Data) {
				st.v("P23", "cache", "%s, yet the run changes %s in the cache", l.Bad, k)
			}
		}
		for _, k := range sortedKeys(now) {
			if res.Before[k] == nil {
				st.v("P23", "cache", "%s, yet the run adds %s to the cache", l.Bad, k)
			}
		}
		return
	}
	eff := c.cfg.settings(st.W)
	ref, fs := st.reference(s, eff)
	if ref == nil {
		return
	}
	st.Stat.probe("layered-runs")
	if res.How == "exit" && res.Code == 0 && res.OutByRun && c.cfg.Driver == "internal" && !c.cfg.stats() {
		if _, files, err := readZip(res.Out); err == nil {
			st.checkEpub(c, zipNames(res.Out), files)
		}
	}
	what, d := st.layersDiff(res, ref, fs)
	if what == "" {
		st.checkArgs(c)
		return
	}
	kf := ""
	if l.Default != "" {
		low := map[string]any{}
		for k, v := range eff {
			low[k] = v
		}
		low[l.Default] = l.Lower
		if r2, fs2 := st.reference(s, low); r2 != nil {
			// of two failing runs each may have failed somewhere else
			if w, _ := st.layersDiff(res, r2, fs2); w == "" || res.Code != 0 && r2.Code == res.Code && r2.How == res.How {
				kf = "explicit-default"
			}
		}
	} else if l.Split && what == "status" && len(res.Log) == 0 && strings.Contains(failText(res), "are not valid") {
		kf = "split-output"
	}
	sig := "differs-" + strings.ReplaceAll(what, " ", "-")
	if kf != "" {
		sig = "differs"
	}
	st.vk("P22", sig, kf, "with settings from several places the run differs from one with the same settings from one file, namely in its %s: %s", what, d)
}

// checkArgs compares the call of pandoc with the settings.
func (st *State) checkArgs(c *procCtx) {
	if c.cfg.Driver != "pandoc" || c.res.Code != 0 {
		return
	}
	for _, e := range c.res.Execs {
		if e.Tool != "pandoc" {
			continue
		}
		got := map[string][]string{}
		for i := 0; i < len(e.Args); i++ {
			a := e.Args[i]
			if !strings.HasPrefix(a, "-") {
				continue
			}
			if j := strings.IndexByte(a, '='); j > 0 {
				got[a[:j]] = append(got[a[:j]], a[j+1:])
				continue
			}
			if a == "--toc" {
				got[a] = []string{"yes"}
				continue
			}
			if i+1 < len(e.Args) {
				got[a] = append(got[a], e.Args[i+1])
				i++
			}
		}
		x, _ := c.cfg.Extra["pandoc-data-dir"].(string)
		want := map[string][]string{"-t": {c.cfg.OutputType}}
		set := func(k, v string) {
			if v != "" {
				want[k] = []string{v}
			}
		}
		set("--css", c.cfg.Style)
		set("--epub-cover-image", c.cfg.Cover)
		set("--data-dir", x)
		if c.cfg.Toc > 0 {
			set("--toc", "yes")
			set("--toc-depth", strconv.Itoa(c.cfg.Toc))
		}
		for _, f := range c.cfg.Fonts {
			want["--epub-embed-font"] = append(want["--epub-embed-font"], path.Join(WorkDir, f))
		}
		if m := c.run.Layers.Meta; c.run.Mode == "project" {
			want["--metadata"] = []string{"title=" + m[0], "author=" + m[1], "rights=" + m[2], "language=" + m[3], "date=" + m[4]}
		}
		for _, k := range []string{"-t", "--css", "--epub-cover-image", "--data-dir", "--toc", "--toc-depth", "--epub-embed-font", "--metadata"} {
			g := got[k]
			if k == "--metadata" {
				if c.run.Mode != "project" {
					continue
				}
				g = append([]string{}, g...)
				sort.Strings(g)
				sort.Strings(want[k])
			}
			for i, p := range g {
				if k != "--metadata" && path.IsAbs(p) {
					g[i] = path.Clean(p)
				}
			}
			if strings.Join(g, "\n") != strings.Join(want[k], "\n") {
				st.v("P22", "pandoc"+k, "pandoc is called with %s %q instead of %q", k, g, want[k])
			}
		}
		exe, _ := c.cfg.Extra["pandoc-executable"].(string)
		if exe == "" {
			exe = "pandoc"
		}
		if !strings.Contains(exe, "/") {
			exe = "/usr/bin/" + exe
		}
		if e.Name != exe {
			st.v("P22", "pandoc-executable", "%s is executed instead of %s", e.Name, exe)
		}
	}
}

// ---------------------------------------------------------------- generation

func (g *gen) anyOf(vs ...any) any { return norm(vs[g.r.Intn(len(vs))]) }

func list(s ...string) []any {
	o := []any{}
	for _, x := range s {
		o = append(o, x)
	}
	return o
}

// decoy is a valid value that must not take effect.
func (g *gen) decoy(k string, eff any) any {
	for i := 0; i < 20; i++ {
		var v any
		switch k {
		case "force-regenerate-html", "svg-size-to-viewbox":
			v = eff != true
		case "cache-dir":
			v = g.pick("/decoy/cache", "/home/u/decoy", "/tmp/decoy")
		case "cache-max-size":
			v = float64(g.n(1, 300))
		case "cache-max-age":
			v = float64(g.n(1, 100))
		case "cache-eviction-strategy":
			v = g.pick("none", "lru", "largest")
		case "style-file", "cover-image", "pandoc-data-dir":
			v = "/decoy/" + k
		case "font-files":
			v = list("/decoy/font.ttf")
		case "command-template-svg-to-png", "command-template-math-svg-to-png", "command-template-image-processing", "command-template-pdf-to-png", "command-template-webp-to-png":
			v = g.pick("mytool --decoy {INPUT} {OUTPUT}", "", "mytool {INPUT} -x {OUTPUT}")
			if k == "command-template-math-svg-to-png" && v == "" {
				continue
			}
		case "pandoc-executable":
			v = "/decoy/pandoc"
		case "ignored-templates", "trailing-templates":
			v = list(g.pick("box1", "box2", "trail1", "trail2"))
		case "ignored-image-params":
			v = list(g.pick("mini", "zentriert", "alt"))
		case "ignored-media-types":
			v = list(g.pick("jpg", "png", "svg", "webp"), "wav")
		case "wikipedia-instance":
			v = g.pick("nl", "es")
		case "wikipedia-host", "wikipedia-image-host":
			v = g.pick("decoy.example", "other.example")
		case "wikipedia-image-article-hosts":
			v = list(g.pick("decoy1.example", "decoy2.example"))
		case "wikipedia-math-rest-api":
			v = "https://decoy.example/math"
		case "file-prefixes":
			v = list(g.pick("fichier", "datei"), "x")
		case "allowed-link-prefixes":
			v = list("fr", "xarx")
		case "category-prefixes":
			v = list(g.pick("kat", "xkat"))
		case "math-converter":
			v = g.pick("none", "wikimedia", "template")
		case "toc-depth":
			v = float64(g.n(0, 6))
		case "worker-threads":
			v = float64(g.n(1, 9))
		case "user-agent-template":
			v = "decoy agent"
		}
		if v != nil && !reflect.DeepEqual(norm(v), norm(eff)) {
			return norm(v)
		}
	}
	return nil
}

var titlePairs = [][2]string{{"stats-json", "internal"}, {"stats-txt", "internal"}, {"epub3", "internal"}, {"epub3", "pandoc"}}

// layers spreads the settings of a run over all places they can come from.
func (g *gen) layers(r *Run, odd bool) {
	eff := r.Cfg.settings(g.w)
	l := &Layers{Dir: g.pick(WorkDir, "/home/u/conf", "/home/u/work/sub/dir"), File: map[string]any{}, Project: map[string]any{}, Flags: map[string]any{}}
	l.Meta = []string{g.pick("Book", "Ein Buch: mit = Zeichen", "日本"), g.pick("A U", "Wikipedia contributors"), g.pick("CC", "CC-BY-SA 3.0"), g.pick("de", "en-US"), g.pick("2026-01-01", "1999-12-31")}
	places := []map[string]any{l.File, l.Flags}
	dirs := []string{l.Dir, WorkDir}
	l.RelArgs = g.p(0.5)
	pdir := WorkDir
	if r.Mode == "project" {
		places = []map[string]any{l.File, l.Project, l.Flags}
		dirs = []string{l.Dir, WorkDir, WorkDir}
		if g.p(0.5) {
			// relative paths among the arguments have no documented meaning then
			l.ProjDir = g.pick("/home/u/proj/deep", "/home/u/work/sub", "/home/u/conf")
			pdir = l.ProjDir
			dirs = []string{l.Dir, pdir, ""}
		}
	}
	focus := -1
	switch g.r.Intn(4) {
	case 0:
		focus = g.r.Intn(len(places)) // nearly everything comes from one place
	}
	where := func(k string, v any) int {
		i := g.r.Intn(len(places))
		if focus >= 0 && g.p(0.85) {
			i = focus
		}
		if x, ok := v.([]any); ok && len(x) == 0 && i == len(places)-1 {
			i = g.r.Intn(len(places) - 1) // no way to write an empty list as argument
		}
		return i
	}
	put := func(i int, k string, v any) {
		if s, ok := v.(string); pathKeys[k] || k == "pandoc-executable" && ok && strings.Contains(s, "/") {
			v = mapPaths(v, func(p string) string {
				if p == "" {
					return p
				}
				if !path.IsAbs(p) {
					p = WorkDir + "/" + p
				}
				if dirs[i] != "" && g.p(0.5) {
					return relTo(dirs[i], p)
				}
				return p
			})
		}
		places[i][k] = v
	}
	oddKey := ""
	if odd {
		var ks []string
		for _, k := range sortedKeys(eff) {
			if isDefault(k, eff[k]) && !pathKeys[k] && k != "output-type" && k != "output-driver" {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 {
			oddKey = ks[g.r.Intn(len(ks))]
		}
	}
	// type and driver belong together
	t, d := eff["output-type"].(string), eff["output-driver"].(string)
	if t != "epub2" || g.p(0.5) {
		i := where("output-type", t)
		places[i]["output-type"], places[i]["output-driver"] = t, d
		if odd && g.p(0.2) && i > 0 && t == "epub3" && d == "internal" {
			// each of them on its own in another place
			delete(places[i], "output-driver")
			places[i-1]["output-driver"] = d
			l.Split, oddKey = true, ""
		} else {
			for j := 0; j < i; j++ {
				p := titlePairs[g.r.Intn(len(titlePairs))]
				if g.p(0.5) && (t != "epub2" || p[0] == t) && (d != "pandoc" || p[1] == d) {
					places[j]["output-type"], places[j]["output-driver"] = p[0], p[1]
				}
			}
			if d == "pandoc" && g.p(0.5) {
				delete(places[i], "output-driver")
			}
		}
	}
	for _, k := range sortedKeys(eff) {
		v := eff[k]
		if k == "output-type" || k == "output-driver" {
			continue
		}
		def := isDefault(k, v)
		if def && !reflect.DeepEqual(defaults[k], v) {
			put(0, k, v) // the default in another order
			continue
		}
		if k == oddKey {
			if x := g.decoy(k, v); x != nil {
				i := g.n(1, len(places)-1)
				if s, ok := v.([]any); ok && len(s) == 0 {
					i = 1
					if len(places) == 2 {
						continue
					}
				}
				places[i][k] = v
				places[i-1][k] = x
				l.Default, l.Lower = k, x
				continue
			}
		}
		if def && g.p(0.7) {
			continue
		}
		i := where(k, v)
		put(i, k, v)
		if !def {
			for j := 0; j < i; j++ {
				if g.p(0.5) {
					if x := g.decoy(k, v); x != nil {
						if s, ok := x.([]any); !(ok && len(s) == 0) || j < len(places)-1 {
							put(j, k, x)
						}
					}
				}
			}
		} else if i > 0 && g.p(0.5) {
			places[0][k] = v
		}
	}
	out := r.outPath()
	if r.Mode == "project" && g.p(0.5) {
		l.OutProj = g.pick(out, relTo(pdir, out))
	} else {
		l.OutFlag = g.pick(out, relTo(WorkDir, out))
		if g.p(0.5) {
			l.OutProj = "/home/u/decoy.epub"
		}
	}
	if len(l.File) == 0 {
		l.NoFile = true
	}
	r.Layers = l
}

func init() {
	o := opts{images: true, math: true, templates: true, maxArts: 7, maxBlocks: 4}
	base := func(g *gen, name string) *Run {
		g.o = o
		if g.p(0.15) {
			g.o.hosts = []string{"en.wikipedia.org", "commons.wikimedia.org"} // not quite the default
		}
		g.sc.Profile = name
		g.world()
		w := g.w
		w.Hostile = true // the model of the text does not cover these settings
		c := g.cfg()
		switch g.r.Intn(5) {
		case 0:
			c.internal()
		case 1:
			c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		}
		if c.OutputType == "epub3" && c.Driver == "pandoc" && g.p(0.3) {
			c.internal()
		}
		c.SvgCmd = g.pick("", svgCmd, "rsvg-convert -a -o {OUTPUT} {INPUT}", "mytool {INPUT} {OUTPUT}")
		c.MathCmd = g.pick(svgCmd, "rsvg-convert -m -o {OUTPUT} {INPUT}")
		if g.p(0.3) {
			c.PdfCmd, c.WebpCmd, c.ProcCmd = g.pick("", "mytool -p {INPUT} {OUTPUT}"), g.pick("", "mytool -w {INPUT} {OUTPUT}"), g.pick("", "mytool -i {INPUT} {OUTPUT}")
		}
		c.Evict = g.pick("none", "none", "lru", "lru", "largest")
		if g.p(0.3) {
			c.MaxAge = int64(g.n(10, 3000))
		}
		if g.p(0.4) {
			c.MaxSize = int64(g.n(2000, 50_000_000))
			if g.p(0.5) {
				c.MaxSize = int64(g.n(2000, 20_000))
			}
		}
		if c.Evict != "none" && c.MaxSize < 1_000_000 {
			c.Workers = 1
		}
		c.Trailing = nil
		if g.p(0.3) {
			c.Trailing = []string{"trail1"}
		}
		if g.p(0.3) {
			c.Media = []string{"wav", g.pick("jpg", "png", "gif")}
		}
		c.Extra = map[string]any{
			"file-prefixes":         g.anyOf(list("file", "image", "media"), list("file", "datei"), list("datei", "bild", "file")),
			"allowed-link-prefixes": g.anyOf(list("arxiv", "doi"), list("doi"), list("xarx", "doi"), list("kat", "fr"), list("category", "kategorie"), list()),
			"category-prefixes":     g.anyOf(list("category"), list("kat"), list("kategorie", "kat")),
			"ignored-image-params":  g.anyOf(list(), list("alt"), list("zentriert", "alt")),
			"pandoc-executable":     g.pick("pandoc", "/opt/tools/pandoc", WorkDir+"/tools/pandoc"),
			"pandoc-data-dir":       g.pick("", "", WorkDir+"/pandocdata"),
		}
		w.Templates = append(w.Templates, &Template{Name: "Trail1"})
		for _, a := range w.Articles {
			if g.p(0.6) {
				img := "Photo_0.jpg"
				if im := g.anyImage(); im != nil {
					img = im.Name
				}
				s := g.pick("[[xarx:P1|probelink]] and [[doi:10.1/x|probedoi]] or [[fr:Foo|probefr]]", "[[Kat:Foo]]probe[[Kategorie:Bar]] [[Category:Baz]]", "[[Datei:"+img+"|mini|alt=probealt|zentriert|probecap]]", "probe [[Bild:"+img+"|20px]] text", "{{Trail1|probetrail}}\n\nmiddle text", "[[File:"+img+"|mini|alt=probealt|zentriert|probecap]]")
				a.Blocks = append([]*Block{{K: "raw", ID: g.mark(), S: s}}, a.Blocks...)
			}
		}
		r := g.run(c)
		g.outFor(r)
		return r
	}
	profiles["layers"] = func(g *gen) {
		r := base(g, "layers")
		if g.p(0.6) {
			f := r.with(nil)
			if len(f.Articles) > 1 && g.p(0.5) {
				f.Articles = f.Articles[:1]
			}
			fill := *r.Cfg
			fill.Workers = 1
			f.Cfg = &fill
			g.add(g.step(f, "fill"))
			g.add(&Step{Kind: "clock", Dur: int64(g.n(1, 200)*600 + 30)})
		}
		x := r.with(nil)
		g.layers(x, g.p(0.15))
		s := g.step(x, "layered")
		if g.p(0.5) {
			s.Pol = rt.Policy{Kind: "sequential"}
		}
		g.add(s)
	}
	profiles["invalid"] = func(g *gen) {
		r := base(g, "invalid")
		if g.p(0.5) {
			g.add(g.step(r.with(nil), "fill"))
		}
		x := r.with(nil)
		g.layers(x, false)
		g.invalidate(x)
		g.add(g.step(x, "refused"))
	}
}

// invalidate makes one effective setting impossible.
func (g *gen) invalidate(r *Run) {
	l := r.Layers
	l.Default, l.Split = "", false
	places := []map[string]any{l.File, l.Flags}
	if r.Mode == "project" {
		places = []map[string]any{l.File, l.Project, l.Flags}
	}
	set := func(why string, kv ...any) {
		l.Bad = why
		// nothing of higher precedence may repair it
		i := g.r.Intn(len(places))
		for k := 0; k < len(kv); k += 2 {
			for _, p := range places {
				delete(p, kv[k].(string))
			}
			places[i][kv[k].(string)] = kv[k+1]
			if places[i] != nil && i == 0 {
				l.NoFile = false
			}
		}
	}
	num := func(n ...int) float64 { return float64(n[g.r.Intn(len(n))]) }
	tmpl := g.pick("command-template-svg-to-png", "command-template-math-svg-to-png", "command-template-image-processing", "command-template-pdf-to-png", "command-template-webp-to-png")
	switch g.r.Intn(15) {
	case 0:
		v := g.pick("pdf", "EPUB2", "epub", "epub4", "stats", "stats-JSON")
		set("the output type is "+v, "output-type", v, "output-driver", g.pick("pandoc", "internal"))
	case 1:
		v := g.pick("calibre", "Pandoc", "intern", "pandoc ")
		set("the output driver is "+v, "output-type", g.pick("epub2", "epub3"), "output-driver", v)
	case 2:
		p := [][2]string{{"epub2", "internal"}, {"stats-json", "pandoc"}, {"stats-txt", "pandoc"}}[g.r.Intn(3)]
		set("output type "+p[0]+" and driver "+p[1]+" do not go together", "output-type", p[0], "output-driver", p[1])
	case 3:
		v := g.pick("latex", "None", "wiki", "templates")
		set("the math converter is "+v, "math-converter", v)
	case 4:
		v := num(-1, 7, 100, -100)
		set(fmt.Sprintf("the depth of the table of contents is %v", v), "toc-depth", v)
	case 5:
		v := num(0, -1, -5)
		set(fmt.Sprintf("the number of workers is %v", v), "worker-threads", v)
	case 6:
		set("the placeholder of the input is missing in a command", tmpl, g.pick("mytool {OUTPUT}", "mytool INPUT {OUTPUT}", "mytool {input} {OUTPUT}"))
	case 7:
		set("the placeholder of the output is missing in a command", tmpl, g.pick("mytool {INPUT}", "mytool {INPUT} OUTPUT", "mytool {INPUT} {OUT}"))
	case 8:
		set("the command for formulas is empty", "command-template-math-svg-to-png", "")
	case 9:
		v := num(0, -1, -100000)
		set(fmt.Sprintf("the size limit of the cache is %v", v), "cache-max-size", v)
	case 10:
		v := num(0, -1, -100000)
		set(fmt.Sprintf("the maximum age of cached files is %v", v), "cache-max-age", v)
	case 11:
		v := g.pick("fifo", "LRU", "off", "largest ")
		set("the eviction strategy is "+v, "cache-eviction-strategy", v)
	case 12:
		k := g.pick("style-file", "cover-image", "pandoc-data-dir", "font-files")
		f := "/home/u/missing/" + k
		if g.p(0.3) {
			f = WorkDir + "/style.css/" + k // leads through a file
		}
		var v any = f
		if k == "font-files" {
			v = list(f)
		}
		set("the file given as "+k+" does not exist", k, v)
	case 13:
		l.Bad = "the configuration file is broken"
		l.NoFile = false
		l.Raw = g.pick("{", "[]", "{\"worker-threads\": \"five\"}", "{\"output-type\": 5}", "{\"font-files\": \"a.ttf\"}", "nonsense", "{\"cache-max-size\": 1.5}", " ")
	case 14:
		if r.Mode == "project" {
			l.Bad = "the project file is broken"
			l.RawProj = g.pick("{", "[]", "{\"articles\": \"Alpha\"}", "nonsense", "{\"metadata\": 5}", "{\"articles\": [5]}", " ")
		} else {
			l.Bad = "an argument is unknown"
			l.Args = []string{g.pick("--no-such-option", "--worker-threads=many", "--cache-max-size=big", "-z", "--logging=loud")}
		}
	}
}

// drop removes one setting that does not take effect, for the shrinker.
func (l *Layers) drop(n int, c *Cfg, w *World) bool {
	eff := c.settings(w)
	places := []map[string]any{l.File, l.Project, l.Flags}
	for i, p := range places {
		for _, k := range sortedKeys(p) {
			if n--; n >= 0 {
				continue
			}
			if k == "output-type" || k == "output-driver" || k == l.Default {
				return false
			}
			above, below := false, false
			for j, q := range places {
				if _, ok := q[k]; ok {
					above, below = above || j > i, below || j < i
				}
			}
			if above || !below && isDefault(k, eff[k]) {
				delete(p, k)
				return true
			}
			return false
		}
	}
	return false
}

func (l *Layers) size() int {
	if l == nil || l.Bad != "" {
		return 0
	}
	return len(l.File) + len(l.Project) + len(l.Flags)
}
