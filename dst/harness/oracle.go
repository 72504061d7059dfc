package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"sim/rt"
)

const minute = int64(60_000_000_000)

// quiet configurations run no commands in the cache; only for them the cache has an exact size.
func (c *Cfg) quiet() bool {
	return c.SvgCmd == "" && c.PdfCmd == "" && c.WebpCmd == "" && c.ProcCmd == "" && c.MathConv != "template" && !c.SvgViewbox
}

// exact tells whether the size of the cache is known exactly whenever a file is added: No command writes into it in
// the meantime.
func (c *Cfg) exact() bool { return c.quiet() || c.Workers == 1 }

func (w *World) hostile() bool {
	if len(w.Raw) > 0 || w.Hostile {
		return true
	}
	for _, t := range w.Templates {
		if t.Raw != "" {
			return true
		}
	}
	return false
}

// sizes returns name, size and modification time of all cached files and their total size.
func (st *State) sizes(dir string) (map[string]int64, map[string]int64, int64) {
	sz, mt, total := map[string]int64{}, map[string]int64{}, int64(0)
	for r, n := range cacheFiles(st.FS, dir) {
		sz[r] = int64(len(n.Data))
		mt[r] = n.Mtime
		total += int64(len(n.Data))
	}
	return sz, mt, total
}

func (st *State) expired(c *procCtx, mtime, now int64) bool {
	return now-mtime >= (c.cfg.MaxAge+1)*minute
}

// checkEvict looks at a removal before it happens.
func (st *State) checkEvict(c *procCtx, op *rt.FSOp) {
	r, ok := rel(c.cfg.CacheDir, op.Path)
	if !ok || r == "" || strings.HasPrefix(r, ".tmp") {
		return
	}
	n := st.FS.Lookup(op.Path)
	if n == nil || n.Dir {
		return
	}
	pa := c.pending[op.Task]
	if pa == nil && st.expired(c, n.Mtime, op.Now) {
		st.Stat.probe("expired-removed")
		return
	}
	if pa == nil && now30(c, n, op.Now) {
		return
	}
	if (pa == nil || c.imageFailed()) && strings.HasPrefix(r, "articles/File%3A") && (st.multi || c.fileFailed()) {
		return // the page of an image which its host does not deliver
	}
	if c.cfg.Evict == "none" {
		if pa != nil || !c.imageFailed() {
			st.v("P08", "deleted-though-off", "with eviction switched off %s, which has not expired (age %d s), is deleted", r, (op.Now-n.Mtime)/1e9)
		}
		return
	}
	if !c.cfg.quiet() && pa == nil {
		return
	}
	if finalDir(r) == "" {
		st.v("P09", "foreign", "eviction removes %s, which is no cached file", r)
		return
	}
	sz, mt, total := st.sizes(c.cfg.CacheDir)
	c.res.Evictions++
	st.Stat.probe("evictions")
	rec := evictRec{rel: r, size: sz[r], total: total, sizes: sz}
	c.evs[op.Task] = append(c.evs[op.Task], rec)
	if pa != nil {
		pa.evict = append(pa.evict, rec)
	}
	if st.multi || c.fsHit() {
		return // another process may change files between choice and removal, or files could not be examined
	}
	switch c.cfg.Evict {
	case "largest":
		for _, o := range sortedKeys(sz) {
			if s := sz[o]; s > sz[r] && c.cfg.exact() {
				st.v("P09", "not-largest", "evicts %s (%d bytes) although %s has %d bytes", r, sz[r], o, s)
				return
			}
		}
	case "lru":
		for _, o := range sortedKeys(mt) {
			if m := mt[o]; m < mt[r] && c.cfg.exact() {
				st.v("P09", "not-lru", "evicts %s (last used %d s ago) although %s was last used %d s ago", r, (op.Now-mt[r])/1e9, o, (op.Now-m)/1e9)
				return
			}
		}
	}
}

// now30: a file the running process itself created and throws away again because a later step of
// its creation failed.
func now30(c *procCtx, n *rt.Inode, now int64) bool {
	return c.imageFailed() && n.Mtime >= c.res.StartNow
}

// fileFailed tells whether an image file was not delivered in this run.
func (c *procCtx) fileFailed() bool {
	for _, r := range c.net.Log {
		if r.Proc == c.res.Proc.ID && strings.HasPrefix(r.Key, "F|") && r.done && !r.ok() {
			return true
		}
	}
	return c.imageFailed() || c.tooBig
}

// imageFailed tells whether a processing step of an image has failed in this run.
func (c *procCtx) imageFailed() bool {
	for k := range c.res.Hits {
		if strings.HasPrefix(k, "exec-") || strings.HasPrefix(k, "fs-") {
			return true
		}
	}
	for _, e := range c.tools.Log {
		if e.Proc == c.res.Proc.ID && e.Code != 0 && e.Tool != "pandoc" {
			return true
		}
	}
	return len(c.tools.Hit[c.res.Proc.ID]) > 0 || c.run.Cap > 0 || len(c.run.FS) > 0
}

// fsHit: a disk fault has struck, so the program may know less than there is.
func (c *procCtx) fsHit() bool {
	for k := range c.res.Hits {
		if strings.HasPrefix(k, "fs-") {
			return true
		}
	}
	return false
}

// checkAdded judges an addition right after the rename into the cache.
func (st *State) checkAdded(c *procCtx, r string, op *rt.FSOp, pa *pendAdd) {
	evs := c.evs[op.Task]
	delete(c.evs, op.Task)
	if c.cfg.Evict == "none" || !c.cfg.exact() || st.multi {
		return
	}
	st.Stat.probe("limited-adds")
	n := st.FS.Lookup(op.Path2)
	if n == nil {
		return
	}
	_, _, total := st.sizes(c.cfg.CacheDir)
	if total > c.cfg.MaxSize {
		st.v("P08", "too-big", "after adding %s (%d bytes) the cache holds %d bytes, the limit is %d", r, len(n.Data), total, c.cfg.MaxSize)
	}
	size := int64(len(n.Data))
	for i, e := range evs {
		after := e.total + size - e.sizes[r]
		if after <= c.cfg.MaxSize && !c.fsHit() {
			st.v("P09", "needless", "%s (%d bytes) is evicted as number %d for %s (%d bytes, replacing %d) although the cache would only hold %d of %d bytes", e.rel, e.size, i+1, r, size, e.sizes[r], after, c.cfg.MaxSize)
			return
		}
	}
}

// checkRead judges what the program reads from the cache.
func (st *State) checkRead(c *procCtx, p *rt.Proc, op *rt.FSOp) {
	if op.Kind != "open" || op.Err != nil || op.Node == nil || op.Node.Dir {
		return
	}
	r, ok := rel(c.cfg.CacheDir, op.Path)
	if !ok {
		return
	}
	d := finalDir(r)
	if d == "" || len(c.run.FS) > 0 || c.run.Cap > 0 || st.multi {
		return
	}
	n := op.Node
	if _, isRes := st.relInfo[r]; isRes {
		lim := (c.cfg.MaxAge+1)*minute + 30_000_000_000
		since := n.Mtime
		if b, ok := st.Born[op.Path]; ok && c.cfg.Evict != "lru" {
			since = b // not the time stamp, which the program can renew
		}
		if op.Exec == "" && d != "images" && op.Now-since >= lim {
			st.v("P07", "stale-read", "%s is used although it is %d min old, the limit is %d min", r, (op.Now-since)/minute, c.cfg.MaxAge)
		}
		if (op.Exec != "" || d == "images") && c.res.StartNow-since >= lim {
			// the time between the look-up of an image and its use can be long
			st.v("P07", strings.TrimSuffix("stale-"+op.Exec, "-"), "%s is used although it was %d min old at the start, the limit is %d min", r, (c.res.StartNow-since)/minute, c.cfg.MaxAge)
		}
	}
	if c.cfg.Evict == "lru" && c.cfg.Workers == 1 && op.Exec == "" && (d == "articles" || d == "templates" || d == "math") {
		if op.Now-n.Mtime > 20_000_000_000+2*st.FS.Gran {
			st.v("P09", "use-not-recorded", "%s is used but its last use is still %d s ago", r, (op.Now-n.Mtime)/1e9)
		}
	}
}

var retryRe = regexp.MustCompile(`^[0-9]{1,6}$`)

// onReq judges a request at its start.
func (st *State) onReq(c *procCtx, r *Req, net *Net, sim *rt.Sim) {
	if r.bad != "" && !st.W.hostile() {
		st.v("P11", "bad", "request %s %s: %s", r.Method, r.URL, r.bad)
	}
	if !strings.HasPrefix(r.URL, st.W.MathAPI) {
		okHost := r.Host == st.W.Inst+"."+st.W.Host || r.Host == st.W.ImgHost
		for _, h := range st.W.PageHosts {
			okHost = okHost || r.Host == h
		}
		if !okHost || !strings.HasPrefix(r.URL, "https://") {
			st.v("P11", "host", "request to a host that is not configured: %s", r.URL)
		}
	}
	if r.Flight > c.cfg.Workers {
		st.v("P11", "flight", "%d requests under way with %d worker threads (%s)", r.Flight, c.cfg.Workers, r.URL)
	}
	if r.Flight > 1 {
		st.Stat.probe("parallel-requests")
	}
	parts := strings.SplitN(c.cfg.UA, "{{VERSION}}", 2)
	ok := r.UA == c.cfg.UA
	if len(parts) == 2 {
		ok = strings.HasPrefix(r.UA, parts[0]) && strings.HasSuffix(r.UA, strings.ReplaceAll(parts[1], "{{VERSION}}", "")) && !strings.Contains(r.UA, "{{") && len(r.UA) > len(parts[0])+len(parts[1])
	}
	if !ok {
		st.v("P11", "agent", "request %s has user agent %q, configured is %q", r.URL, r.UA, c.cfg.UA)
	}
	st.checkHandles(c, "request", r)
	// A valid cached file makes the request unnecessary.
	if !st.multi && len(c.run.FS) == 0 && c.run.Cap == 0 {
		for _, rl := range r.Rels {
			b, ok := c.res.Before[rl]
			n := st.FS.Lookup(path.Join(c.cfg.CacheDir, rl))
			if ok && n != nil && !c.res.Removed[rl] && r.Start-b.Mtime < c.cfg.MaxAge*minute && r.Start-n.Mtime < c.cfg.MaxAge*minute && len(r.Rels) == 1 {
				st.v("P07", "fresh-requested", "%s is requested although the cached file %s is %d s old, the limit is %d min", r.URL, rl, (r.Start-b.Mtime)/1e9, c.cfg.MaxAge)
			}
		}
	}
}

// checkHandles: nothing may be open in a task that starts a new request or command (P17).
func (st *State) checkHandles(c *procCtx, at string, r *Req) {
	p := c.res.Proc
	var open []string
	task := rt.Cur().ID
	for f := range p.Handles {
		if f.Exec == "" && f.Task == task && !(at == "failure" && (f.Path() == c.res.OutPath || f.Path() == c.run.Out)) {
			open = append(open, f.Path())
		}
	}
	sort.Strings(open)
	next := "a worker starts its next " + at + " (" + rKey(r) + ")"
	if at == "failure" {
		next = "a step has failed, the run is given up"
	}
	if len(open) > 0 {
		st.v("P17", "file-at-"+at, "%s with %s still open", next, strings.Join(open, ", "))
	}
	for _, o := range c.net.Log {
		if o.Proc == p.ID && o.Task == task && o.HasBody && !o.Closed && o != r {
			st.v("P17", fmt.Sprintf("body-at-%s-%d", at, statusClass(o)), "%s while the body of its earlier answer %s (status %d) is still open", next, o.Key, o.Status)
			return
		}
	}
}

func statusClass(r *Req) int { return r.Status }

func rKey(r *Req) string {
	if r == nil {
		return "command"
	}
	return r.Key
}

// ---------------------------------------------------------------- after a run

func (res *RunResult) only(kinds ...string) bool {
	for k := range res.Hits {
		ok := false
		for _, x := range kinds {
			ok = ok || k == x
		}
		if !ok {
			return false
		}
	}
	return true
}

// hitAny: a fault of one of these kinds struck the run.
func (res *RunResult) hitAny(prefixes ...string) bool {
	for k := range res.Hits {
		for _, p := range prefixes {
			if strings.HasPrefix(k, p) {
				return true
			}
		}
	}
	return false
}

// netOnly: nothing but failed requests made this run fail.
func (res *RunResult) netOnly() bool {
	for k := range res.Hits {
		if !strings.HasPrefix(k, "net-") {
			return false
		}
	}
	return res.Run.Crash == nil && res.Run.Cap == 0
}

// undisturbed: no fault made this run fail.
func (res *RunResult) undisturbed() bool {
	return res.only("net-429", "net-slow") && res.Run.Crash == nil
}

// inputs identifies what a run is given.
func (res *RunResult) inputs() string {
	return string(mustJSON([]any{res.Run.Mode, res.Run.Articles, res.Run.Cfg, res.Run.outPath()}))
}

// blame reports a wrong book (or failure) under every property it breaks.
func (st *State) blame(res *RunResult, sig, kf, format string, a ...any) {
	st.vk("P04", sig, kf, format, a...)
	st.blameRun(res, sig, kf, format, a...)
}

func (st *State) blameRun(res *RunResult, sig, kf, format string, a ...any) {
	if st.paired || st.multi {
		st.vk("P18", sig, kf, format, a...)
		return
	}
	if !res.undisturbed() {
		return
	}
	if st.Sc.Profile == "alike" {
		if st.W.sharedName(res.Run.Cfg) {
			st.vk("P24", "derived-name", "derived-name", format, a...)
		} else {
			st.vk("P24", sig, kf, format, a...)
		}
	}
	if st.Disrupt {
		st.vk("P05", sig, kf, format, a...)
		if st.NetOnly && kf == "" {
			st.vk("P03", sig, kf, "after nothing but failed requests "+format, a...)
		}
	} else {
		st.vk("P01", sig, kf, format, a...)
	}
	if res.Hits["net-429"] > 0 {
		st.vk("P10", sig, kf, format, a...)
	}
}

var panicRe = regexp.MustCompile(`app[ab]/([\w/]+\.go:\d+)`)

// panicSite names the first line of the program in a stack trace.
func panicSite(trace string) string {
	if m := panicRe.FindStringSubmatch(trace); m != nil {
		return " at " + m[1]
	}
	return ""
}

func (st *State) afterRun(s *Step, c *procCtx, net *Net, sim *rt.Sim) {
	res := c.res
	if sim.Stuck != "" {
		return
	}
	if c.run.Layers != nil {
		if res.How == "panic" {
			st.v("P21", "panic", "the program crashes: %s%s", firstLine(res.Proc.Panic), panicSite(res.Proc.Panic))
		}
		if !st.probing {
			st.checkLayers(s, c)
		}
		return
	}
	st.checkLimits(c, net)
	st.checkSources(c)
	if st.Sc.Profile == "alike" {
		for _, k := range sortedKeys(cacheFiles(st.FS, c.cfg.CacheDir)) {
			if strings.ContainsAny(path.Base(k), "<>:\"\\|?*") {
				st.v("P24", "portable", "the name of the cached file %s is not allowed on all file systems", k)
			}
		}
	}
	if res.How == "panic" && strings.Contains(res.Proc.Panic, "/cache.") && c.cfg.Evict != "none" && res.undisturbed() {
		st.v("P08", "panic", "the run crashes with %s", firstLine(res.Proc.Panic))
	}
	if res.How == "panic" {
		st.v("P21", "panic", "the program crashes: %s%s", firstLine(res.Proc.Panic), panicSite(res.Proc.Panic))
	}
	same := st.sameInputs(res)
	if same != nil {
		st.Stat.probe("filled-cache-runs")
		if len(res.Log) > 0 {
			st.v("P06", "request", "an earlier run with the same inputs was successful, yet this one requests %s", res.Log[0].URL)
		}
		if res.undisturbed() || res.only("net-down") && res.Run.Crash == nil {
			if res.Code != 0 || res.How != "exit" {
				st.v("P06", "fails", "an earlier run with the same inputs was successful, yet this one ends with %s %d: %s", res.How, res.Code, failText(res))
			} else if !sameBook(same.Out, res.Out) {
				st.v("P06", "book", "the second run with a filled cache makes a different book: %s", diffBooks(same.Out, res.Out))
			}
		}
	}
	if res.How == "exit" && res.Code == 0 {
		st.checkSuccess(c, net)
		return
	}
	if res.How == "crash" {
		return
	}
	st.checkFailed(c)
	// the run failed
	if res.undisturbed() && !st.mayFail(c) {
		kf := ""
		st.blameRun(res, "fails", kf, "an undisturbed run ends with %s %d: %s", res.How, res.Code, failText(res))
	}
	if res.How == "exit" && res.Code == 0 {
		panic("unreachable")
	}
}

// checkFailed judges a run that ended with an error.
func (st *State) checkFailed(c *procCtx) {
	res := c.res
	if c.cfg.stats() && res.OutBefore != nil && c.outWrites == 0 && !bytes.Equal(res.OutBefore, res.Out) {
		st.v("P14", "no-output-yet", "the run fails before it writes its statistics, but the earlier file (%d bytes) at the output path is gone or changed", len(res.OutBefore))
	}
	if st.sourcesSuffice(c) {
		st.v("P15", "fails", "each needed image is delivered by a source but the run ends with %s %d: %s", res.How, res.Code, failText(res))
	}
}

// sourcesSuffice: nothing but image sources failed in a run, and each image was to be had from another source.
func (st *State) sourcesSuffice(c *procCtx) bool {
	res := c.res
	if st.multi || st.paired || st.W.hostile() || st.mayFail(c) || res.Evictions > 0 || res.Run.Cap > 0 || len(res.Hits) == 0 {
		return false
	}
	bad := map[string]bool{}
	for k := range res.Hits {
		if !strings.HasPrefix(k, "net-") {
			return false
		}
	}
	for _, r := range res.Log {
		if r.Fault == "" || r.Fault == "429" || r.Fault == "slow" {
			continue
		}
		if !strings.HasPrefix(r.Key, "P|") && !strings.HasPrefix(r.Key, "F|") {
			return false
		}
		bad[r.Key] = true
	}
	imgs, _ := st.needed(res)
	for _, name := range imgs {
		found := false
		for _, h := range st.W.PageHosts {
			p := st.W.image(name).Pages[h]
			if p.Kind != "ok" || p.NoFile || bad["P|"+h+"|"+strings.ReplaceAll(name, " ", "_")] {
				continue
			}
			t := name
			if p.Target != "" {
				t = p.Target
			}
			if !bad["F|"+seg(h)+"|"+strings.ReplaceAll(t, " ", "_")] {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return len(bad) > 0
}

func failText(res *RunResult) string {
	if res.Proc.Panic != "" {
		return firstLine(res.Proc.Panic)
	}
	return errText(string(res.Proc.Err) + string(res.Proc.Out))
}

// errText leaves out stack traces and progress messages.
func errText(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "sim/") || strings.HasPrefix(l, "github.com/") || strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "Article '") || strings.HasPrefix(l, "Start ") || strings.HasPrefix(l, "Prepare ") || l == "" {
			continue
		}
		keep = append(keep, l)
	}
	return tailStr(strings.Join(keep, " / "), 500)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// needed returns the images and formulas of all requested articles.
func (st *State) needed(res *RunResult) (imgs, math []string) {
	seenI, seenM := map[string]bool{}, map[string]bool{}
	for _, t := range res.Run.Articles {
		a := st.W.article(t)
		if a == nil {
			continue
		}
		d := st.W.Expect(a, t, res.Vers, res.Run.Cfg)
		for _, i := range d.Images {
			if !seenI[i] {
				seenI[i] = true
				imgs = append(imgs, i)
			}
		}
		for _, m := range d.Math {
			if !seenM[m] {
				seenM[m] = true
				math = append(math, m)
			}
		}
	}
	return
}

// mayFail tells whether an undisturbed run has a reason to fail.
func (st *State) mayFail(c *procCtx) bool {
	if st.W.hostile() {
		return true
	}
	for _, t := range c.run.Articles {
		if st.W.article(t) == nil {
			return true
		}
	}
	imgs, _ := st.needed(c.res)
	for _, i := range imgs {
		if _, ok := st.W.SourceOf(i); !ok {
			return true
		}
	}
	if c.cfg.Evict != "none" && (len(c.res.Evicted) > 0 || c.tooBig) {
		return true
	}
	return c.res.Proc.Code != 0 && st.multi && c.res.How == "exit" // P18 allows a clean failure
}

// sameInputs finds an earlier successful run which filled the cache for this one.
func (st *State) sameInputs(res *RunResult) *RunResult {
	if st.multi || st.paired || st.Sc.Steps[st.step].Kind != "run" || res.Run.Cfg.Evict != "none" && res.Evictions > 0 {
		return nil
	}
	if len(res.Run.FS) > 0 || res.Run.Cap > 0 {
		return nil
	}
	var found *RunResult
	for _, o := range st.Results {
		if o == res {
			break
		}
		if o.Step == res.Step {
			continue
		}
		if o.Code != 0 || o.How != "exit" || o.Evictions > 0 || o.Run.Cfg.CacheDir != res.Run.Cfg.CacheDir {
			found = nil
			continue
		}
		if o.inputs() == res.inputs() {
			found = o
		} else if len(o.Removed) > 0 {
			found = nil
		}
	}
	if found == nil {
		return nil
	}
	for i := found.Step + 1; i < res.Step; i++ {
		if k := st.Sc.Steps[i].Kind; k == "delete" || k == "pair" {
			return nil
		}
	}
	// nothing may have expired, neither before nor while the run was under way
	for r, n := range res.Before {
		if _, ok := st.relInfo[r]; ok && res.EndNow-n.Mtime >= res.Run.Cfg.MaxAge*minute {
			return nil
		}
	}
	return found
}

func sameBook(a, b []byte) bool { return bytes.Equal(normBook(a), normBook(b)) }

func diffBooks(a, b []byte) string {
	a, b = normBook(a), normBook(b)
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		s, e := i-30, i+60
		if s < 0 {
			s = 0
		}
		if e > len(x) {
			e = len(x)
		}
		if s > e {
			s = e
		}
		return strconv.Quote(string(x[s:e]))
	}
	return fmt.Sprintf("%d and %d bytes, first difference at %d: %s and %s", len(a), len(b), i, cut(a), cut(b))
}

// checkLimits checks what the network log must satisfy at the end.
func (st *State) checkLimits(c *procCtx, net *Net) {
	res := c.res
	log := res.Log
	for i, r := range log {
		if r.bad == "body does not match its length" {
			st.v("P10", "consumed-body", "the repeated %s request to %s is sent without its body", r.Method, r.URL)
		}
		if r.Status != 429 {
			continue
		}
		st.Stat.probe("rate-limited")
		wait, judged := int64(2), true
		if retryRe.MatchString(r.Retry) {
			wait, _ = strconv.ParseInt(r.Retry, 10, 64)
		} else if strings.HasPrefix(r.Retry, "-") && len(r.Retry) > 1 || strings.HasPrefix(r.Retry, "+") {
			judged = false
		}
		var next *Req
		for _, o := range log[i+1:] {
			if o.Task == r.Task {
				next = o
				break
			}
		}
		if next == nil {
			if res.How == "exit" && res.Code == 0 {
				st.v("P10", "given-up", "the run succeeds without repeating the refused request %s", r.URL)
			}
			continue
		}
		if next.Method != r.Method || next.URL != r.URL || next.Body != r.Body || next.CType != r.CType || next.UA != r.UA {
			if next.URL == r.URL {
				st.v("P10", "changed", "after 429 the request %s %s (%d bytes, %q, %q) is repeated as %s (%d bytes, %q, %q)", r.Method, r.URL, len(r.Body), r.CType, r.UA, next.Method, len(next.Body), next.CType, next.UA)
			} else {
				st.v("P10", "not-repeated", "after 429 for %s the worker goes on with %s", r.URL, next.URL)
			}
			continue
		}
		if judged && next.Start < r.Answer+wait*1_000_000_000 {
			st.v("P10", "too-early", "refused at %d ms with Retry-After %q, %s is repeated %d ms later", r.Answer/1e6, r.Retry, r.URL, (next.Start-r.Answer)/1e6)
		}
	}
}

// checkSources follows each worker through the image sources (P15).
func (st *State) checkSources(c *procCtx) {
	if st.W.hostile() || st.multi {
		return
	}
	w := st.W
	res := c.res
	for k := range res.Hits {
		if strings.HasPrefix(k, "fs-") {
			return // what could not be stored counts as not delivered
		}
	}
	if c.run.Cap > 0 || c.tooBig || res.Evictions > 0 {
		return
	}
	byTask := map[int]map[string][]*Req{}
	var tasks []int
	for _, r := range res.Log {
		if r.Status == 429 {
			continue
		}
		var names []string
		switch {
		case strings.HasPrefix(r.Key, "P|"):
			names = []string{r.Key[strings.LastIndexByte(r.Key, '|')+1:]}
		case strings.HasPrefix(r.Key, "F|"):
			target := r.Key[strings.LastIndexByte(r.Key, '|')+1:]
			for _, im := range w.Images {
				n := strings.ReplaceAll(im.Name, " ", "_")
				if n == target {
					names = append(names, n)
					continue
				}
				for _, h := range sortedKeys(im.Pages) {
					if strings.ReplaceAll(im.Pages[h].Target, " ", "_") == target {
						names = append(names, n)
						break
					}
				}
			}
		}
		if len(names) != 1 {
			continue
		}
		if byTask[r.Task] == nil {
			byTask[r.Task] = map[string][]*Req{}
			tasks = append(tasks, r.Task)
		}
		byTask[r.Task][names[0]] = append(byTask[r.Task][names[0]], r)
	}
	for _, t := range tasks {
		for _, name := range sortedKeys(byTask[t]) {
			st.walkSources(c, name, byTask[t][name])
		}
	}
}

// ok tells whether a request delivered its resource.
func (r *Req) ok() bool {
	return r.Status == 200 && (r.Fault == "" || r.Fault == "slow") && r.Full && !r.Broken && !strings.Contains(r.Sent, `{"error"`)
}

// walkSources checks the requests one worker made for one image against the order of the sources.
func (st *State) walkSources(c *procCtx, name string, reqs []*Req) {
	w := st.W
	im := w.image(name)
	if im == nil {
		return
	}
	st.Stat.probe("image-walks")
	pos := 0 // position in the host list the worker may ask next
	delivered := false
	var lastHost string
	pageOK := map[string]bool{}
	for _, r := range reqs {
		if delivered {
			st.v("P15", "further", "%s is requested although %s has already delivered %s", r.URL, lastHost, name)
			return
		}
		if strings.HasPrefix(r.Key, "P|") {
			h := strings.Split(r.Key, "|")[1]
			i := -1
			for k, x := range w.PageHosts {
				if x == h && k >= pos {
					i = k
					break
				}
			}
			if i < 0 {
				// a second attempt in the same run, e.g. for another article
				pos = 0
				for k, x := range w.PageHosts {
					if x == h {
						i = k
						break
					}
				}
			}
			if i < 0 {
				return
			}
			// sources may be skipped only if their page was cached and their file failed
			for k := pos; k < i; k++ {
				if !st.sourceFailed(c, name, w.PageHosts[k], reqs, r) {
					st.v("P15", "skipped", "source %s is asked for %s although %s, which comes first, was not asked or has not failed", h, name, w.PageHosts[k])
					return
				}
			}
			pos = i
			if r.ok() {
				pageOK[h] = true
			} else {
				pos = i + 1
			}
			lastHost = h
			continue
		}
		if r.ok() {
			delivered = true
		} else if pos < len(w.PageHosts) {
			pos++
		}
	}
}

func (st *State) sourceFailed(c *procCtx, name, host string, reqs []*Req, before *Req) bool {
	for _, r := range reqs {
		if r.Start > before.Start || r == before {
			break
		}
		if strings.HasPrefix(r.Key, "P|"+host+"|") && !r.ok() {
			return true
		}
		if strings.HasPrefix(r.Key, "F|"+seg(host)+"|") && !r.ok() {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- successful runs

func (st *State) checkSuccess(c *procCtx, net *Net) {
	res := c.res
	cfg := c.cfg
	p := res.Proc
	st.checkReleased(c, net)
	st.checkClean(c)
	if !res.OutByRun {
		st.v("P04", "no-output", "the run ends with success but did not write %s", res.OutPath)
		return
	}
	// every command that failed must have been made up for
	for i, e := range res.Execs {
		if e.Code == 0 && e.Fault == "" {
			continue
		}
		good := false
		for _, o := range res.Execs[i+1:] {
			good = good || (o.Tool == e.Tool && o.In == e.In && path.Base(o.Out) == path.Base(e.Out) && o.Code == 0)
		}
		if !good {
			st.v("P04", "command-"+e.Tool, "the command %s %s failed (%s, status %d) but the run ends with success", e.Tool, strings.Join(e.Args, " "), e.Fault, e.Code)
		}
	}
	_ = p
	if st.W.hostile() {
		return
	}
	if cfg.stats() {
		st.checkStats(c)
	} else if cfg.Driver == "pandoc" {
		st.checkBook(c)
	} else {
		st.checkInternal(c)
	}
	if cfg.Evict == "lru" && !st.multi && len(c.run.FS) == 0 && c.run.Cap == 0 && cfg.quiet() {
		st.checkUse(c)
	}
	st.checkExecs(c)
}

// checkReleased: nothing is open when the program ends by itself (P17).
func (st *State) checkReleased(c *procCtx, net *Net) {
	var open []string
	for f := range c.res.Proc.Handles {
		if f.Exec == "" {
			open = append(open, f.Path())
		}
	}
	sort.Strings(open)
	if len(open) > 0 {
		st.v("P17", "file-at-exit", "open at the end of the run: %s", strings.Join(open, ", "))
	}
	for _, r := range c.res.Log {
		if r.HasBody && !r.Closed {
			st.v("P17", fmt.Sprintf("body-at-exit-%d", r.Status), "the body of the answer to %s (status %d) is never closed", r.URL, r.Status)
			break
		}
	}
}

// checkClean: no temporary files after success (P20).
func (st *State) checkClean(c *procCtx) {
	if st.multi || c.res.remFault {
		return
	}
	cache := c.cfg.CacheDir
	var bad []string
	st.FS.Walk("/", func(p string, n *rt.Inode) {
		r, in := rel(cache, p)
		if in {
			if n.Dir {
				return
			}
			d := finalDir(r)
			_, deliv := st.relInfo[r]
			if d == "" || strings.Count(r, "/") != 1 || !(st.Known[r] || deliv) {
				bad = append(bad, r)
			}
			return
		}
		if n.Dir {
			return
		}
		if p == c.res.OutPath || p == c.run.outPath() || strings.HasPrefix(p, WorkDir+"/") && st.inputs[p] || strings.HasPrefix(p, "/usr/") {
			return
		}
		for _, o := range st.Results {
			if o.OutPath == p || o.Run.outPath() == p {
				return
			}
		}
		bad = append(bad, p)
	})
	if len(bad) > 0 {
		sort.Strings(bad)
		sig := "left"
		if strings.HasPrefix(bad[0], ".tmp") {
			sig = "left-tmp"
		}
		st.v("P20", sig, "after a successful run these files are left: %s", strings.Join(bad, ", "))
	}
}

// checkUse: with usage-based eviction every cached download used in the run carries the time of use.
func (st *State) checkUse(c *procCtx) {
	imgs, math := st.needed(c.res)
	var rels []string
	for _, i := range imgs {
		rels = append(rels, "images/"+sanitize(strings.ReplaceAll(i, " ", "_")))
	}
	for _, m := range math {
		rels = append(rels, "math/"+sha1hex(m), "images/"+sanitize(st.W.mathLoc(m))+".svg")
	}
	if c.run.Mode != "standalone" {
		for _, a := range c.run.Articles {
			rels = append(rels, "articles/"+sanitize(strings.ReplaceAll(a, " ", "_"))+".json")
		}
	}
	for _, r := range rels {
		n := st.FS.Lookup(path.Join(c.cfg.CacheDir, r))
		if n != nil && n.Mtime < c.res.StartNow-2*st.FS.Gran-1_000_000_000 {
			st.v("P09", "use-not-recorded", "%s was used in this run but its last use is recorded %d s before the run", r, (c.res.StartNow-n.Mtime)/1e9)
		}
	}
}

// checkExecs: no image is converted more often than it was downloaded (P16).
func (st *State) checkExecs(c *procCtx) {
	res := c.res
	if st.multi || !res.undisturbed() {
		return
	}
	conv := map[string]int{}
	for _, e := range res.Execs {
		if e.Tool == "pandoc" || strings.EqualFold(path.Ext(e.In), path.Ext(e.Out)) || e.Code != 0 {
			continue
		}
		if r, ok := rel(c.cfg.CacheDir, e.In); ok {
			conv[r]++
		}
	}
	for _, r := range sortedKeys(conv) {
		if !strings.HasPrefix(r, "images/") || st.isMath(r) {
			continue
		}
		if _, ok := st.relInfo[r]; !ok {
			continue
		}
		down := 0
		for _, q := range res.Log {
			for _, x := range q.Rels {
				if x == r && q.Status == 200 {
					down++
				}
			}
		}
		max := down
		if _, ok := res.Before[r]; ok && (down == 0 || res.EndNow-res.StartNow > minute) {
			max++ // the cached file, which perhaps expires later in this run
		} else if down == 0 {
			max = 1
		}
		if conv[r] > max {
			st.v("P16", "converted-again", "%s is converted %d times for %d downloads", r, conv[r], down)
		}
	}
}

func (st *State) isMath(r string) bool {
	for _, m := range st.W.allMath() {
		l := "images/" + sanitize(st.W.mathLoc(m))
		if r == l+".svg" || r == l+".png" {
			return true
		}
	}
	return false
}

var verOfRe = regexp.MustCompile(`#(\d+)`)

// versions returns which versions of a cached download this run may use; nil means any.
func (st *State) versions(res *RunResult, r string) map[int]bool {
	info, ok := st.relInfo[r]
	if !ok || st.multi || st.paired {
		return nil
	}
	for _, q := range res.Log {
		for _, x := range q.Rels {
			if x == r && q.ok() {
				return map[int]bool{res.Vers.Of(info.vkey): true}
			}
		}
	}
	b := res.Before[r]
	if b == nil {
		return nil
	}
	if v, ok := st.DelVer[r+"\x00"+string(b.Data)]; ok {
		return map[int]bool{v: true}
	}
	if m := verOfRe.FindStringSubmatch(string(b.Data)); m != nil {
		v, _ := strconv.Atoi(m[1])
		return map[int]bool{v: true}
	}
	return nil
}

var markRe = regexp.MustCompile(`^mk(\d+)v(\d+)([zZ])$`)

// owners maps marker numbers to the template they belong to ("" for articles).
func (w *World) owners() map[int]string {
	m := map[int]string{}
	var rec func(bs []*Block, o string)
	rec = func(bs []*Block, o string) {
		for _, b := range bs {
			m[b.ID] = o
			m[b.ID+1] = o
			rec(b.Sub, o)
		}
	}
	for _, t := range w.Templates {
		rec(t.Pre, t.Name)
		rec(t.Post, t.Name)
		f := func(n *Node) { m[n.ID] = t.Name }
		walkNodes(t.RichPre, f)
		walkNodes(t.RichPost, f)
	}
	return m
}

// checkVersions compares the versions of the markers in a document with the allowed ones (P07).
func (st *State) checkVersions(c *procCtx, title string, atoms []string) {
	res := c.res
	own := st.W.owners()
	av := st.versions(res, "articles/"+sanitize(strings.ReplaceAll(title, " ", "_"))+".json")
	if c.run.Mode == "standalone" {
		av = map[int]bool{res.Vers.Of("A:" + st.W.article(title).Title): true}
	}
	tv := map[string]map[int]bool{}
	anyT := map[string]bool{}
	for r, info := range st.relInfo {
		if !strings.HasPrefix(info.vkey, "T:") {
			continue
		}
		t := info.vkey[2:]
		vs := st.versions(res, r)
		if vs == nil {
			// unknown only if this run could have used it
			if _, ok := res.Before[r]; ok || st.multi || st.paired {
				anyT[t] = true
			}
			continue
		}
		if tv[t] == nil {
			tv[t] = map[int]bool{}
		}
		for v := range vs {
			tv[t][v] = true
		}
	}
	for _, a := range atoms {
		id, v, ok := unmk(a)
		if !ok {
			continue
		}
		t := own[id]
		allowed := av
		what := "article " + title
		if t != "" {
			if anyT[t] {
				continue
			}
			allowed = tv[t]
			what = "template " + t
		}
		if allowed != nil && !allowed[v] {
			st.v("P07", "old-"+strings.SplitN(what, " ", 2)[0], "the book contains version %d of %s, allowed is %v", v, what, keysOf(allowed))
			return
		}
	}
}

func keysOf(m map[int]bool) []int {
	var k []int
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return k
}

func stripAll(a []string) []string {
	o := make([]string, len(a))
	for i, x := range a {
		o[i] = StripVer(x)
	}
	return o
}

// notConverted is asked about an image that is missing in a book.
func (st *State) notConverted(c *procCtx, rel string) {
	src, ok := strings.CutSuffix(rel, ".png")
	if !ok || path.Ext(src) == "" || st.multi || st.paired || c.cfg.Evict != "none" || st.Sc.Profile == "alike" || st.Disrupt {
		return
	}
	if c.cfg.BookImagePath(path.Base(src)) != rel || st.FS.Lookup(path.Join(c.cfg.CacheDir, src)) == nil {
		return
	}
	for _, e := range c.res.Execs {
		if path.Base(e.In) == path.Base(src) {
			return
		}
	}
	st.v("P16", "not-converted", "image %s was downloaded and is used in the book, but not converted", src)
}

// checkBook compares the book with the model.
func (st *State) checkBook(c *procCtx) {
	res := c.res
	b, err := ParseBook(res.Out)
	if err != nil {
		st.blame(res, "unfinished", "", "the run ends with success but the output is %v (%d bytes)", err, len(res.Out))
		return
	}
	st.Stat.probe("books")
	if bytes.Contains(res.Out, []byte("FAILMARK")) {
		st.v("P03", "in-book", "the book contains a part of a failed answer")
	}
	var got, want []string
	for _, d := range b.Docs {
		got = append(got, d.File)
	}
	for _, t := range c.run.Articles {
		want = append(want, sanitize(t)+".html")
	}
	if !reflect.DeepEqual(got, want) {
		st.blame(res, "articles", "", "the book consists of %q instead of %q", got, want)
		return
	}
	for i, t := range c.run.Articles {
		a := st.W.article(t)
		exp := st.W.Expect(a, t, res.Vers, c.cfg)
		d := &b.Docs[i]
		if exp.Tree != nil && !st.checkRich(t, d.HTML, exp, true) {
			return
		}
		ga, ea := stripAll(d.Atoms), stripAll(exp.Atoms)
		if !reflect.DeepEqual(ga, ea) {
			st.blame(res, "content", "", "article %s differs from the model: %s", t, diffAtoms(ga, ea))
			return
		}
		st.checkVersions(c, t, d.Atoms)
		for _, m := range d.Missing {
			kf := ""
			if c.cfg.Evict != "none" && (res.Evicted[m] || res.Evicted[strings.TrimSuffix(m, ".png")]) {
				kf = "evicted-image"
				st.vk("P04", "missing-image", kf, "the run ends with success but image %s of article %s is missing in the book", m, t)
				continue
			}
			if by := st.imgRemoved[m]; st.multi && by != "" {
				kf = by
			}
			st.blame(res, "missing-image", kf, "the run ends with success but image %s of article %s is missing in the book", m, t)
			st.notConverted(c, m)
		}
		st.checkImages(c, d, exp)
	}
	st.checkEqual(c)
}

func diffAtoms(g, e []string) string {
	i := 0
	for i < len(g) && i < len(e) && g[i] == e[i] {
		i++
	}
	at := func(x []string) string {
		if i < len(x) {
			return x[i]
		}
		return "(end)"
	}
	return fmt.Sprintf("position %d of %d/%d: found %q, expected %q", i, len(g), len(e), at(g), at(e))
}

// checkImages compares the bytes of the images in a document with the model.
func (st *State) checkImages(c *procCtx, d *BookDoc, exp *Doc) {
	byRel := map[string]string{}
	for _, im := range d.Images {
		byRel[im.Rel] = im.Data
	}
	done := map[string]bool{}
	for _, name := range exp.Images {
		rl := c.cfg.BookImagePath(name)
		data, ok := byRel[rl]
		if !ok || done[rl] {
			continue
		}
		done[rl] = true
		st.checkImage(c, name, rl, data)
	}
	for _, m := range exp.Math {
		rl := c.cfg.BookMathPath(st.W, m)
		data, ok := byRel[rl]
		if !ok || done[rl] {
			continue
		}
		done[rl] = true
		svg := "images/" + sanitize(st.W.mathLoc(m)) + ".svg"
		src := svg
		if c.cfg.MathConv == "wikimedia" {
			src = "images/" + sanitize(st.W.mathLoc(m)) + ".png"
		}
		vs := st.versions(c.res, src)
		good, anyVer := false, false
		for v := 1; v <= st.maxVer; v++ {
			var x string
			switch c.cfg.MathConv {
			case "wikimedia":
				x = st.W.mathPng(m, v)
			case "none":
				x = st.W.mathSvg(m, v)
			default:
				o, _ := toolTransform(c.cfg.MathCmd, "x.svg", "x.png", []byte(st.W.mathSvg(m, v)))
				x = string(o)
			}
			if x == data {
				anyVer = true
				good = good || vs == nil || vs[v]
			}
		}
		if !anyVer {
			st.blame(c.res, "formula", "", "the image of formula %s in the book is not the rendered formula: %s", m, describe(data))
			st.v("P16", "formula", "the image of formula %s in the book is not the (converted) rendered formula: %s", m, describe(data))
		} else if !good {
			st.v("P07", "old-formula", "the image of formula %s in the book is of another version than %v: %s", m, keysOf(vs), describe(data))
		}
	}
}

func describe(data string) string {
	f, prov, n, ok := parseContainer([]byte(data))
	if !ok {
		return fmt.Sprintf("%d bytes that are no complete image", len(data))
	}
	return fmt.Sprintf("%s from %s (%d)", f, prov, n)
}

func (st *State) checkImage(c *procCtx, name, rl, data string) {
	res := c.res
	w := st.W
	raw := "images/" + sanitize(strings.ReplaceAll(name, " ", "_"))
	vs := st.versions(res, raw)
	bodies := sortedKeys(st.Deliv[raw])
	verOK, anyOK, srcOK := false, false, false
	for _, body := range bodies {
		v := st.DelVer[raw+"\x00"+body]
		for _, cfg := range st.imgCfgs(c) {
			x, ok := cfg.Pipeline(name, body)
			if !ok || x != data {
				continue
			}
			anyOK = true
			first, _ := w.RawImage(name, v)
			s := first == body || st.SrcFault
			srcOK = srcOK || s
			if vs == nil || vs[v] {
				verOK = verOK || s
			}
		}
	}
	switch {
	case verOK:
		return
	case anyOK && !srcOK:
		st.v("P15", "wrong-source", "image %s in the book is %s, which is not of the first source that delivers it", name, describe(data))
		st.blameRun(res, "wrong-source", "", "image %s in the book is %s, which is not of the first source that delivers it", name, describe(data))
	case anyOK:
		kf := ""
		if d, ok := st.Raw[raw]; ok && rl != raw && d == st.content(c, raw) {
			kf = "adopted-unprocessed" // the dying process replaced the image but not what is made of it
		}
		st.vk("P07", "old-image", kf, "image %s in the book is %s, but version %v is expected", name, describe(data), keysOf(vs))
		st.blameRun(res, "old-image", kf, "image %s in the book is %s, but version %v is expected", name, describe(data), keysOf(vs))
	default:
		kf := ""
		if (st.multi || st.paired) && (st.unfinished(rl, data) || st.twice(rl, []byte(data))) {
			kf = "processed-by-two-processes"
		} else if d, ok := st.Raw[rl]; ok && d == data || rl != raw && st.rawOrigin(rl, data) {
			kf = "adopted-unprocessed"
		}
		st.vk("P16", "pipeline", kf, "image %s in the book is %s, which is not the result of downloading, converting and processing it once", name, describe(data))
		st.blameRun(res, "pipeline", kf, "image %s in the book is %s, which is not the result of downloading, converting and processing it once", name, describe(data))
		if b := res.Before[rl]; kf == "" && res.Code == 0 && (b == nil || string(b.Data) != data) && res.hitAny("fs-", "exec-") {
			st.v("P04", "unprocessed-image", "a disk operation or command failed and the run ends with success, but image %s in the book is %s, which is not the result of downloading, converting and processing it once", name, describe(data))
		}
		if _, _, _, ok := parseContainer([]byte(data)); !ok {
			st.vk("P04", "broken-image", kf, "image %s in the book is not a complete image: %s", name, describe(data))
		}
	}
}

// content is what a cached file holds now.
func (st *State) content(c *procCtx, r string) string {
	if n := st.FS.Lookup(c.cfg.CacheDir + "/" + r); n != nil {
		return string(n.Data)
	}
	return ""
}

// rawOrigin: the data was converted from or is a file that a dying process left unprocessed.
func (st *State) rawOrigin(rl, data string) bool {
	src := strings.TrimSuffix(rl, ".png")
	d, ok := st.Raw[src]
	if !ok {
		return false
	}
	for _, cfg := range st.Cfgs {
		for _, cmd := range []string{cfg.PdfCmd, cfg.SvgCmd, cfg.WebpCmd} {
			if cmd == "" {
				continue
			}
			o, ok := toolTransform(cmd, path.Base(src), path.Base(rl), []byte(d))
			if !ok {
				continue
			}
			if string(o) == data {
				return true
			}
			if cfg.ProcCmd != "" {
				if o2, ok := toolTransform(cfg.ProcCmd, path.Base(rl), path.Base(rl), o); ok && string(o2) == data {
					return true
				}
			}
		}
	}
	return false
}

// imgCfgs lists the configurations whose commands may have made a cached image.
func (st *State) imgCfgs(c *procCtx) []*Cfg {
	out := []*Cfg{c.cfg}
	for _, o := range st.Results {
		if o.Run.Cfg != c.cfg && o.Run.Cfg.CacheDir == c.cfg.CacheDir {
			out = append(out, o.Run.Cfg)
		}
	}
	return out
}

// trackRaw remembers images which a process that died or failed left unprocessed.
func (st *State) trackRaw(c *procCtx) {
	res := c.res
	if res.How == "exit" && res.Code == 0 {
		return
	}
	for r, n := range cacheFiles(st.FS, c.cfg.CacheDir) {
		if !strings.HasPrefix(r, "images/") {
			continue
		}
		if b := res.Before[r]; b != nil && bytes.Equal(b.Data, n.Data) {
			continue
		}
		if x := strings.TrimSuffix(r, ".png"); c.failTask > 0 && c.ownImg[c.failTask] == x && !c.tried[x] {
			continue // the task that ended the process knew that it could not finish this image
		}
		if _, ok := st.Deliv[r][string(n.Data)]; ok {
			st.Raw[r] = string(n.Data)
			continue
		}
		// viewbox step done but nothing else, or converted but not processed
		f, prov, _, ok := parseContainer(n.Data)
		if ok && f == "PNG" && strings.Count(prov, ">") == 1 && c.cfg.ProcCmd != "" && strings.HasSuffix(r, ".png") && st.Deliv[r] == nil {
			st.Raw[r] = string(n.Data)
		}
		if ok && f == "SVG" {
			st.Raw[r] = string(n.Data)
		}
	}
}

// ---------------------------------------------------------------- statistics

type statsFile struct {
	Name  string         `json:"article-name"`
	Chars int            `json:"number-of-characters"`
	Words int            `json:"number-of-words"`
	Int   int            `json:"number-of-internal-links"`
	Ext   int            `json:"number-of-external-links"`
	Imgs  int            `json:"number-of-images"`
	Math  int            `json:"number-of-math"`
	RefD  int            `json:"number-of-ref-definitions"`
	RefU  int            `json:"number-of-ref-usages"`
	Links map[string]int `json:"internal-links"`
	Unc   map[string]int `json:"uncovered-internal-links"`
	Top   map[string]int `json:"top-10-uncovered-internal-links"`
	Time  int            `json:"estimated-reading-time-minutes"`
}

func (st *State) checkStats(c *procCtx) {
	res := c.res
	st.Stat.probe("statistics")
	sum := statsFile{Links: map[string]int{}, Unc: map[string]int{}}
	names := map[string]bool{}
	for _, t := range c.run.Articles {
		n := st.FS.Lookup(path.Join(c.cfg.CacheDir, docRel(c.cfg, t)))
		var s statsFile
		if n == nil {
			if c.cfg.Evict == "none" && !st.multi {
				st.v("P19", "no-article-file", "there are no statistics of article %s", t)
			}
			return
		}
		if json.Unmarshal(n.Data, &s) != nil {
			return // reported as P02
		}
		if s.Name != t {
			st.v("P19", "article-name", "the statistics of article %s are named %s", t, s.Name)
		}
		if a := st.W.article(t); a != nil && len(a.Rich) > 0 {
			if exp := st.W.Expect(a, t, res.Vers, c.cfg); exp.Counts != nil {
				st.checkCounts(t, &s, exp.Counts)
			}
		}
		names[t] = true
		sum.Chars += s.Chars
		sum.Words += s.Words
		sum.Int += s.Int
		sum.Ext += s.Ext
		sum.Imgs += s.Imgs
		sum.Math += s.Math
		sum.RefD += s.RefD
		sum.RefU += s.RefU
		sum.Time += s.Time
		for k, v := range s.Links {
			sum.Links[k] += v
		}
	}
	for k, v := range sum.Links {
		if !names[k] {
			sum.Unc[k] += v
		}
	}
	// A disturbed run which claims success with wrong figures is also one with a wrong exit status.
	wrong := func(sig, format string, a ...any) {
		st.v("P19", sig, format, a...)
		if !res.undisturbed() && !st.multi && !st.paired {
			st.v("P04", "statistics", "the run ends with success, but "+format, a...)
		}
	}
	if c.cfg.OutputType == "stats-json" {
		var got statsFile
		if !bytes.HasSuffix(res.Out, []byte("}\n")) || json.Unmarshal(res.Out, &got) != nil {
			st.blame(res, "unfinished", "", "the run ends with success but the statistics are incomplete (%d bytes)", len(res.Out))
			return
		}
		if got.Links == nil {
			got.Links = map[string]int{}
		}
		if got.Unc == nil {
			got.Unc = map[string]int{}
		}
		top := got.Top
		got.Top, got.Name = nil, ""
		if !reflect.DeepEqual(got, sum) {
			wrong("sums", "combined statistics %s differ from the sums over the articles %s", mustJSON(got), mustJSON(sum))
		}
		st.checkTop(top, sum.Unc, 10)
	} else {
		out := string(res.Out)
		if !strings.HasSuffix(out, "\n\n") && !strings.HasSuffix(out, ")\n") && !strings.HasSuffix(out, "\n") || !strings.HasPrefix(out, "Statistics") {
			st.blame(res, "unfinished", "", "the run ends with success but the statistics are incomplete (%d bytes)", len(res.Out))
			return
		}
		num := func(label string) (int, bool) {
			m := regexp.MustCompile(label + `\s*: (\d+)`).FindStringSubmatch(out)
			if m == nil {
				return 0, false
			}
			n, _ := strconv.Atoi(m[1])
			return n, true
		}
		if n, ok := num("Number of characters"); !ok || n != sum.Chars {
			wrong("sums", "combined statistics have %d characters, the sum over the articles is %d", n, sum.Chars)
		}
		if n, ok := num("Number of internal links"); !ok || n != sum.Int {
			wrong("sums", "combined statistics have %d internal links, the sum over the articles is %d", n, sum.Int)
		}
		for _, t := range sortedKeys(names) {
			if !strings.Contains(out, "\n  "+t+"\n") {
				wrong("article-missing", "the statistics do not name article %s", t)
			}
		}
		if n, ok := num(`total`); !ok || n != len(sum.Unc) {
			st.v("P19", "uncovered", "the statistics count %d uncovered links, there are %d", n, len(sum.Unc))
		}
		top := map[string]int{}
		if i := strings.Index(out, "that are not part of the book"); i >= 0 {
			for _, m := range regexp.MustCompile(`(?m)^  (.*) \((\d+)\)$`).FindAllStringSubmatch(out[i:], -1) {
				top[m[1]], _ = strconv.Atoi(m[2])
			}
		}
		st.checkTop(top, sum.Unc, 20)
	}
	st.checkEqual(c)
}

// checkTop checks a list of the most frequent uncovered links.
func (st *State) checkTop(top, unc map[string]int, max int) {
	want := len(unc)
	if want > max {
		want = max
	}
	if len(top) != want {
		st.v("P19", "top", "%d links are listed as most frequent uncovered ones, expected are %d", len(top), want)
		return
	}
	low := 1 << 30
	for _, k := range sortedKeys(top) {
		v := top[k]
		if unc[k] != v {
			st.v("P19", "uncovered", "link %s is listed as uncovered %d times, it occurs %d times", k, v, unc[k])
			return
		}
		if v < low {
			low = v
		}
	}
	for _, k := range sortedKeys(unc) {
		v := unc[k]
		if _, ok := top[k]; !ok && v > low {
			st.v("P19", "top", "link %s (%d times) is missing among the most frequent uncovered links", k, v)
			return
		}
	}
}

// unfinished: data is an intermediate stage of an image: downloaded but not yet converted or processed.
func (st *State) unfinished(rl, data string) bool {
	if _, ok := st.Deliv[rl][data]; ok {
		return true
	}
	for _, cfg := range st.Cfgs {
		for _, body := range sortedKeys(st.Deliv[rl]) {
			if cfg.SvgViewbox && absSize(body) == data {
				return true
			}
		}
		src := strings.TrimSuffix(rl, ".png")
		for _, body := range sortedKeys(st.Deliv[src]) {
			stages := []string{body}
			if cfg.SvgViewbox {
				stages = append(stages, absSize(body))
			}
			for _, x := range stages {
				for _, cmd := range []string{cfg.PdfCmd, cfg.SvgCmd, cfg.WebpCmd} {
					if cmd == "" {
						continue
					}
					o, ok := toolTransform(cmd, path.Base(src), path.Base(rl), []byte(x))
					if !ok {
						continue
					}
					if string(o) == data {
						return true
					}
					if o2, ok := toolTransform(cfg.ProcCmd, path.Base(rl), path.Base(rl), o); ok && string(o2) == data {
						return true
					}
				}
			}
		}
	}
	return false
}

// twice: the data went through the image processing exactly twice.
func (st *State) twice(rl string, data []byte) bool {
	for _, cfg := range st.Cfgs {
		if cfg.ProcCmd == "" {
			continue
		}
		for x := range st.allowedImages(rl) {
			if o, ok := toolTransform(cfg.ProcCmd, path.Base(rl), path.Base(rl), []byte(x)); ok && bytes.Equal(o, data) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- comparison with a plain run

// plain holds the output of an undisturbed sequential run on an empty cache.
var plain = map[uint64]*plainOut{}

type plainOut struct {
	out  []byte
	code int
}

func (st *State) checkEqual(c *procCtx) {
	if st.maxVer > 1 || st.SrcFault || c.cfg.Evict != "none" || st.W.hostile() {
		return
	}
	st.equal = append(st.equal, c.res)
}

func (st *State) compareAll() {
	if len(st.equal) == 0 {
		return
	}
	for i, r := range st.equal {
		if i > 0 && r.inputs() == st.equal[0].inputs() && bytes.Equal(r.Out, st.equal[0].Out) {
			continue
		}
		p := Plain(st.W, r.Run)
		if p == nil || p.code != 0 {
			continue
		}
		st.Stat.probe("compared-with-sequential-run")
		if sameBook(p.out, r.Out) {
			continue
		}
		st.step = r.Step
		d := diffBooks(p.out, r.Out)
		kf := ""
		for _, v := range st.Viols {
			if v.KF != "" {
				kf = v.KF
			}
		}
		if r.Run.Cfg.stats() {
			st.vk("P19", "differs", kf, "the statistics differ from those of a sequential run on an empty cache: %s", d)
		}
		st.paired = st.Sc.Steps[r.Step].Kind == "pair" || st.pairBefore(r.Step)
		st.blameRun(r, "differs", kf, "the result differs from that of a sequential run on an empty cache: %s", d)
	}
}

func (st *State) pairBefore(n int) bool {
	for i := 0; i < n; i++ {
		if st.Sc.Steps[i].Kind == "pair" {
			return true
		}
	}
	return false
}

// Plain runs one worker sequentially on an empty cache without any fault.
func Plain(w *World, r *Run) *plainOut {
	c := *r.Cfg
	c.Workers, c.Evict, c.MaxSize, c.MaxAge, c.Force, c.Log = 1, "none", 1<<40, 1<<40, false, ""
	run := &Run{Mode: r.Mode, Articles: r.Articles, Cfg: &c, Out: WorkDir + "/plain.epub"}
	switch c.OutputType {
	case "stats-json":
		run.Out = WorkDir + "/plain.json"
	case "stats-txt":
		run.Out = WorkDir + "/plain.txt"
	}
	k := rt.Hash64(string(mustJSON(w)), string(mustJSON(run)))
	if p, ok := plain[k]; ok {
		return p
	}
	sc := &Scenario{World: w, Steps: []*Step{{Kind: "run", Run: run, Pol: rt.Policy{Kind: "sequential"}, Seed: 1}}}
	st := NewState(sc)
	st.knownNames()
	st.Cfgs = []*Cfg{&c}
	st.Step(sc.Steps[0])
	res := st.Results[0]
	p := &plainOut{out: res.Out, code: res.Code}
	if res.How != "exit" {
		p.code = 1
	}
	if len(plain) > 400 {
		plain = map[uint64]*plainOut{}
	}
	plain[k] = p
	return p
}
