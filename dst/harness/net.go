package harness

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"time"

	"sim/rt"
)

// Req is one request in the network log.
type Req struct {
	N       int
	Key     string // resource key, "" if the request fits no resource
	Method  string
	URL     string
	UA      string
	CType   string
	Body    string
	Proc    int
	Task    int
	Start   int64
	Answer  int64 // time the response (or error) was handed over
	Status  int   // 0 = connection error
	Fault   string
	Retry   string // Retry-After of a 429
	Sent    string // complete body of the answer
	Full    bool   // the body was read to its end
	Broken  bool   // reading the body failed
	Closed  bool
	HasBody bool
	Flight  int // requests under way (this one included) at its start, same process
	Host    string
	OpenOwn int // response bodies and files the requesting task had open
	done    bool
	bad     string
	Rels    []string // cache files the answer may be stored in
	Ver     int
}

func (r *Req) String() string {
	return fmt.Sprintf("#%d %s %s -> %d %s", r.N, r.Method, r.Key, r.Status, r.Fault)
}

// Net is the simulated network with all servers.
type Net struct {
	st     *State
	w      *World
	vers   Vers
	Log    []*Req
	count  map[string]int
	faults map[int][]NetFault // per process
	down   map[int]bool
	crash  map[int]*Crash
	reqs   map[int]int
	Fired  map[string]int
	Hit    map[int]map[string]int // per process: fault kinds that struck
	onReq  func(r *Req)
}

// resource describes the answer of a server to a request without faults.
type resource struct {
	key    string
	status int
	apierr string
	body   string
	header map[string]string
	rels   []string // cache files that may hold the body
	vkey   string   // which version counter the body depends on
}

func (n *Net) apiKeyHost(host string) bool {
	if host == n.w.Inst+"."+n.w.Host {
		return true
	}
	for _, h := range n.w.PageHosts {
		if h == host {
			return true
		}
	}
	return false
}

func articleJSON(title, text string) string {
	return string(mustJSON(map[string]any{"parse": map[string]any{"title": title, "pageid": 7, "wikitext": map[string]any{"*": text}}}))
}

// lookup finds the resource a request names. ok is false if the request is none of those the
// program may send.
func (n *Net) lookup(method string, u *url.URL, body string) (*resource, bool) {
	host := u.Host
	w := n.w
	full := u.Scheme + "://" + u.Host + u.EscapedPath()
	if strings.HasPrefix(full, w.MathAPI+"/") {
		rest := strings.TrimPrefix(full, w.MathAPI)
		switch {
		case method == "POST" && rest == "/check/tex":
			q, err := url.ParseQuery(body)
			if err != nil || len(q) != 1 || len(q["q"]) != 1 {
				return nil, false
			}
			t := q.Get("q")
			if !strings.HasPrefix(t, `{\displaystyle `) || !strings.HasSuffix(t, "}") {
				return nil, false
			}
			tex := t[len(`{\displaystyle `) : len(t)-1]
			return &resource{key: "M|" + tex, status: 200, body: `{"success":true}`, header: map[string]string{"X-Resource-Location": w.mathLoc(tex)},
				rels: []string{"math/" + sha1hex(tex)}}, true
		case method == "GET" && (strings.HasPrefix(rest, "/render/svg/") || strings.HasPrefix(rest, "/render/png/")):
			loc := rest[len("/render/svg/"):]
			if d, err := url.PathUnescape(loc); err == nil {
				loc = d
			}
			kind := "S"
			if strings.HasPrefix(rest, "/render/png/") {
				kind = "N"
			}
			for _, tex := range w.allMath() {
				if w.mathLoc(tex) == loc {
					b := w.mathSvg(tex, n.vers.Of("M:"+tex))
					ext := ".svg"
					if kind == "N" {
						b = w.mathPng(tex, n.vers.Of("M:"+tex))
						ext = ".png"
					}
					return &resource{key: kind + "|" + loc, status: 200, body: b, rels: []string{"images/" + sanitize(loc) + ext}, vkey: "M:" + tex}, true
				}
			}
			return &resource{key: kind + "|" + loc, status: 404, body: "FAILMARK not found"}, false
		}
		return nil, false
	}
	if u.Path == "/w/api.php" && method == "GET" && n.apiKeyHost(host) && u.Scheme == "https" {
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			return nil, false
		}
		exp := func(m map[string]string) bool {
			if len(q) != len(m)+1 {
				return false
			}
			for k, v := range m {
				if len(q[k]) != 1 || q.Get(k) != v {
					return false
				}
			}
			return true
		}
		if q.Get("action") == "parse" && exp(map[string]string{"action": "parse", "prop": "wikitext", "redirects": "true", "format": "json"}) {
			page := q.Get("page")
			if page == "" {
				return nil, false
			}
			rel := "articles/" + sanitize(strings.ReplaceAll(page, " ", "_")) + ".json"
			if strings.HasPrefix(page, "File:") {
				name := page[5:]
				isHost := false
				for _, h := range w.PageHosts {
					isHost = isHost || h == host
				}
				im := w.image(name)
				if im != nil && isHost {
					key := "P|" + host + "|" + strings.ReplaceAll(im.Name, " ", "_")
					p, ok := im.Pages[host]
					if !ok || p.Kind == "missing" {
						return &resource{key: key, status: 404, body: "FAILMARK no such page"}, true
					}
					if p.Kind == "apierr" {
						return &resource{key: key, status: 200, apierr: "missingtitle", body: `{"error":{"code":"missingtitle","info":"FAILMARK"}}`}, true
					}
					t := im.Name
					if p.Target != "" {
						t = p.Target
					}
					return &resource{key: key, status: 200, body: articleJSON("File:"+strings.ReplaceAll(t, "_", " "), "{{Information}}"), rels: []string{rel}}, true
				}
			}
			if host == w.Inst+"."+w.Host {
				if a := w.article(page); a != nil {
					t := a.Title
					if a.Target != "" {
						t = a.Target
					}
					return &resource{key: "A|" + strings.ReplaceAll(a.Title, " ", "_"), status: 200, body: articleJSON(t, w.Wikitext(a, n.vers.Of("A:"+a.Title))), rels: []string{rel}, vkey: "A:" + a.Title}, true
				}
			}
			return &resource{key: "?|" + page, status: 200, apierr: "missingtitle", body: `{"error":{"code":"missingtitle","info":"FAILMARK"}}`}, host == w.Inst+"."+w.Host && n.st.Sc.asksFor(page)
		}
		if q.Get("action") == "expandtemplates" && host == w.Inst+"."+w.Host {
			text := q.Get("text")
			if !exp(map[string]string{"action": "expandtemplates", "format": "json", "prop": "wikitext"}) || text == "" {
				return nil, false
			}
			res, ok := w.Expand(text, n.vers)
			h := sha1hex(text)
			b := string(mustJSON(map[string]any{"expandtemplates": map[string]any{"wikitext": res}}))
			vk := ""
			if m := tmplRe.FindStringSubmatch(text); m != nil {
				if t := w.template(m[1]); t != nil {
					vk = "T:" + t.Name
				}
			}
			return &resource{key: "T|" + h, status: 200, body: b, rels: []string{"templates/" + h}, vkey: vk}, ok
		}
		return nil, false
	}
	if host == w.ImgHost && method == "GET" && u.Scheme == "https" && u.RawQuery == "" {
		// /wikipedia/<seg>/<m0>/<m0m1>/<name>; the segment may be empty
		p := strings.Split(u.EscapedPath(), "/")
		if len(p) != 6 || p[1] != "wikipedia" {
			return nil, false
		}
		name, err := url.PathUnescape(p[5])
		if err != nil {
			return nil, false
		}
		key := "F|" + p[2] + "|" + name
		body, owner, ok := n.w.fileAt(p[2], name, n.vers)
		m := md5hex(name)
		if ok && p[3] == m[:1] && p[4] == m[:2] && !strings.Contains(name, " ") {
			var rels []string
			for _, im := range w.Images {
				for _, h := range sortedKeys(im.Pages) {
					pg := im.Pages[h]
					t := im.Name
					if pg.Target != "" {
						t = pg.Target
					}
					if strings.ReplaceAll(t, " ", "_") == name {
						rels = append(rels, "images/"+sanitize(strings.ReplaceAll(im.Name, " ", "_")))
					}
				}
			}
			return &resource{key: key, status: 200, body: body, rels: rels, vkey: "F:" + owner}, true
		}
		// A file that does not exist (there): legitimate to ask if some image page names it.
		known := false
		for _, im := range w.Images {
			if strings.ReplaceAll(im.Name, " ", "_") == name {
				known = true
			}
			for _, pg := range im.Pages {
				if strings.ReplaceAll(pg.Target, " ", "_") == name {
					known = true
				}
			}
		}
		segOK := false
		for _, h := range w.PageHosts {
			segOK = segOK || seg(h) == p[2]
		}
		return &resource{key: key, status: 404, body: "FAILMARK no such file"}, known && segOK && p[3] == m[:1] && p[4] == m[:2]
	}
	return nil, false
}

func (w *World) allMath() []string {
	var out []string
	seen := map[string]bool{}
	var rec func(bs []*Block)
	rec = func(bs []*Block) {
		for _, b := range bs {
			if b.K == "math" && !seen[b.S] {
				seen[b.S] = true
				out = append(out, b.S)
			}
			rec(b.Sub)
		}
	}
	rich := func(n *Node) {
		if n.K == "math" && !seen[n.S] {
			seen[n.S] = true
			out = append(out, n.S)
		}
	}
	for _, a := range w.Articles {
		rec(a.Blocks)
		walkNodes(a.Rich, rich)
	}
	for _, t := range w.Templates {
		rec(t.Pre)
		rec(t.Post)
		walkNodes(t.RichPre, rich)
		walkNodes(t.RichPost, rich)
	}
	return out
}

func (n *Net) fault(pid int, key string, nth int) *NetFault {
	for i := range n.faults[pid] {
		f := &n.faults[pid][i]
		if f.Key == key && (f.Nth == nth || f.Nth == -1) {
			return f
		}
	}
	return nil
}

func (n *Net) hit(pid int, kind string) {
	n.Fired["net-"+kind]++
	if n.Hit[pid] == nil {
		n.Hit[pid] = map[string]int{}
	}
	n.Hit[pid]["net-"+kind]++
}

// Do answers one request in the calling task.
func (n *Net) Do(x any) (any, error) {
	hr := x.(*http.Request)
	if hr.URL.Scheme != "http" && hr.URL.Scheme != "https" {
		// as the real transport; the EPUB library tries this with data URLs
		return nil, fmt.Errorf("unsupported protocol scheme %q", hr.URL.Scheme)
	}
	s := rt.S
	p := rt.CurProc()
	body := ""
	if hr.Body != nil {
		b, err := io.ReadAll(hr.Body)
		hr.Body.Close()
		if err != nil {
			return nil, err
		}
		body = string(b)
		if hr.ContentLength > 0 && int64(len(b)) != hr.ContentLength {
			// what the real transport does with a body that was consumed before
			r := &Req{N: len(n.Log), Method: hr.Method, URL: hr.URL.String(), Proc: p.ID, Task: rt.Cur().ID, Start: s.Now, Answer: s.Now, done: true, Host: hr.URL.Host,
				UA: hr.Header.Get("User-Agent"), bad: "body does not match its length"}
			n.Log = append(n.Log, r)
			return nil, fmt.Errorf("http: ContentLength=%d with Body length %d", hr.ContentLength, len(b))
		}
	}
	res, known := n.lookup(hr.Method, hr.URL, body)
	key := ""
	var rels []string
	if res != nil {
		key, rels = res.key, res.rels
	}
	r := &Req{N: len(n.Log), Key: key, Method: hr.Method, URL: hr.URL.String(), UA: hr.Header.Get("User-Agent"), CType: hr.Header.Get("Content-Type"),
		Body: body, Proc: p.ID, Task: rt.Cur().ID, Start: s.Now, Host: hr.URL.Host, Rels: rels}
	if !known {
		r.bad = "not a resource the run needs"
	}
	r.Flight = 1
	for _, o := range n.Log {
		if o.Proc == r.Proc && !o.done {
			r.Flight++
		}
	}
	n.Log = append(n.Log, r)
	p.ReqCount++
	n.reqs[p.ID]++
	s.Event("req", r.Method, key)
	if n.onReq != nil {
		n.onReq(r)
	}
	if c := n.crash[p.ID]; c != nil && c.Req > 0 && n.reqs[p.ID] == c.Req && c.When == "before" {
		s.Crash(p, "crash")
	}
	cnt := fmt.Sprintf("%d/%s", p.ID, key)
	nth := n.count[cnt]
	n.count[cnt]++
	f := n.fault(p.ID, key, nth)
	lat := int64(0)
	if n.w.LatMax > 0 {
		lat = int64(rt.Hash64("lat", strconv.FormatUint(n.w.LatSeed, 10), key, strconv.Itoa(nth))%uint64(n.w.LatMax*1000)) * 1000
		if n.w.SlowHost != "" && hr.URL.Host == n.w.SlowHost {
			lat *= 20
		}
	}
	if f != nil && f.Kind == "slow" {
		ms, _ := strconv.Atoi(f.Arg)
		lat += int64(ms) * int64(time.Millisecond)
		n.hit(p.ID, "slow")
		f = nil
	}
	rt.Sleep(lat + 1000)
	fin := func() { r.Answer = rt.S.Now }
	if c := n.crash[p.ID]; c != nil && c.Req > 0 && n.reqs[p.ID] >= c.Req && c.When != "before" {
		s.Crash(p, "crash")
	}
	if n.down[p.ID] {
		fin()
		r.done = true
		r.Fault = "conn"
		n.hit(p.ID, "down")
		return nil, &netErr{"dial tcp: lookup " + hr.URL.Host + ": no such host"}
	}
	if res == nil {
		fin()
		return n.answer(r, hr, 404, "FAILMARK", nil, -1, nil), nil
	}
	status, rbody := res.status, res.body
	if raw, ok := n.w.Raw[key]; ok {
		rbody = raw
	}
	hdr := map[string]string{"Content-Type": "application/json"}
	for k, v := range res.header {
		hdr[k] = v
	}
	if res.apierr != "" {
		hdr["MediaWiki-API-Error"] = res.apierr
	}
	cut := -1
	var cutErr error
	if f != nil {
		r.Fault = f.Kind
		n.hit(p.ID, f.Kind)
		s.Event("netfault", f.Kind, key)
		switch f.Kind {
		case "conn":
			fin()
			r.done = true
			return nil, &netErr{"connection refused"}
		case "status":
			status, _ = strconv.Atoi(f.Arg)
			if status == 0 {
				status = 500
			}
			rbody = failBody(rbody)
			if f.Off == 0 {
				hdr = map[string]string{}
			}
		case "apierr":
			hdr["MediaWiki-API-Error"] = "internal_api_error"
			rbody = failBody(rbody)
			if f.Arg != "loc" {
				delete(hdr, "X-Resource-Location")
			}
		case "429":
			status = 429
			r.Retry = f.Arg
			hdr = map[string]string{}
			if f.Arg != "-" {
				hdr["Retry-After"] = f.Arg
			}
			rbody = failBody(rbody)
		case "trunc", "reset":
			cut = f.Off
			if cut >= len(rbody) {
				cut = len(rbody) - 1
			}
			if cut < 0 {
				cut = 0
			}
			cutErr = io.ErrUnexpectedEOF
			if f.Kind == "reset" {
				cutErr = &netErr{syscall.ECONNRESET.Error()}
			}
		case "nohdr":
			delete(hdr, "X-Resource-Location")
			rbody = "FAILMARK no location"
		}
	}
	fin()
	// of the answer to a formula only the header counts
	if status == 200 && (cut < 0 || strings.HasPrefix(key, "M|")) && hdr["MediaWiki-API-Error"] == "" && r.Fault != "nohdr" {
		for _, rel := range res.rels {
			v := rbody
			if strings.HasPrefix(key, "M|") {
				v = hdr["X-Resource-Location"]
			}
			n.st.deliver(rel, v, res.key, res.vkey, n.vers.Of(res.vkey))
		}
	}
	return n.answer(r, hr, status, rbody, hdr, cut, cutErr), nil
}

type netErr struct{ s string }

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return false }
func (e *netErr) Temporary() bool { return true }

// failBody looks like real content but carries a mark that must never reach cache or book.
func failBody(body string) string {
	if strings.HasPrefix(body, "{\"parse\"") {
		return articleJSON("FAILMARK", "FAILMARK text")
	}
	if strings.HasPrefix(body, "{\"expandtemplates\"") {
		return `{"expandtemplates":{"wikitext":"FAILMARK"}}`
	}
	if strings.HasPrefix(body, "<svg") {
		return "<svg width=\"1ex\" height=\"1ex\" style=\"\"><desc>FAILMARK</desc></svg>\n"
	}
	return "FAILMARK" + body[:len(body)/2]
}

func (n *Net) answer(r *Req, hr *http.Request, status int, body string, hdr map[string]string, cut int, cutErr error) *http.Response {
	r.Status = status
	r.Sent = body
	r.HasBody = true
	h := http.Header{}
	for k, v := range hdr {
		h.Set(k, v)
	}
	if status != 200 || h.Get("MediaWiki-API-Error") != "" {
		r.done = true
	}
	rt.S.Event("resp", r.Key, strconv.Itoa(status))
	chunk := n.w.Chunk
	if chunk <= 0 {
		chunk = 1024
	}
	cl := int64(len(body))
	return &http.Response{StatusCode: status, Status: strconv.Itoa(status) + " " + http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		ContentLength: cl, Request: hr, Body: &bodyReader{r: r, data: []byte(body), cut: cut, err: cutErr, chunk: chunk, net: n, lat: n.w.LatMax}}
}

type bodyReader struct {
	r      *Req
	data   []byte
	pos    int
	cut    int
	err    error
	chunk  int
	closed bool
	net    *Net
	lat    int
}

var errBodyClosed = errors.New("http: read on closed response body")

func (b *bodyReader) Read(p []byte) (int, error) {
	if !rt.Active() {
		return 0, errBodyClosed
	}
	rt.Yield("body")
	if b.closed {
		return 0, errBodyClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(b.data)
	if b.cut >= 0 {
		end = b.cut
	}
	if b.pos >= end {
		if b.cut >= 0 {
			b.r.Broken = true
			b.r.done = true
			return 0, b.err
		}
		b.r.Full = true
		b.r.done = true
		return 0, io.EOF
	}
	if d := b.net.w.ChunkMs; d > 0 {
		rt.Sleep(int64(rt.Hash64("chunk", strconv.FormatUint(b.net.w.LatSeed, 10), b.r.Key, strconv.Itoa(b.pos))%uint64(d*1000)) * 1000)
	} else if b.lat > 0 {
		rt.Sleep(int64(rt.Hash64("chunk", b.r.Key, strconv.Itoa(b.pos))%50) * 1000)
	}
	k := b.chunk
	if k > len(p) {
		k = len(p)
	}
	if k > end-b.pos {
		k = end - b.pos
	}
	copy(p, b.data[b.pos:b.pos+k])
	b.pos += k
	return k, nil
}

func (b *bodyReader) Close() error {
	if !rt.Active() {
		return nil
	}
	b.closed = true
	b.r.Closed = true
	b.r.done = true
	return nil
}
