package harness

import (
	"fmt"
	"path"
	"strings"

	"sim/rt"
)

// gen draws a scenario from a seed. Every draw comes from one generator.
type gen struct {
	r    *rt.Rand
	id   int
	w    *World
	sc   *Scenario
	tier string
	o    opts
}

// opts restrict what the world contains.
type opts struct {
	images, math, templates bool
	hosts                   []string // instead of random ones
	single                  bool     // one image source delivers each image
	maxArts                 int
	maxBlocks               int
	special                 bool // unusual names
	links                   bool
	bulk                    float64 // share of worlds with large articles
	big                     bool    // larger images
}

func (g *gen) p(x float64) bool { return g.r.Bool(x) }
func (g *gen) n(lo, hi int) int { return lo + g.r.Intn(hi-lo+1) }
func (g *gen) pick(s ...string) string {
	return s[g.r.Intn(len(s))]
}
func (g *gen) mark() int { g.id += 2; return g.id }

var plainTitles = []string{"Alpha", "Beta Gamma", "Delta", "Epsilon (Zeta)", "Ångström", "Eta-Theta", "Iota 7", "Kappa", "Lambda, My", "Ny", "Xi", "Omikron"}
var oddTitles = []string{"AC/DC", "What?", "C++", "100% Wool", "Q & A", "Star: Trek", "...", "../up", "/etc/passwd", "a\\b", "M*A*S*H", "\"Quoted\"", "Über/unter: x", "..", "../../../tmp/evil", ".hidden", "It's", "x;y", "~root", "-o", "Foo.json", "CON"}

func (g *gen) titles(n int) []string {
	pool := append([]string{}, plainTitles...)
	var out []string
	for i := 1; n > len(pool)-2 && len(pool) < n+5; i++ {
		pool = append(pool, fmt.Sprintf("Topic %d", i))
	}
	for len(out) < n {
		if g.o.special && g.p(0.5) {
			t := oddTitles[g.r.Intn(len(oddTitles))]
			dup := false
			for _, x := range out {
				dup = dup || x == t
			}
			if !dup {
				out = append(out, t)
			}
			continue
		}
		i := g.r.Intn(len(pool))
		out = append(out, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	return out
}

func (g *gen) world() *World {
	w := &World{Inst: g.pick("de", "en", "fr"), Host: g.pick("wikipedia.org", "wikipedia.org", "wikibooks.org", "example.wiki.net"), ImgHost: g.pick("upload.wikimedia.org", "files.example.org"), MathAPI: g.pick("https://wikimedia.org/api/rest_v1/media/math", "https://math.example.org/api")}
	g.w = w
	all := []string{"commons.wikimedia.org", w.Inst + ".wikipedia.org", "en.wikibooks.org", "media.example.com"}
	for i := range all {
		j := i + g.r.Intn(len(all)-i)
		all[i], all[j] = all[j], all[i]
	}
	var hosts []string
	all = all[:g.n(1, 3)]
	if g.o.hosts != nil {
		all = g.o.hosts
	}
	for _, h := range all {
		dup := false
		for _, x := range hosts {
			dup = dup || seg(x) == seg(h)
		}
		if !dup {
			hosts = append(hosts, h)
		}
	}
	w.PageHosts = hosts
	switch g.r.Intn(4) {
	case 0:
		w.LatMax = 0
	case 1:
		w.LatMax = 2
	default:
		w.LatMax = g.n(5, 300)
	}
	w.LatSeed = g.r.U64() % 1000000
	if g.p(0.08) {
		w.ChunkMs = g.n(1, 400)
	}
	if g.p(0.15) {
		w.SlowHost = g.pick(w.Inst+"."+w.Host, w.ImgHost, hosts[0])
	}
	if g.p(0.4) {
		w.Chunk = g.n(16, 300)
	}
	nt := g.n(1, g.o.maxArts)
	// images
	if g.o.images {
		exts := []string{"jpg", "png", "svg", "webp", "pdf", "jpeg", "JPG", "gif", "tif", "SVG", "Png"}
		ni := g.n(1, 4)
		for i := 0; i < ni; i++ {
			g.image(i, exts[g.r.Intn(len(exts))])
		}
	}
	if g.o.templates {
		for i := g.n(1, 3); i > 0; i-- {
			t := &Template{Name: fmt.Sprintf("Box%d", i)}
			for k := g.n(0, 2); k > 0; k-- {
				t.Pre = append(t.Pre, g.inline(2))
			}
			for k := g.n(0, 1); k > 0; k-- {
				t.Post = append(t.Post, g.inline(2))
			}
			t.Mute = g.p(0.07)
			w.Templates = append(w.Templates, t)
		}
	}
	ts := g.titles(nt)
	for _, t := range ts {
		a := &Article{Title: t}
		if g.p(0.12) {
			a.Target = t + " (target)"
		}
		if g.p(0.5) {
			a.Grow = g.n(1, 60)
		}
		w.Articles = append(w.Articles, a)
	}
	for _, a := range w.Articles {
		for k := g.n(1, g.o.maxBlocks); k > 0; k-- {
			a.Blocks = append(a.Blocks, g.block())
		}
	}
	if g.p(g.o.bulk) {
		a := w.Articles[g.r.Intn(len(w.Articles))]
		a.Blocks = append(a.Blocks, &Block{K: "bulk", N: []int{300, 3000, 7000, 7000}[g.r.Intn(4)]})
	}
	return w
}

func (g *gen) image(i int, ext string) *Image {
	w := g.w
	base := fmt.Sprintf("%s %d", g.pick("Photo", "Picture", "Drawing-of", "Map"), i)
	if g.p(0.2) {
		base = fmt.Sprintf("%s%d", g.pick("Ünder", "A,b", "Dot.in", "It's", "A & B ", "P+q", "(x) "), i)
	}
	im := &Image{Name: base + "." + ext, Pages: map[string]ImagePage{}, Len: g.n(20, 400), W: g.n(10, 90), H: g.n(10, 90), Svg: g.r.Intn(16)}
	if g.o.big {
		im.Len = g.n(50, 3000)
	}
	if g.p(0.3) {
		im.Grow = g.n(1, 1000)
	}
	last := g.r.Intn(len(w.PageHosts))
	for k, h := range w.PageHosts {
		p := ImagePage{Kind: "ok"}
		switch {
		case k < last:
			p.Kind = g.pick("missing", "apierr")
		case k > last && (g.o.single || g.p(0.4)):
			p.Kind = g.pick("missing", "apierr")
		}
		if p.Kind == "ok" && g.p(0.15) {
			p.Target = fmt.Sprintf("Target %d%d.%s", i, k, ext)
		}
		im.Pages[h] = p
	}
	w.Images = append(w.Images, im)
	return im
}

var formulas = []string{"x^2", "\\frac{a}{b}", "a+b=c", "\\alpha", "E=mc^2", "\\sum_{i=0}^n i", " x^2 ", "k ", "a % b", "a\\&b + c", "\\text{ä}"}

func (g *gen) inline(depth int) *Block {
	b := g.element(depth)
	if b.K != "tmpl" && g.p(0.06) {
		b.N |= g.n(1, 3) << 4
	}
	return b
}

func (g *gen) element(depth int) *Block {
	for {
		switch g.r.Intn(9) {
		case 0, 1:
			return &Block{K: "text", ID: g.mark()}
		case 2:
			return &Block{K: "bold", ID: g.mark()}
		case 3:
			if g.o.templates && len(g.w.Templates) > 0 && depth < 2 {
				b := &Block{K: "tmpl", ID: g.mark(), S: g.w.Templates[g.r.Intn(len(g.w.Templates))].Name}
				b.Sub = append(b.Sub, g.inline(depth+1))
				return b
			}
		case 4:
			if g.o.math {
				return &Block{K: "math", ID: g.mark(), S: formulas[g.r.Intn(len(formulas))]}
			}
		case 5:
			if g.o.images {
				if im := g.anyImage(); im != nil {
					return &Block{K: "inl", ID: g.mark(), S: im.Name, N: g.spelling()}
				}
			}
		case 6:
			return &Block{K: "ilink", ID: g.mark(), S: g.linkTarget()}
		case 7:
			return &Block{K: "elink", ID: g.mark()}
		case 8:
			return &Block{K: "nowiki", ID: g.mark()}
		}
	}
}

// spelling selects how the wikitext writes the name of an image.
func (g *gen) spelling() int {
	if g.p(0.6) {
		return 0
	}
	return g.r.Intn(16)
}

func (g *gen) linkTarget() string {
	if g.p(0.4) && len(g.w.Articles) > 0 {
		if t := g.w.Articles[g.r.Intn(len(g.w.Articles))].Title; !strings.ContainsAny(t, ":|[]{}") {
			return t
		}
	}
	return fmt.Sprintf("Link %c", 'A'+g.r.Intn(16))
}

func (g *gen) anyImage() *Image {
	if len(g.w.Images) == 0 {
		return nil
	}
	return g.w.Images[g.r.Intn(len(g.w.Images))]
}

func (g *gen) block() *Block {
	for {
		switch g.r.Intn(12) {
		case 0:
			return &Block{K: "head", ID: g.mark()}
		case 1, 2, 3:
			if g.o.images {
				if im := g.anyImage(); im != nil {
					k := "img"
					if g.p(0.1) {
						k = "imap"
					}
					return &Block{K: k, ID: g.mark(), S: im.Name, N: g.spelling()}
				}
			}
		case 4:
			if g.o.images {
				b := &Block{K: "gal", ID: g.mark()}
				for k := g.n(1, 3); k > 0; k-- {
					if im := g.anyImage(); im != nil {
						b.Sub = append(b.Sub, &Block{K: "img", ID: g.mark(), S: im.Name, N: g.spelling()})
					}
				}
				if len(b.Sub) > 0 {
					return b
				}
			}
		case 5:
			return &Block{K: "ref", ID: g.mark()}
		case 6:
			b := &Block{K: g.pick("list", "table"), ID: g.mark()}
			for k := g.n(1, 3); k > 0; k-- {
				b.Sub = append(b.Sub, g.inline(1))
			}
			return b
		case 7:
			return &Block{K: g.pick("comment", "ign"), ID: g.mark(), N: 1}
		case 8:
			if g.o.links {
				return &Block{K: "ilink", ID: g.mark(), S: g.linkTarget()}
			}
		default:
			return g.inline(0)
		}
	}
}

const (
	svgCmd  = "rsvg-convert -o {OUTPUT} {INPUT}"
	procCmd = "magick {INPUT} -resize 600x600> -quality 75 -define PNG:compression-level=9 -define PNG:compression-filter=0 -colorspace gray {OUTPUT}"
	pdfCmd  = "magick -density 300 {INPUT} {OUTPUT}"
	webpCmd = "magick {INPUT} {OUTPUT}"
)

// cfg draws a configuration; quiet ones run no commands on images.
func (g *gen) cfg() *Cfg {
	c := &Cfg{OutputType: g.pick("epub2", "epub2", "epub3"), Driver: "pandoc", CacheDir: g.pick("/cache", "/home/u/.cache/wiki2book", "/home/u/work/.wiki2book"), MaxSize: 100_000_000, MaxAge: 40_320, Evict: g.pick("none", "none", "lru", "largest"),
		MathCmd: svgCmd, MathConv: g.pick("wikimedia", "wikimedia", "none", "template"), Workers: g.n(1, 6), UA: g.pick("wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)", "my agent", "x/{{VERSION}}"), Toc: g.n(0, 4),
		Ignored: []string{"ignored1"}}
	if g.p(0.6) {
		c.SvgCmd = svgCmd
	}
	if g.p(0.6) {
		c.ProcCmd = g.pick(procCmd, "magick {INPUT} -colorspace gray {OUTPUT}")
	}
	if g.p(0.6) {
		c.WebpCmd = webpCmd
	}
	if g.p(0.6) {
		c.PdfCmd = pdfCmd
	}
	c.SvgViewbox = g.p(0.3)
	c.Force = g.p(0.1)
	if g.p(0.4) {
		c.Style = WorkDir + "/style.css"
	}
	if g.p(0.3) {
		c.Cover = WorkDir + "/cover.png"
	}
	if g.p(0.2) {
		c.Fonts = []string{"a.ttf", "b.otf"}[:g.n(1, 2)]
	}
	return c
}

// internal selects the EPUB writer of the program, which needs a cover and a style file.
func (c *Cfg) internal() {
	c.OutputType, c.Driver = "epub3", "internal"
	c.Cover, c.Style = WorkDir+"/cover.png", WorkDir+"/style.css"
}

func (g *gen) quietCfg() *Cfg {
	c := g.cfg()
	c.SvgCmd, c.ProcCmd, c.WebpCmd, c.PdfCmd, c.SvgViewbox = "", "", "", "", false
	c.MathConv = g.pick("wikimedia", "none")
	return c
}

func (g *gen) run(c *Cfg) *Run {
	r := &Run{Mode: "project", Cfg: c, Out: g.pick("book.epub", "/home/u/out/sub/book.epub", "/home/u/b.epub")}
	for _, a := range g.w.Articles {
		r.Articles = append(r.Articles, a.Title)
	}
	for i := range r.Articles {
		j := i + g.r.Intn(len(r.Articles)-i)
		r.Articles[i], r.Articles[j] = r.Articles[j], r.Articles[i]
	}
	if g.p(0.12) {
		r.Articles = append(r.Articles, r.Articles[g.r.Intn(len(r.Articles))])
	}
	if g.p(0.12) && !strings.HasPrefix(r.Articles[0], "-") {
		r.Mode = "article"
		r.Articles = r.Articles[:1]
	} else if g.p(0.08) && !c.stats() && !strings.ContainsAny(r.Articles[0], "./") && !strings.HasPrefix(r.Articles[0], "-") {
		r.Mode = "standalone"
		r.Articles = r.Articles[:1]
	}
	return r
}

func (r *Run) with(f func(*Run)) *Run {
	c := *r
	c.Net, c.FS, c.Exec, c.Crash, c.Cap, c.NetDown = nil, nil, nil, nil, 0, false
	if f != nil {
		f(&c)
	}
	return &c
}

func (g *gen) policy() rt.Policy {
	p := rt.Policy{}
	switch x := g.r.Float(); {
	case x < 0.1:
		p.Kind = "sequential"
	case x < 0.7:
		p.Kind = "random"
		p.SwitchProb = []float64{0.02, 0.1, 0.3, 0.7}[g.r.Intn(4)]
	default:
		p.Kind = "pct"
		p.Depth = g.n(1, 4)
		p.EstSteps = g.n(100, 2500)
	}
	if p.Kind != "sequential" && g.p(0.35) {
		p.TickMean = []int{30, 300, 3000}[g.r.Intn(3)]
	}
	return p
}

func (g *gen) step(r *Run, role string) *Step {
	return &Step{Kind: "run", Run: r, Pol: g.policy(), Seed: g.r.U64() % 1_000_000_000, Role: role}
}

func (g *gen) add(s ...*Step) { g.sc.Steps = append(g.sc.Steps, s...) }

// probe runs a step on its own to learn where faults can strike.
func (g *gen) probe(steps []*Step) *RunResult {
	sc := &Scenario{World: g.w, Steps: steps}
	st := NewState(sc)
	st.knownNames()
	st.probing = true
	for _, s := range steps {
		if s.Run != nil {
			st.Cfgs = append(st.Cfgs, s.Run.Cfg)
		}
	}
	for i, s := range steps {
		st.step = i
		st.Step(s)
		if st.StopEarl {
			break
		}
	}
	if len(st.Results) == 0 {
		return nil
	}
	return st.Results[len(st.Results)-1]
}

func (g *gen) base(r *Run) *RunResult {
	c := *r.Cfg
	rr := r.with(nil)
	rr.Cfg = &c
	return g.probe([]*Step{{Kind: "run", Run: rr, Pol: rt.Policy{Kind: "sequential"}, Seed: 1}})
}

// netFault picks a failure for a request of the base run.
func (g *gen) netFault(b *RunResult, pref string) *NetFault {
	if b == nil || len(b.Log) == 0 {
		return nil
	}
	var cand []*Req
	for _, q := range b.Log {
		if q.Key != "" && (pref == "" || strings.HasPrefix(q.Key, pref)) {
			cand = append(cand, q)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	q := cand[g.r.Intn(len(cand))]
	f := &NetFault{Key: q.Key, Nth: 0}
	switch g.r.Intn(8) {
	case 0:
		f.Kind = "conn"
	case 1, 2:
		f.Kind = "status"
		f.Arg = g.pick("500", "404", "403", "503", "302", "204", "301", "201", "206", "400", "410", "502", "203", "418")
	case 3:
		f.Kind = "apierr"
	case 4, 5, 6:
		f.Kind = g.pick("trunc", "reset")
		if len(q.Sent) > 0 {
			f.Off = g.r.Intn(len(q.Sent))
			if g.p(0.2) {
				f.Off = 0
			}
		}
	case 7:
		f.Kind = "status"
		f.Arg = "500"
		f.Nth = -1
	}
	if strings.HasPrefix(q.Key, "M|") && g.p(0.2) {
		f.Kind = "nohdr"
	}
	// an error whose other headers look like those of a good answer
	if strings.HasPrefix(q.Key, "M|") && f.Kind == "apierr" && g.p(0.5) {
		f.Arg = "loc"
	}
	if f.Kind == "status" && g.p(0.3) {
		f.Off = 1
	}
	if f.Kind == "apierr" && !(f.Arg == "loc" || strings.HasPrefix(q.Key, "A|") || strings.HasPrefix(q.Key, "P|") || strings.HasPrefix(q.Key, "T|")) && g.p(0.5) {
		f.Kind, f.Arg = "status", "500"
	}
	if g.p(0.1) {
		f.Nth = -1
	}
	return f
}

// mutOp picks a changing operation; rare kinds of operations are as likely as frequent ones.
func (g *gen) mutOp(b *RunResult) int {
	if len(b.Classes) > 0 && g.p(0.5) {
		l := b.Classes[sortedKeys(b.Classes)[g.r.Intn(len(b.Classes))]]
		return l[g.r.Intn(len(l))]
	}
	return g.n(1, b.MutOps)
}

func (g *gen) fsFault(b *RunResult) FSFault {
	f := FSFault{Err: g.pick("ENOSPC", "EIO", "EIO", "EACCES")}
	switch g.r.Intn(4) {
	case 0:
		if len(b.Reads) > 0 && g.p(0.6) {
			l := b.Reads[sortedKeys(b.Reads)[g.r.Intn(len(b.Reads))]]
			f.Seq = l[g.r.Intn(len(l))]
		} else if b.Ops > 0 {
			f.Seq = g.n(1, b.Ops)
		}
	case 1:
		f.Kind = g.pick("rename", "write", "create", "close", "close", "open", "read", "mkdir", "remove", "chtimes", "stat", "readdir")
		f.Path = g.pick("", "", "/images/", "/articles/", "/templates/", "/math/", "/html/", "/stats/", "/.tmp/")
		f.Nth = g.r.Intn(6)
		if g.p(0.15) {
			f.Nth = -1 // as long as the run lasts
		}
	default:
		if b.MutOps > 0 {
			f.Mut = g.mutOp(b)
		}
	}
	if f.Mut == 0 && f.Seq == 0 && f.Kind == "" {
		f.Mut = 1
	}
	f.Short = g.r.Intn(60)
	if g.p(0.2) {
		f.Count = g.n(1, 5)
	}
	return f
}

func (g *gen) execFault(b *RunResult) *ExecFault {
	if b == nil || len(b.Execs) == 0 {
		return nil
	}
	n := map[string]int{}
	for _, e := range b.Execs {
		n[e.Tool]++
	}
	tools := sortedKeys(n)
	t := tools[g.r.Intn(len(tools))]
	return &ExecFault{Tool: t, Nth: g.r.Intn(n[t]), Kind: g.pick("fail", "partial", "signal", "nostart")}
}

func (g *gen) crash(b *RunResult) *Crash {
	c := &Crash{When: g.pick("before", "mid", "mid", "after")}
	switch {
	case g.p(0.1) && len(b.Log) > 0:
		c.Req = g.n(1, len(b.Log))
		if c.When == "mid" {
			c.When = "after"
		}
	case g.p(0.15) && b.Ops > 0:
		c.Seq = g.n(1, b.Ops)
	case b.MutOps > 0:
		c.Mut = g.mutOp(b)
	default:
		c.Mut = 1
	}
	c.Short = g.r.Intn(80)
	if g.p(0.3) {
		c.Short = 1 << 30 // half of the data
	}
	return c
}

// disturb makes a run fail somewhere; kind "" means any.
func (g *gen) disturb(r *Run, b *RunResult, kind string) *Run {
	if kind == "" {
		kind = g.pick("net", "net", "fs", "exec", "crash", "crash", "down", "cap")
	}
	return r.with(func(x *Run) {
		switch kind {
		case "net":
			for k := g.n(1, 2); k > 0; k-- {
				if f := g.netFault(b, ""); f != nil {
					x.Net = append(x.Net, *f)
				}
			}
		case "fs":
			for k := g.n(1, 2); k > 0; k-- {
				x.FS = append(x.FS, g.fsFault(b))
			}
		case "exec":
			if f := g.execFault(b); f != nil {
				x.Exec = append(x.Exec, *f)
			} else if f := g.netFault(b, ""); f != nil {
				x.Net = append(x.Net, *f)
			}
		case "crash":
			x.Crash = g.crash(b)
			if g.p(0.2) {
				if f := g.netFault(b, ""); f != nil {
					x.Net = append(x.Net, *f)
				}
			}
		case "down":
			x.NetDown = true
		case "cap":
			x.Cap = int64(g.n(1, 6000))
		}
	})
}

// ---------------------------------------------------------------- profiles

type profile struct {
	name string
	f    func(g *gen)
}

// mix gives the profiles of a check with their weights.
var mix = map[string]map[string]int{
	"P01": {"cwd": 1, "sched": 20, "odd": 2, "many": 1, "alike": 2},
	"P02": {"crash": 5, "fs": 4, "net": 3, "sched": 1, "hist": 2, "bulk": 3},
	"P03": {"net": 10, "nethist": 5},
	"P04": {"fs": 4, "net": 4, "exec": 4, "sched": 1, "internal": 2, "stats": 1, "missing": 2, "limit": 1, "statsfault": 2, "imgfs": 3},
	"P05": {"hist": 8, "crash": 4, "delete": 3, "imgfs": 3},
	"P06": {"cwd": 1, "rerun": 10},
	"P07": {"expire": 10},
	"P08": {"limit": 10, "none": 2},
	"P09": {"limit": 10},
	"P10": {"rate": 10},
	"P11": {"sched": 10, "rate": 4, "net": 4, "odd": 4, "many": 1, "expire": 2, "sources": 2, "broken": 1},
	"P12": {"hostile": 6, "sched": 3, "fs": 2, "net": 2, "limit": 2, "exec": 1, "expire": 2, "many": 1, "rate": 1, "broken": 2},
	"P13": {"broken": 2, "odd": 6, "alike": 2, "crash": 2, "fs": 2, "limit": 1, "hostile": 1, "expire": 1},
	"P14": {"old": 10, "statsfault": 2},
	"P15": {"sources": 10},
	"P16": {"proc": 10, "expire": 1, "imgfs": 2},
	"P17": {"sched": 3, "net": 4, "rate": 2, "exec": 1, "internal": 1, "stats": 1, "sources": 2, "rerun": 1, "many": 1, "fs": 1, "broken": 2},
	"P18": {"pair": 10},
	"P19": {"stats": 10, "richstats": 1},
	"P21": {"broken": 12, "hostile": 2, "net": 2, "fs": 2, "exec": 1, "odd": 1, "limit": 1, "left": 1},
	"P24": {"alike": 10},
	"P25": {"rich": 10},
	"P26": {"richstats": 10},
	"P27": {"xhtml": 6, "internal": 1, "layers": 3},
	"P22": {"layers": 10},
	"P23": {"invalid": 10},
	"P20": {"left": 6, "sched": 1, "crash": 2, "internal": 1, "rerun": 1, "sources": 2},
}

var profiles = map[string]func(g *gen){}

func init() {
	full := opts{images: true, math: true, templates: true, single: true, maxArts: 5, maxBlocks: 6}
	small := full
	small.maxArts, small.maxBlocks = 3, 4
	reg := func(name string, o opts, f func(g *gen)) {
		profiles[name] = func(g *gen) {
			g.o = o
			g.sc.Profile = name
			f(g)
		}
	}
	big := full
	big.maxArts = 8
	reg("sched", big, func(g *gen) {
		if g.p(0.3) {
			g.o.single = false
		}
		g.o.special = g.p(0.15)
		g.world()
		c := g.cfg()
		if g.p(0.7) {
			c.Workers = g.n(2, 8)
		}
		g.add(g.step(g.run(c), "run"))
		if g.p(0.3) {
			r := g.sc.Steps[0].Run.with(nil)
			cc := *c
			cc.Workers = g.n(1, 8)
			r.Cfg = &cc
			g.add(g.step(r, "run"))
		}
	})
	reg("odd", full, func(g *gen) {
		g.o.special = true
		g.world()
		c := g.cfg()
		if g.p(0.35) {
			g.oddLocs()
		}
		r := g.run(c)
		if g.p(0.2) && c.Driver == "pandoc" {
			r.Out = g.pick("out dir/my book.epub", "./x/../y/book.epub", "ü.epub")
		}
		g.add(g.step(r, "run"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "run"))
		}
	})
	two := func(kind string) func(g *gen) {
		return func(g *gen) {
			g.world()
			c := g.cfg()
			r := g.run(c)
			b := g.base(r)
			g.add(g.step(g.disturb(r, b, kind), "disturbed"))
			if g.p(0.25) {
				g.add(g.step(g.disturb(r, b, kind), "disturbed"))
			}
			if g.p(0.6) {
				g.add(g.step(r.with(nil), "recover"))
			}
		}
	}
	bulk := small
	bulk.bulk = 1
	bulk.maxArts, bulk.maxBlocks = 2, 3
	reg("bulk", bulk, func(g *gen) { two(g.pick("crash", "fs", "cap"))(g) })
	many := small
	many.maxBlocks = 2
	reg("many", many, func(g *gen) {
		g.o.maxArts = 1
		g.world()
		for len(g.w.Articles) < 18 {
			// at least 18 articles
			g.w.Articles = nil
			for _, t := range g.titles(g.n(18, 48)) {
				a := &Article{Title: t, Blocks: []*Block{{K: "text", ID: g.mark()}}}
				if g.p(0.4) {
					a.Blocks = append(a.Blocks, g.block())
				}
				g.w.Articles = append(g.w.Articles, a)
			}
		}
		c := g.cfg()
		r := g.run(c)
		if g.p(0.2) {
			c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
			g.outFor(r)
		}
		g.add(g.step(r, "run"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "again"))
		}
	})
	reg("crash", small, two("crash"))
	reg("fs", small, two("fs"))
	reg("exec", small, two("exec"))
	reg("imgfs", small, func(g *gen) {
		// errors of the disk or of commands while images are read, changed or put into the book
		svg := false
		for i := 0; i < 10 && !svg; i++ {
			g.world()
			for _, im := range g.w.Images {
				svg = svg || strings.EqualFold(path.Ext(im.Name), ".svg") && im.Svg&3 != 3
			}
		}
		c := g.cfg()
		c.SvgViewbox = g.p(0.9)
		if g.p(0.6) {
			c.SvgCmd = ""
		}
		if g.p(0.3) {
			c.internal()
		}
		r := g.run(c)
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "fill"))
			g.add(&Step{Kind: "delete", Frac: g.n(20, 80)})
		}
		b := g.base(r)
		var seqs, muts []int
		for _, k := range sortedKeys(b.Reads) {
			if strings.Contains(k, " images") {
				seqs = append(seqs, b.Reads[k][g.r.Intn(len(b.Reads[k]))])
			}
		}
		for _, k := range sortedKeys(b.Classes) {
			if strings.Contains(k, " images") || strings.Contains(k, " .tmp.svg") || strings.Contains(k, " .tmp.png") {
				muts = append(muts, b.Classes[k][g.r.Intn(len(b.Classes[k]))])
			}
		}
		x := r.with(func(x *Run) {
			f := FSFault{Err: g.pick("ENOSPC", "EIO", "EACCES"), Short: g.r.Intn(60)}
			switch {
			case len(seqs) > 0 && g.p(0.6):
				f.Seq = seqs[g.r.Intn(len(seqs))]
			case len(muts) > 0 && g.p(0.8):
				f.Mut = muts[g.r.Intn(len(muts))]
			default:
				f = g.fsFault(b)
			}
			x.FS = append(x.FS, f)
		})
		g.add(g.step(x, "disturbed"))
		if g.p(0.7) {
			g.add(g.step(r.with(nil), "recover"))
		}
	})
	reg("net", full, two("net"))
	reg("nethist", small, func(g *gen) {
		g.world()
		c := g.cfg()
		r := g.run(c)
		b := g.base(r)
		for k := g.n(1, 3); k > 0; k-- {
			g.add(g.step(g.disturb(r, b, "net"), "disturbed"))
			if g.p(0.3) {
				g.add(&Step{Kind: "clock", Dur: int64(g.n(0, 200000))})
			}
		}
		g.add(g.step(r.with(nil), "recover"))
	})
	reg("hist", small, func(g *gen) {
		g.world()
		c := g.cfg()
		if g.p(0.7) {
			c.Evict = "none"
		}
		r := g.run(c)
		b := g.base(r)
		for k := g.n(1, 3); k > 0; k-- {
			g.add(g.step(g.disturb(r, b, ""), "disturbed"))
			if g.p(0.3) {
				g.add(&Step{Kind: "delete", Frac: g.n(5, 100), Seed: g.r.U64() % 1000})
			}
			if g.p(0.2) {
				g.add(&Step{Kind: "clock", Dur: int64(g.n(0, 100000))})
			}
		}
		g.add(g.step(r.with(nil), "recover"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "again"))
		}
	})
	reg("delete", small, func(g *gen) {
		g.world()
		c := g.cfg()
		r := g.run(c)
		g.add(g.step(r, "fill"))
		for k := g.n(1, 2); k > 0; k-- {
			d := &Step{Kind: "delete", Seed: g.r.U64() % 1000}
			if g.p(0.4) {
				d.Keys = []string{g.pick("images", "articles", "html", "math", "templates", "stats", ".tmp", "")}
			} else {
				d.Frac = g.n(5, 95)
			}
			g.add(d, g.step(r.with(nil), "recover"))
		}
	})
	reg("rerun", full, func(g *gen) {
		g.o.special = g.p(0.2)
		g.world()
		c := g.cfg()
		switch g.r.Intn(8) {
		case 0:
			c.internal()
		case 1:
			c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		}
		r := g.run(c)
		g.outFor(r)
		g.add(g.step(r, "fill"))
		if g.p(0.5) {
			g.add(&Step{Kind: "clock", Dur: int64(g.n(0, int(c.MaxAge)*50))})
		}
		if g.p(0.3) {
			// other articles of the same cache in between
			o := r.with(nil)
			o.Articles = o.Articles[:1]
			o.Out = "other.epub"
			g.outFor(o)
			g.add(g.step(o, "other"))
		}
		s := r.with(func(x *Run) { x.NetDown = g.p(0.7) })
		g.add(g.step(s, "again"))
		if g.p(0.3) {
			g.add(g.step(s.with(func(x *Run) { x.NetDown = g.p(0.7) }), "again"))
		}
	})
	reg("cwd", small, func(g *gen) {
		// the cache directory is the working directory, so that pages of an earlier run are found and used
		g.world()
		c := g.cfg()
		c.CacheDir, c.Evict = WorkDir, "none"
		if g.p(0.5) {
			c.internal()
		}
		r := g.run(c)
		if g.p(0.5) {
			r.Mode = "project"
		}
		g.outFor(r)
		f := r.with(nil)
		if g.p(0.4) && len(r.Articles) > 1 {
			f.Articles = f.Articles[:1]
		}
		g.add(g.step(f, "fill"))
		if g.p(0.5) {
			g.add(&Step{Kind: "clock", Dur: int64(g.n(0, int(c.MaxAge)*50))})
		}
		g.add(g.step(r, "again"))
	})
	reg("expire", small, func(g *gen) {
		g.world()
		c := g.cfg()
		c.Evict = g.pick("none", "none", "largest", "lru")
		c.MaxAge = int64([]int{1, 2, 5, 60, 1440, 40320}[g.r.Intn(6)])
		if g.p(0.3) {
			c.internal()
		}
		r := g.run(c)
		r.Mode = g.pick("project", "project", r.Mode)
		g.outFor(r)
		g.add(g.step(r, "fill"))
		for k := g.n(1, 3); k > 0; k-- {
			if g.p(0.8) {
				g.add(&Step{Kind: "bump", Keys: g.bumps()})
			}
			d := int64(0)
			m := c.MaxAge * 60
			switch g.r.Intn(6) {
			case 0:
				d = m - 100 - int64(g.r.Intn(200))
			case 1:
				d = m + 60 + int64(g.r.Intn(400))
			case 2:
				d = m*2 + 300
			case 3:
				d = int64(float64(m) * g.r.Float())
			case 4:
				d = -int64(float64(m) * g.r.Float())
			case 5:
				d = m * 30
			}
			if d < 0 && d < -300000 {
				d = -300000
			}
			g.add(&Step{Kind: "clock", Dur: d})
			if g.p(0.3) {
				// renew a part of the cache in between
				g.add(&Step{Kind: "delete", Frac: g.n(5, 60), Seed: g.r.U64() % 1000})
			}
			x := r.with(nil)
			if g.p(0.2) {
				// files expire while the run is under way
				g.sc.Steps = g.sc.Steps[:len(g.sc.Steps)-1]
				if l := g.sc.Steps[len(g.sc.Steps)-1]; l.Kind == "clock" {
					l.Dur = m - int64(g.n(0, 60))
				} else {
					g.add(&Step{Kind: "clock", Dur: m - int64(g.n(0, 60))})
				}
				g.add(&Step{Kind: "delete", Frac: g.n(10, 50), Seed: g.r.U64() % 1000})
				if b := g.base(r); b != nil {
					for _, q := range b.Log {
						if q.Key != "" && g.p(0.4) {
							x.Net = append(x.Net, NetFault{Key: q.Key, Kind: "429", Arg: g.pick("100", "150", "400")})
						}
					}
				}
			} else if g.p(0.25) {
				b := g.base(r)
				x = g.disturb(r, b, g.pick("net", "net", "crash"))
			}
			g.add(g.step(x, "later"))
		}
	})
	lim := small
	lim.big = true
	lim.single = true
	reg("limit", lim, func(g *gen) {
		g.o.big = g.p(0.7)
		g.o.images = g.p(0.8)
		g.world()
		c := g.quietCfg()
		if g.p(0.25) {
			c = g.cfg()
			c.Workers = 1
		}
		if g.p(0.6) {
			c.Workers = 1
		}
		c.Evict = g.pick("lru", "largest")
		if g.p(0.4) {
			c.MaxAge = int64(g.n(2, 1500))
		}
		r := g.run(c)
		b := g.base(r)
		total, max := int64(1), int64(1)
		if b != nil {
			total, max = g.cacheTotal(r)
		}
		switch g.r.Intn(7) {
		case 0:
			c.MaxSize = int64(g.n(1, int(max)))
		case 1:
			c.MaxSize = total - int64(g.n(0, 3))
		case 2:
			c.MaxSize = total + int64(g.n(0, 2))
		case 3:
			c.MaxSize = max + int64(g.n(0, 200))
		default:
			c.MaxSize = max + int64(g.r.Intn(int(total-max)+1))
		}
		if c.MaxSize < 1 {
			c.MaxSize = 1
		}
		if g.p(0.15) {
			g.foreign(c, r)
		}
		for k := g.n(1, 4); k > 0; k-- {
			x := r.with(nil)
			if g.p(0.6) && len(r.Articles) > 1 {
				// other articles each time, so that use and age differ
				x.Mode = "project"
				x.Articles = nil
				for _, a := range r.Articles {
					if g.p(0.5) {
						x.Articles = append(x.Articles, a)
					}
				}
				if len(x.Articles) == 0 {
					x.Articles = r.Articles[:1]
				}
			}
			if g.p(0.1) && b != nil {
				x = g.disturb(x, b, g.pick("net", "crash", "fs"))
			} else if g.p(0.06) {
				// no file can be removed, examined or renewed
				x.FS = []FSFault{{Kind: g.pick("remove", "remove", "stat", "readdir", "chtimes"), Path: g.pick("", "/articles", "/html", "/images"), Nth: -1, Err: g.pick("EACCES", "EIO")}}
			}
			s := g.step(x, "run")
			if g.p(0.2) {
				s.Gran = []int64{1, 1_000_000_000, 2_000_000_000}[g.r.Intn(3)]
			}
			g.add(s)
			if g.p(0.4) {
				g.add(&Step{Kind: "clock", Dur: int64(g.n(1, 100000))})
			}
			if g.p(0.3) {
				g.add(&Step{Kind: "bump", Keys: g.bumps()})
			}
			if g.p(0.2) {
				c2 := *c
				c2.MaxSize = max + int64(g.r.Intn(int(total-max)+1))
				c2.Evict = g.pick("lru", "largest")
				r = r.with(nil)
				r.Cfg = &c2
				c = &c2
			}
		}
	})
	reg("none", small, func(g *gen) {
		g.world()
		c := g.cfg()
		c.Evict = "none"
		c.MaxSize = int64(g.n(1, 3000))
		c.MaxAge = int64(g.n(1, 100))
		r := g.run(c)
		g.add(g.step(r, "run"))
		for k := g.n(1, 2); k > 0; k-- {
			g.add(&Step{Kind: "clock", Dur: int64(g.n(0, 8000))})
			g.add(g.step(r.with(nil), "run"))
		}
	})
	reg("rate", full, func(g *gen) {
		g.world()
		if g.w.LatMax > 50 {
			g.w.LatMax = 50
		}
		c := g.cfg()
		r := g.run(c)
		b := g.base(r)
		r = r.with(func(x *Run) {
			for k := g.n(1, 6); k > 0 && b != nil && len(b.Log) > 0; k-- {
				q := b.Log[g.r.Intn(len(b.Log))]
				if q.Key == "" {
					continue
				}
				arg := g.pick("1", "2", "3", "7", "30", "120", "0", "-", "soon", "", "1.5", "Wed, 21 Oct 2026 07:28:00 GMT", "5s", "10", "3600", "7200", "86400")
				last := 4
				if g.p(0.15) {
					last = g.n(14, 45)
				}
				for i := g.n(1, last); i > 0; i-- {
					x.Net = append(x.Net, NetFault{Key: q.Key, Nth: i - 1, Kind: "429", Arg: arg})
				}
			}
			if g.p(0.15) && b != nil {
				if f := g.netFault(b, ""); f != nil {
					f.Nth = 2
					x.Net = append(x.Net, *f)
				}
			}
		})
		g.add(g.step(r, "limited"))
		if g.p(0.2) {
			g.add(g.step(r.with(nil), "again"))
		}
	})
	reg("hostile", small, func(g *gen) {
		g.world()
		w := g.w
		w.Hostile = true
		c := g.cfg()
		raws := []string{"{{Box1|<ARG>}}", "<TEXT>", "<SELF>", "<SELF> <SELF>", "x<SELF>y", "$$TEMPLATE_PLACEHOLDER_0000000000000000000000000000000000000000$$", "$$TEMPLATE_PLACEHOLDER_", "{{{{{{", "}}}}", "[[File:", "[[", "{|", "<math>", "<ref>", "<gallery>", "<nowiki>", "$$TOKEN_EXTERNAL_LINK_0$$", "$$TOKEN_0$$", "", "<ref name=a />", "{|\n|-\n", "\n*\n**\n#", "<!--", "-->", "$$", "==", "'''''", "[http://", "<references />", "{{Unknown}}", "{{Box1}}"}
		if len(w.Templates) == 0 {
			w.Templates = append(w.Templates, &Template{Name: "Box1"})
		}
		for _, t := range w.Templates {
			if g.p(0.7) {
				t.Raw = raws[g.r.Intn(len(raws))]
				if g.p(0.3) {
					t.Raw += raws[g.r.Intn(len(raws))]
				}
			}
		}
		for _, a := range w.Articles {
			a.Blocks = append(a.Blocks, &Block{K: "tmpl", ID: g.mark(), S: w.Templates[g.r.Intn(len(w.Templates))].Name, Sub: []*Block{g.inline(1)}})
			if g.p(0.3) {
				a.Blocks = append(a.Blocks, &Block{K: "raw", ID: g.mark(), S: raws[g.r.Intn(len(raws))]})
			}
		}
		g.add(g.step(g.run(c), "run"))
		if g.p(0.3) {
			g.add(g.step(g.sc.Steps[0].Run.with(nil), "again"))
		}
	})
	reg("old", small, func(g *gen) {
		g.world()
		c := g.cfg()
		switch g.r.Intn(6) {
		case 0:
			c.internal()
		case 1:
			c.OutputType, c.Driver = "stats-json", "internal"
		case 2:
			c.OutputType, c.Driver = "stats-txt", "internal"
		}
		r := g.run(c)
		g.outFor(r)
		if g.p(0.25) {
			r.Out = WorkDir + "/outdir"
		}
		first := r.with(nil)
		if g.p(0.5) {
			first.Articles = first.Articles[:1]
		}
		if r.Out == WorkDir+"/outdir" {
			switch {
			case c.OutputType == "stats-json":
				first.Out = r.Out + "/stats.json"
			case c.OutputType == "stats-txt":
				first.Out = r.Out + "/stats.txt"
			default:
				first.Out = r.Out + "/ebook.epub"
			}
		}
		g.add(g.step(first, "earlier"))
		if g.p(0.5) {
			g.add(&Step{Kind: "delete", Frac: g.n(20, 100), Seed: g.r.U64() % 1000})
		}
		if g.p(0.3) {
			g.add(&Step{Kind: "clock", Dur: c.MaxAge*60 + 1000})
		}
		b := g.base(r)
		x := g.disturb(r, b, "")
		if g.p(0.15) {
			x.Articles = append(append([]string{}, x.Articles...), "No such article")
			x.Mode = "project"
		}
		g.add(g.step(x, "disturbed"))
	})
	src := small
	src.single = false
	src.templates = false
	src.math = false
	reg("sources", src, func(g *gen) {
		g.world()
		w := g.w
		hosts := []string{"commons.wikimedia.org", "xx.wikipedia.org", "en.wikibooks.org"}
		w.PageHosts = hosts[:g.n(2, 3)]
		for i := range w.PageHosts {
			j := i + g.r.Intn(len(w.PageHosts)-i)
			w.PageHosts[i], w.PageHosts[j] = w.PageHosts[j], w.PageHosts[i]
		}
		for i, im := range w.Images {
			im.Pages = map[string]ImagePage{}
			ext := im.Name[strings.LastIndexByte(im.Name, '.')+1:]
			for k, h := range w.PageHosts {
				p := ImagePage{Kind: g.pick("ok", "ok", "ok", "missing", "apierr")}
				if k == len(w.PageHosts)-1 && g.p(0.9) {
					p.Kind = "ok"
				}
				if p.Kind == "ok" && g.p(0.2) {
					p.Target = fmt.Sprintf("Target %d%d.%s", i, k, ext)
				}
				if p.Kind == "ok" && g.p(0.2) {
					p.NoFile = true
				}
				im.Pages[h] = p
			}
		}
		c := g.cfg()
		if g.p(0.5) {
			c.Workers = 1
		}
		r := g.run(c)
		b := g.base(r)
		if g.p(0.6) {
			r = r.with(func(x *Run) {
				for k := g.n(1, 3); k > 0 && b != nil; k-- {
					f := g.netFault(b, g.pick("P|", "F|"))
					if f != nil {
						x.Net = append(x.Net, *f)
					}
				}
			})
		}
		g.add(g.step(r, "run"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "again"))
		}
	})
	pr := full
	pr.maxArts, pr.templates, pr.math = 5, false, true
	reg("proc", pr, func(g *gen) {
		g.world()
		c := g.cfg()
		c.ProcCmd = procCmd
		c.SvgCmd = svgCmd
		c.WebpCmd = webpCmd
		c.PdfCmd = g.pick("", pdfCmd)
		c.SvgViewbox = g.p(0.5)
		c.MathConv = g.pick("template", "template", "none", "wikimedia")
		if g.p(0.1) {
			c.ProcCmd = ""
		}
		if g.p(0.15) {
			c.SvgCmd = ""
		}
		// many articles share few images
		for _, a := range g.w.Articles {
			for k := g.n(0, 2); k > 0; k-- {
				if im := g.anyImage(); im != nil {
					a.Blocks = append(a.Blocks, &Block{K: "img", ID: g.mark(), S: im.Name, N: g.spelling()})
				}
			}
		}
		r := g.run(c)
		if g.p(0.25) {
			b := g.base(r)
			g.add(g.step(g.disturb(r, b, g.pick("exec", "crash", "fs", "net")), "disturbed"))
			g.add(g.step(r.with(nil), "recover"))
		} else {
			g.add(g.step(r, "run"))
		}
		if g.p(0.4) {
			if g.p(0.5) {
				g.add(&Step{Kind: "delete", Frac: g.n(10, 60), Seed: g.r.U64() % 1000})
			}
			g.add(g.step(r.with(nil), "again"))
		}
	})
	reg("internal", small, func(g *gen) {
		g.world()
		c := g.cfg()
		c.internal()
		r := g.run(c)
		if g.p(0.6) {
			b := g.base(r)
			r = g.disturb(r, b, g.pick("net", "fs", "exec", "cap", "cap"))
		}
		g.add(g.step(r, "run"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "recover"))
		}
	})
	reg("missing", small, func(g *gen) {
		g.world()
		c := g.cfg()
		r := g.run(c)
		switch g.r.Intn(3) {
		case 0:
			r.Mode = "project"
			i := g.r.Intn(len(r.Articles) + 1)
			r.Articles = append(append(append([]string{}, r.Articles[:i]...), "No such article"), r.Articles[i:]...)
		default:
			if im := g.anyImage(); im != nil {
				for _, h := range g.w.PageHosts {
					im.Pages[h] = ImagePage{Kind: g.pick("missing", "apierr")}
				}
			}
		}
		g.add(g.step(r, "run"))
	})
	stt := full
	stt.links = true
	stt.maxArts = 6
	stt.maxBlocks = 10
	reg("stats", stt, func(g *gen) {
		g.o.special = g.p(0.2)
		g.world()
		for _, a := range g.w.Articles {
			for k := g.n(0, 14); k > 0; k-- {
				a.Blocks = append(a.Blocks, &Block{K: "ilink", ID: g.mark(), S: g.linkTarget()})
			}
		}
		c := g.cfg()
		c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		r := g.run(c)
		g.outFor(r)
		g.add(g.step(r, "run"))
		if g.p(0.4) {
			s := r.with(nil)
			cc := *c
			cc.Workers = g.n(1, 8)
			s.Cfg = &cc
			g.add(g.step(s, "again"))
		}
	})
	reg("statsfault", small, func(g *gen) {
		g.world()
		c := g.cfg()
		c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		r := g.run(c)
		g.outFor(r)
		if g.p(0.6) {
			g.add(g.step(r.with(nil), "earlier"))
			if g.p(0.5) {
				g.add(&Step{Kind: "delete", Keys: []string{"stats"}})
			}
		}
		b := g.base(r)
		x := r.with(nil)
		switch g.r.Intn(6) {
		case 0, 1:
			x.FS = []FSFault{{Kind: g.pick("write", "create", "close", "write"), Path: r.Out, Err: g.pick("EIO", "ENOSPC", "EACCES"), Nth: g.r.Intn(2), Short: g.r.Intn(60), Count: g.r.Intn(3)}}
		case 2, 3:
			x.FS = []FSFault{{Kind: g.pick("open", "read", "stat"), Path: "/stats/", Err: "EIO", Nth: g.r.Intn(2 * len(r.Articles))}}
		case 4:
			cc := *c
			cc.Evict = g.pick("largest", "lru")
			total, max := g.cacheTotal(r)
			cc.MaxSize = max + int64(g.r.Intn(int(total-max)+1))
			x.Cfg = &cc
		default:
			x = g.disturb(r, b, "")
		}
		g.add(g.step(x, "disturbed"))
	})
	reg("left", small, func(g *gen) {
		g.world()
		c := g.cfg()
		r := g.run(c)
		switch g.r.Intn(7) {
		case 0:
			c.internal()
		case 1:
			c.OutputType, c.Driver = "stats-json", "internal"
		}
		g.outFor(r)
		b := g.base(r)
		if g.p(0.4) {
			var k []string
			for i := g.n(1, 4); i > 0; i-- {
				k = append(k, g.pick("left1", "x123.json", "Photo_0.jpg", "sub/dir/file", "Photo_0.jpg.png", "sanitized456"))
			}
			g.add(&Step{Kind: "leftover", Keys: k})
		}
		for k := g.n(0, 2); k > 0; k-- {
			g.add(g.step(g.disturb(r, b, g.pick("crash", "crash", "fs", "exec", "net")), "disturbed"))
		}
		g.add(g.step(r.with(nil), "recover"))
	})
	reg("pair", small, func(g *gen) {
		g.world()
		if g.p(0.5) {
			// temporary files exist for some time
			g.w.ChunkMs = g.n(10, 400)
		}
		var c *Cfg
		if g.p(0.75) {
			c = g.quietCfg()
		} else {
			c = g.cfg()
		}
		c.Evict = g.pick("none", "none", "none", "lru", "largest")
		c.Workers = g.n(1, 4)
		r := g.run(c)
		r.Mode, r.Out = "project", WorkDir+"/book.epub"
		c2 := *c
		c2.Workers = g.n(1, 4)
		q := r.with(nil)
		q.Cfg = &c2
		q.Out = WorkDir + "/second.epub"
		if g.p(0.4) {
			q.Articles = q.Articles[g.r.Intn(len(q.Articles)):]
		}
		if g.p(0.5) {
			q.Delay = g.n(0, 1500)
		}
		if g.p(0.3) {
			g.add(g.step(r.with(func(x *Run) { x.Articles = x.Articles[:1] }), "fill"))
			if g.p(0.5) {
				g.add(&Step{Kind: "clock", Dur: int64(g.n(0, 3_000_000))})
			}
		}
		if g.p(0.3) {
			b := g.base(r)
			if g.p(0.5) {
				r.Crash = g.crash(b)
			} else {
				q.Crash = g.crash(b)
			}
		}
		s := g.step(r, "pair")
		s.Kind, s.Run2 = "pair", q
		g.add(s)
		g.add(g.step(r.with(func(x *Run) { x.Out = WorkDir + "/third.epub" }), "later"))
	})
}

// outFor gives the output a name that fits its type.
func (g *gen) outFor(r *Run) {
	if r.Cfg.stats() && r.Mode == "standalone" {
		r.Mode = "article"
	}
	switch r.Cfg.OutputType {
	case "stats-json":
		r.Out = WorkDir + "/stats.json"
	case "stats-txt":
		r.Out = WorkDir + "/stats.txt"
	}
}

// foreign puts files of the user into the cache directory and sometimes the output as well.
func (g *gen) foreign(c *Cfg, r *Run) {
	s := &Step{Kind: "foreign", Frac: []int{0, 10, 300, 5000}[g.r.Intn(4)], Dur: int64(g.n(0, 100000))}
	for _, k := range []string{"notes.txt", "backup/book.epub", "project.json", ".git/HEAD", "articles.zip", "images2/a.png", "Html/x.html"} {
		if g.p(0.4) {
			s.Keys = append(s.Keys, path.Join(c.CacheDir, k))
		}
	}
	g.add(s)
	if g.p(0.4) && !c.stats() {
		r.Out = c.CacheDir + g.pick("/my.epub", "/books/my.epub")
	}
}

func (g *gen) bumps() []string {
	var keys []string
	for _, a := range g.w.Articles {
		if g.p(0.5) {
			keys = append(keys, "A:"+a.Title)
		}
	}
	for _, t := range g.w.Templates {
		if g.p(0.5) {
			keys = append(keys, "T:"+t.Name)
		}
	}
	for _, im := range g.w.Images {
		if g.p(0.6) {
			keys = append(keys, "F:"+im.Name)
		}
	}
	for _, m := range g.w.allMath() {
		if g.p(0.5) {
			keys = append(keys, "M:"+m)
		}
	}
	return keys
}

// cacheTotal measures the cache a run leaves when nothing is evicted.
func (g *gen) cacheTotal(r *Run) (total, max int64) {
	c := *r.Cfg
	c.Evict = "none"
	x := r.with(nil)
	x.Cfg = &c
	s := &Step{Kind: "run", Run: x, Pol: rt.Policy{Kind: "sequential"}, Seed: 1}
	sc := &Scenario{World: g.w, Steps: []*Step{s}}
	st := NewState(sc)
	st.knownNames()
	st.Cfgs = []*Cfg{&c}
	st.Step(s)
	for _, n := range cacheFiles(st.FS, c.CacheDir) {
		l := int64(len(n.Data))
		total += l
		if l > max {
			max = l
		}
	}
	if total < 1 {
		total, max = 1, 1
	}
	return
}

// Generate makes the scenario of a seed for the check of a property.
func Generate(prop string, seed uint64) *Scenario {
	return GenerateProfile(prop, "", seed)
}

func GenerateProfile(prop, prof string, seed uint64) *Scenario {
	g := &gen{r: rt.NewRand(rt.Hash64(prop, fmt.Sprint(seed))), sc: &Scenario{Prop: prop, Seed: seed}}
	if prof == "" {
		m := mix[prop]
		names := sortedKeys(m)
		sum := 0
		for _, n := range names {
			sum += m[n]
		}
		x := g.r.Intn(sum)
		for _, n := range names {
			if x < m[n] {
				prof = n
				break
			}
			x -= m[n]
		}
	}
	profiles[prof](g)
	g.sc.World = g.w
	return g.sc
}
