// Package harness builds simulated worlds (wiki servers, disk, external commands), runs the real
// program inside them and checks the properties.
package harness

import (
	"crypto/md5"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"sim/rt"
)

// ---------------------------------------------------------------- world

// Block is a piece of wikitext.
type Block struct {
	K   string   `json:"k"`            // text head bold tmpl img imap inl gal math ilink elink ref list table comment ign nowiki raw
	ID  int      `json:"id,omitempty"` // marker number
	S   string   `json:"s,omitempty"`  // image name, template name, formula, link target, raw text
	N   int      `json:"n,omitempty"`
	Sub []*Block `json:"sub,omitempty"`
}

type Article struct {
	Title  string   `json:"title"`
	Target string   `json:"target,omitempty"` // title after a redirect
	Grow   int      `json:"grow,omitempty"`   // words each new version adds
	Blocks []*Block `json:"blocks"`
	Rich   []*Node  `json:"rich,omitempty"` // instead of blocks
}

type Template struct {
	Name string   `json:"name"`
	Pre  []*Block `json:"pre,omitempty"`
	Post []*Block `json:"post,omitempty"`
	Mute bool     `json:"mute,omitempty"` // expands to nothing
	Raw  string   `json:"raw,omitempty"`  // hostile expansion, used as it is ({{ARG}} and {{TEXT}} are replaced)

	RichPre  []*Node `json:"rich_pre,omitempty"`
	RichPost []*Node `json:"rich_post,omitempty"`
}

// ImagePage is what one image source says about an image.
type ImagePage struct {
	Kind   string `json:"kind"`             // ok, missing (404), apierr (error header)
	Target string `json:"target,omitempty"` // redirect target (image name)
	NoFile bool   `json:"no_file,omitempty"`
}

type Image struct {
	Name  string               `json:"name"` // with spaces, starting with an upper-case letter
	Pages map[string]ImagePage `json:"pages"`
	Len   int                  `json:"len"`            // payload length
	Grow  int                  `json:"grow,omitempty"` // bytes each new version adds
	W, H  int
	Svg   int `json:"svg,omitempty"` // how the size of an SVG is given: 1 and 2 for an absolute width and height, from 4 the viewBox
}

// World is everything outside the program.
type World struct {
	Inst      string            `json:"inst"`
	Host      string            `json:"host"`
	ImgHost   string            `json:"img_host"`
	PageHosts []string          `json:"page_hosts"`
	MathAPI   string            `json:"math_api"`
	Articles  []*Article        `json:"articles"`
	Images    []*Image          `json:"images,omitempty"`
	Templates []*Template       `json:"templates,omitempty"`
	LatMax    int               `json:"lat_max"`            // milliseconds
	ChunkMs   int               `json:"chunk_ms,omitempty"` // greatest time between two parts of an answer, milliseconds
	LatSeed   uint64            `json:"lat_seed"`
	SlowHost  string            `json:"slow_host,omitempty"`
	Raw       map[string]string `json:"raw,omitempty"` // resource key -> hostile body
	Loc       map[string]string `json:"loc,omitempty"` // formula -> location header
	Chunk     int               `json:"chunk,omitempty"`
	Hostile   bool              `json:"hostile,omitempty"` // wikitext that is broken on purpose
}

func (w *World) article(title string) *Article {
	t := strings.ReplaceAll(title, "_", " ")
	for _, a := range w.Articles {
		if strings.ReplaceAll(a.Title, "_", " ") == t {
			return a
		}
	}
	return nil
}

func (w *World) image(name string) *Image {
	n := strings.ReplaceAll(name, "_", " ")
	for _, i := range w.Images {
		if strings.ReplaceAll(i.Name, "_", " ") == n {
			return i
		}
	}
	return nil
}

func (w *World) template(name string) *Template {
	n := strings.ToLower(strings.TrimSpace(name))
	for _, t := range w.Templates {
		if strings.ToLower(t.Name) == n {
			return t
		}
	}
	return nil
}

// Vers holds the current version of every remote resource ("A:title", "T:name", "F:name", "M:tex").
type Vers map[string]int

func (v Vers) Of(key string) int {
	if x, ok := v[key]; ok {
		return x
	}
	return 1
}

func (v Vers) Clone() Vers {
	c := Vers{}
	for k, x := range v {
		c[k] = x
	}
	return c
}

// mk is the marker of an element. The markers of two neighbours differ only in the case of a letter.
func mk(id, ver int) string {
	return fmt.Sprintf("mk%dv%d%c", id>>2<<1|id&1, ver, "zZ"[id>>1&1])
}

func unmk(m string) (id, ver int, ok bool) {
	p := markRe.FindStringSubmatch(m)
	if p == nil {
		return 0, 0, false
	}
	n, _ := strconv.Atoi(p[1])
	ver, _ = strconv.Atoi(p[2])
	id = n>>1<<2 | n&1
	if p[3] == "Z" {
		id |= 2
	}
	return id, ver, true
}

// ---------------------------------------------------------------- wikitext

func (w *World) inline(bs []*Block, ver int) string {
	var sb strings.Builder
	for i, b := range bs {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(w.wikiInline(b, ver))
	}
	return sb.String()
}

// wikiInline is the wikitext of one element. Dollar characters are ordinary text, wherever they appear.
func (w *World) wikiInline(b *Block, ver int) string {
	s := w.wikiElement(b, ver)
	switch b.K {
	case "text", "bold", "img", "inl", "math", "ilink", "elink", "ref", "nowiki":
		switch b.N >> 4 & 3 {
		case 1:
			return "US$" + s
		case 2:
			return "$$ or $" + s + "$"
		case 3:
			return s + "$$"
		}
	}
	return s
}

func (w *World) wikiElement(b *Block, ver int) string {
	m := mk(b.ID, ver)
	switch b.K {
	case "text":
		return "words " + m + " änd mehr,"
	case "bold":
		return "'''" + m + "''' and ''" + mk(b.ID+1, ver) + "''"
	case "tmpl":
		return "{{" + b.S + "|" + w.inline(b.Sub, ver) + "}}"
	case "img":
		return "[[" + fileRef(b) + "|mini|" + m + " caption]]"
	case "inl":
		return "[[" + fileRef(b) + "|20px]]"
	case "math":
		return "<math>" + b.S + "</math>"
	case "ilink":
		return "[[" + b.S + "|" + m + "]]"
	case "elink":
		return "[https://example.org/" + strconv.Itoa(b.ID) + " " + m + "]"
	case "ref":
		return "claim " + m + "<ref>source " + mk(b.ID+1, ver) + " here</ref>"
	case "nowiki":
		return "<nowiki>''" + m + "''</nowiki>"
	case "comment":
		return "<!-- hidden" + strconv.Itoa(b.ID) + " -->"
	case "ign":
		return "{{Ignored" + strconv.Itoa(b.N) + "|hidden" + strconv.Itoa(b.ID) + "}}"
	case "raw":
		return b.S
	case "bulk":
		return filler(b.N)
	}
	return m
}

// filler is text without anything to check.
func filler(words int) string {
	var sb strings.Builder
	for i := 0; i < words; i++ {
		if i > 0 && i%12 == 0 {
			sb.WriteString("\n\n")
		}
		sb.WriteString("filler" + strconv.Itoa(i) + " ")
	}
	return sb.String()
}

// fileRef names an image in one of the ways wikitext allows; they all mean the same file.
func fileRef(b *Block) string {
	name := b.S
	if b.N&4 != 0 {
		name = strings.ReplaceAll(name, " ", "_")
	}
	if b.N&8 != 0 {
		if r := []rune(name); unicode.ToUpper(unicode.ToLower(r[0])) == r[0] {
			name = string(unicode.ToLower(r[0])) + string(r[1:])
		}
	}
	return [...]string{"File:", "Image:", "image:", "file:"}[b.N&3] + name
}

func (w *World) wikiBlock(b *Block, ver int) string {
	switch b.K {
	case "head":
		return "== " + mk(b.ID, ver) + " ==\nsection text"
	case "imap":
		return "<imagemap>\n" + fileRef(b) + "|mini|" + mk(b.ID, ver) + " map\nrect 0 0 10 10 [[Link A]]\n</imagemap>"
	case "gal":
		s := "<gallery>\n"
		for i, x := range b.Sub {
			s += fileRef(x)
			if i%2 == 0 {
				s += "|" + mk(x.ID, ver) + " cap"
			}
			s += "\n"
		}
		return s + "</gallery>"
	case "list":
		s := ""
		for i, x := range b.Sub {
			if i > 0 {
				s += "\n"
			}
			s += "* item " + w.wikiInline(x, ver)
		}
		return s
	case "table":
		s := "{|\n"
		for i, x := range b.Sub {
			s += "|-\n"
			if i == 0 {
				s += "! "
			} else {
				s += "| "
			}
			s += w.wikiInline(x, ver) + "\n"
		}
		return s + "|}"
	}
	return w.wikiInline(b, ver)
}

// Wikitext is the source text of an article.
func (w *World) Wikitext(a *Article, ver int) string {
	if a.Rich != nil {
		return richText(a.Rich, ver)
	}
	var parts []string
	refs := false
	for _, b := range a.Blocks {
		parts = append(parts, w.wikiBlock(b, ver))
		if b.K == "ref" {
			refs = true
		}
	}
	if a.Grow > 0 && ver > 1 {
		parts = append(parts, filler(a.Grow*(ver-1)))
	}
	if refs {
		parts = append(parts, "== References ==\n<references />")
	}
	return strings.Join(parts, "\n\n")
}

// ---------------------------------------------------------------- server side of templates

var tmplRe = regexp.MustCompile(`(?s)^\{\{\s*([^|}]*?)\s*(\|(.*))?\}\}$`)

// Expand is the server's answer for the template text the program sent.
func (w *World) Expand(text string, vers Vers) (string, bool) {
	m := tmplRe.FindStringSubmatch(text)
	if m == nil {
		return "", false
	}
	t := w.template(m[1])
	if t == nil {
		return "[[:Template:" + m[1] + "]]", true
	}
	ver := vers.Of("T:" + t.Name)
	if t.Raw != "" {
		key := fmt.Sprintf("%x", sha1.Sum([]byte(text)))
		r := strings.ReplaceAll(t.Raw, "<ARG>", m[3])
		r = strings.ReplaceAll(r, "<SELF>", "$$TEMPLATE_PLACEHOLDER_"+key+"$$")
		r = strings.ReplaceAll(r, "<TEXT>", text)
		return r, true
	}
	if t.Mute {
		return "", true
	}
	if t.RichPre != nil {
		return richInline(t.RichPre, ver) + " " + m[3] + " " + richInline(t.RichPost, ver), true
	}
	return strings.TrimSpace(w.inline(t.Pre, ver) + " " + m[3] + " " + w.inline(t.Post, ver)), true
}

// ---------------------------------------------------------------- expected document

// Doc is what an article must contain, in order.
type Doc struct {
	Title  string
	Atoms  []string
	Images []string // names of needed images (wiki names)
	Math   []string
	Tree   *Elem // of a rich document
	Counts *Counts
}

type expander struct {
	w    *World
	vers Vers
	cfg  *Cfg
	doc  *Doc
	refs []string
	tail []*Template
}

func (e *expander) img(name string) (string, bool) {
	ext := strings.ToLower(strings.TrimPrefix(path.Ext(name), "."))
	for _, x := range e.cfg.ignoredMedia() {
		if x == ext {
			if (ext == "pdf" && e.cfg.PdfCmd != "") || (ext == "svg" && e.cfg.SvgCmd != "") {
				break
			}
			return "", false
		}
	}
	e.doc.Images = append(e.doc.Images, name)
	return "img:" + e.cfg.BookImagePath(name), true
}

func (e *expander) add(s ...string) { e.doc.Atoms = append(e.doc.Atoms, s...) }

func (e *expander) block(b *Block, ver int) {
	m := mk(b.ID, ver)
	switch b.K {
	case "text", "head", "ilink", "elink", "nowiki":
		e.add(m)
	case "bold":
		e.add(m, mk(b.ID+1, ver))
	case "tmpl":
		t := e.w.template(b.S)
		if t != nil && t.Mute {
			break
		}
		tv := e.vers.Of("T:" + b.S)
		if t != nil {
			for _, x := range t.Pre {
				e.block(x, tv)
			}
		}
		for _, x := range b.Sub {
			e.block(x, ver)
		}
		if t != nil {
			for _, x := range t.Post {
				e.block(x, tv)
			}
		}
	case "img", "imap":
		if p, ok := e.img(b.S); ok {
			e.add(p, m)
		}
	case "inl":
		if p, ok := e.img(b.S); ok {
			e.add(p)
		}
	case "gal":
		for i, x := range b.Sub {
			if p, ok := e.img(x.S); ok {
				e.add(p)
				if i%2 == 0 {
					e.add(mk(x.ID, ver))
				}
			}
		}
	case "math":
		e.doc.Math = append(e.doc.Math, b.S)
		e.add("img:"+e.cfg.BookMathPath(e.w, b.S), "mw:"+mathWidth(b.S, e.vers.Of("M:"+b.S)))
	case "ref":
		e.add(m)
		e.refs = append(e.refs, mk(b.ID+1, ver))
	case "list", "table":
		for _, x := range b.Sub {
			e.block(x, ver)
		}
	}
}

// Expect is the independent model of a generated document.
func (w *World) Expect(a *Article, title string, vers Vers, cfg *Cfg) *Doc {
	if a.Rich != nil {
		return w.richDoc(a, title, vers, cfg)
	}
	e := &expander{w: w, vers: vers, cfg: cfg, doc: &Doc{Title: title}}
	e.add("h1:" + title)
	ver := vers.Of("A:" + a.Title)
	for _, b := range a.Blocks {
		e.block(b, ver)
	}
	e.add(e.refs...)
	return e.doc
}

var atomRe = regexp.MustCompile(`(?s)mk\d+v\d+[zZ]|src="([^"]*)"|width: ([0-9.]+)ex|<h1>(.*?)</h1>|hidden\d+|FAILMARK|TEMPLATE_PLACEHOLDER|\$\$[A-Z_0-9]+\$\$`)

// headings hides all headings of the first level but the title of the article.
func headings(doc string) string {
	if i := strings.Index(doc, "</h1>"); i >= 0 {
		i += len("</h1>")
		return doc[:i] + strings.ReplaceAll(doc[i:], "<h1>", "<h2>")
	}
	return doc
}

// Atoms extracts the observable content of a generated document in order.
func Atoms(html string) []string {
	var out []string
	for _, m := range atomRe.FindAllStringSubmatch(headings(html), -1) {
		switch {
		case strings.HasPrefix(m[0], "src="):
			out = append(out, "img:"+decodeSrc(m[1]))
		case strings.HasPrefix(m[0], "width:"):
			out = append(out, "mw:"+m[2])
		case strings.HasPrefix(m[0], "<h1>"):
			out = append(out, "h1:"+m[3])
		default:
			out = append(out, m[0])
		}
	}
	return out
}

func decodeSrc(s string) string {
	s = strings.TrimPrefix(s, "./")
	parts := strings.Split(s, "/")
	for i, p := range parts {
		// A book reader decodes percent sequences but keeps a plus sign.
		if d, err := url.PathUnescape(p); err == nil {
			parts[i] = d
		}
	}
	return strings.Join(parts, "/")
}

var verRe = regexp.MustCompile(`v\d+([zZ])`)

// StripVer removes the version from an atom.
func StripVer(s string) string {
	if strings.HasPrefix(s, "mw:") {
		if i := strings.IndexByte(s, '.'); i >= 0 {
			return s[:i]
		}
		return s
	}
	return verRe.ReplaceAllString(s, "$1")
}

// ---------------------------------------------------------------- image contents

func pad(seed string, n int) string {
	h := rt.Hash64("pad", seed)
	b := make([]byte, n)
	for i := range b {
		h = h*6364136223846793005 + 1442695040888963407
		b[i] = "abcdefghijklmnopqrstuvwxyz012345"[(h>>33)&31]
	}
	return string(b)
}

func container(format, prov string, n int) string {
	return fmt.Sprintf("%s|prov=%s|len=%d|%s|END\n", format, prov, n, pad(prov, n))
}

var contRe = regexp.MustCompile(`(?s)([A-Z]+)\|prov=([^|]*)\|len=(\d+)\|([a-z0-9]*)\|END\n`)

// parseContainer returns format and provenance of complete image data.
func parseContainer(b []byte) (format, prov string, n int, ok bool) {
	s := string(b)
	if strings.HasPrefix(s, "<svg") {
		if !strings.HasSuffix(s, "</svg>\n") {
			return "", "", 0, false
		}
		m := contRe.FindStringSubmatch(s)
		if m == nil {
			return "", "", 0, false
		}
		k, _ := strconv.Atoi(m[3])
		size := ""
		if i := strings.Index(s, `width="`); i >= 0 {
			e := strings.Index(s[i+7:], `"`)
			size = s[i+7 : i+7+e]
		}
		if len(m[4]) != k || m[4] != pad(m[2], k) {
			return "", "", 0, false
		}
		return "SVG", m[2] + "@" + size, k, true
	}
	m := contRe.FindStringSubmatch(s)
	if m == nil || m[0] != s {
		return "", "", 0, false
	}
	k, _ := strconv.Atoi(m[3])
	if len(m[4]) != k || m[4] != pad(m[2], k) {
		return "", "", 0, false
	}
	return m[1], m[2], k, true
}

func fmtOf(name string) string {
	switch strings.ToLower(path.Ext(name)) {
	case ".jpg", ".jpeg":
		return "JPEG"
	case ".png":
		return "PNG"
	case ".svg":
		return "SVG"
	case ".pdf":
		return "PDF"
	case ".webp":
		return "WEBP"
	case ".gif":
		return "GIF"
	case ".tif", ".tiff":
		return "TIFF"
	}
	return ""
}

// imageBytes is the file the image server holds below one path segment.
func (w *World) imageBytes(seg, target string, im *Image, ver int) string {
	prov := fmt.Sprintf("%s/%s#%d", seg, strings.ReplaceAll(target, " ", "_"), ver)
	prov = strings.NewReplacer("|", "_", "&", "_", "<", "_", ">", "_").Replace(prov)
	f := fmtOf(target)
	size := im.Len + im.Grow*(ver-1)
	if f == "SVG" {
		dim := []string{"100%", "100%"}
		if im.Svg&1 != 0 {
			dim[0] = fmt.Sprintf("%dpt", im.W+1)
		}
		if im.Svg&2 != 0 {
			dim[1] = fmt.Sprintf("%d.5px", im.H)
		}
		vb := fmt.Sprintf([]string{"0 0 %d %d", "0,0,%d,%d", "0, 0, %d, %d", "0  0 %d\t%d"}[im.Svg>>2&3], im.W, im.H)
		return fmt.Sprintf("<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"%s\" height=\"%s\" viewBox=\"%s\"><desc>%s</desc></svg>\n", dim[0], dim[1], vb, container("SVG", prov, size))
	}
	if f == "" {
		f = "BIN"
	}
	return container(f, prov, size)
}

func mathWidth(tex string, ver int) string {
	h := rt.Hash64("mathw", tex) % 900
	return fmt.Sprintf("%d.%d", 100+h, ver)
}

func (w *World) mathLoc(tex string) string {
	if l, ok := w.Loc[tex]; ok {
		return l
	}
	return fmt.Sprintf("%x", md5.Sum([]byte("loc"+tex)))
}

func (w *World) mathSvg(tex string, ver int) string {
	return fmt.Sprintf("<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"%sex\" height=\"2.%dex\" style=\"vertical-align: -0.5ex;\" viewBox=\"0 0 10 10\"><desc>%s</desc></svg>\n",
		mathWidth(tex, ver), ver, container("SVG", fmt.Sprintf("math/%x#%d", sha1.Sum([]byte(tex)), ver), 40))
}

func (w *World) mathPng(tex string, ver int) string {
	return container("PNG", fmt.Sprintf("mathpng/%x#%d", sha1.Sum([]byte(tex)), ver), 60)
}

// seg is the path segment of the image server for an image source.
func seg(host string) string {
	if ok, _ := regexp.MatchString(`.+\.wiki.+\..+`, host); ok {
		return strings.SplitN(host, ".", 2)[0]
	}
	return ""
}

func md5hex(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }
func sha1hex(s string) string {
	return fmt.Sprintf("%x", sha1.Sum([]byte(s)))
}

// Source tells which image source delivers an image and what.
type Source struct {
	Host   string
	Seg    string
	Target string // with underscores
}

// SourceOf is the model for the order of image sources.
func (w *World) SourceOf(name string) (Source, bool) {
	im := w.image(name)
	if im == nil {
		return Source{}, false
	}
	for _, h := range w.PageHosts {
		p, ok := im.Pages[h]
		if !ok || p.Kind != "ok" {
			continue
		}
		t := im.Name
		if p.Target != "" {
			t = p.Target
		}
		if p.NoFile {
			continue
		}
		return Source{Host: h, Seg: seg(h), Target: strings.ReplaceAll(t, " ", "_")}, true
	}
	return Source{}, false
}

// fileAt finds what the image server has at segment and target name.
func (w *World) fileAt(sg, target string, vers Vers) (string, string, bool) {
	tn := strings.ReplaceAll(target, "_", " ")
	for _, im := range w.Images {
		for _, h := range sortedKeys(im.Pages) {
			p := im.Pages[h]
			if p.Kind != "ok" || p.NoFile || seg(h) != sg {
				continue
			}
			t := im.Name
			if p.Target != "" {
				t = p.Target
			}
			if strings.ReplaceAll(t, "_", " ") == tn {
				return w.imageBytes(sg, strings.ReplaceAll(t, " ", "_"), im, vers.Of("F:"+im.Name)), im.Name, true
			}
		}
	}
	return "", "", false
}

// RawImage is what the first delivering source sends for an image.
func (w *World) RawImage(name string, ver int) (string, bool) {
	s, ok := w.SourceOf(name)
	if !ok {
		return "", false
	}
	return w.imageBytes(s.Seg, s.Target, w.image(name), ver), true
}

// FinalImage is the image as it must appear in the book.
func (w *World) FinalImage(name string, ver int, cfg *Cfg) (string, bool) {
	raw, ok := w.RawImage(name, ver)
	if !ok {
		return "", false
	}
	return cfg.Pipeline(w.image(name).Name, raw)
}

// Pipeline mirrors the configured conversion and processing of a downloaded image.
func (c *Cfg) Pipeline(name, raw string) (string, bool) {
	file := strings.ReplaceAll(name, " ", "_")
	ext := strings.ToLower(path.Ext(file))
	data := raw
	if c.SvgViewbox && ext == ".svg" {
		data = absSize(data)
	}
	cmd := ""
	switch ext {
	case ".pdf":
		cmd = c.PdfCmd
	case ".svg":
		cmd = c.SvgCmd
	case ".webp":
		cmd = c.WebpCmd
	}
	if cmd != "" {
		out, ok := toolTransform(cmd, file, file+".png", []byte(data))
		if !ok {
			return "", false
		}
		data = string(out)
		ext = ".png"
		file += ".png"
	}
	if c.ProcCmd != "" && ext != ".svg" && ext != ".pdf" {
		out, ok := toolTransform(c.ProcCmd, file, file, []byte(data))
		if !ok {
			return "", false
		}
		data = string(out)
	}
	return data, true
}

var svgSizeRe = regexp.MustCompile(`width="([^"]*)" height="([^"]*)" viewBox="([^"]*)"`)

// absSize is an SVG with the size of its view box, unless both sizes are absolute.
func absSize(svg string) string {
	m := svgSizeRe.FindStringSubmatch(svg)
	if m == nil || !strings.HasSuffix(m[1], "%") && !strings.HasSuffix(m[2], "%") {
		return svg
	}
	v := strings.Fields(strings.ReplaceAll(m[3], ",", " "))
	if len(v) != 4 {
		return svg
	}
	return strings.Replace(svg, m[0], fmt.Sprintf(`width="%spt" height="%spt" viewBox="%s"`, v[2], v[3], m[3]), 1)
}

// toolTransform is the pure function a conversion command computes: its result depends on the
// command with all its options, on the input and on the format implied by the output name.
func toolTransform(template, in, out string, data []byte) ([]byte, bool) {
	f, prov, n, ok := parseContainer(data)
	if !ok || f == "" {
		return nil, false
	}
	of := fmtOf(out)
	if of == "" {
		return nil, false
	}
	opts := strings.ReplaceAll(strings.ReplaceAll(template, "{INPUT}", "I"), "{OUTPUT}", "O")
	p := fmt.Sprintf("%s>%s[%s]", prov, of, shortHash(opts))
	return []byte(container(of, p, n/2+7)), true
}

func shortHash(s string) string { return fmt.Sprintf("%06x", rt.Hash64(s)&0xffffff) }

// ---------------------------------------------------------------- helpers

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func sanitize(f string) string {
	for _, c := range []string{"%", "<", ">", ":", "\"", "/", "\\", "|", "?", "*"} {
		f = strings.ReplaceAll(f, c, fmt.Sprintf("%%%02X", c[0]))
	}
	return f
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
