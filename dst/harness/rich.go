package harness

import (
	"fmt"
	"html"
	htmlpkg "html"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"sim/rt"
)

// Wikitext of many kinds, nested, with a model of the document it stands for (P25).
//
// A document is a tree of nodes. richText writes it as wikitext, richDoc builds the elements the
// book has to consist of. What the program generated is read back by parseHTML and compared.

// Node is a piece of a document.
//
// Inline: text b i link slink clink ext url img math nowiki ref use sub br tmpl ign gone comment
// Blocks: p h list table itable gal imap references empty skip
// Parts:  item row cell gimg
type Node struct {
	K  string   `json:"k"`
	ID int      `json:"id,omitempty"`
	S  string   `json:"s,omitempty"` // text, name, target
	T  string   `json:"t,omitempty"` // options, attributes, group of a reference
	N  int      `json:"n,omitempty"`
	V  int      `json:"v,omitempty"` // way of writing it
	C  []*Node  `json:"c,omitempty"`
	D  []*Node  `json:"d,omitempty"`
	A  []string `json:"a,omitempty"`
}

func walkNodes(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		walkNodes(n.C, f)
		walkNodes(n.D, f)
	}
}

// ---------------------------------------------------------------- wikitext

type writer struct {
	ver int
}

func (x *writer) inline(ns []*Node) string {
	var sb strings.Builder
	for _, n := range ns {
		sb.WriteString(x.one(n))
	}
	return sb.String()
}

func (x *writer) text(n *Node) string { return strings.ReplaceAll(n.S, "@", mk(n.ID, x.ver)) }

func (x *writer) one(n *Node) string {
	switch n.K {
	case "text":
		return x.text(n)
	case "b":
		return "'''" + x.inline(n.C) + "'''"
	case "i":
		return "''" + x.inline(n.C) + "''"
	case "link":
		return "[[" + n.S + "|" + x.inline(n.C) + "]]" + n.T
	case "slink", "clink":
		return "[[" + n.S + "]]" + n.T
	case "ext", "uext":
		return "[" + n.S + " " + x.inline(n.C) + "]"
	case "img":
		return "[[" + strings.Join(append([]string{fileRef(&Block{S: n.S, N: n.N})}, append(n.A, x.caption(n)...)...), "|") + "]]"
	case "math":
		return [...]string{"<math>", "<math display=\"block\">", "<Math>", "<math chem=1>"}[n.V&3] + n.S + [...]string{"</math>", "</Math>"}[n.V>>2&1]
	case "nowiki":
		if n.V&1 != 0 {
			return "<Nowiki>" + x.text(n) + "</nowiki>"
		}
		return "<nowiki>" + x.text(n) + "</nowiki>"
	case "ref":
		if n.V&32 != 0 {
			return "<Ref" + refAttrs(n) + ">" + x.inline(n.C) + "</REF>"
		}
		return "<ref" + refAttrs(n) + ">" + x.inline(n.C) + "</ref>"
	case "use":
		return "<ref" + refAttrs(n) + [...]string{" />", "/>"}[n.V&1] + ""
	case "sub":
		return "<" + n.S + ">" + x.inline(n.C) + "</" + strings.Fields(n.S)[0] + ">"
	case "br":
		return [...]string{"<br>", "<br />", "<br/>"}[n.V%3]
	case "tmpl":
		return "{{" + n.S + "|" + x.inline(n.C) + "}}"
	case "trail":
		if len(n.C) > 0 {
			return "{{" + n.S + "|" + x.inline(n.C) + "}}"
		}
		return "{{" + n.S + "}}"
	case "ign", "gone", "comment":
		return n.S
	}
	panic("inline " + n.K)
}

func (x *writer) caption(n *Node) []string {
	if len(n.C) == 0 {
		return nil
	}
	return []string{x.inline(n.C)}
}

func refAttrs(n *Node) string {
	q := func(s string) string {
		switch {
		case n.V&2 != 0 && !strings.ContainsAny(s, " /"):
			return s
		case n.V&64 != 0:
			return "'" + s + "'"
		}
		return "\"" + s + "\""
	}
	eq := [...]string{"=", " = "}[n.V>>7&1]
	s := ""
	if n.T != "" && n.V&4 == 0 && n.V&512 == 0 {
		s += " group" + eq + q(n.T)
	}
	if n.S != "" {
		s += [...]string{" ", "\t"}[n.V>>10&1] + "name" + eq + q(n.S)
	}
	if n.T != "" && n.V&4 != 0 && n.V&512 == 0 {
		s += " group" + eq + q(n.T)
	}
	return s
}

func (x *writer) blocks(ns []*Node) string {
	var sb strings.Builder
	for i, n := range ns {
		if i > 0 {
			if n.V&1024 != 0 && n.K == "p" && ns[i-1].K == "table" {
				sb.WriteString(x.block(n)) // in the line of the table's end
				continue
			}
			// paragraphs need a blank line between them
			if n.V&256 != 0 && !(n.K == "p" && ns[i-1].K == "p") && n.K != "itable" && n.K != "list" {
				sb.WriteString("\n")
			} else {
				sb.WriteString("\n\n")
			}
		}
		sb.WriteString(x.block(n))
	}
	return sb.String()
}

func (x *writer) block(n *Node) string {
	switch n.K {
	case "p":
		return x.inline(n.C)
	case "h", "empty":
		m := strings.Repeat("=", n.N)
		sp := " "
		if n.V&1 != 0 {
			sp = ""
		}
		s := m + sp + x.inline(n.C) + sp + m
		if n.V&2 != 0 {
			s += "  "
		}
		if len(n.D) > 0 { // what makes up an empty section
			s += "\n" + x.inline(n.D)
		}
		return s
	case "list":
		return strings.TrimSuffix(x.list(n, ""), "\n")
	case "table", "itable":
		return strings.Repeat(":", n.N) + x.table(n)
	case "gal":
		s := [...]string{"<gallery", "<Gallery"}[n.V>>1&1] + n.S + ">"
		for i, g := range n.C {
			if i > 0 || n.V&1 == 0 {
				s += "\n"
			}
			f := fileRef(&Block{S: g.S, N: g.N})
			if g.V&1 != 0 {
				f = f[strings.IndexByte(f, ':')+1:]
			}
			s += strings.Join(append([]string{f}, append(g.A, x.caption(g)...)...), "|")
			if g.V&2 != 0 {
				s += "\n"
			}
		}
		return s + [...]string{"\n</gallery>", "</gallery>", "\n </gallery>", "\n</Gallery> "}[n.V>>2&3]
	case "imap":
		f := strings.Join(append([]string{fileRef(&Block{S: n.S, N: n.N})}, append(n.A, x.caption(n)...)...), "|")
		return "<imagemap>" + [...]string{"\n", "", "\n# File:x.jpg|100px\n", "\n\n"}[n.V&3] + f + "\nrect 0 0 10 10 [[Link A]]\ndesc none" + [...]string{"\n", "", "\n\n ", ""}[n.V>>2&3] + "</imagemap>" + [...]string{"", " "}[n.V>>4&1]
	case "references":
		g := ""
		if n.T != "" {
			g = " group=\"" + n.T + "\""
			if n.V&2 != 0 && !strings.Contains(n.T, " ") {
				g = " group=" + n.T
			}
		}
		if len(n.C) == 0 {
			return "<references" + g + [...]string{" />", "/>"}[n.V&1]
		}
		s := "<references" + g + ">"
		if n.V&8 == 0 {
			s += "\n"
		}
		for _, r := range n.C {
			s += x.one(r)
			if n.V&4 == 0 {
				s += "\n"
			}
		}
		return s + "</references>"
	case "skip":
		return n.S
	case "bs": // the beginning of a table stands in a template that is not evaluated
		return "{{BS-table}}\n" + x.blocks(n.C) + "\n|}"
	case "div":
		nl := "\n"
		if n.V&1 != 0 && len(n.C) == 1 && (n.C[0].K == "gal" || n.C[0].K == "imap") {
			nl = ""
		}
		return "<" + n.S + ">" + nl + x.blocks(n.C) + nl + "</" + strings.Fields(n.S)[0] + ">"
	}
	panic("block " + n.K)
}

func (x *writer) list(n *Node, prefix string) string {
	s := ""
	for _, it := range n.C {
		c := it.T[:1]
		s += prefix + c
		if it.V&1 == 0 {
			s += " "
		}
		if it.S != "" {
			s += "<li " + it.S + ">" + [...]string{"", " "}[it.V>>3&1]
		}
		s += x.inline(it.C)
		if it.S != "" && it.V&4 != 0 {
			s += "</li>"
		}
		if len(it.T) > 1 { // head and description in one line
			s += " : " + x.inline(it.D) + "\n"
			continue
		}
		s += "\n"
		for _, sub := range it.D {
			s += x.list(sub, prefix+c)
		}
		if it.V&2 != 0 {
			s += prefix + c + "\n" // an empty entry
		}
	}
	return s
}

func (x *writer) table(n *Node) string {
	in := [...]string{"", "", "", " "}[n.V&3] // indentation
	s := "{|" + n.S + "\n"
	if len(n.D) > 0 {
		s += in + "|+" + n.T + " " + x.inline(n.D) + "\n"
	}
	for i, r := range n.C {
		if i > 0 || r.V&1 == 0 {
			s += in + "|-" + r.S + "\n"
			if r.V&2 != 0 {
				s += in + "|-" + r.S + "\n"
			}
		}
		for k, c := range r.C {
			m := "|"
			if c.N&1 != 0 {
				m = "!"
			}
			if c.V&1 != 0 && k > 0 && r.C[k-1].N&1 == c.N&1 && !r.C[k-1].block() {
				sp := [...]string{" ", ""}[c.V>>1&1]
				if len(r.C[k-1].C) == 0 || strings.HasSuffix(s, "!\n") || strings.HasSuffix(s, "|\n") {
					sp = " "
				}
				s = strings.TrimSuffix(s, "\n") + sp + m
			}
			if strings.HasSuffix(s, "\n") {
				s += in
			}
			s += m
			if c.T != "" {
				s += " " + c.T + " |"
			}
			t := x.inline(c.C)
			if t == "" || strings.ContainsAny(t[:1], "-+}|!") || len(c.C) > 0 && (strings.Contains("tmpl ign gone comment", c.C[0].K) ||
				c.C[0].K == "img" && !slices.Contains([]string{".jpg", ".jpeg", ".png", ".svg", ".webp"}, strings.ToLower(path.Ext(c.C[0].S)))) {
				t = " " + t // not to be mistaken for the start of something else
			}
			s += [...]string{" ", ""}[c.V>>2&1] + t + "\n"
			if c.block() {
				if d := c.D[0]; c.V&8 != 0 && (d.K == "gal" || d.K == "imap") {
					s = strings.TrimSuffix(s, "\n") // in the same line
				}
				s += x.blocks(c.D) + "\n"
			}
		}
	}
	if n.V&4 != 0 {
		s += in + "|-\n"
	}
	return s + in + "|}"
}

func (n *Node) block() bool { return len(n.D) > 0 }

// richText is the wikitext of a document.
func richText(ns []*Node, ver int) string {
	x := &writer{ver: ver}
	return x.blocks(ns)
}

func richInline(ns []*Node, ver int) string {
	x := &writer{ver: ver}
	return x.inline(ns)
}

// ---------------------------------------------------------------- the expected elements

// Elem is an element or a piece of text of a document.
type Elem struct {
	Tag  string // "" for text
	Attr string
	Text string
	Fmt  string // formatting of a piece of text
	Kids []*Elem
}

type refGroup struct {
	next  int
	names map[string]int
	todo  map[int]*Elem
	count map[int]*Counts
}

// Counts is what the statistics of an article have to count.
type Counts struct {
	Links          map[string]int // internal links by target
	Int, Ext       int
	Imgs, Math     int
	RefD, RefU     int
	Words, MaxWord int // words of plain text; words of everything that may count as text
	Chars          int // characters of plain text without white space
}

func newCounts() *Counts { return &Counts{Links: map[string]int{}} }

func (c *Counts) add(o *Counts) {
	for k, v := range o.Links {
		c.Links[k] += v
	}
	c.Int += o.Int
	c.Ext += o.Ext
	c.Imgs += o.Imgs
	c.Math += o.Math
	c.RefD += o.RefD
	c.RefU += o.RefU
	c.Words += o.Words
	c.MaxWord += o.MaxWord
	c.Chars += o.Chars
}

// wordsOf counts sequences of letters and digits.
func wordsOf(s string) int {
	return len(strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) }))
}

type modeler struct {
	title  string
	count  *Counts
	w      *World
	cfg    *Cfg
	vers   Vers
	ver    int
	cur    *Elem
	bold   bool
	ital   bool
	groups map[string]*refGroup
	trail  []*Node
	images []string
	math   []string
}

func (m *modeler) add(e *Elem) { m.cur.Kids = append(m.cur.Kids, e) }

func (m *modeler) put(s string) {
	for _, t := range []string{"TOKEN_", "MARKER_"} {
		s = strings.ReplaceAll(s, "$$"+t, "&#36;&#36;"+t)
	}
	m.count.MaxWord += wordsOf(s)
	f := ""
	if m.bold {
		f += "b"
	}
	if m.ital {
		f += "i"
	}
	m.add(&Elem{Text: s, Fmt: f})
}

// in builds an element with the given content.
func (m *modeler) in(tag, attr string, f func()) *Elem {
	e := &Elem{Tag: tag, Attr: attr}
	m.count.MaxWord += 2*wordsOf(tag) + wordsOf(attr)
	old := m.cur
	m.cur = e
	f()
	m.cur = old
	return e
}

// plain builds an element whose content does not take part in the formatting around it.
func (m *modeler) plain(tag, attr string, f func()) *Elem {
	b, i := m.bold, m.ital
	m.bold, m.ital = false, false
	e := m.in(tag, attr, f)
	m.bold, m.ital = b, i
	return e
}

func (m *modeler) group(g string) *refGroup {
	if m.groups[g] == nil {
		m.groups[g] = &refGroup{names: map[string]int{}, todo: map[int]*Elem{}, count: map[int]*Counts{}}
	}
	return m.groups[g]
}

func (m *modeler) number(n *Node) int {
	g := m.group(n.T)
	if n.S == "" {
		g.next++
		return g.next
	}
	if g.names[n.S] == 0 {
		g.next++
		g.names[n.S] = g.next
	}
	return g.names[n.S]
}

func (m *modeler) define(n *Node) int {
	k := m.number(n)
	old := m.count
	m.count = newCounts()
	m.group(n.T).todo[k] = m.plain("ref", "", func() { m.inline(n.C) })
	m.group(n.T).count[k] = m.count
	m.count = old
	return k
}

func (m *modeler) inline(ns []*Node) {
	for _, n := range ns {
		m.one(n)
	}
}

func (m *modeler) text(n *Node) string { return strings.ReplaceAll(n.S, "@", mk(n.ID, m.ver)) }

func (m *modeler) one(n *Node) {
	switch n.K {
	case "text":
		m.plainText(htmlpkg.UnescapeString(m.text(n)))
		m.put(m.text(n))
	case "nowiki":
		m.plainText(m.text(n))
		m.put(strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(m.text(n)))
	case "b":
		old := m.bold
		m.bold = true
		m.inline(n.C)
		m.bold = old
	case "i":
		old := m.ital
		m.ital = true
		m.inline(n.C)
		m.ital = old
	case "link":
		m.link(n.S)
		m.inline(n.C)
		m.put(n.T)
	case "slink": // the text of the link is its target without a section
		s := strings.TrimSpace(n.S)
		m.link(s)
		if strings.HasPrefix(s, "#") {
			s = s[1:]
		} else if i := strings.IndexByte(s, '#'); i >= 0 {
			s = s[:i]
		}
		m.put(s + n.T)
	case "clink": // a link to a category
		m.link(n.S)
		m.put(n.S[strings.LastIndexByte(n.S, ':')+1:] + n.T)
	case "uext": // of a protocol no reader follows: nothing but its text
		m.inline(n.C)
	case "ext":
		m.count.Ext++
		m.add(m.in("a", "href="+n.S, func() { m.inline(n.C) }))
	case "img":
		m.image(n, false)
	case "math":
		m.math = append(m.math, n.S)
		m.count.Math++
		m.add(&Elem{Tag: "img", Attr: "src=" + m.cfg.BookMathPath(m.w, n.S) + ";math=" + mathWidth(n.S, m.vers.Of("M:"+n.S))})
	case "ref":
		m.count.RefU++
		m.put("[" + strconv.Itoa(m.define(n)) + "]")
	case "use":
		m.count.RefU++
		m.put("[" + strconv.Itoa(m.number(n)) + "]")
	case "sub":
		f := strings.SplitN(n.S, " ", 2)
		a := ""
		if len(f) > 1 {
			a = strings.ReplaceAll(f[1], "\"", "")
		}
		m.add(m.in(f[0], a, func() { m.inline(n.C) }))
	case "br":
		m.count.MaxWord++
		m.add(&Elem{Tag: "br"})
	case "tmpl":
		m.tmpl(n)
	case "trail":
		m.trail = append(m.trail, n)
	case "ign", "gone", "comment":
	default:
		panic("model " + n.K)
	}
}

// plainText counts words and characters.
func (m *modeler) plainText(s string) {
	m.count.Words += wordsOf(s)
	m.count.Chars += len([]rune(strings.Join(strings.Fields(s), "")))
}

// link counts a link to another article or to a section of this one.
func (m *modeler) link(target string) {
	t, _, _ := strings.Cut(target, "#")
	if t = strings.TrimSpace(t); t == "" {
		t = m.title
	}
	m.count.Int++
	m.count.Links[t]++
}

func (m *modeler) tmpl(n *Node) {
	t := m.w.template(n.S)
	v := m.vers.Of("T:" + t.Name)
	m.as(v, func() { m.inline(t.RichPre) })
	m.put(" ")
	m.inline(n.C)
	m.put(" ")
	m.as(v, func() { m.inline(t.RichPost) })
}

func (m *modeler) as(ver int, f func()) {
	old := m.ver
	m.ver = ver
	f()
	m.ver = old
}

// image adds an image, in the text or as a figure.
func (m *modeler) image(n *Node, framed bool) {
	w, h := -1, -1
	fig, cap := framed, framed
	for _, o := range n.A {
		switch {
		case o == "mini" || o == "thumb":
			fig, cap = true, true
		case strings.HasSuffix(o, "px"):
			a, b, two := strings.Cut(strings.TrimSuffix(o, "px"), "x")
			w, h = -1, -1
			if x, err := strconv.Atoi(a); err == nil {
				w = x
			}
			if x, err := strconv.Atoi(b); two && err == nil {
				h = x
			}
			fig = fig || w >= 100 || h >= 50
		}
	}
	e := &expander{w: m.w, vers: m.vers, cfg: m.cfg, doc: &Doc{}}
	at, ok := e.img(n.S)
	style := ""
	if w != -1 || h != -1 {
		px := func(k string, v int) string {
			if v == -1 {
				return k + ": auto;"
			}
			return fmt.Sprintf("%s: %dpx;", k, v)
		}
		style = ";style=vertical-align: middle; " + px("width", w) + " " + px("height", h)
	}
	src := "src=" + strings.TrimPrefix(at, "img:") + style
	nm := len(m.math)
	old := m.count
	m.count = newCounts()
	c := m.plain("div", "class=caption", func() { m.inline(n.C) })
	caption := m.count
	m.count = old
	if !ok {
		// an image of a type that is not wanted; references in its caption still count
		m.math = m.math[:nm]
		return
	}
	m.images = append(m.images, e.doc.Images...)
	m.count.Imgs++
	if !fig {
		m.add(&Elem{Tag: "img", Attr: "class=inline;" + src})
		return
	}
	f := &Elem{Tag: "div", Attr: "class=figure", Kids: []*Elem{{Tag: "img", Attr: src}}}
	if cap {
		m.count.add(caption)
		f.Kids = append(f.Kids, c)
	}
	m.add(f)
}

func (m *modeler) blocks(ns []*Node) {
	for i, n := range ns {
		k := len(m.cur.Kids)
		if i > 0 && n.K == "p" && ns[i-1].K != "references" {
			// dropped again next to blocks
			m.add(&Elem{Tag: "para"})
		}
		at := len(m.cur.Kids)
		m.block(n)
		if len(m.cur.Kids) == at {
			m.cur.Kids = m.cur.Kids[:k] // nothing but an image that is not wanted
		}
	}
}

func (m *modeler) block(n *Node) {
	switch n.K {
	case "p":
		m.inline(n.C)
	case "h":
		m.add(m.in("h"+strconv.Itoa(n.N), "", func() { m.inline(n.C) }))
	case "empty", "skip":
	case "list":
		m.add(m.list(n))
	case "table":
		m.add(m.table(n))
	case "itable":
		d := m.table(n)
		for i := 0; i < n.N; i++ {
			dd := &Elem{Tag: "div", Attr: "class=dd", Kids: []*Elem{d}}
			d = &Elem{Tag: "div", Attr: "class=description-list", Kids: []*Elem{dd}}
		}
		m.add(d)
	case "bs":
		m.add(&Elem{Tag: "para"})
		m.blocks(n.C)
	case "div":
		f := strings.SplitN(n.S, " ", 2)
		a := ""
		if len(f) > 1 {
			a = strings.ReplaceAll(f[1], "\"", "")
		}
		m.add(m.in(f[0], a, func() { m.blocks(n.C) }))
	case "gal":
		for _, g := range n.C {
			m.image(g, true)
		}
	case "imap":
		m.image(n, false)
	case "references":
		for _, r := range n.C {
			m.define(r)
		}
		g := m.group(n.T)
		var ks []int
		for k := range g.todo {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		m.put(" ")
		for _, k := range ks {
			m.put("[" + strconv.Itoa(k) + "] ")
			m.count.RefD++
			m.count.add(g.count[k])
			m.cur.Kids = append(m.cur.Kids, g.todo[k].Kids...)
			m.add(&Elem{Tag: "br"})
			delete(g.todo, k)
		}
	default:
		panic("model " + n.K)
	}
}

func (m *modeler) list(n *Node) *Elem {
	tag, attr := "ul", ""
	switch n.T {
	case "#":
		tag = "ol"
	case ":", ";":
		tag, attr = "div", "class=description-list"
	}
	return m.plain(tag, attr, func() {
		for _, it := range n.C {
			itag, iattr := "li", ""
			switch it.T[0] {
			case ':':
				itag, iattr = "div", "class=dd"
			case ';':
				itag, iattr = "div", "class=dt"
			}
			if it.S != "" {
				iattr = strings.ReplaceAll(it.S, "\"", "")
			}
			if len(it.T) > 1 {
				m.add(m.in(itag, iattr, func() { m.inline(it.C) }))
				m.add(m.in("div", "class=dd", func() { m.inline(it.D) }))
				continue
			}
			m.add(m.in(itag, iattr, func() {
				m.inline(it.C)
				for _, s := range it.D {
					m.add(m.list(s))
				}
			}))
		}
	})
}

func (m *modeler) table(n *Node) *Elem {
	var caption *Elem
	if len(n.D) > 0 {
		caption = m.plain("div", "class=caption", func() { m.inline(n.D) })
	}
	t := m.plain("table", "", func() {
		for _, r := range n.C {
			m.add(m.in("tr", "", func() {
				for _, c := range r.C {
					tag := "td"
					if c.N&1 != 0 {
						tag = "th"
					}
					m.add(m.in(tag, cellAttrs(c.T), func() {
						m.inline(c.C)
						if len(c.D) > 0 {
							if c.D[0].K == "p" {
								m.put(" ")
							}
							m.blocks(c.D)
						}
					}))
				}
			}))
		}
	})
	f := &Elem{Tag: "div", Attr: "class=figure", Kids: []*Elem{t}}
	if caption != nil {
		f.Kids = append(f.Kids, caption)
	}
	return f
}

// cellAttrs are the attributes of a cell that have an effect in the book.
func cellAttrs(s string) string {
	var out []string
	for _, a := range splitAttrs(s) {
		switch a[0] {
		case "colspan", "rowspan":
			out = append(out, a[0]+"="+a[1])
		case "style":
			for _, d := range strings.Split(a[1], ";") {
				k, v, _ := strings.Cut(d, ":")
				if strings.ToLower(strings.TrimSpace(k)) == "text-align" {
					out = append(out, "style=text-align:"+strings.TrimSpace(v))
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func splitAttrs(s string) [][2]string {
	var out [][2]string
	s = strings.TrimSpace(s)
	for s != "" {
		k, rest, ok := strings.Cut(s, "=")
		k = strings.ToLower(strings.TrimSpace(k))
		rest = strings.TrimLeft(rest, " ")
		if !ok {
			if k != "" && k != "/" {
				out = append(out, [2]string{k, ""})
			}
			return out
		}
		v := ""
		if rest != "" && strings.Contains("\"'", rest[:1]) {
			v, rest, _ = strings.Cut(rest[1:], rest[:1])
		} else {
			v, rest, _ = strings.Cut(rest, " ")
		}
		out = append(out, [2]string{k, v})
		s = strings.TrimSpace(rest)
	}
	return out
}

// richDoc is the model of an article with a rich document.
func (w *World) richDoc(a *Article, title string, vers Vers, cfg *Cfg) *Doc {
	m := &modeler{title: title, count: newCounts(), w: w, cfg: cfg, vers: vers, ver: vers.Of("A:" + a.Title), groups: map[string]*refGroup{}}
	root := m.in("body", "", func() {
		m.blocks(a.Rich)
		for _, t := range m.trail {
			m.put(" ")
			m.tmpl(t)
		}
	})
	d := &Doc{Title: title, Images: m.images, Math: m.math, Tree: normElem(root), Counts: m.count}
	d.Atoms = append([]string{"h1:" + title}, treeAtoms(d.Tree)...)
	return d
}

func treeAtoms(e *Elem) []string {
	if e.Tag == "" {
		return Atoms(e.Text)
	}
	var out []string
	if e.Tag == "img" {
		for _, p := range strings.Split(e.Attr, ";") {
			if strings.HasPrefix(p, "src=") {
				out = append(out, "img:"+p[4:])
			}
			if strings.HasPrefix(p, "math=") {
				out = append(out, "mw:"+p[5:])
			}
		}
	}
	for _, k := range e.Kids {
		out = append(out, treeAtoms(k)...)
	}
	return out
}

// ---------------------------------------------------------------- reading the generated document

var blockTags = map[string]bool{"blockquote": true, "center": true, "div": true, "ul": true, "ol": true, "li": true, "table": true, "tr": true, "td": true, "th": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "h7": true}

func isNameChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// parseHTML reads the body of a generated document.
func parseHTML(doc string) (*Elem, error) {
	// EPUBs made by the program itself contain whole documents in their sections
	i := strings.LastIndex(doc, "<body")
	j := strings.Index(doc, "</body>")
	if i < 0 || j < i {
		return nil, fmt.Errorf("the document has no body")
	}
	s := doc[i:j]
	s = s[strings.IndexByte(s, '>')+1:]
	if k := strings.Index(s, "</h1>"); k >= 0 {
		s = s[k+5:]
	}
	root := &Elem{Tag: "body"}
	stack := []*Elem{root}
	var bold, ital int
	text := func(t string) {
		if t == "" {
			return
		}
		f := ""
		if bold > 0 {
			f += "b"
		}
		if ital > 0 {
			f += "i"
		}
		top := stack[len(stack)-1]
		top.Kids = append(top.Kids, &Elem{Text: t, Fmt: f})
	}
	for s != "" {
		k := strings.IndexByte(s, '<')
		if k < 0 {
			text(s)
			break
		}
		if k+1 >= len(s) || !(isNameChar(s[k+1]) || s[k+1] == '/') {
			text(s[:k+1])
			s = s[k+1:]
			continue
		}
		text(s[:k])
		s = s[k+1:]
		e := strings.IndexByte(s, '>')
		if e < 0 {
			return nil, fmt.Errorf("the tag <%s is not closed", firstLine(s))
		}
		tag := s[:e]
		s = s[e+1:]
		closing := strings.HasPrefix(tag, "/")
		tag = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(tag, "/"), "/"))
		name, rest, _ := strings.Cut(tag, " ")
		name = strings.TrimSpace(strings.ToLower(name))
		top := stack[len(stack)-1]
		switch {
		case name == "br" || name == "img":
			top.Kids = append(top.Kids, &Elem{Tag: name, Attr: attrs(name, rest)})
		case closing:
			if len(stack) == 1 || top.Tag != name {
				return nil, fmt.Errorf("</%s> closes <%s>", name, top.Tag)
			}
			stack = stack[:len(stack)-1]
			if name == "b" {
				bold--
			}
			if name == "i" {
				ital--
			}
		default:
			n := &Elem{Tag: name, Attr: attrs(name, rest)}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
			if name == "b" {
				bold++
			}
			if name == "i" {
				ital++
			}
		}
	}
	if len(stack) > 1 {
		return nil, fmt.Errorf("<%s> is not closed", stack[len(stack)-1].Tag)
	}
	return normElem(root), nil
}

func attrs(tag, s string) string {
	var out []string
	for _, a := range splitAttrs(s) {
		k, v := a[0], html.UnescapeString(a[1])
		switch {
		case k == "alt":
			continue
		case k == "src":
			v = decodeSrc(v)
		case k == "style" && (tag == "td" || tag == "th"):
			v = strings.ToLower(strings.ReplaceAll(strings.TrimSuffix(v, ";"), " ", ""))
		case tag == "img" && k == "style" && strings.Contains(v, "ex;"):
			k = "math"
			v = strings.TrimPrefix(v, "width: ")
			v, _, _ = strings.Cut(v, "ex;")
		}
		out = append(out, k+"="+v)
	}
	if tag != "img" {
		sort.Strings(out)
	}
	// the order of the attributes is of no interest
	sort.SliceStable(out, func(i, j int) bool { return attrRank(out[i]) < attrRank(out[j]) })
	return strings.Join(out, ";")
}

func attrRank(a string) int {
	for i, p := range []string{"class=", "src=", "math=", "style="} {
		if strings.HasPrefix(a, p) {
			return i
		}
	}
	return -1
}

// normElem brings elements into a normal form: formatting belongs to the text, white space is
// collapsed, breaks next to blocks do not count.
func normElem(e *Elem) *Elem {
	out := &Elem{Tag: e.Tag, Attr: e.Attr}
	var kids []*Elem
	var flat func(ks []*Elem)
	flat = func(ks []*Elem) {
		for _, k := range ks {
			switch {
			case k.Tag == "b" || k.Tag == "i" || k.Tag == "tbody":
				flat(k.Kids)
			case k.Tag == "":
				k = &Elem{Text: html.UnescapeString(k.Text), Fmt: k.Fmt}
				if n := len(kids); n > 0 && kids[n-1].Tag == "" && kids[n-1].Fmt == k.Fmt {
					kids[n-1] = &Elem{Text: kids[n-1].Text + k.Text, Fmt: k.Fmt}
				} else if strings.TrimSpace(k.Text) == "" && n > 0 && kids[n-1].Tag == "" {
					kids[n-1] = &Elem{Text: kids[n-1].Text + k.Text, Fmt: kids[n-1].Fmt}
				} else {
					kids = append(kids, &Elem{Text: k.Text, Fmt: k.Fmt})
				}
			case k.Tag == "br" || k.Tag == "para":
				kids = append(kids, &Elem{Tag: k.Tag})
			default:
				kids = append(kids, normElem(k))
			}
		}
	}
	flat(e.Kids)
	// white space
	var ks []*Elem
	for _, k := range kids {
		if k.Tag == "" {
			t := strings.Join(strings.Fields(k.Text), " ")
			if t == "" {
				continue
			}
			// pieces that became neighbours
			if n := len(ks); n > 0 && ks[n-1].Tag == "" && ks[n-1].Fmt == k.Fmt {
				sp := ""
				if strings.TrimLeft(k.Text, " \n\t") != k.Text {
					sp = " "
				}
				ks[n-1] = &Elem{Text: ks[n-1].Text + sp + t, Fmt: k.Fmt}
				continue
			}
			ks = append(ks, &Elem{Text: t, Fmt: k.Fmt})
			continue
		}
		if (k.Tag == "div" && k.Attr == "class=caption" || k.Tag == "tr") && len(k.Kids) == 0 {
			continue
		}
		ks = append(ks, k)
	}
	// breaks
	for i := 0; i < len(ks); {
		k := ks[i]
		if k.Tag != "br" && k.Tag != "para" {
			out.Kids = append(out.Kids, k)
			i++
			continue
		}
		j := i
		n := 0
		for j < len(ks) && (ks[j].Tag == "br" || ks[j].Tag == "para") {
			n++
			if ks[j].Tag == "para" {
				n++
			}
			j++
		}
		edge := len(out.Kids) == 0 || j == len(ks) || blockTags[out.Kids[len(out.Kids)-1].Tag] || blockTags[ks[j].Tag]
		if !edge {
			t := "br"
			if n > 1 {
				t = "para"
			}
			out.Kids = append(out.Kids, &Elem{Tag: t})
		}
		i = j
	}
	return out
}

func (e *Elem) String() string {
	if e.Tag == "" {
		return fmt.Sprintf("%q%s", e.Text, e.Fmt)
	}
	return "<" + strings.TrimSpace(e.Tag+" "+e.Attr) + ">"
}

// diffElem describes the first difference between two trees.
func diffElem(g, w *Elem, at string) string {
	if g.Tag != w.Tag || g.Attr != w.Attr || StripVer(g.Text) != StripVer(w.Text) || g.Fmt != w.Fmt {
		return fmt.Sprintf("%s: found %s, expected %s", at, g, w)
	}
	for i := 0; i < len(g.Kids) || i < len(w.Kids); i++ {
		p := at + "/" + g.Tag
		if i >= len(g.Kids) {
			return fmt.Sprintf("%s[%d]: %s is missing", p, i, w.Kids[i])
		}
		if i >= len(w.Kids) {
			return fmt.Sprintf("%s[%d]: %s is too much", p, i, g.Kids[i])
		}
		if d := diffElem(g.Kids[i], w.Kids[i], fmt.Sprintf("%s[%d]", p, i)); d != "" {
			return d
		}
	}
	return ""
}

// checkRich compares a document with its model (P25).
func (st *State) checkRich(title, doc string, exp *Doc, images bool) bool {
	st.Stat.probe("rich-documents")
	g, err := parseHTML(doc)
	if err != nil {
		st.v("P25", "broken-markup", "article %s: %v", title, err)
		return false
	}
	w := exp.Tree
	if !images {
		g, w = hideSrc(g), hideSrc(w)
	}
	if d := diffElem(g, w, ""); d != "" {
		st.v("P25", "structure", "article %s: %s", title, d)
		return false
	}
	return true
}

// hideSrc leaves out where images are found.
func hideSrc(e *Elem) *Elem {
	o := *e
	if e.Tag == "img" {
		var a []string
		for _, p := range strings.Split(e.Attr, ";") {
			if !strings.HasPrefix(p, "src=") {
				a = append(a, p)
			}
		}
		o.Attr = strings.Join(a, ";")
	}
	o.Kids = nil
	for _, k := range e.Kids {
		o.Kids = append(o.Kids, hideSrc(k))
	}
	return &o
}

// checkCounts compares the statistics of an article with its model (P26).
func (st *State) checkCounts(title string, s *statsFile, c *Counts) {
	st.Stat.probe("counted-documents")
	for _, x := range []struct {
		sig, what string
		got, want int
	}{
		{"internal-links", "internal links", s.Int, c.Int},
		{"external-links", "external links", s.Ext, c.Ext},
		{"images", "images", s.Imgs, c.Imgs},
		{"formulas", "formulas", s.Math, c.Math},
		{"references", "references", s.RefD, c.RefD},
		{"uses", "uses of references", s.RefU, c.RefU},
	} {
		if x.got != x.want {
			st.v("P26", x.sig, "the statistics of article %s count %d %s, it has %d", title, x.got, x.what, x.want)
			return
		}
	}
	for _, t := range sortedKeys(c.Links) {
		if s.Links[t] != c.Links[t] {
			st.v("P26", "targets", "the statistics of article %s count %d links to %s, it has %d", title, s.Links[t], t, c.Links[t])
			return
		}
	}
	for _, t := range sortedKeys(s.Links) {
		if c.Links[t] == 0 {
			st.v("P26", "targets", "the statistics of article %s count %d links to %q, it has none", title, s.Links[t], t)
			return
		}
	}
	if s.Words < c.Words || s.Words > c.MaxWord {
		st.v("P26", "words", "the statistics of article %s count %d words, its text has %d and with all markup %d", title, s.Words, c.Words, c.MaxWord)
		return
	}
	if s.Chars < c.Chars {
		st.v("P26", "characters", "the statistics of article %s count %d characters, its text has %d without white space", title, s.Chars, c.Chars)
	}
}

// ---------------------------------------------------------------- making documents

// rctx is where a piece of text stands.
type rctx struct {
	depth                                  int
	bold, ital, link, ref, head, cell, cap bool
	dt, def, noImg, th, listItem, tmpl     bool
	only                                   bool // the content may be a single element
}

type richGen struct {
	*gen
	named  map[string][]*Node // definitions by group, to be used elsewhere
	groups map[string]bool
	late   []*Node // definitions that still have to be put into the list of references
	trails int
	inDiv  bool
}

// richFormulas contain what has a meaning in wikitext.
var richFormulas = []string{"|x| + 1", "a || b", "x!! ", "f''(x) + g'''(x)", "y''", "{{a}_1} + b", "\\frac{{a}}{b}", "[[1,2],[3,4]]", "[0, 1)", "{|x|}", "x == 1 == y", "[https://x y]", "a__NOTOC__b", "[[Category:x]]", "'''x'''"}

var richWords = []string{"word", "Ärger", "it's", "5 %", "(note)", "US$5", "x – y", "AT&amp;T", "a&nbsp;b", "“q”", "C++", "a/b", "no. #1", "5*3", "~", "100 km", "e.g.", "\\alpha", "@@", "{x}", "wow!", "--", "1.5", "a; b", "日本", "?", "a &lt; b", "x^2", "m_i", "Dominik", "thumbs"}

func (g *richGen) words(c rctx) string {
	var out []string
	for k := g.n(1, 3); k > 0; k-- {
		w := richWords[g.r.Intn(len(richWords))]
		switch x := g.r.Intn(40); {
		case x == 0 && !c.dt:
			w = "1:2"
		case x == 1 && !c.dt:
			w = "note: so"
		case x == 2 && !c.tmpl:
			w = g.pick("a=b", "a == b", "x = y")
		case x == 3 && !c.link:
			w = "[sic]"
		case x == 4 && !c.cell && !c.cap && !c.link && !c.tmpl && !c.head:
			w = g.pick("a|b", "a || b", "|x|")
		case x == 5 && !c.th && !c.def:
			w = "wow!! so"
		case x == 6:
			w = "left side"
			if !c.link && !c.dt && g.p(0.7) {
				w = g.pick("[0, 1) so", "[0,1) so", "(0, 1] so", "x[1", "]a, b[ so")
			}
		case x == 7:
			w = "100 px"
		case x == 8:
			w = "miniature"
		case x == 9 && g.p(0.3):
			w = g.pick("$$TOKEN_TABLE_0$$", "$$TOKEN_HEADINNOWIKI_1$$", "$$MARKER_BOLD_OPEN$$", "$$TEMPLATE_PLACEHOLDER_x$$", "$$5")
		}
		if w == "{x}" && c.tmpl {
			w = "x"
		}
		if w == "@@" {
			w = "a @ b"
		}
		out = append(out, w)
	}
	return strings.Join(out, " ")
}

// txt is plain text with a marker.
func (g *richGen) txt(c rctx) *Node {
	s := "@"
	if g.p(0.6) {
		s = strings.ReplaceAll(g.words(c), "@", "(at)") + " @"
	}
	if g.p(0.3) {
		s += g.pick(",", ".", " and", " "+strings.ReplaceAll(g.words(c), "@", "(at)"))
	}
	return &Node{K: "text", ID: g.mark(), S: s}
}

func (g *richGen) sp(s string) *Node { return &Node{K: "text", S: s} }

// inline is a sequence that usually starts and ends with plain text, and always contains some.
func (g *richGen) inline(c rctx) []*Node {
	only := c.only
	c.only = false
	if only && g.p(0.1) {
		// nothing but one element
		if e := g.elem(c); e != nil {
			switch e.K {
			case "math", "link", "slink", "ext", "uext", "b", "i", "sub", "nowiki", "img":
				return []*Node{e}
			}
		}
	}
	out := []*Node{g.txt(c)}
	if c.depth > 3 {
		return out
	}
	if g.p(0.15) {
		if e := g.edge(c); e != nil {
			out = []*Node{e, g.sp(g.pick(" ", " ", ", ")), out[0]}
		}
	}
	for k := g.r.Intn(4); k > 0; k-- {
		if e := g.elem(c); e != nil {
			pre := " "
			if e.K == "ref" || e.K == "use" || e.K == "sub" || e.K == "comment" || e.K == "gone" || e.K == "ign" {
				pre = g.pick("", " ")
			}
			out = append(out, g.sp(pre), e, g.sp(g.pick(" ", " ", ", ")), g.txt(c))
		}
	}
	if g.p(0.15) {
		if e := g.edge(c); e != nil {
			out = append(out, g.sp(g.pick(" ", " ", " (")), e)
			if strings.HasSuffix(out[len(out)-2].S, "(") {
				out = append(out, g.sp(")"))
			}
		}
	}
	return out
}

// edge is an element text may start or end with.
func (g *richGen) edge(c rctx) *Node {
	e := g.elem(c)
	if e == nil || e.K == "br" || e.K == "img" {
		return nil
	}
	return e
}

func (g *richGen) sub(c rctx) rctx { c.depth++; return c }

func (g *richGen) elem(c rctx) *Node {
	d := g.sub(c)
	switch g.r.Intn(20) {
	case 0, 1:
		if !c.bold {
			d.bold = true
			d.only = true
			return &Node{K: "b", C: g.inline(d)}
		}
	case 2, 3:
		if !c.ital {
			d.ital = true
			d.only = true
			return &Node{K: "i", C: g.inline(d)}
		}
	case 4, 5:
		if !c.link {
			d.link, d.only = true, true
			n := &Node{K: "link", S: g.linkTarget(), C: g.inline(d)}
			if g.p(0.2) {
				n.S += "#Section " + strconv.Itoa(g.r.Intn(9))
			}
			if g.p(0.2) {
				n.T = g.pick("s", "er", "'s")
			}
			return n
		}
	case 6:
		if !c.link && !c.dt {
			n := &Node{K: "slink", S: fmt.Sprintf("Link %c", 'A'+g.r.Intn(16))}
			switch g.r.Intn(6) {
			case 0:
				n.S += "#Sec"
			case 1:
				n.S = "#Sec " + strconv.Itoa(g.r.Intn(9))
			case 2:
				n.T = "s"
			case 3:
				return &Node{K: "clink", S: ":Category:Kind " + strconv.Itoa(g.r.Intn(9))}
			case 4:
				return &Node{K: "slink", S: g.pick("doi:10.1/2", "arxiv:1234.5")}
			}
			return n
		}
	case 7:
		if !c.link {
			d.link = true
			d.noImg = true
			if g.p(0.1) {
				return &Node{K: "uext", S: g.pick("ftp://example.org/x", "irc://example.org/a", "svn+ssh://example.org/a?b=c"), C: g.inline(d)}
			}
			return &Node{K: "ext", S: g.pick("https://example.org/a", "http://example.org/a?b=c&d=1#x", "https://example.org/a_(b)"), C: g.inline(d)}
		}
	case 8, 9:
		if !c.noImg && !c.link && len(g.w.Images) > 0 {
			return g.img(c)
		}
	case 10:
		if !c.noImg && g.o.math {
			fs := append(richFormulas, formulas...)
			return &Node{K: "math", S: fs[g.r.Intn(len(fs))], V: g.r.Intn(3) / 2 * g.r.Intn(8)}
		}
	case 11:
		if !c.def {
			return &Node{K: "nowiki", ID: g.mark(), V: g.r.Intn(5) / 4, S: g.pick("''@''", "[[@]]", "'''@", "[https://x @]", "@ == x ==", "* @", "@|b", "<@", "[[File:@.jpg]]", "{{@}}", "{{Ignored1|@}}", "{{@", "[[Category:@]]", "<!-- @ -->", "__NOTOC__ @", "<math>@</math>", "<ref>@</ref>")}
		}
	case 12, 13:
		if !c.ref && !c.link && !c.def {
			return g.ref(c)
		}
	case 14:
		if !c.head {
			return &Node{K: "sub", S: g.pick("sub", "sup", "small", "u", "span style=\"color: red;\""), C: g.inline(d)}
		}
	case 15:
		if !c.head && !c.dt && !c.cap && !c.link && !c.bold && !c.ital {
			return &Node{K: "br", V: g.r.Intn(3)}
		}
	case 16:
		if !c.def && !c.tmpl && !c.head && !c.link {
			d.tmpl = true
			return &Node{K: "tmpl", S: g.w.Templates[g.r.Intn(len(g.w.Templates)-1)].Name, C: g.inline(d)}
		}
	case 17:
		return &Node{K: "comment", S: g.pick("<!-- hidden1 -->", "<!--hidden2-->", "<!-- hidden3 ''x [[y -->")}
	case 18:
		if !c.def && !c.tmpl {
			return &Node{K: "ign", S: g.pick("{{Ignored1|hidden4}}", "{{ignored1}}", "{{Ignored1|a=[[b|hidden5]]|c={{Ignored1}}}}")}
		}
	case 19:
		if !c.link {
			return &Node{K: "gone", S: g.pick("[[Category:hidden6]]", "[[category:Hidden|hidden7]]", "[[fr:hidden8]]", "[[xx:hidden9|hidden10]]")}
		}
	}
	return nil
}

// img is an image within the text.
func (g *richGen) img(c rctx) *Node {
	n := &Node{K: "img", S: g.anyImage().Name, N: g.spelling()}
	for _, o := range []string{g.pick("left", "right", "center"), "alt=an [x]", "link=", "upright=1.2"} {
		if g.p(0.12) {
			n.A = append(n.A, o)
		}
	}
	block := !c.bold && !c.ital && !c.head && !c.dt && g.p(0.4)
	size := ""
	if g.p(0.6) {
		size = g.pick("20px", "x15px", "30x40px", "99px", "x49px", "99x49px")
		if block {
			size = g.pick("20px", "100px", "200px", "x50px", "x120px", "250x300px", "30x20px", "200x20px", "100x49px", "99x50px")
		}
		n.A = append(n.A, size)
	}
	if block && g.p(0.8) {
		at := 0
		if len(n.A) > 0 {
			at = g.r.Intn(len(n.A) + 1)
		}
		n.A = append(n.A[:at:at], append([]string{g.pick("mini", "thumb")}, n.A[at:]...)...)
		if g.p(0.7) {
			n.C = g.inline(capCtx(c))
		}
	}
	if len(n.A) == 0 && len(n.C) == 0 && path.Ext(n.S) == "" {
		return nil
	}
	return n
}

func capCtx(c rctx) rctx {
	return rctx{depth: c.depth + 1, cap: true, noImg: true, ref: c.ref, cell: c.cell, th: c.th, def: c.def, tmpl: c.tmpl}
}

// refV is how the tag of a reference is written.
func (g *richGen) refV() int {
	return g.r.Intn(8) | g.r.Intn(4)/3<<5 | g.r.Intn(3)/2<<6 | g.r.Intn(4)/3<<7 | g.r.Intn(8)/7<<10
}

func (g *richGen) ref(c rctx) *Node {
	grp := ""
	if g.p(0.25) {
		grp = g.pick("A", "note x")
	}
	if l := g.named[grp]; len(l) > 0 && g.p(0.4) {
		return &Node{K: "use", S: l[g.r.Intn(len(l))].S, T: grp, V: g.refV()}
	}
	g.groups[grp] = true
	d := g.sub(c)
	d = rctx{depth: d.depth, only: true, ref: true, cell: c.cell, th: c.th, tmpl: c.tmpl, dt: c.dt}
	n := &Node{K: "ref", T: grp, V: g.refV()}
	if !c.tmpl && g.p(0.4) {
		n.S = fmt.Sprintf("%s%d", g.pick("n", "My ref "), g.mark())
		if strings.HasPrefix(n.S, "My") && g.p(0.3) {
			n.S = "a/" + n.S
		}
		if g.p(0.4) {
			// the same name in another group is another reference
			for _, o := range sortedKeys(g.named) {
				if l := g.named[o]; o != grp && len(l) > 0 && g.p(0.6) {
					if s := l[g.r.Intn(len(l))].S; !slices.ContainsFunc(g.named[grp], func(x *Node) bool { return x.S == s }) {
						n.S = s
					}
				}
			}
		}
		n.C = g.inline(d)
		g.named[grp] = append(g.named[grp], n)
		if g.p(0.4) {
			// defined in the list of references, or behind its first use
			g.late = append(g.late, n)
			return &Node{K: "use", S: n.S, T: grp, V: g.refV()}
		}
		return n
	}
	n.C = g.inline(d)
	return n
}

// para is a paragraph; it starts and ends with text.
func (g *richGen) para() *Node {
	n := &Node{K: "p", C: g.inline(rctx{}), V: g.r.Intn(2)<<8 | g.r.Intn(3)/2<<10}
	for g.p(0.2) {
		n.C = append(n.C, g.sp("\n"))
		n.C = append(n.C, g.inline(rctx{})...)
	}
	return n
}

func (g *richGen) list(kind string, depth int, c rctx) *Node {
	n := &Node{K: "list", T: kind, V: g.r.Intn(2) << 8}
	for k := g.n(1, 3); k > 0; k-- {
		d := c
		d.depth = depth + 1
		d.listItem, d.only = true, true
		it := &Node{K: "item", T: kind, V: g.r.Intn(2)}
		if g.p(0.08) {
			it.V |= 2
		}
		if kind == ";" {
			it.T = g.pick(";", ":", ";:")
			if len(n.C) == 0 && it.T == ":" {
				it.T = ";"
			}
			if it.T != ":" {
				d.dt = true
			}
		}
		if (kind == "#" || kind == "*") && g.p(0.06) {
			// an item with its number
			it.S = g.pick("value=4", "value=\"12\"")
			it.V |= g.r.Intn(4) << 2
		}
		it.C = g.inline(d)
		if it.T == ";:" {
			d.dt = false
			it.D = g.inline(d)
			it.V &^= 2
		} else if it.T != ";" && depth < 3 {
			pool := []string{"*", "#", g.pick(":", ";")}
			for i := range pool {
				j := i + g.r.Intn(len(pool)-i)
				pool[i], pool[j] = pool[j], pool[i]
			}
			for _, k := range pool {
				if g.p(0.15) {
					it.D = append(it.D, g.list(k, depth+1, c))
					it.V &^= 4
				}
			}
		}
		n.C = append(n.C, it)
	}
	return n
}

var cellAttr = []string{"colspan=2", "colspan=\"3\"", "rowspan=\"2\"", "rowspan=2", "style=\"text-align:right; background: white;\"", "class=\"x\"", "style=\"text-align:center;\"", "colspan=\"2\" style=\"color:red;text-align:left;\"", "rowspan=\"2\" colspan=\"2\"", "style=\"width:5em\"", "scope=\"row\"", "bgcolor=#ff0000", "style=\"color:red; text-align: right\"", "style=\"text-align:center\" rowspan=2",
	"colspan='2'", "Rowspan = \"2\" class='x y'", "COLSPAN=2", "style='text-align:right' colspan = 3", "style=\"Text-Align : center; width:10%\""}

func (g *richGen) table(kind string, depth int) *Node {
	n := &Node{K: kind, S: g.pick("", " class=\"wikitable\"", " class=\"wikitable\" style=\"width:50%\"", " border=1"), V: g.r.Intn(2)<<8 | g.r.Intn(8)}
	if kind == "itable" {
		n.N = 1
	}
	cell := rctx{depth: depth + 1, cell: true}
	if g.p(0.3) {
		n.T = g.pick("", "", " style=\"color:red\" |")
		d := cell
		d.noImg = true
		n.D = g.inline(d)
	}
	for k := g.n(1, 3); k > 0; k-- {
		r := &Node{K: "row", S: g.pick("", "", " style=\"background:#eee\"", " class=\"x\""), V: g.r.Intn(2) | g.r.Intn(6)/5<<1}
		heads := g.p(0.3)
		for k := g.n(1, 3); k > 0; k-- {
			c := &Node{K: "cell", V: g.r.Intn(16)}
			if heads || g.p(0.1) {
				c.N = 1
			}
			if g.p(0.3) {
				c.T = cellAttr[g.r.Intn(len(cellAttr))]
			}
			cell.th, cell.only = c.N == 1, true
			c.C = g.inline(cell)
			switch x := g.r.Intn(20); {
			case x == 0:
				c.C = nil
			case x == 1 && c.T == "" && c.C[0].K == "text":
				c.C[0].S = g.pick("-5 @", "- @", "+3 @", "} @")
				c.V &^= 1
				c.V |= g.r.Intn(2)
			case x < 5 && depth < 2:
				for k := g.n(1, 2); k > 0; k-- {
					c.D = append(c.D, g.cellBlock(depth))
				}
				if g.p(0.3) || len(c.C) == 1 && c.C[0].K != "text" {
					c.C = nil
				}
			}
			r.C = append(r.C, c)
		}
		n.C = append(n.C, r)
	}
	return n
}

func (g *richGen) cellBlock(depth int) *Node {
	switch x := g.r.Intn(6); {
	case x == 4 && len(g.w.Images) > 0:
		return g.gallery()
	case x == 5 && len(g.w.Images) > 0:
		return g.imagemap()
	case x == 0:
		return g.list(g.pick("*", "#", ";", ":"), 2, rctx{cell: true})
	case x == 1:
		return g.table("table", depth+1)
	case x == 2:
		return &Node{K: "p", C: g.inline(rctx{depth: depth + 1, cell: true}), V: g.r.Intn(3) / 2 << 10}
	}
	return g.list(g.pick("*", "#"), 2, rctx{cell: true})
}

func (g *richGen) gallery() *Node {
	n := &Node{K: "gal", S: g.pick("", "", " mode=\"packed\"", " caption=\"x\""), V: g.r.Intn(16) | g.r.Intn(2)<<8}
	for k := g.n(1, 3); k > 0; k-- {
		im := &Node{K: "gimg", S: g.anyImage().Name, N: g.spelling(), V: g.r.Intn(4)}
		if strings.Contains(im.S, ":") {
			im.V &^= 1
		}
		if g.p(0.2) {
			im.A = append(im.A, g.pick("alt=x", "mini", "thumb", "left"))
		}
		if g.p(0.6) {
			im.C = g.inline(capCtx(rctx{}))
		}
		n.C = append(n.C, im)
	}
	return n
}

func (g *richGen) imagemap() *Node {
	n := &Node{K: "imap", S: g.anyImage().Name, N: g.spelling(), A: []string{g.pick("mini", "thumb")}, V: g.r.Intn(32)}
	if g.p(0.3) {
		n.A = append(n.A, "200px")
	}
	if g.p(0.6) {
		n.C = g.inline(capCtx(rctx{}))
	}
	return n
}

func (g *richGen) content() *Node {
	switch g.r.Intn(12) {
	case 0, 1:
		return g.list(g.pick("*", "#", ";", ":"), 0, rctx{})
	case 2, 3:
		return g.table("table", 0)
	case 4:
		return g.table("itable", 0)
	case 5:
		if len(g.w.Images) > 0 {
			return g.gallery()
		}
	case 6:
		if len(g.w.Images) > 0 {
			return g.imagemap()
		}
	case 7:
		if len(g.w.Images) > 0 {
			n := g.img(rctx{})
			n.A = append([]string{g.pick("mini", "thumb")}, n.A...)
			return &Node{K: "p", C: []*Node{n}}
		}
	case 10:
		if g.p(0.25) {
			return g.railway(0)
		}
	case 9:
		if !g.inDiv {
			g.inDiv = true
			n := &Node{K: "div", S: g.pick("div", "div class=\"x\"", "blockquote", "center")}
			for k := g.n(1, 3); k > 0; k-- {
				n.C = append(n.C, g.content())
			}
			if len(g.w.Images) > 0 && g.p(0.2) {
				n.V = 1
				n.C = []*Node{g.gallery()}
				if g.p(0.5) {
					n.C = []*Node{g.imagemap()}
				}
			}
			g.inDiv = false
			return n
		}
	case 8:
		return &Node{K: "skip", S: g.pick("<!-- hidden11 -->", "__NOTOC__", "[[Category:hidden12]]", "{{Ignored1\n|x=hidden13\n|y=2}}", "<!-- hidden14\n\n== no ==\n* x -->")}
	}
	return g.para()
}

// railway is a table of the template the tokenizer removes.
func (g *richGen) railway(depth int) *Node {
	n := &Node{K: "bs", C: []*Node{g.para()}}
	if g.p(0.3) {
		n.C = append(n.C, g.list(g.pick("*", "#"), 0, rctx{}))
	}
	if depth < 2 && g.p(0.4) {
		n.C = append(n.C, g.railway(depth+1), g.para())
	}
	return n
}

// doc is a whole article.
func (g *richGen) doc() []*Node {
	out := []*Node{g.para()}
	for k := g.r.Intn(3); k > 0; k-- {
		out = append(out, g.content())
	}
	level := 1
	for k := g.r.Intn(5); k > 0; k-- {
		level = g.n(2, min(level+1, 6))
		if g.p(0.08) {
			level = 1
		}
		h := &Node{K: "h", N: level, V: g.r.Intn(4), C: g.inline(rctx{depth: 2, head: true, noImg: g.p(0.7), only: true})}
		out = append(out, h, g.para())
		for k := g.r.Intn(3); k > 0; k-- {
			out = append(out, g.content())
		}
		if g.p(0.15) && level > 1 {
			e := &Node{K: "empty", N: level + g.r.Intn(2), V: g.r.Intn(4), C: []*Node{{K: "text", S: "hidden section"}}}
			if g.p(0.5) {
				e.D = []*Node{{K: "comment", S: g.pick("<!-- hidden15 -->", "{{Ignored1|hidden16}}", "[[Category:hidden17]]", "\n\n")}}
			}
			out = append(out, e)
			level = min(level, e.N)
			if e.N > level {
				level = e.N
			}
			level = e.N - 1
			if level < 1 {
				level = 1
			}
			out = append(out, &Node{K: "h", N: g.n(2, e.N), C: g.inline(rctx{depth: 2, head: true, noImg: true})}, g.para())
		}
		if g.p(0.15) {
			if l := g.refList(g.pick("", "A", "note x")); l != nil {
				out = append(out, l, &Node{K: "h", N: 2, C: g.inline(rctx{depth: 2, head: true, noImg: true})}, g.para())
				level = 2
			}
		}
	}
	if g.p(0.15) {
		g.trails++
		out[0].C = append(out[0].C, g.sp(" "), &Node{K: "trail", S: "Trail1"}, g.txt(rctx{}))
		if g.p(0.5) {
			out[0].C[len(out[0].C)-2].C = g.inline(rctx{depth: 2, ref: true, tmpl: true, noImg: true})
		}
	}
	// the lists of references
	out = append(out, g.para())
	for _, n := range g.late {
		if n.V&16 == 0 && g.p(0.5) {
			// the definition stands behind the first use
			out[len(out)-1].C = append(out[len(out)-1].C, n, g.txt(rctx{}))
			n.V |= 16
		}
	}
	first := true
	for _, grp := range sortedKeys(g.groups) {
		if first {
			out = append(out, &Node{K: "h", N: 2, C: []*Node{g.sp("References")}})
		}
		first = false
		out = append(out, g.refList(grp))
	}
	return out
}

// refList is the list of references of a group with the definitions not given yet.
func (g *richGen) refList(grp string) *Node {
	if !g.groups[grp] {
		return nil
	}
	n := &Node{K: "references", T: grp, V: g.r.Intn(16)}
	for _, l := range g.late {
		if l.T == grp && l.V&16 == 0 {
			l.V |= 16
			if g.p(0.4) {
				l.V |= 512 // within a list of this group
			}
			n.C = append(n.C, l)
		}
	}
	return n
}

func init() {
	// richstats: statistics of rich documents
	profiles["richstats"] = func(g *gen) {
		g.o = opts{images: true, math: true, templates: true, single: true, maxArts: 3, maxBlocks: 2}
		g.sc.Profile = "richstats"
		g.world()
		g.richWorld()
		c := g.cfg()
		c.Trailing = []string{"trail1"}
		c.Extra = map[string]any{"ignored-image-params": []string{"alt", "left", "right", "center", "link", "upright"}}
		c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		r := g.run(c)
		b := (*RunResult)(nil)
		if g.p(0.2) {
			b = g.base(r)
			if f := g.netFault(b, ""); f != nil && g.p(0.5) {
				r = r.with(func(x *Run) { x.Net = append(x.Net, *f) })
			}
		}
		g.add(g.step(r, "run"))
		if b != nil || g.p(0.1) {
			g.add(g.step(r.with(nil), "again"))
		}
	}
	profiles["xhtml"] = func(g *gen) {
		g.o = opts{images: true, math: true, templates: true, single: true, maxArts: 4, maxBlocks: 4}
		g.sc.Profile = "xhtml"
		g.world()
		if g.p(0.6) {
			g.richWorld()
		} else {
			g.alikeWorld()
		}
		c := g.cfg()
		c.Trailing = []string{"trail1"}
		c.Extra = map[string]any{"ignored-image-params": []string{"alt", "left", "right", "center", "link", "upright"}}
		c.internal()
		r := g.run(c)
		b := (*RunResult)(nil)
		if g.p(0.4) {
			b = g.base(r)
			r = g.disturb(r, b, g.pick("net", "fs", "exec", "cap"))
		}
		g.add(g.step(r, "run"))
		if b != nil || g.p(0.2) {
			g.add(g.step(r.with(nil), "again"))
		}
	}
	profiles["rich"] = func(g *gen) {
		g.o = opts{images: true, math: true, templates: true, single: true, maxArts: 3, maxBlocks: 2}
		g.sc.Profile = "rich"
		g.world()
		g.richWorld()
		c := g.cfg()
		c.Trailing = []string{"trail1"}
		c.Extra = map[string]any{"ignored-image-params": []string{"alt", "left", "right", "center", "link", "upright"}}
		if g.p(0.15) {
			c.internal()
		}
		r := g.run(c)
		b := (*RunResult)(nil)
		if g.p(0.2) {
			b = g.base(r)
			if f := g.netFault(b, ""); f != nil && g.p(0.5) {
				r = r.with(func(x *Run) { x.Net = append(x.Net, *f) })
			}
		}
		g.add(g.step(r, "run"))
		if b != nil || g.p(0.1) {
			g.add(g.step(r.with(nil), "again"))
		}
	}
}

// richWorld gives all articles rich documents.
func (g *gen) richWorld() {
	w := g.w
	if len(w.Templates) == 0 {
		w.Templates = append(w.Templates, &Template{Name: "Box1"})
	}
	rg := &richGen{gen: g}
	for _, t := range w.Templates {
		t.Pre, t.Post, t.Mute = nil, nil, false
		t.RichPre = rg.inline(rctx{depth: 1, def: true, dt: true, head: true, cell: true, cap: true, link: true, bold: true, ital: true, noImg: true})
		t.RichPost = rg.inline(rctx{depth: 2, def: true, dt: true, head: true, cell: true, cap: true, noImg: true, bold: true, ital: true, link: g.p(0.5), ref: true})
	}
	if g.p(0.5) {
		w.Templates = append(w.Templates, &Template{Name: "Trail1b", RichPre: rg.inline(rctx{depth: 2, def: true, tmpl: true, dt: true, head: true, noImg: true, link: true, bold: true, ital: true})})
	}
	w.Templates = append(w.Templates, &Template{Name: "Trail1", RichPre: rg.inline(rctx{depth: 2, def: true, noImg: true, tmpl: true})})
	for _, a := range w.Articles {
		x := &richGen{gen: g, named: map[string][]*Node{}, groups: map[string]bool{}}
		a.Blocks, a.Grow = nil, 0
		a.Rich = x.doc()
	}
}

// ---------------------------------------------------------------- making documents smaller

// soundRich tells whether the sections of a document still are what the model takes them for.
func soundRich(ns []*Node) bool {
	if len(ns) == 0 {
		return false
	}
	for i, n := range ns {
		next := &Node{}
		if i+1 < len(ns) {
			next = ns[i+1]
		}
		switch n.K {
		case "h":
			if next.K == "" || next.K == "h" || next.K == "empty" || next.K == "skip" {
				return false
			}
		case "empty":
			if next.K != "" && !(next.K == "h" && next.N <= n.N) {
				return false
			}
		}
	}
	return true
}

// cuts lists ways to make a document smaller; each one changes it in place.
func cuts(ns *[]*Node, block bool, out *[]func()) {
	l := *ns
	for i := range l {
		i, n := i, l[i]
		edge := !block && (i == 0 || i == len(l)-1)
		switch {
		case n.K == "item" || n.K == "row" || n.K == "cell" || n.K == "gimg":
			if len(l) > 1 && !(i == 0 && n.T == ";") {
				*out = append(*out, func() { *ns = append(l[:i:i], l[i+1:]...) })
			}
		case !edge || n.K != "text" && len(l) > 2:
			*out = append(*out, func() { *ns = append(l[:i:i], l[i+1:]...) })
		}
		if n.K == "text" && n.ID > 0 && len(n.S) > 1 {
			*out = append(*out, func() { n.S = "@" })
		}
		if n.V != 0 {
			*out = append(*out, func() { n.V = 0 })
		}
		if n.K == "cell" && n.T != "" {
			*out = append(*out, func() { n.T = "" })
		}
		if len(n.A) > 0 {
			*out = append(*out, func() { n.A = n.A[:len(n.A)-1] })
		}
		cuts(&n.C, n.K == "list" || n.K == "table" || n.K == "itable" || n.K == "row" || n.K == "gal" || n.K == "references" || n.K == "div" || n.K == "bs", out)
		cuts(&n.D, !(n.K == "item" && len(n.T) > 1) && n.K != "table" && n.K != "itable", out)
	}
}

// cut applies the i-th way; it reports how many there are.
func (w *World) cut(i int) (int, bool) {
	var all []func()
	for _, a := range w.Articles {
		if a.Rich != nil {
			cuts(&a.Rich, true, &all)
		}
	}
	for _, t := range w.Templates {
		cuts(&t.RichPre, false, &all)
		cuts(&t.RichPost, false, &all)
	}
	if i < 0 || i >= len(all) {
		return len(all), false
	}
	all[i]()
	for _, a := range w.Articles {
		if a.Rich != nil && !soundRich(a.Rich) {
			return len(all), false
		}
	}
	return len(all), true
}

// RichHTML is what the program made of the documents, for development.
func RichHTML(sc *Scenario) []string {
	st := Play(sc.Clone(), false)
	var out []string
	st.FS.Walk("/", func(p string, n *rt.Inode) {
		if strings.HasSuffix(p, ".html") {
			out = append(out, "++++ "+p, string(n.Data))
		}
	})
	return out
}
