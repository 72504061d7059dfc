package harness

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"path"
	"strings"
)

// xnode is an element of a file in a book.
type xnode struct {
	name string
	attr map[string]string
	kids []*xnode
	text string // all text below the element
}

func (n *xnode) find(name string, f func(*xnode)) {
	for _, k := range n.kids {
		if k.name == name {
			f(k)
		}
		k.find(name, f)
	}
}

func (n *xnode) all(name string) []*xnode {
	var out []*xnode
	n.find(name, func(k *xnode) { out = append(out, k) })
	return out
}

// readXML reads a file the way reading systems have to: errors are fatal.
func readXML(s string) (*xnode, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	root := &xnode{}
	stack := []*xnode{root}
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &xnode{name: t.Name.Local, attr: map[string]string{}}
			seen := map[xml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return nil, fmt.Errorf("the element %s has two attributes %s", n.name, a.Name.Local)
				}
				seen[a.Name] = true
				n.attr[a.Name.Local] = a.Value
			}
			top := stack[len(stack)-1]
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 1 && len(bytes.TrimSpace(t)) > 0 {
				return nil, fmt.Errorf("there is text outside of the root element")
			}
			for _, n := range stack {
				n.text += string(t)
			}
		case xml.ProcInst:
			if t.Target == "xml" && len(root.kids)+len(stack) > 1 {
				return nil, fmt.Errorf("there is an XML declaration within the document")
			}
		}
	}
	if len(root.kids) != 1 {
		return nil, fmt.Errorf("there are %d root elements", len(root.kids))
	}
	return root.kids[0], nil
}

// checkEpub checks the book as a whole (P27).
func (st *State) checkEpub(c *procCtx, raw []string, files map[string]string) {
	bad := func(sig, format string, a ...any) {
		st.v("P27", sig, "the run ends with success but "+format, a...)
	}
	st.Stat.probe("judged-epubs")
	if len(raw) == 0 || raw[0] != "mimetype" || files["mimetype"] != "application/epub+zip" {
		bad("mimetype", "the book does not start with its media type")
	}
	seen := map[string]bool{}
	for _, n := range raw {
		if seen[n] {
			bad("twice", "file %s is in the book twice", n)
		}
		seen[n] = true
	}
	docs := map[string]*xnode{}
	for _, n := range sortedKeys(files) {
		switch path.Ext(n) {
		case ".xhtml", ".opf", ".ncx", ".xml":
			x, err := readXML(files[n])
			if err != nil {
				bad("malformed", "file %s is no well-formed XML: %v", n, err)
				return
			}
			docs[n] = x
		}
	}
	pkg := docs["EPUB/package.opf"]
	if pkg == nil {
		return
	}
	// all files are listed, and all listed files exist
	items := map[string]*xnode{}
	listed := map[string]*xnode{}
	for _, i := range pkg.all("item") {
		if items[i.attr["id"]] != nil {
			bad("manifest", "id %s is given to two files of the book", i.attr["id"])
		}
		items[i.attr["id"]] = i
		n := path.Join("EPUB", decodeSrc(i.attr["href"]))
		if _, ok := files[n]; !ok {
			bad("manifest", "file %s is listed in the book but missing", n)
		}
		listed[n] = i
	}
	for _, n := range sortedKeys(files) {
		if strings.HasPrefix(n, "EPUB/") && n != "EPUB/package.opf" && !strings.HasSuffix(n, "/") && listed[n] == nil {
			bad("manifest", "file %s of the book is not listed", n)
		}
	}
	// reading order
	var order []string
	for _, i := range pkg.all("itemref") {
		it := items[i.attr["idref"]]
		if it == nil {
			bad("spine", "the reading order contains %q, which is not listed", i.attr["idref"])
			return
		}
		if n := path.Join("EPUB", it.attr["href"]); strings.Contains(n, "/section") {
			order = append(order, n)
		}
	}
	var want []string
	for i := range c.run.Articles {
		want = append(want, fmt.Sprintf("EPUB/xhtml/section%04d.xhtml", i+1))
	}
	if strings.Join(order, " ") != strings.Join(want, " ") {
		bad("spine", "the reading order is %v instead of %v", order, want)
	}
	// tables of contents
	for _, toc := range []string{"EPUB/nav.xhtml", "EPUB/toc.ncx"} {
		x := docs[toc]
		if x == nil {
			bad("toc", "the table of contents %s is missing", toc)
			continue
		}
		var got []string
		if toc == "EPUB/nav.xhtml" {
			x.find("a", func(a *xnode) {
				if f := path.Join("EPUB", a.attr["href"]); strings.Contains(f, "/section") {
					got = append(got, f+" "+a.text)
				}
			})
		} else {
			x.find("navPoint", func(p *xnode) {
				for _, t := range p.all("content") {
					if f := path.Join("EPUB", t.attr["src"]); strings.Contains(f, "/section") && len(p.all("navLabel")) > 0 {
						got = append(got, f+" "+strings.TrimSpace(p.all("navLabel")[0].text))
					}
				}
			})
		}
		var wt []string
		for i, t := range c.run.Articles {
			wt = append(wt, want[i]+" "+st.shownTitle(t))
		}
		if strings.Join(got, "\n") != strings.Join(wt, "\n") {
			bad("toc", "the table of contents %s has the entries %q instead of %q", toc, got, wt)
		}
	}
	// articles
	style := st.FS.Lookup(path.Join(WorkDir, st.rel(c.cfg.Style)))
	for i, n := range want {
		x := docs[n]
		if x == nil {
			return
		}
		if x.name != "html" || len(x.kids) != 2 || x.kids[0].name != "head" || x.kids[1].name != "body" || len(x.all("html"))+len(x.all("head"))+len(x.all("body")) != 2 {
			bad("document", "section %d of the book is no document with one head and one body", i+1)
		}
		styled := false
		x.find("link", func(l *xnode) {
			f, ok := files[path.Join("EPUB/xhtml", l.attr["href"])]
			if !ok {
				bad("dangling", "section %d of the book refers to %s, which is missing", i+1, l.attr["href"])
			} else if l.attr["rel"] == "stylesheet" && style != nil && f == string(style.Data) {
				styled = true
			}
		})
		if !styled {
			bad("style", "section %d of the book does not use the style file", i+1)
		}
		x.find("img", func(l *xnode) {
			if _, ok := files[path.Join("EPUB/xhtml", decodeSrc(l.attr["src"]))]; !ok {
				bad("dangling", "section %d of the book refers to %s, which is missing", i+1, l.attr["src"])
			}
		})
	}
	// fonts
	for _, f := range c.cfg.Fonts {
		ino := st.FS.Lookup(path.Join(WorkDir, st.rel(f)))
		n := 0
		for _, k := range sortedKeys(files) {
			if ino != nil && listed[k] != nil && path.Base(k) == path.Base(f) && files[k] == string(ino.Data) {
				n++
			}
		}
		if n != 1 {
			bad("fonts", "the book contains font %s %d times", f, n)
		}
	}
	// cover
	cover := st.FS.Lookup(path.Join(WorkDir, st.rel(c.cfg.Cover)))
	var covers []string
	for _, k := range sortedKeys(listed) {
		if strings.Contains(" "+listed[k].attr["properties"]+" ", " cover-image ") {
			covers = append(covers, k)
		}
	}
	if len(covers) != 1 || cover == nil || files[covers[0]] != string(cover.Data) {
		bad("cover", "the book does not have the configured cover (%v)", covers)
	}
	// metadata
	if c.run.Mode == "project" {
		m := []string{"Book", "A U", "CC", "de"}
		if c.run.Layers != nil && len(c.run.Layers.Meta) > 3 {
			m = c.run.Layers.Meta
		}
		var off []string
		for i, k := range []string{"title", "creator", "", "language"} {
			if k == "" {
				continue
			}
			w := m[i]
			var got []string
			for _, x := range pkg.all(k) {
				got = append(got, x.text)
			}
			if len(got) != 1 || got[0] != w {
				off = append(off, fmt.Sprintf("%s is %q instead of %q", k, got, w))
			}
		}
		if len(off) > 0 {
			bad("metadata", "the %s", strings.Join(off, ", the "))
		}
	}
}

// rel is a path below the working directory.
func (st *State) rel(p string) string {
	return strings.TrimPrefix(p, WorkDir+"/")
}

func (st *State) shownTitle(t string) string {
	return html.UnescapeString(t)
}
