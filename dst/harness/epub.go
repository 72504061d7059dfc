package harness

import (
	"archive/zip"
	"bytes"
	"fmt"
	"html"
	"io"
	"path"
	"regexp"
	"sort"
	"strings"
)

var volatileRe = regexp.MustCompile(`urn:uuid:[0-9a-fA-F-]+|\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ`)

// normBook makes the result of the internal EPUB driver comparable.
func normBook(b []byte) []byte {
	if !bytes.HasPrefix(b, []byte("PK")) {
		return b
	}
	names, files, err := readZip(b)
	if err != nil {
		return b
	}
	var sb strings.Builder
	for _, n := range names {
		if strings.HasSuffix(n, ".opf") {
			// the library writes the manifest in the random order of a map
			l := strings.Split(files[n], "\n")
			sort.Strings(l)
			files[n] = strings.Join(l, "\n")
		}
		fmt.Fprintf(&sb, "FILE %s\n%s\n", n, volatileRe.ReplaceAllString(files[n], "VOLATILE"))
	}
	return []byte(sb.String())
}

// zipNames gives the names of all files in their order.
func zipNames(b []byte) []string {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil
	}
	var names []string
	for _, f := range z.File {
		names = append(names, f.Name)
	}
	return names
}

func readZip(b []byte) ([]string, map[string]string, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, nil, err
	}
	files := map[string]string{}
	var names []string
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, nil, err
		}
		r.Close()
		names = append(names, f.Name)
		files[f.Name] = string(d)
	}
	sort.Strings(names)
	return names, files, nil
}

// checkInternal checks a book made by the internal EPUB driver.
func (st *State) checkInternal(c *procCtx) {
	res := c.res
	names, files, err := readZip(res.Out)
	if err != nil {
		st.blame(res, "unfinished", "", "the run ends with success but the output (%d bytes) is no readable EPUB: %v", len(res.Out), err)
		return
	}
	st.Stat.probe("internal-books")
	if len(files["META-INF/container.xml"]) == 0 || len(files["EPUB/package.opf"]) == 0 {
		st.blame(res, "unfinished", "", "the run ends with success but the EPUB lacks its index")
		return
	}
	var secs []string
	for _, n := range names {
		if strings.Contains(n, "/xhtml/section") {
			secs = append(secs, n)
		}
	}
	if len(secs) != len(c.run.Articles) {
		st.blame(res, "articles", "", "the book has %d sections for %d articles", len(secs), len(c.run.Articles))
		return
	}
	if !st.multi && !st.paired {
		st.checkEpub(c, zipNames(res.Out), files)
	}
	for i, t := range c.run.Articles {
		n := fmt.Sprintf("EPUB/xhtml/section%04d.xhtml", i+1)
		h, ok := files[n]
		if !ok {
			st.blame(res, "articles", "", "section %d is missing", i+1)
			return
		}
		exp := st.W.Expect(st.W.article(t), t, res.Vers, c.cfg)
		if exp.Tree != nil && !st.checkRich(t, h, exp, false) {
			return
		}
		var ga, ea []string
		for _, a := range Atoms(html.UnescapeString(h)) {
			if !strings.HasPrefix(a, "img:") {
				ga = append(ga, StripVer(a))
			}
		}
		for _, a := range exp.Atoms {
			if !strings.HasPrefix(a, "img:") {
				ea = append(ea, StripVer(a))
			}
		}
		if strings.Join(ga, "\n") != strings.Join(ea, "\n") {
			st.blame(res, "content", "", "article %s differs from the model: %s", t, diffAtoms(ga, ea))
			return
		}
		// the embedded images, in the order of the references
		d := &BookDoc{File: n}
		srcs := srcRe.FindAllStringSubmatch(h, -1)
		var want []string
		for _, a := range exp.Atoms {
			if strings.HasPrefix(a, "img:") {
				want = append(want, a[4:])
			}
		}
		if len(srcs) != len(want) {
			st.blame(res, "content", "", "article %s has %d images instead of %d", t, len(srcs), len(want))
			return
		}
		for k, m := range srcs {
			data, ok := files[path.Join("EPUB/xhtml", decodeSrc(m[1]))]
			if !ok || strings.HasPrefix(m[1], "./") || path.IsAbs(m[1]) {
				st.blame(res, "missing-image", "", "the run ends with success but image %s of article %s is missing in the book (source %q)", want[k], t, m[1])
				continue
			}
			d.Images = append(d.Images, BookImg{Rel: want[k], Data: data})
		}
		st.checkImages(c, d, exp)
		if strings.Contains(h, "FAILMARK") {
			st.v("P03", "in-book", "the book contains a part of a failed answer")
		}
	}
	st.checkEqual(c)
}
