package harness

import (
	"crypto/sha1"
	"fmt"
	"slices"
	"strings"
	"unicode"
)

// Names that differ in little, in characters that file names, URLs or markup may treat alike.

const nameChars = "/:?*\"\\%.-+&;',~=@!()$^–—‐’“…×"

func canonical(t string) string {
	t = strings.ReplaceAll(t, "_", " ")
	r := []rune(t)
	return string(unicode.ToUpper(r[0])) + string(r[1:])
}

// alike draws n names around one base; all of them are different pages for the wiki.
func (g *gen) alike(n int, base string, chars string) []string {
	out := []string{base}
	cs := []rune(chars)
	seen := map[string]bool{canonical(base): true}
	for tries := 0; len(out) < n && tries < 200; tries++ {
		b := []rune(out[g.r.Intn(len(out))])
		i := g.n(1, len(b)-1)
		c := cs[g.r.Intn(len(cs))]
		switch g.r.Intn(7) {
		case 0, 1:
			b[i] = c
		case 2:
			b = append(b[:i:i], append([]rune{c}, b[i:]...)...)
		case 3:
			if unicode.IsUpper(b[i]) {
				b[i] = unicode.ToLower(b[i])
			} else {
				b[i] = unicode.ToUpper(b[i])
			}
		case 4:
			if len(b) > 3 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 5:
			b = append(b, []rune(g.pick(".json", ".html", "1", "2", ".", "é", "e", "%", "2F", "!"))...)
		case 6:
			b[i] = ' '
		}
		s := string(b)
		if s != strings.TrimSpace(s) || strings.Contains(s, "  ") || strings.Contains(s, "''") || strings.Contains(s, "%2") || strings.Contains(s, "%3") || seen[canonical(s)] {
			continue // no valid title, or the same page
		}
		seen[canonical(s)] = true
		out = append(out, s)
	}
	return out
}

// texs draws formulas that differ in one character.
func (g *gen) texs(n int) []string {
	out := []string{g.pick("a b", "x_1 + Y", "\\Gamma(x)", "f(x)=2.0")}
	for len(out) < n {
		b := out[g.r.Intn(len(out))]
		i := g.r.Intn(len(b))
		switch g.r.Intn(6) {
		case 0:
			b += g.pick(".", ",", ";", "!", "\\,", "{}")
		case 1:
			b = strings.Replace(b, " ", g.pick("  ", "", "\\ "), 1)
		case 2:
			b = b[:i] + swapCase(b[i:i+1]) + b[i+1:]
		case 3:
			b = b[:i] + g.pick(" ", "x", "1", "+", "/", "'") + b[i:]
		case 4:
			b = g.pick(" ", "-", "\\ ") + b
		case 5:
			b += " "
		}
		if len(b) > 0 && !strings.Contains(b, "''") && !slices.Contains(out, b) {
			out = append(out, b)
		} else if g.p(0.1) {
			break
		}
	}
	return out
}

func swapCase(s string) string {
	if l := strings.ToLower(s); l != s {
		return l
	}
	return strings.ToUpper(s)
}

// oddLocs lets the service for formulas name its resources with paths, also such that lead elsewhere.
func (g *gen) oddLocs() {
	w := g.w
	w.Loc = map[string]string{}
	for i, tex := range w.allMath() {
		w.Loc[tex] = g.pick("../", "../../", "../../../", "/", "a/b/", "..\\", "../images/", "../articles/", "./", "x:", "") + fmt.Sprintf("%x", sha1.Sum([]byte(tex)))[:8] + fmt.Sprint(i)
	}
}

// alikeWorld gives the articles and images of the world such names.
func (g *gen) alikeWorld() {
	w := g.w
	ts := g.alike(len(w.Articles), g.pick("AC/DC", "Star: Trek", "Wo ist A?", "Über b-c", "M*A*S*H", "C++ a", "100% w", "Q & A"), nameChars)
	for i, a := range w.Articles {
		if i < len(ts) {
			a.Title = ts[i]
			if a.Target != "" {
				a.Target = a.Title + g.pick(" (target)", "2", "x")
			}
		}
	}
	for i, a := range w.Articles {
		for _, b := range w.Articles[:i] {
			if a.Target != "" && (canonical(a.Target) == canonical(b.Title) || a.Target == b.Target) {
				a.Target = ""
			}
		}
	}
	for i, a := range w.Articles {
		for _, b := range w.Articles[i+1:] {
			if a.Target != "" && (canonical(a.Target) == canonical(b.Title) || a.Target == b.Target) {
				a.Target = ""
			}
		}
	}
	if len(w.Templates) > 0 && g.p(0.5) {
		// calls of one template that differ only in a formula
		t := w.Templates[g.r.Intn(len(w.Templates))]
		for _, a := range w.Articles {
			for k := g.r.Intn(3); k > 0; k-- {
				a.Blocks = append(a.Blocks, &Block{K: "tmpl", ID: g.mark(), S: t.Name, Sub: []*Block{{K: "math", ID: g.mark()}}})
			}
		}
	}
	tex := g.texs(g.n(2, 6))
	w.walkBlocks(func(b *Block) {
		if b.K == "math" {
			b.S = tex[g.r.Intn(len(tex))]
		}
	})
	if len(w.Images) == 0 {
		return
	}
	var names []string
	for _, n := range g.alike(len(w.Images), g.pick("Map a-b", "Photo 1.2", "Bild (x)", "A & B"), "?*\"%.-+&;',~()–’×") {
		names = append(names, n+g.pick(".jpg", ".jpg", ".png", ".JPG", ".jpeg", ".svg", ".webp"))
	}
	rename := map[string]string{}
	for i, im := range w.Images {
		if i < len(names) {
			rename[im.Name] = names[i]
		}
	}
	if len(w.Images) > 1 && g.sc.Prop == "P24" && g.p(0.06) {
		rename[w.Images[0].Name], rename[w.Images[1].Name] = "Map a.svg", "Map a.svg.png"
	}
	for _, im := range w.Images {
		im.Name = rename[im.Name]
		for h, p := range im.Pages {
			p.Target = ""
			im.Pages[h] = p
		}
	}
	w.walkBlocks(func(b *Block) {
		if n, ok := rename[b.S]; ok && (b.K == "img" || b.K == "imap" || b.K == "inl") {
			b.S = n
		}
	})
}

// walkBlocks visits all elements of articles and templates.
func (w *World) walkBlocks(f func(*Block)) {
	var walk func(bs []*Block)
	walk = func(bs []*Block) {
		for _, b := range bs {
			f(b)
			walk(b.Sub)
		}
	}
	for _, a := range w.Articles {
		walk(a.Blocks)
	}
	for _, t := range w.Templates {
		walk(t.Pre)
		walk(t.Post)
	}
}

// sharedName tells whether two images are to be kept under one name, as the derived name of one is the name of the other.
func (w *World) sharedName(c *Cfg) bool {
	seen := map[string]bool{}
	for _, im := range w.Images {
		p := c.BookImagePath(im.Name)
		if seen[p] {
			return true
		}
		seen[p] = true
	}
	return false
}

func init() {
	profiles["alike"] = func(g *gen) {
		g.o = opts{images: true, math: true, templates: true, single: true, maxArts: 8, maxBlocks: 5}
		g.sc.Profile = "alike"
		g.world()
		for len(g.w.Articles) < 3 {
			a := &Article{Title: "T" + string(rune('0'+len(g.w.Articles)))}
			g.w.Articles = append(g.w.Articles, a)
			for k := g.n(1, 3); k > 0; k-- {
				a.Blocks = append(a.Blocks, g.block())
			}
		}
		g.alikeWorld()
		c := g.cfg()
		if g.p(0.15) {
			c.internal()
		}
		r := g.run(c)
		r.Mode = "project"
		g.add(g.step(r, "run"))
		switch g.r.Intn(3) {
		case 0:
			g.add(g.step(r.with(nil), "again"))
		case 1:
			// the remote content changes and the cache expires
			g.add(&Step{Kind: "bump", Keys: g.bumps()}, &Step{Kind: "clock", Dur: c.MaxAge*60 + 60 + int64(g.n(0, 100))})
			g.add(g.step(r.with(nil), "again"))
		}
	}
}
