package harness

import "strings"

// Fragments of wikitext. Put together at random they give all kinds of broken articles: tags that are opened but
// never closed, closed but never opened, nested in forbidden ways, empty or with nonsense as attributes.
var fragments = []string{"[[", "]]", "[", "]", "[[", "]]", "{|", "|}", "|-", "|", "||", "!", "!!", "|+", "\n", "\n", "\n", "\n", "\n", "words", " ", "two words", "File:", "Image:", ":File:",
	"<IMG>", "<IMG>", "b.pdf", "|mini", "|20px", "|x200px", "|10x20x30px", "|px", "#", "*", ":", ";", "=", "==", "===", "=======", "'''", "''", "''''", "'''''",
	"<ref>", "</ref>", "<ref name=a>", "<ref name=a />", "<ref name=>", "<ref name=\"", "<ref group=g name=b>", "<references />", "<references>", "</references>", "<references group=g />",
	"<gallery>", "</gallery>", "<gallery mode=packed>", "<imagemap>", "</imagemap>", "<math>", "</math>", "x^2", "<nowiki>", "</nowiki>", "<nowiki/>", "<!--", "-->", "{{Box1|", "}}", "{{", "{{{1}}}",
	"[http://x.example", "http://", "https://", "[//x.example y]", "ftp://x", "colspan=\"2\"", "rowspan=2", "colspan=", "style=\"text-align:right\"", "ä", "日本", "Category:", "Kategorie:", "doi:", "Link", "#Section", "[[#", "[[:",
	"<br>", "<br/>", "<div>", "</div>", "<div class=\"x\"", "&nbsp;", "&", "<poem>", "</poem>", "<", ">", "----", "\t", "\r\n", "\x00", "\xff", "\u200b", "__TOC__",
	"$$TOKEN_1$$", "$$TOKEN_EXTERNAL_LINK_0$$", "$$TOKEN_TABLE_0$$", "$$MARKER_BOLD_OPEN$$", "$$MARKER_BOLD_CLOSE$$", "$$TEMPLATE_PLACEHOLDER_", "$$", "\n{|\n", "\n|}\n", "\n|-\n", "\n| ", "\n! ", "\n|+ ", "\n* ", "\n== ", " ==\n"}

func (g *gen) fragments(max int) string {
	var sb strings.Builder
	for k := g.n(1, max); k > 0; k-- {
		f := fragments[g.r.Intn(len(fragments))]
		if f == "<IMG>" {
			f = "Photo_0.jpg"
			if im := g.anyImage(); im != nil {
				f = im.Name
			}
		}
		if (f == "{{" || f == "{{Box1|") && g.p(0.7) {
			f = "{{Box1|" + g.pick("words", "", "[[", "{|\n", "=", "|") + "}}"
		}
		sb.WriteString(f)
	}
	return sb.String()
}

// Bodies of successful answers that are not what the program asked for.
var brokenBodies = map[string][]string{
	"json": {"", "{}", "null", "[]", "\"text\"", "5", "{\"parse\":null}", "{\"parse\":[]}", "{\"parse\":{}}", "{\"parse\":{\"title\":5}}", "{\"parse\":{\"title\":\"T\",\"wikitext\":null}}",
		"{\"parse\":{\"title\":\"T\",\"wikitext\":{}}}", "{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":null}}}", "{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":5}}}", "{\"parse\":{\"title\":\"T\",\"wikitext\":\"text\"}}",
		"{\"parse\":{\"title\":\"\",\"wikitext\":{\"*\":\"\"}}}", "{\"parse\":{\"title\":\"../../x\",\"wikitext\":{\"*\":\"text\"}}}", "{\"error\":{\"code\":\"x\",\"info\":\"y\"}}", "<!DOCTYPE html><html><body>Wartung</body></html>",
		"{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":\"te", "\ufeff{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":\"text\"}}}", "{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":\"\xff\xfe\"}}}",
		"{\"parse\":{\"title\":\"T\",\"wikitext\":{\"*\":\"text\"}}}{\"parse\":{}}", "{\"expandtemplates\":null}", "{\"expandtemplates\":{}}", "{\"expandtemplates\":{\"wikitext\":null}}", "{\"expandtemplates\":{\"wikitext\":[]}}", "{\"expandtemplates\":[]}", "{\"expandtemplates\":\"x\"}"},
	"redirect": {"#REDIRECT [[File:]]", "#REDIRECT [[", "#REDIRECT", "#REDIRECT [[File:<IMG>]]", "#WEITERLEITUNG [[Datei:<IMG>]]", "#redirect[[<IMG>]]", "#REDIRECT [[:File:../x.jpg]]", "#REDIRECT [[File:x.jpg]] [[File:y.jpg]]", "#REDIRECT [[]]", "#REDIRECTION [[Fichier:]]", "#REDIRECT\n[[File:<IMG>]]"},
	"svg": {"", "<svg/>", "<svg", "<svg></svg>", "<svg width=\"\" height=\"\" style=\"\"></svg>", "<svg width=\"1ex\"></svg>", "<svg width=\"x\" height=\"y\" viewBox=\"0 0\"></svg>", "<svg width='1ex' height='2ex' style='a'></svg>",
		"<svg viewBox=\"\"></svg>", "<svg viewBox=\"0 0 1\" width=\"5\" height=\"\"></svg>", "<?xml version=\"1.0\"?>", "<svg width=\"1e999pt\" height=\"-5pt\" viewBox=\"a b c d\"></svg>", "<html></html>", "<svg width=\"1ex\" height=\"1ex\" style=\"$$TOKEN_1$$\" viewBox=\"0 0 1 1\"></svg>",
		"<?xml version=\"1.0\" encoding=\"utf-16\"?><svg width=\"5pt\" height=\"5pt\" viewBox=\"0 0 5 5\"></svg>", "<!DOCTYPE svg [<!ENTITY a \"b\">]><svg width=\"&a;\" height=\"5\" viewBox=\"0 0 5 5\"></svg>", "<svg width=\"5pt\" height=\"5pt\" viewBox=\"0 0 5 5\"><g>",
		"<svg width=\"100%\" height=\"100%\" viewBox=\"0 0 1\"></svg>", "<svg width=\"100%\" height=\"100%\" viewBox=\"\"></svg>", "<svg width=\"100%\" height=\"5\" viewBox=\"0 0 1 2 3\"></svg>", "<svg width=\"100%\" height=\"100%\" viewBox='0 0 5 5'></svg>",
		"<svg width=\"%\" height=\"%\" viewBox=\",, ,\"></svg>", "<svg width=\"100%\" height=\"100%\"></svg><!-- viewBox=\"", "<svg width=\"100%\" height=\"100%\" viewBox=\"5\"></svg>"},
	"image": {"", "<html>404</html>", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff", "%PDF-1.4"},
	"loc":   {"", "../../../../tmp/x", "a/b", "%2e%2e%2f", "..", ".", "x y", "a?b#c", "日本", "x.svg"},
}

func init() {
	o := opts{images: true, math: true, templates: true, single: true, maxArts: 4, maxBlocks: 4}
	profiles["broken"] = func(g *gen) {
		g.o = o
		g.sc.Profile = "broken"
		g.world()
		w := g.w
		w.Hostile = true
		c := g.cfg()
		switch g.r.Intn(8) {
		case 0, 1:
			c.internal()
		case 2:
			c.OutputType, c.Driver = g.pick("stats-json", "stats-txt"), "internal"
		}
		if len(w.Templates) == 0 {
			w.Templates = append(w.Templates, &Template{Name: "Box1"})
		}
		w.Articles[0].Blocks = append(w.Articles[0].Blocks, &Block{K: "math", ID: g.mark(), S: "x^2"})
		if g.p(0.75) {
			for _, a := range w.Articles {
				for k := g.n(0, 3); k > 0; k-- {
					i := g.r.Intn(len(a.Blocks) + 1)
					a.Blocks = append(a.Blocks[:i], append([]*Block{{K: "raw", ID: g.mark(), S: g.fragments(12)}}, a.Blocks[i:]...)...)
				}
			}
			for _, t := range w.Templates {
				if g.p(0.3) {
					t.Raw = g.fragments(8)
				}
			}
		}
		r := g.run(c)
		g.outFor(r)
		if g.p(0.4) {
			b := g.base(r)
			if g.p(0.3) {
				w.Loc = map[string]string{"x^2": g.pick(brokenBodies["loc"]...)}
			}
			w.Raw = map[string]string{}
			for k := g.n(1, 2); k > 0 && len(b.Log) > 0; k-- {
				q := b.Log[g.r.Intn(len(b.Log))]
				kind := "json"
				switch {
				case strings.HasPrefix(q.Key, "A|") || strings.HasPrefix(q.Key, "T|") || strings.HasPrefix(q.Key, "P|"):
					if strings.HasPrefix(q.Key, "P|") && g.p(0.6) {
						f := g.pick(brokenBodies["redirect"]...)
						if im := g.anyImage(); im != nil {
							f = strings.ReplaceAll(f, "<IMG>", im.Name)
						}
						w.Raw[q.Key] = articleJSON("File:x", f)
						continue
					}
				case strings.HasPrefix(strings.TrimSpace(q.Sent), "<svg"):
					kind = "svg"
				case strings.HasPrefix(q.Key, "M|"):
				default:
					kind = "image"
				}
				w.Raw[q.Key] = g.pick(brokenBodies[kind]...)
			}
		}
		g.add(g.step(r, "run"))
		if g.p(0.3) {
			g.add(g.step(r.with(nil), "again"))
		}
	}
}
