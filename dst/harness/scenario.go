package harness

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"sim/rt"
)

// Cfg is the configuration of a run.
type Cfg struct {
	OutputType string   `json:"output_type"`
	Driver     string   `json:"driver"`
	CacheDir   string   `json:"cache_dir"`
	MaxSize    int64    `json:"max_size"`
	MaxAge     int64    `json:"max_age"`
	Evict      string   `json:"evict"`
	SvgCmd     string   `json:"svg_cmd"`
	MathCmd    string   `json:"math_cmd"`
	ProcCmd    string   `json:"proc_cmd"`
	PdfCmd     string   `json:"pdf_cmd"`
	WebpCmd    string   `json:"webp_cmd"`
	MathConv   string   `json:"math_conv"`
	Workers    int      `json:"workers"`
	SvgViewbox bool     `json:"svg_viewbox,omitempty"`
	Force      bool     `json:"force,omitempty"`
	UA         string   `json:"ua"`
	Ignored    []string `json:"ignored,omitempty"`
	Trailing   []string `json:"trailing,omitempty"`
	Media      []string `json:"media,omitempty"`
	Style      string   `json:"style,omitempty"`
	Cover      string   `json:"cover,omitempty"`
	Fonts      []string `json:"fonts,omitempty"`
	Toc        int      `json:"toc"`
	Log        string   `json:"log,omitempty"`

	Extra map[string]any `json:"extra,omitempty"` // further settings by name
}

func (c *Cfg) ignoredMedia() []string {
	if c.Media != nil {
		return c.Media
	}
	return []string{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"}
}

func (c *Cfg) stats() bool { return strings.HasPrefix(c.OutputType, "stats") }

// ImageFile is the path of the cached image used by the book, relative to the cache directory.
func (c *Cfg) BookImagePath(name string) string {
	f := sanitize(strings.ReplaceAll(name, " ", "_"))
	switch strings.ToLower(path.Ext(f)) {
	case ".pdf":
		if c.PdfCmd != "" {
			f += ".png"
		}
	case ".svg":
		if c.SvgCmd != "" {
			f += ".png"
		}
	case ".webp":
		if c.WebpCmd != "" {
			f += ".png"
		}
	}
	return "images/" + f
}

func (c *Cfg) BookMathPath(w *World, tex string) string {
	if c.MathConv == "none" {
		return "images/" + sanitize(w.mathLoc(tex)) + ".svg"
	}
	return "images/" + sanitize(w.mathLoc(tex)) + ".png"
}

// ConfigJSON is the configuration file for the program.
func (c *Cfg) ConfigJSON(w *World) []byte {
	m := map[string]any{
		"force-regenerate-html":             c.Force,
		"svg-size-to-viewbox":               c.SvgViewbox,
		"output-type":                       c.OutputType,
		"output-driver":                     c.Driver,
		"cache-dir":                         c.CacheDir,
		"cache-max-size":                    c.MaxSize,
		"cache-max-age":                     c.MaxAge,
		"cache-eviction-strategy":           c.Evict,
		"style-file":                        c.Style,
		"cover-image":                       c.Cover,
		"command-template-svg-to-png":       c.SvgCmd,
		"command-template-math-svg-to-png":  c.MathCmd,
		"command-template-image-processing": c.ProcCmd,
		"command-template-pdf-to-png":       c.PdfCmd,
		"command-template-webp-to-png":      c.WebpCmd,
		"pandoc-executable":                 "pandoc",
		"font-files":                        c.Fonts,
		"ignored-templates":                 c.Ignored,
		"trailing-templates":                c.Trailing,
		"ignored-media-types":               c.ignoredMedia(),
		"wikipedia-instance":                w.Inst,
		"wikipedia-host":                    w.Host,
		"wikipedia-image-host":              w.ImgHost,
		"wikipedia-image-article-hosts":     w.PageHosts,
		"wikipedia-math-rest-api":           w.MathAPI,
		"math-converter":                    c.MathConv,
		"toc-depth":                         c.Toc,
		"worker-threads":                    c.Workers,
		"user-agent-template":               c.UA,
	}
	if c.Ignored == nil {
		m["ignored-templates"] = []string{}
	}
	if c.Trailing == nil {
		m["trailing-templates"] = []string{}
	}
	if c.Fonts == nil {
		m["font-files"] = []string{}
	}
	for k, v := range c.Extra {
		m[k] = v
	}
	return mustJSON(m)
}

// NetFault changes the answer to one request.
type NetFault struct {
	Key  string `json:"key"` // resource key
	Nth  int    `json:"nth"` // 0-based number of the request for this key in the step, -1 = every one
	Kind string `json:"kind"`
	Arg  string `json:"arg,omitempty"`
	Off  int    `json:"off,omitempty"` // bytes delivered before a break
}

// FSFault makes one file system operation fail.
type FSFault struct {
	Seq   int    `json:"seq,omitempty"`   // n-th operation of the run
	Mut   int    `json:"mut,omitempty"`   // n-th changing operation of the run
	Kind  string `json:"kind,omitempty"`  // with Nth: n-th operation of this kind whose path contains Path
	Path  string `json:"path,omitempty"`  //
	Nth   int    `json:"nth,omitempty"`   //
	Err   string `json:"err"`             // ENOSPC EIO EACCES
	Short int    `json:"short,omitempty"` // bytes still written
	Count int    `json:"count,omitempty"` // number of following operations that fail, too
	Spare bool   `json:"spare,omitempty"` // never strike operations that remove something
}

type ExecFault struct {
	Tool string `json:"tool"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"` // fail, partial, signal, nostart
}

type Crash struct {
	Mut   int    `json:"mut,omitempty"` // at the n-th changing file operation
	Seq   int    `json:"seq,omitempty"` // at the n-th file operation
	Req   int    `json:"req,omitempty"` // at the n-th request
	When  string `json:"when"`          // before, mid, after
	Short int    `json:"short,omitempty"`
}

// Run is one execution of the program.
type Run struct {
	Mode     string      `json:"mode"` // project, article, standalone
	Articles []string    `json:"articles"`
	Cfg      *Cfg        `json:"cfg"`
	Out      string      `json:"out"`
	Net      []NetFault  `json:"net,omitempty"`
	FS       []FSFault   `json:"fs,omitempty"`
	Exec     []ExecFault `json:"exec,omitempty"`
	Crash    *Crash      `json:"crash,omitempty"`
	Cap      int64       `json:"cap,omitempty"` // free disk space in bytes
	NetDown  bool        `json:"net_down,omitempty"`
	Layers   *Layers     `json:"layers,omitempty"`
	Delay    int         `json:"delay,omitempty"` // ms before the start (second process of a pair)
}

func (r *Run) faults() int {
	n := len(r.Net) + len(r.FS) + len(r.Exec)
	if r.Crash != nil {
		n++
	}
	if r.Cap > 0 {
		n++
	}
	if r.NetDown {
		n++
	}
	return n
}

// Step is one event of a history.
type Step struct {
	Kind  string      `json:"kind"` // run, pair, delete, clock, bump, leftover, fix
	Run   *Run        `json:"run,omitempty"`
	Run2  *Run        `json:"run2,omitempty"`
	Pol   rt.Policy   `json:"pol"`
	Seed  uint64      `json:"seed"`
	Tape  []rt.Choice `json:"tape,omitempty"`
	Taped bool        `json:"taped,omitempty"`
	Keys  []string    `json:"keys,omitempty"` // bump: resource keys; delete: cache paths
	Frac  int         `json:"frac,omitempty"` // delete: percentage of the cache files
	Dur   int64       `json:"dur,omitempty"`  // clock: seconds
	Role  string      `json:"role,omitempty"` // what the step stands for in the check
	Rec   []rt.Choice `json:"-"`              // what the scheduler decided
	Gran  int64       `json:"gran,omitempty"` // time stamp granularity of the disk in ns
}

// Scenario is everything a simulated history consists of. It is the replay file.
type Scenario struct {
	Prop    string  `json:"prop"`
	Seed    uint64  `json:"seed"`
	Profile string  `json:"profile,omitempty"`
	World   *World  `json:"world"`
	Steps   []*Step `json:"steps"`
}

func (s *Scenario) Clone() *Scenario {
	var c Scenario
	if err := json.Unmarshal(mustJSON(s), &c); err != nil {
		panic(err)
	}
	return &c
}

// Violation is a broken property.
type Violation struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"` // stable signature used by the minimiser
	Msg  string `json:"msg"`
	Step int    `json:"step"`
	KF   string `json:"kf,omitempty"` // class of a known finding it may belong to
}

func (v Violation) String() string {
	return fmt.Sprintf("%s [%s] step %d: %s", v.Prop, v.Sig, v.Step, v.Msg)
}

// asksFor tells whether a run of the scenario was given this article name.
func (sc *Scenario) asksFor(page string) bool {
	for _, s := range sc.Steps {
		for _, r := range []*Run{s.Run, s.Run2} {
			if r == nil {
				continue
			}
			for _, a := range r.Articles {
				if strings.ReplaceAll(a, " ", "_") == strings.ReplaceAll(page, " ", "_") {
					return true
				}
			}
		}
	}
	return false
}
