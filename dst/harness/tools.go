package harness

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"

	"sim/rt"
)

// Exec is one external command in the log.
type Exec struct {
	Tool  string
	Name  string
	Args  []string
	Proc  int
	Task  int
	Start int64
	End   int64
	Code  int
	Fault string
	In    string
	Out   string
}

// Tools simulates the external commands. They run in the task of the caller: each of their file
// operations is a scheduling point and can fail like those of the program.
type Tools struct {
	st     *State
	Log    []*Exec
	count  map[string]int
	faults map[int][]ExecFault
	Fired  map[string]int
	Hit    map[int]map[string]int
	Cmds   map[int]*Cfg
	onExec func(pid int, tool string)
}

func (t *Tools) Look(name string) (string, error) {
	switch name {
	case "pandoc", "magick", "rsvg-convert", "mytool":
		return "/usr/bin/" + name, nil
	}
	return "", &execNotFound{name}
}

type execNotFound struct{ name string }

func (e *execNotFound) Error() string {
	return "exec: " + strconv.Quote(e.name) + ": executable file not found in $PATH"
}

func (t *Tools) hit(pid int, kind string) {
	t.Fired["exec-"+kind]++
	if t.Hit[pid] == nil {
		t.Hit[pid] = map[string]int{}
	}
	t.Hit[pid]["exec-"+kind]++
}

type execIO struct {
	dir string
}

func (x *execIO) abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	d := x.dir
	if !path.IsAbs(d) {
		d = rt.Abs(d)
	}
	return path.Join(d, p)
}

// Run executes a command.
func (t *Tools) Run(name string, args []string, dir string, stdout, stderr io.Writer) (int, string, error) {
	p := rt.CurProc()
	tool := path.Base(name)
	s := rt.S
	e := &Exec{Tool: tool, Name: name, Args: args, Proc: p.ID, Task: rt.Cur().ID, Start: s.Now}
	t.Log = append(t.Log, e)
	k := fmt.Sprintf("%d/%s", p.ID, tool)
	nth := t.count[k]
	t.count[k]++
	p.Execs++
	s.Event("exec", tool, strings.Join(args, " "))
	if t.onExec != nil {
		t.onExec(p.ID, tool)
	}
	var f *ExecFault
	for i := range t.faults[p.ID] {
		x := &t.faults[p.ID][i]
		if x.Tool == tool && (x.Nth == nth || x.Nth == -1) {
			f = x
		}
	}
	if dir != "" {
		if fi, err := rt.Stat(dir); err != nil || !fi.IsDir() {
			e.Code = 126
			return 0, "", errors.New("chdir " + dir + ": no such file or directory")
		}
	}
	if f != nil && f.Kind == "nostart" {
		e.Fault, e.Code = f.Kind, 127
		t.hit(p.ID, f.Kind)
		return 0, "", &os.PathError{Op: "fork/exec", Path: name, Err: errors.New("resource temporarily unavailable")}
	}
	rt.SetExecTag("exec:" + tool)
	defer rt.SetExecTag("")
	rt.Sleep(int64(rt.Hash64("exec", tool, strconv.Itoa(nth))%20+1) * 1_000_000)
	if f != nil {
		e.Fault = f.Kind
		t.hit(p.ID, f.Kind)
		s.Event("execfault", f.Kind, tool)
	}
	x := &execIO{dir: dir}
	var code int
	var err error
	if f != nil && f.Kind == "fail" {
		code, err = 1, errors.New("something went wrong")
	} else {
		partial := f != nil && (f.Kind == "partial" || f.Kind == "signal")
		switch tool {
		case "pandoc":
			err = t.pandoc(x, e, args, partial)
		default:
			err = t.convert(x, e, tool, args, partial)
		}
		if err != nil {
			code = 1
		}
	}
	e.End = s.Now
	if f != nil && f.Kind == "signal" {
		e.Code = -1
		return -1, "signal: killed", nil
	}
	if f != nil && f.Kind == "partial" {
		code = 1
		err = errors.New("aborted")
	}
	if err != nil && stderr != nil {
		fmt.Fprintf(stderr, "%s: %v\n", tool, err)
	}
	e.Code = code
	return code, "", nil
}

// writeOut writes data in several chunks; partial stops in the middle.
func writeOut(p string, data []byte, partial bool, chunk int) error {
	f, err := rt.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	if partial {
		data = data[:len(data)/2]
	}
	for len(data) > 0 {
		n := chunk
		if n > len(data) {
			n = len(data)
		}
		if _, err := f.Write(data[:n]); err != nil {
			f.Close()
			return err
		}
		data = data[n:]
	}
	return f.Close()
}

func (t *Tools) cfgFor(pid int) *Cfg { return t.Cmds[pid] }

// convert does what magick and rsvg-convert do for the configured commands. Which options were
// given is part of the result, so that a wrong command shows in the bytes of the book.
func (t *Tools) convert(x *execIO, e *Exec, tool string, args []string, partial bool) error {
	var in, out string
	var rest []string
	switch tool {
	case "rsvg-convert":
		for i := 0; i < len(args); i++ {
			switch {
			case args[i] == "-o" && i+1 < len(args):
				out = args[i+1]
				rest = append(rest, "-o", "O")
				i++
			case args[i] == "-s" && i+1 < len(args):
				rest = append(rest, "-s", args[i+1])
				if _, err := rt.Stat(x.abs(args[i+1])); err != nil {
					return err
				}
				i++
			case strings.HasPrefix(args[i], "-"):
				rest = append(rest, args[i])
			default:
				if in != "" {
					return errors.New("too many arguments")
				}
				in = args[i]
				rest = append(rest, "I")
			}
		}
	default:
		last := len(args) - 1
		for i, a := range args {
			switch {
			case i == last:
				out = a
				rest = append(rest, "O")
			case in == "" && !strings.HasPrefix(a, "-") && (i == 0 || !strings.HasPrefix(args[i-1], "-") || strings.Contains(a, "/")):
				in = a
				rest = append(rest, "I")
			default:
				rest = append(rest, a)
			}
		}
	}
	if in == "" || out == "" {
		return errors.New("missing argument")
	}
	e.In, e.Out = x.abs(in), x.abs(out)
	data, err := rt.ReadFile(e.In)
	if err != nil {
		return err
	}
	if fmtOf(out) == "" {
		return fmt.Errorf("no encode delegate for the image format of '%s'", out)
	}
	res, ok := toolTransform(tool+" "+strings.Join(rest, " "), in, out, data)
	if !ok {
		return fmt.Errorf("'%s' is not a complete image", in)
	}
	if tool == "rsvg-convert" {
		if f, _, _, _ := parseContainer(data); f != "SVG" {
			return errors.New("not an SVG")
		}
	}
	rt.Sleep(2_000_000)
	return writeOut(e.Out, res, partial, 64)
}

var srcRe = regexp.MustCompile(`src="([^"]*)"`)

// pandoc writes a plain text book that names everything it was made of.
func (t *Tools) pandoc(x *execIO, e *Exec, args []string, partial bool) error {
	var out string
	var srcs []string
	var meta []string
	var extra []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-o" && i+1 < len(args):
			out = args[i+1]
			i++
		case (a == "-f" || a == "-t" || a == "--toc-depth" || a == "--data-dir") && i+1 < len(args):
			meta = append(meta, a+" "+args[i+1])
			i++
		case a == "--metadata" && i+1 < len(args):
			meta = append(meta, "meta "+args[i+1])
			i++
		case a == "--css" && i+1 < len(args):
			extra = append(extra, args[i+1])
			i++
		case strings.HasPrefix(a, "--epub-cover-image="), strings.HasPrefix(a, "--epub-embed-font="):
			extra = append(extra, a[strings.Index(a, "=")+1:])
		case a == "--toc":
			meta = append(meta, a)
		case strings.HasPrefix(a, "-") && a != "-":
			return fmt.Errorf("Unknown option %s", a)
		case a == "":
			// pandoc reads an empty argument as "no file" and complains
			return errors.New("pandoc: : openBinaryFile: does not exist (No such file or directory)")
		default:
			srcs = append(srcs, a)
		}
	}
	if out == "" || len(srcs) == 0 {
		return errors.New("no input or output")
	}
	e.Out = x.abs(out)
	var b strings.Builder
	b.WriteString("BOOK\n")
	for _, m := range meta {
		b.WriteString(m + "\n")
	}
	for _, f := range extra {
		d, err := rt.ReadFile(x.abs(f))
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "EXTRA %s %d\n%s\n", path.Base(f), len(d), d)
	}
	for _, src := range srcs {
		d, err := rt.ReadFile(x.abs(src))
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "DOC %s %d\n%s\n", path.Base(src), len(d), d)
		for _, m := range srcRe.FindAllStringSubmatch(string(d), -1) {
			rel := decodeSrc(m[1])
			img, err := rt.ReadFile(x.abs(rel))
			if err != nil && !os.IsNotExist(err) {
				return err
			}
			if err != nil {
				// pandoc warns about a missing resource and goes on
				fmt.Fprintf(&b, "MISSING %s\n", rel)
				continue
			}
			fmt.Fprintf(&b, "IMG %d %s\n%s\n", len(img), rel, img)
		}
	}
	b.WriteString("END\n")
	rt.Sleep(20_000_000)
	return writeOut(e.Out, []byte(b.String()), partial, 512)
}

// BookDoc is a document of a parsed book.
type BookDoc struct {
	File    string
	HTML    string
	Atoms   []string
	Images  []BookImg
	Missing []string
}

type BookImg struct {
	Rel  string
	Data string
}

type Book struct {
	Meta []string
	Docs []BookDoc
}

// ParseBook reads what the simulated pandoc wrote; it fails on anything incomplete.
func ParseBook(data []byte) (*Book, error) {
	s := string(data)
	if !strings.HasPrefix(s, "BOOK\n") || !strings.HasSuffix(s, "END\n") {
		return nil, errors.New("not a finished book")
	}
	b := &Book{}
	s = s[5:]
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return nil, errors.New("book is damaged")
		}
		line := s[:i]
		s = s[i+1:]
		take := func(n int) (string, bool) {
			if n < 0 || len(s) < n+1 {
				return "", false
			}
			d := s[:n]
			s = s[n+1:]
			return d, true
		}
		switch {
		case line == "END":
			if s != "" {
				return nil, errors.New("book is damaged")
			}
			return b, nil
		case strings.HasPrefix(line, "DOC "):
			j := strings.LastIndexByte(line, ' ')
			n, _ := strconv.Atoi(line[j+1:])
			d, ok := take(n)
			if !ok {
				return nil, errors.New("book is damaged")
			}
			b.Docs = append(b.Docs, BookDoc{File: line[4:j], HTML: d, Atoms: Atoms(d)})
		case strings.HasPrefix(line, "EXTRA "):
			j := strings.LastIndexByte(line, ' ')
			n, _ := strconv.Atoi(line[j+1:])
			if _, ok := take(n); !ok {
				return nil, errors.New("book is damaged")
			}
			b.Meta = append(b.Meta, line)
		case strings.HasPrefix(line, "IMG "):
			f := strings.SplitN(line[4:], " ", 2)
			n, _ := strconv.Atoi(f[0])
			d, ok := take(n)
			if !ok || len(b.Docs) == 0 {
				return nil, errors.New("book is damaged")
			}
			l := &b.Docs[len(b.Docs)-1]
			l.Images = append(l.Images, BookImg{Rel: f[1], Data: d})
		case strings.HasPrefix(line, "MISSING "):
			l := &b.Docs[len(b.Docs)-1]
			l.Missing = append(l.Missing, line[8:])
		default:
			b.Meta = append(b.Meta, line)
		}
	}
}
