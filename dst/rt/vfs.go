package rt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file or directory of the simulated disk.
type Inode struct {
	Dir   bool
	Kids  map[string]*Inode
	Data  []byte
	Mtime int64
	Mode  fs.FileMode
	Gen   int64 // changes with every write
	Tag   string
}

// FS is the simulated disk.
type FS struct {
	Root *Inode
	Cap  int64 // capacity in bytes, 0 = unlimited
	Gran int64 // granularity of modification times in ns
	gen  int64
}

func NewFS() *FS {
	return &FS{Root: &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: fs.ModeDir | 0755}, Gran: 1}
}

func cloneInode(n *Inode) *Inode {
	c := *n
	if n.Dir {
		c.Kids = make(map[string]*Inode, len(n.Kids))
		for k, v := range n.Kids {
			c.Kids[k] = cloneInode(v)
		}
	} else {
		c.Data = append([]byte(nil), n.Data...)
	}
	return &c
}

// Clone copies the whole disk.
func (f *FS) Clone() *FS {
	c := *f
	c.Root = cloneInode(f.Root)
	return &c
}

// Used returns the number of bytes in all files.
func (f *FS) Used() int64 {
	var n int64
	f.Walk("/", func(p string, i *Inode) {
		if !i.Dir {
			n += int64(len(i.Data))
		}
	})
	return n
}

// Walk visits everything below (and including) dir in sorted order, without any simulated effects.
func (f *FS) Walk(dir string, fn func(p string, i *Inode)) {
	n := f.Lookup(dir)
	if n == nil {
		return
	}
	var rec func(p string, i *Inode)
	rec = func(p string, i *Inode) {
		fn(p, i)
		if i.Dir {
			names := make([]string, 0, len(i.Kids))
			for k := range i.Kids {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				rec(path.Join(p, k), i.Kids[k])
			}
		}
	}
	rec(path.Clean(dir), n)
}

// Lookup finds an inode by absolute path, without simulated effects.
func (f *FS) Lookup(p string) *Inode {
	n := f.Root
	for _, part := range strings.Split(path.Clean(p), "/") {
		if part == "" {
			continue
		}
		if !n.Dir {
			return nil
		}
		n = n.Kids[part]
		if n == nil {
			return nil
		}
	}
	return n
}

// Put creates a file (and its directories), without simulated effects.
func (f *FS) Put(p string, data []byte, mtime int64) *Inode {
	f.MkAll(path.Dir(p))
	d := f.Lookup(path.Dir(p))
	f.gen++
	n := &Inode{Data: data, Mtime: mtime, Mode: 0644, Gen: f.gen}
	d.Kids[path.Base(p)] = n
	return n
}

// MkAll creates directories, without simulated effects.
func (f *FS) MkAll(p string) {
	n := f.Root
	for _, part := range strings.Split(path.Clean(p), "/") {
		if part == "" {
			continue
		}
		k := n.Kids[part]
		if k == nil {
			k = &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: fs.ModeDir | 0755}
			n.Kids[part] = k
		}
		n = k
	}
}

// Del removes a path recursively, without simulated effects.
func (f *FS) Del(p string) {
	p = path.Clean(p)
	if d := f.Lookup(path.Dir(p)); d != nil && d.Dir {
		delete(d.Kids, path.Base(p))
	}
}

// FSOp describes one simulated file system operation.
type FSOp struct {
	Kind   string // open create write read close rename remove removeall mkdir chtimes stat readdir truncate
	Path   string
	Path2  string
	Mut    bool
	N      int // bytes for write
	Seq    int // number of this operation in its process
	MutSeq int
	Exec   string // set if done by an external command
	Err    error
	// For renames, removes and writes: the inode involved.
	Node *Inode
	Old  *Inode // replaced inode
	PID  int
	Task int
	Now  int64
}

// Action is what a fault hook demands for an operation.
type Action struct {
	Err   error  // fail the operation with this errno
	Short int    // for writes: bytes that still get written before Err (or before the crash); -1 = all
	Crash string // "", "before", "mid", "after"
}

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func (p *Proc) abs(name string) string {
	if path.IsAbs(name) {
		return path.Clean(name)
	}
	return path.Join(p.Cwd, name)
}

// Abs resolves a path against the working directory of the current process.
func Abs(name string) string {
	if p := CurProc(); p != nil {
		return p.abs(name)
	}
	if path.IsAbs(name) {
		return path.Clean(name)
	}
	return path.Join("/", name)
}

var initFS = NewFS()

func curFS() *FS {
	if S != nil && S.cur != nil {
		return S.FS
	}
	return initFS
}

// fsop runs one operation with its scheduling point and faults. fn performs the effect; short is
// the number of bytes a write may still write (-1 = all).
func fsop(op *FSOp, fn func(short int) error) error {
	if S == nil || S.cur == nil {
		return fn(-1)
	}
	s := S
	if dead() {
		return syscall.EBADF
	}
	Yield(op.Kind)
	p := s.cur.Proc
	p.Ops++
	if op.Mut {
		p.MutOps++
	}
	op.Seq, op.MutSeq = p.Ops, p.MutOps
	op.PID, op.Task, op.Now = p.ID, s.cur.ID, s.Now
	op.Exec = s.cur.ExecTag
	var act Action
	act.Short = -1
	if s.OnFS != nil {
		act = s.OnFS(p, op)
	}
	if act.Crash == "before" {
		s.Note("CRASH before %s %s", op.Kind, op.Path)
		s.Crash(p, "crash")
		return syscall.EBADF
	}
	if act.Crash == "mid" {
		if op.Kind == "write" {
			n := act.Short
			if n < 0 || n > op.N {
				n = op.N / 2
			}
			op.Err = fn(n)
			if s.AfterFS != nil {
				s.AfterFS(p, op)
			}
		}
		s.Note("CRASH in %s %s", op.Kind, op.Path)
		s.Crash(p, "crash")
		return syscall.EBADF
	}
	if act.Err != nil {
		if op.Kind == "write" && act.Short > 0 {
			fn(act.Short)
		}
		op.Err = act.Err
		if s.AfterFS != nil {
			s.AfterFS(p, op)
		}
		s.Event("fs!", op.Kind, op.Path, act.Err.Error())
		return act.Err
	}
	err := fn(-1)
	op.Err = err
	if op.Mut || s.KeepTrace {
		es := ""
		if err != nil {
			es = err.Error()
		}
		if op.Path2 != "" {
			s.Event("fs", op.Kind, op.Path, op.Path2, es)
		} else {
			s.Event("fs", op.Kind, op.Path, es)
		}
	} else {
		s.noteHash(op.Kind, op.Path)
	}
	if s.AfterFS != nil {
		s.AfterFS(p, op)
	}
	if act.Crash == "after" {
		s.Note("CRASH after %s %s", op.Kind, op.Path)
		s.Crash(p, "crash")
	}
	return err
}

// SetExecTag marks the following operations of the current task as done by an external command.
func SetExecTag(tag string) {
	if S != nil && S.cur != nil {
		S.cur.ExecTag = tag
	}
}

func (f *FS) resolve(p string) (*Inode, error) {
	n := f.Root
	for _, part := range strings.Split(p, "/") {
		if part == "" {
			continue
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		if len(part) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n = n.Kids[part]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func (f *FS) parent(p string) (*Inode, string, error) {
	d, err := f.resolve(path.Dir(p))
	if err != nil {
		return nil, "", err
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	b := path.Base(p)
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return d, b, nil
}

func (f *FS) mtime() int64 {
	now := int64(1_700_000_000_000_000_000)
	if S != nil {
		now = S.Now
	}
	g := f.Gran
	if g < 1 {
		g = 1
	}
	return now / g * g
}

// FileInfo of the simulated disk.
type FileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
}

func (i *FileInfo) Name() string       { return i.name }
func (i *FileInfo) Size() int64        { return i.size }
func (i *FileInfo) Mode() fs.FileMode  { return i.mode }
func (i *FileInfo) ModTime() time.Time { return time.Unix(0, i.mtime) }
func (i *FileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *FileInfo) Sys() any           { return nil }

func infoOf(name string, n *Inode) *FileInfo {
	sz := int64(len(n.Data))
	if n.Dir {
		sz = 4096
	}
	return &FileInfo{name: name, size: sz, mode: n.Mode, mtime: n.Mtime}
}

// SameInfo implements os.SameFile well enough.
func SameInfo(a, b fs.FileInfo) bool { return a == b }

func Stat(name string) (fs.FileInfo, error) {
	p := Abs(name)
	var info *FileInfo
	if name == "" {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	err := fsop(&FSOp{Kind: "stat", Path: p}, func(int) error {
		n, err := curFS().resolve(p)
		if err != nil {
			return err
		}
		info = infoOf(path.Base(p), n)
		return nil
	})
	if err != nil {
		return nil, pathErr("stat", name, err)
	}
	return info, nil
}

func Mkdir(name string, perm fs.FileMode) error {
	p := Abs(name)
	err := fsop(&FSOp{Kind: "mkdir", Path: p, Mut: true}, func(int) error { return mkdir1(p) })
	if err != nil {
		return pathErr("mkdir", name, err)
	}
	return nil
}

func mkdir1(p string) error {
	f := curFS()
	d, b, err := f.parent(p)
	if err != nil {
		return err
	}
	if d.Kids[b] != nil || p == "/" {
		return syscall.EEXIST
	}
	d.Kids[b] = &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: fs.ModeDir | 0755, Mtime: f.mtime()}
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	p := Abs(name)
	if name == "" {
		return pathErr("mkdir", name, syscall.ENOENT)
	}
	if fi, err := Stat(p); err == nil {
		if fi.IsDir() {
			return nil
		}
		return pathErr("mkdir", name, syscall.ENOTDIR)
	} else if errors.Is(err, syscall.EBADF) {
		return err
	}
	if path.Dir(p) != p {
		if err := MkdirAll(path.Dir(p), perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if fi, e2 := Stat(p); e2 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	p := Abs(name)
	if name == "" {
		return pathErr("remove", name, syscall.ENOENT)
	}
	op := &FSOp{Kind: "remove", Path: p, Mut: true}
	err := fsop(op, func(int) error {
		d, b, err := curFS().parent(p)
		if err != nil {
			return err
		}
		n := d.Kids[b]
		if n == nil {
			return syscall.ENOENT
		}
		if n.Dir && len(n.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		op.Node, op.Old = n, n
		delete(d.Kids, b)
		return nil
	})
	if err != nil {
		return pathErr("remove", name, err)
	}
	return nil
}

func RemoveAll(name string) error {
	p := Abs(name)
	if name == "" {
		return nil
	}
	if name == "." || strings.HasSuffix(name, "/.") {
		return pathErr("RemoveAll", name, syscall.EINVAL)
	}
	fi, err := Stat(p)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		ents, err := ReadDir(p)
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return err
		}
		for _, e := range ents {
			if err := RemoveAll(path.Join(p, e.Name())); err != nil {
				return err
			}
		}
	}
	err = Remove(p)
	if err != nil && errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return err
}

func Rename(oldName, newName string) error {
	o, n := Abs(oldName), Abs(newName)
	op := &FSOp{Kind: "rename", Path: o, Path2: n, Mut: true}
	err := fsop(op, func(int) error {
		f := curFS()
		od, ob, err := f.parent(o)
		if err != nil {
			return err
		}
		src := od.Kids[ob]
		if src == nil {
			return syscall.ENOENT
		}
		nd, nb, err := f.parent(n)
		if err != nil {
			return err
		}
		dst := nd.Kids[nb]
		if dst != nil {
			if dst.Dir && !src.Dir {
				return syscall.EEXIST
			}
			if !dst.Dir && src.Dir {
				return syscall.ENOTDIR
			}
			if dst.Dir && len(dst.Kids) > 0 {
				return syscall.ENOTEMPTY
			}
		}
		op.Node, op.Old = src, dst
		delete(od.Kids, ob)
		nd.Kids[nb] = src
		return nil
	})
	if err != nil {
		return &os.LinkError{Op: "rename", Old: oldName, New: newName, Err: err}
	}
	return nil
}

func Chtimes(name string, mtime time.Time) error {
	p := Abs(name)
	err := fsop(&FSOp{Kind: "chtimes", Path: p, Mut: true}, func(int) error {
		n, err := curFS().resolve(p)
		if err != nil {
			return err
		}
		if !mtime.IsZero() {
			g := curFS().Gran
			if g < 1 {
				g = 1
			}
			n.Mtime = mtime.UnixNano() / g * g
		}
		return nil
	})
	if err != nil {
		return pathErr("chtimes", name, err)
	}
	return nil
}

func Chmod(name string, mode fs.FileMode) error {
	p := Abs(name)
	err := fsop(&FSOp{Kind: "chmod", Path: p, Mut: true}, func(int) error {
		n, err := curFS().resolve(p)
		if err != nil {
			return err
		}
		n.Mode = n.Mode&fs.ModeType | mode.Perm()
		return nil
	})
	if err != nil {
		return pathErr("chmod", name, err)
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

type dirEntry struct{ info *FileInfo }

func (d *dirEntry) Name() string               { return d.info.name }
func (d *dirEntry) IsDir() bool                { return d.info.IsDir() }
func (d *dirEntry) Type() fs.FileMode          { return d.info.mode.Type() }
func (d *dirEntry) Info() (fs.FileInfo, error) { return d.info, nil }
func (d *dirEntry) String() string             { return fs.FormatDirEntry(d) }

func ReadDir(name string) ([]fs.DirEntry, error) {
	p := Abs(name)
	var out []fs.DirEntry
	err := fsop(&FSOp{Kind: "readdir", Path: p}, func(int) error {
		n, err := curFS().resolve(p)
		if err != nil {
			return err
		}
		if !n.Dir {
			return syscall.ENOTDIR
		}
		names := make([]string, 0, len(n.Kids))
		for k := range n.Kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			out = append(out, &dirEntry{infoOf(k, n.Kids[k])})
		}
		return nil
	})
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	return out, nil
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC
)

// File is an open file of the simulated disk (or a standard stream).
type File struct {
	Task   int    // task that opened it
	Exec   string // external command that opened it
	name   string
	path   string
	node   *Inode
	pos    int64
	flag   int
	closed bool
	proc   *Proc
	std    int // 1 stdout, 2 stderr, 3 stdin
	dirPos int
	ents   []fs.DirEntry
	wrote  int // bytes written through this handle
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 3}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p := Abs(name)
	if name == "" {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	if p == "/dev/null" {
		return &File{name: name, std: 4}, nil
	}
	kind := "open"
	mut := false
	if flag&O_CREATE != 0 {
		kind = "create"
		mut = true
	}
	if flag&O_TRUNC != 0 {
		mut = true
	}
	var file *File
	op := &FSOp{Kind: kind, Path: p, Mut: mut}
	err := fsop(op, func(int) error {
		f := curFS()
		n, err := f.resolve(p)
		if err == nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return syscall.EEXIST
		}
		if err != nil {
			if err != syscall.ENOENT || flag&O_CREATE == 0 {
				return err
			}
			d, b, perr := f.parent(p)
			if perr != nil {
				return perr
			}
			f.gen++
			n = &Inode{Mode: perm.Perm(), Mtime: f.mtime(), Gen: f.gen}
			d.Kids[b] = n
			op.Node = n
		} else {
			op.Old = n
			op.Node = n
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return syscall.EISDIR
		}
		if flag&O_TRUNC != 0 && !n.Dir && len(n.Data) > 0 {
			n.Data = nil
			n.Mtime = f.mtime()
			f.gen++
			n.Gen = f.gen
		}
		file = &File{name: name, path: p, node: n, flag: flag, proc: CurProc()}
		if S != nil && S.cur != nil {
			file.Task, file.Exec = S.cur.ID, S.cur.ExecTag
		}
		if file.proc != nil {
			file.proc.Handles[file] = true
			if k := len(file.proc.Handles); k > file.proc.MaxOpen {
				file.proc.MaxOpen = k
			}
		}
		return nil
	})
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	return file, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Path() string { return f.path }
func (f *File) Fd() uintptr  { return uintptr(100) }

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return pathErr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return pathErr("close", f.name, fs.ErrClosed)
	}
	if f.proc != nil {
		delete(f.proc.Handles, f)
	}
	f.closed = true
	if dead() && InSim() {
		return nil
	}
	err := fsop(&FSOp{Kind: "close", Path: f.path, Node: f.node}, func(int) error { return nil })
	if err != nil {
		// what was not yet on the disk is lost
		if keep := len(f.node.Data) - (f.wrote+1)/2; f.wrote > 0 && keep >= 0 {
			f.node.Data = append([]byte{}, f.node.Data[:keep]...)
			d := curFS()
			d.gen++
			f.node.Gen = d.gen
		}
		return pathErr("close", f.name, err)
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.std != 0 {
		if p := CurProc(); p != nil && !p.Dead {
			if f.std == 1 {
				p.Out = append(p.Out, b...)
			} else if f.std == 2 {
				p.Err = append(p.Err, b...)
			}
		}
		return len(b), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	if f.flag&O_APPEND != 0 {
		f.pos = int64(len(f.node.Data))
	}
	n, err := f.writeAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	written := 0
	op := &FSOp{Kind: "write", Path: f.path, Mut: true, N: len(b), Node: f.node}
	err := fsop(op, func(short int) error {
		w := b
		if short >= 0 && short < len(w) {
			w = w[:short]
		}
		d := curFS()
		var full error
		if d.Cap > 0 {
			grow := off + int64(len(w)) - int64(len(f.node.Data))
			if free := d.Cap - d.Used(); grow > free {
				cut := grow - free
				if cut > int64(len(w)) {
					cut = int64(len(w))
				}
				w = w[:int64(len(w))-cut]
				full = syscall.ENOSPC
			}
		}
		data := f.node.Data
		for int64(len(data)) < off {
			data = append(data, 0)
		}
		nd := make([]byte, 0, off+int64(len(w)))
		nd = append(nd, data[:off]...)
		nd = append(nd, w...)
		if int64(len(data)) > off+int64(len(w)) {
			nd = append(nd, data[off+int64(len(w)):]...)
		}
		f.node.Data = nd
		f.node.Mtime = d.mtime()
		d.gen++
		f.node.Gen = d.gen
		written = len(w)
		f.wrote += written
		return full
	})
	if err != nil {
		return written, pathErr("write", f.name, err)
	}
	return written, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off)
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n := 0
	err := fsop(&FSOp{Kind: "read", Path: f.path, Node: f.node}, func(int) error {
		if f.node.Dir {
			return syscall.EISDIR
		}
		if f.pos < int64(len(f.node.Data)) {
			n = copy(b, f.node.Data[f.pos:])
		}
		return nil
	})
	if err != nil {
		return 0, pathErr("read", f.name, err)
	}
	f.pos += int64(n)
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n := 0
	err := fsop(&FSOp{Kind: "read", Path: f.path, Node: f.node}, func(int) error {
		if off < int64(len(f.node.Data)) {
			n = copy(b, f.node.Data[off:])
		}
		return nil
	})
	if err != nil {
		return 0, pathErr("read", f.name, err)
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	if f.std != 0 {
		return &FileInfo{name: f.name, mode: fs.ModeCharDevice}, nil
	}
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	var info *FileInfo
	err := fsop(&FSOp{Kind: "stat", Path: f.path, Node: f.node}, func(int) error {
		info = infoOf(path.Base(f.path), f.node)
		return nil
	})
	if err != nil {
		return nil, pathErr("stat", f.name, err)
	}
	return info, nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	err := fsop(&FSOp{Kind: "sync", Path: f.path, Node: f.node}, func(int) error { return nil })
	if err != nil {
		return pathErr("sync", f.name, err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	err := fsop(&FSOp{Kind: "truncate", Path: f.path, Mut: true, Node: f.node}, func(int) error {
		d := append([]byte(nil), f.node.Data...)
		for int64(len(d)) < size {
			d = append(d, 0)
		}
		f.node.Data = d[:size]
		f.node.Mtime = curFS().mtime()
		curFS().gen++
		f.node.Gen = curFS().gen
		return nil
	})
	if err != nil {
		return pathErr("truncate", f.name, err)
	}
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error { return Chmod(f.path, mode) }

func (f *File) Chown(uid, gid int) error { return nil }
func (f *File) Chdir() error             { return Chdir(f.path) }

func (f *File) Readdirnames(n int) ([]string, error) {
	ents, err := f.ReadDir(n)
	var names []string
	for _, e := range ents {
		names = append(names, e.Name())
	}
	return names, err
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	ents, err := f.ReadDir(n)
	var infos []fs.FileInfo
	for _, e := range ents {
		i, ierr := e.Info()
		if ierr == nil {
			infos = append(infos, i)
		}
	}
	return infos, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.ents == nil && f.dirPos == 0 {
		e, err := ReadDir(f.path)
		if err != nil {
			return nil, err
		}
		f.ents = e
	}
	rest := f.ents[f.dirPos:]
	if n <= 0 {
		f.dirPos = len(f.ents)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > n {
		rest = rest[:n]
	}
	f.dirPos += len(rest)
	return rest, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 64*1024)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func tmpName(pattern string, i uint64) string {
	pre, suf := pattern, ""
	if k := strings.LastIndexByte(pattern, '*'); k >= 0 {
		pre, suf = pattern[:k], pattern[k+1:]
	}
	return pre + fmt.Sprint(i%4_000_000_000) + suf
}

func randU64() uint64 {
	if S == nil {
		return 4
	}
	S.MapSeed = S.MapSeed*6364136223846793005 + 1442695040888963407
	return S.MapSeed >> 20
}

// RandU64 gives simulated randomness to shims.
func RandU64() uint64 { return randU64() }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return nil, pathErr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	for try := 0; try < 100; try++ {
		f, err := OpenFile(path.Join(dir, tmpName(pattern, randU64())), O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		if f != nil && !path.IsAbs(dir) {
			f.name = path.Join(dir, path.Base(f.path))
		}
		return f, err
	}
	return nil, pathErr("createtemp", pattern, syscall.EEXIST)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for try := 0; try < 100; try++ {
		n := path.Join(dir, tmpName(pattern, randU64()))
		err := Mkdir(n, 0700)
		if err == nil {
			return n, nil
		}
		if !errors.Is(err, fs.ErrExist) {
			return "", err
		}
	}
	return "", pathErr("mkdirtemp", pattern, syscall.EEXIST)
}

func TempDir() string {
	if p := CurProc(); p != nil && p.Env["TMPDIR"] != "" {
		return p.Env["TMPDIR"]
	}
	return "/tmp"
}

func Getwd() string {
	if p := CurProc(); p != nil {
		return p.Cwd
	}
	return "/"
}

func Chdir(dir string) error {
	p := Abs(dir)
	fi, err := Stat(p)
	if err != nil {
		return pathErr("chdir", dir, errors.Unwrap(err))
	}
	if !fi.IsDir() {
		return pathErr("chdir", dir, syscall.ENOTDIR)
	}
	if pr := CurProc(); pr != nil {
		pr.Cwd = p
	}
	return nil
}

// Link creates a hard link.
func Link(oldName, newName string) error {
	o, n := Abs(oldName), Abs(newName)
	op := &FSOp{Kind: "link", Path: o, Path2: n, Mut: true}
	err := fsop(op, func(int) error {
		f := curFS()
		src, err := f.resolve(o)
		if err != nil {
			return err
		}
		if src.Dir {
			return syscall.EPERM
		}
		nd, nb, err := f.parent(n)
		if err != nil {
			return err
		}
		if nd.Kids[nb] != nil {
			return syscall.EEXIST
		}
		op.Node = src
		nd.Kids[nb] = src
		return nil
	})
	if err != nil {
		return &os.LinkError{Op: "link", Old: oldName, New: newName, Err: err}
	}
	return nil
}

// Goexit ends the current task.
func Goexit() { runtime.Goexit() }
