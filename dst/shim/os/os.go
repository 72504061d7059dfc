// Package os is the simulated os package.
package os

import (
	"io/fs"
	real "os"
	"sim/rt"
	"sort"
	"strconv"
	"syscall"
	"time"
)

type File = rt.File

var (
	Stdin  = rt.Stdin
	Stdout = rt.Stdout
	Stderr = rt.Stderr
	Args   = []string{"wiki2book"}
)

func init() {
	rt.OnSwitch = func(p *rt.Proc) {
		Args = p.Args
		real.Args = p.Args
	}
}

func Exit(code int) { rt.Exit(code) }

func Open(name string) (*File, error)   { return rt.OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return rt.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return rt.OpenFile(name, flag, perm)
}
func ReadFile(name string) ([]byte, error) { return rt.ReadFile(name) }
func WriteFile(name string, data []byte, perm FileMode) error {
	return rt.WriteFile(name, data, perm)
}
func Remove(name string) error    { return rt.Remove(name) }
func RemoveAll(name string) error { return rt.RemoveAll(name) }
func Rename(a, b string) error    { return rt.Rename(a, b) }
func Link(a, b string) error      { return rt.Link(a, b) }
func Symlink(a, b string) error   { return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM} }
func Readlink(name string) (string, error) {
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Mkdir(name string, perm FileMode) error            { return rt.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error         { return rt.MkdirAll(name, perm) }
func MkdirTemp(dir, pattern string) (string, error)     { return rt.MkdirTemp(dir, pattern) }
func CreateTemp(dir, pattern string) (*File, error)     { return rt.CreateTemp(dir, pattern) }
func TempDir() string                                   { return rt.TempDir() }
func Stat(name string) (FileInfo, error)                { return rt.Stat(name) }
func Lstat(name string) (FileInfo, error)               { return rt.Stat(name) }
func ReadDir(name string) ([]DirEntry, error)           { return rt.ReadDir(name) }
func Chdir(dir string) error                            { return rt.Chdir(dir) }
func Chmod(name string, mode FileMode) error            { return rt.Chmod(name, mode) }
func Chown(name string, uid, gid int) error             { return nil }
func Lchown(name string, uid, gid int) error            { return nil }
func Chtimes(name string, atime, mtime time.Time) error { return rt.Chtimes(name, mtime) }
func Truncate(name string, size int64) error            { return rt.Truncate(name, size) }
func Getwd() (string, error)                            { return rt.Getwd(), nil }
func SameFile(a, b FileInfo) bool                       { return rt.SameInfo(a, b) }
func Getpid() int                                       { return 4000 + pid() }
func Getppid() int                                      { return 3999 }
func Getuid() int                                       { return 1000 }
func Geteuid() int                                      { return 1000 }
func Getgid() int                                       { return 1000 }
func Getegid() int                                      { return 1000 }
func Hostname() (string, error)                         { return "simhost", nil }
func Executable() (string, error)                       { return "/usr/bin/wiki2book", nil }

func pid() int {
	if p := rt.CurProc(); p != nil {
		return p.ID
	}
	return 0
}

func env() map[string]string {
	if p := rt.CurProc(); p != nil && p.Env != nil {
		return p.Env
	}
	return map[string]string{"HOME": "/home/user"}
}

func Getenv(k string) string            { return env()[k] }
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }
func Setenv(k, v string) error          { env()[k] = v; return nil }
func Unsetenv(k string) error           { delete(env(), k); return nil }
func Clearenv() {
	for k := range env() {
		delete(env(), k)
	}
}
func Environ() []string {
	var r []string
	for k, v := range env() {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}
func ExpandEnv(s string) string { return Expand(s, Getenv) }

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", &PathError{Op: "home", Err: syscall.ENOENT}
}
func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	return h + "/.cache", err
}
func UserConfigDir() (string, error) {
	if d := Getenv("XDG_CONFIG_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	return h + "/.config", err
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	return Open(string(d) + "/" + name)
}
func DirFS(dir string) fs.FS { return dirFS(dir) }

// ProcessState of a finished simulated command.
type ProcessState struct {
	Code   int
	Signal string
}

func (p *ProcessState) ExitCode() int {
	if p.Signal != "" {
		return -1
	}
	return p.Code
}
func (p *ProcessState) Success() bool { return p.Signal == "" && p.Code == 0 }
func (p *ProcessState) Exited() bool  { return p.Signal == "" }
func (p *ProcessState) Pid() int      { return 5000 }
func (p *ProcessState) String() string {
	if p.Signal != "" {
		return "signal: " + p.Signal
	}
	return "exit status " + strconv.Itoa(p.Code)
}
