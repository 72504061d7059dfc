// Package exec runs commands of the simulated world.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"path"
	"strings"

	"sim/rt"
	"sim/shim/os"
	"syscall"
	"time"
)

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	name    string
	ctx     context.Context
	started bool
	done    bool
	waiters []*rt.Task
	code    int
	signal  string
	waited  bool
}

type Process struct{ Pid int }

func (p *Process) Kill() error            { return nil }
func (p *Process) Signal(os.Signal) error { return nil }
func (p *Process) Release() error         { return nil }

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

func LookPath(file string) (string, error) { return rt.LookHook(file) }

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...), name: name}
	if !strings.Contains(name, "/") {
		p, err := rt.LookHook(name)
		if p != "" {
			c.Path = p
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string {
	if c.Err != nil || c.Path == "" {
		return strings.Join(c.Args, " ")
	}
	return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ")
}

func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func (c *Cmd) exec() error {
	out, er := c.Stdout, c.Stderr
	if out == nil {
		out = io.Discard
	}
	if er == nil {
		er = io.Discard
	}
	name := c.Path
	if !strings.HasPrefix(name, "/") {
		// as in reality: relative to the working directory of the command
		dir := c.Dir
		if dir == "" {
			dir, _ = os.Getwd()
		}
		name = path.Join(dir, name)
	}
	code, sig, err := rt.ExecHook(name, c.Args[1:], c.Dir, out, er)
	if err != nil {
		return err
	}
	c.code, c.signal = code, sig
	return nil
}

func (c *Cmd) result() error {
	c.ProcessState = &os.ProcessState{Code: c.code, Signal: c.signal}
	if c.code != 0 || c.signal != "" {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) prep() error {
	if c.Err != nil {
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.prep(); err != nil {
		return err
	}
	c.waited = true
	if err := c.exec(); err != nil {
		return err
	}
	return c.result()
}

func (c *Cmd) Start() error {
	if err := c.prep(); err != nil {
		return err
	}
	c.Process = &Process{Pid: 5000}
	rt.Go(func() {
		if err := c.exec(); err != nil {
			c.code = 127
		}
		c.done = true
		for _, t := range c.waiters {
			rt.WakeTask(t)
		}
	})
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	for !c.done {
		c.waiters = append(c.waiters, rt.Cur())
		rt.Block("command")
	}
	return c.result()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b, e bytes.Buffer
	c.Stdout = &b
	if c.Stderr == nil {
		c.Stderr = &e
	}
	err := c.Run()
	if x, ok := err.(*ExitError); ok {
		x.Stderr = e.Bytes()
	}
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) { return nil, errors.New("pipes are not simulated") }
func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return nil, errors.New("pipes are not simulated") }
func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nil, errors.New("pipes are not simulated") }
