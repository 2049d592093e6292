// Package exec stands in for os/exec: commands are recorded, never run.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/dst"
)

// Run is one recorded command.
type Record struct {
	Path string
	Args []string
	Dir  string
	At   time.Duration
	Step uint64
}

// Records of the current run.
var Records []Record

// Hook decides what a command does: how long it takes and its result.
var Hook func(r Record) (time.Duration, error)

var ErrNotFound = errors.New("executable file not found in $PATH")

type Cmd struct {
	Path           string
	Args           []string
	Env            []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	ExtraFiles     []*os.File
	SysProcAttr    *syscall.SysProcAttr
	Process        *Process
	ProcessState   *ProcessState
	Cancel         func() error
	WaitDelay      time.Duration
	Err            error
	ctx            context.Context
	waited         bool
}

// Process is a simulated process.
type Process struct {
	Pid    int
	ended  chan struct{}
	done   bool
	killed bool
	res    error
}

// ProcessState tells how a simulated process ended.
type ProcessState struct {
	pid int
	err error
}

func (p *ProcessState) Exited() bool  { return p != nil }
func (p *ProcessState) Success() bool { return p != nil && p.err == nil }
func (p *ProcessState) Pid() int      { return p.pid }
func (p *ProcessState) ExitCode() int {
	switch {
	case p == nil || p.err == errKilled:
		return -1
	case p.err != nil:
		return 1
	}
	return 0
}
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.err != nil {
		return p.err.Error()
	}
	return "exit status 0"
}
func (p *ProcessState) Sys() interface{}          { return nil }
func (p *ProcessState) SysUsage() interface{}     { return nil }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) UserTime() time.Duration   { return 0 }

var errKilled = errors.New("signal: killed")

func (p *Process) end() {
	if !p.done {
		p.done = true
		dst.CloseKernel(p.ended)
	}
}

func (p *Process) Kill() error {
	if p.done {
		return os.ErrProcessDone
	}
	p.killed, p.res = true, errKilled
	p.end()
	return nil
}
func (p *Process) Signal(s os.Signal) error {
	if s == os.Kill || s == os.Interrupt || s == syscall.SIGTERM {
		return p.Kill()
	}
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	dst.Recv((<-chan struct{})(p.ended))
	return &ProcessState{p.Pid, p.res}, nil
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext is Command; the process is killed when ctx ends.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) Start() error {
	dst.Y(0)
	if dst.Unwinding() {
		return errors.New("process is gone")
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	r := Record{Path: c.Path, Args: c.Args, Dir: c.Dir, At: dst.SinceStart(), Step: dst.Step()}
	Records = append(Records, r)
	p := &Process{Pid: 1000 + len(Records), ended: make(chan struct{})}
	c.Process = p
	var d time.Duration
	var res error
	if Hook != nil {
		d, res = Hook(r)
	}
	if d <= 0 {
		p.res = res
		p.end()
	} else {
		dst.AfterKernelNoGroup(d, func() {
			if !p.killed {
				p.res = res
				p.done = true
				dst.CloseKernel(p.ended)
			}
		})
	}
	return nil
}

func (c *Cmd) Wait() error {
	p := c.Process
	if p == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	ended := (<-chan struct{})(p.ended)
	if c.ctx == nil || c.ctx.Done() == nil {
		dst.Recv(ended)
	} else if dst.Select(false, dst.RecvCase(ended), dst.RecvCase(c.ctx.Done())) == 1 {
		if c.Cancel != nil {
			c.Cancel()
			dst.Recv(ended)
		} else {
			p.Kill()
		}
	}
	c.ProcessState = &ProcessState{p.Pid, p.res}
	return p.res
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }
func (c *Cmd) Environ() []string               { return append([]string(nil), c.Env...) }
func (c *Cmd) String() string                  { return strings.Join(c.Args, " ") }
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	return io.NopCloser(&bytes.Buffer{}), nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	return io.NopCloser(&bytes.Buffer{}), nil
}

type sink struct{}

func (sink) Write(b []byte) (int, error) { return len(b), nil }
func (sink) Close() error                { return nil }

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return sink{}, nil }
func LookPath(f string) (string, error)           { return f, nil }
