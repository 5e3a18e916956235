// Package vexec stands in for os/exec: no process is started, the harness
// records and answers the commands.
package vexec

import (
	"context"
	"errors"
	"io"
	"os"
	"os/exec"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

type (
	Error     = exec.Error
	ExitError = exec.ExitError
)

var (
	ErrNotFound = exec.ErrNotFound
	ErrDot      = exec.ErrDot
)

// OnRun decides how a command ends.
var OnRun func(args []string) ([]byte, error)

func LookPath(f string) (string, error) { return "/usr/bin/" + f, nil }

type Cmd struct {
	Path           string
	Args           []string
	Env            []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	ExtraFiles     []*os.File
	Process        *os.Process
	ProcessState   *os.ProcessState
	Err            error
	used           bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func CommandContext(_ context.Context, name string, arg ...string) *Cmd { return Command(name, arg...) }

func (c *Cmd) run() ([]byte, error) {
	if c.used {
		return nil, errors.New("exec: already started")
	}
	c.used = true
	vs.Point()
	var out []byte
	var err error
	if OnRun != nil {
		out, err = OnRun(c.Args)
	}
	vs.Point()
	return out, err
}

func (c *Cmd) Run() error {
	out, err := c.run()
	if c.Stdout != nil {
		c.Stdout.Write(out)
	}
	var e *exec.ExitError
	if c.Stderr != nil && errors.As(err, &e) {
		c.Stderr.Write(e.Stderr)
	}
	return err
}
func (c *Cmd) Output() ([]byte, error)         { return c.run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return c.run() }
func (c *Cmd) Start() error                    { return nil }
func (c *Cmd) Wait() error                     { return c.Run() }
func (c *Cmd) String() string                  { return c.Path }
func (c *Cmd) Environ() []string               { return nil }
