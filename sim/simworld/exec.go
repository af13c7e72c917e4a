package simworld

import (
	"bytes"
	"errors"
	"io"

	"verif.sim/simrt"
)

// Cmd is exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Err          error
	ProcessState *ProcState
	Process      *Process

	started  bool
	waited   bool
	ran      bool
	inBuf    bytes.Buffer
	inOpen   bool
	inPipe   bool
	outBuf   *bytes.Buffer
	errBuf   *bytes.Buffer
	outPos   int
	outFail  error
	brokenIn bool

	// filled in by World.Exec
	Code     int
	StartErr error
	InClosed bool // the child stops reading its input early
	OutCut   int  // >=0: standard output ends after this many bytes
	Input    []byte
	Proc     *Proc
}

// Process is os.Process.
type Process struct{ Pid int }

// Kill ends the child.
func (p *Process) Kill() error { return nil }

// Wait is unused.
func (p *Process) Wait() (*ProcState, error) { return &ProcState{}, nil }

// Release is unused.
func (p *Process) Release() error { return nil }

// ProcState is os.ProcessState.
type ProcState struct{ code int }

// ExitCode is the exit code.
func (p *ProcState) ExitCode() int { return p.code }

// Success reports code 0.
func (p *ProcState) Success() bool { return p.code == 0 }

func (p *ProcState) String() string { return "exit status " + itoa(p.code) }

// ExitError is exec.ExitError.
type ExitError struct {
	*ProcState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcState.String() }

// Command makes a command.
func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...), Proc: Cur(), OutCut: -1}
}

type inPipe struct{ c *Cmd }

func (p inPipe) Write(b []byte) (int, error) {
	simrt.Yield()
	simrt.CheckDoom()
	if !p.c.inOpen {
		return 0, errors.New("io: write on closed pipe")
	}
	if p.c.InClosed {
		return 0, errors.New("write |1: broken pipe")
	}
	return p.c.inBuf.Write(b)
}

func (p inPipe) Close() error { p.c.inOpen = false; return nil }

type outPipe struct {
	c   *Cmd
	err bool
}

func (p outPipe) Read(b []byte) (int, error) {
	simrt.Yield()
	simrt.CheckDoom()
	if p.c.waited {
		return 0, errors.New("read |0: file already closed")
	}
	if !p.c.started {
		return 0, errors.New("read before start")
	}
	if p.c.inPipe {
		simrt.WaitUntil("child process input", func() bool { return !p.c.inOpen || p.c.InClosed })
	}
	p.c.run()
	buf := p.c.outBuf
	if p.err {
		buf = p.c.errBuf
	}
	if buf.Len() == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if s := simrt.S; s != nil && n > 1 && s.Choose(3) == 1 {
		n = 1 + s.Choose(n-1)
	}
	return buf.Read(b[:n])
}

func (p outPipe) Close() error { return nil }

// StdinPipe gives the child's input.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.started {
		return nil, errors.New("exec: Stdin already set")
	}
	c.inOpen, c.inPipe = true, true
	return inPipe{c}, nil
}

// StdoutPipe gives the child's output.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.started {
		return nil, errors.New("exec: Stdout already set")
	}
	c.outBuf = new(bytes.Buffer)
	c.Stdout = c.outBuf
	return outPipe{c, false}, nil
}

// StderrPipe gives the child's errors.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.started {
		return nil, errors.New("exec: Stderr already set")
	}
	c.errBuf = new(bytes.Buffer)
	c.Stderr = c.errBuf
	return outPipe{c, true}, nil
}

// Start starts the child.
func (c *Cmd) Start() error {
	simrt.Yield()
	simrt.CheckDoom()
	if c.started {
		return errors.New("exec: already started")
	}
	if W.Exec == nil {
		panic("simworld: no child processes in this scenario")
	}
	if st := W.ExecStart; st != nil {
		if err := st(c); err != nil {
			return err
		}
	}
	c.started = true
	c.Process = &Process{Pid: 4242}
	return nil
}

func (c *Cmd) run() {
	if c.ran {
		return
	}
	c.ran = true
	if c.Stdin != nil && !c.inPipe {
		io.Copy(&c.inBuf, c.Stdin)
	}
	c.Input = c.inBuf.Bytes()
	W.Exec(c)
}

// Wait waits for the child.
func (c *Cmd) Wait() error {
	simrt.Yield()
	simrt.CheckDoom()
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.inOpen = false
	c.run()
	c.waited = true
	c.ProcessState = &ProcState{c.Code}
	if c.Code != 0 {
		return &ExitError{ProcState: c.ProcessState}
	}
	return nil
}

// Run runs the child.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output runs the child and returns its output.
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput runs the child and returns output and errors.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) String() string { return c.Path }

// Emit writes the child's output; used by World.Exec.
func (c *Cmd) Emit(b []byte) {
	if c.Stdout != nil {
		c.Stdout.Write(b)
	}
}
