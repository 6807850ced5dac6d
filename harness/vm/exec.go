package vm

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/bobg/fab/zzverif/nd"
)

type cmdState struct {
	cmd     *exec.Cmd
	ctx     context.Context
	started bool
	waited  bool
	wg      sync.WaitGroup
	code    int
	copyErr error
	mu      sync.Mutex
	in      *io.PipeWriter // of StdinPipe; the program then runs in a goroutine of its own
	pipes   []*procPipe
	ended   sync.WaitGroup
}

// procPipe is the reading end of StdoutPipe or StderrPipe.
type procPipe struct {
	s      *cmdState
	buf    pipeBuf
	closed bool
}

func (p *procPipe) Write(b []byte) (int, error) { return p.buf.Write(b) }

func (p *procPipe) Close() error {
	if p.closed {
		return os.ErrClosed
	}
	p.closed = true
	return nil
}

type procReader struct{ *procPipe }

func (r procReader) Write([]byte) (int, error) { return 0, os.ErrInvalid }

func (r procReader) Read(b []byte) (int, error) {
	if r.closed {
		return 0, os.ErrClosed
	}
	r.s.ended.Wait()
	return r.buf.Read(b)
}

func outPipe(c *exec.Cmd, w *io.Writer, name string) (io.ReadCloser, error) {
	s := state(c)
	if *w != nil {
		return nil, errors.New("exec: " + name + " already set")
	}
	if s.started {
		return nil, errors.New("exec: " + name + "Pipe after process started")
	}
	p := &procPipe{s: s}
	s.pipes = append(s.pipes, p)
	*w = p
	return procReader{p}, nil
}

//model: (*os/exec.Cmd).StdoutPipe
func CmdStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) { return outPipe(c, &c.Stdout, "Stdout") }

//model: (*os/exec.Cmd).StderrPipe
func CmdStderrPipe(c *exec.Cmd) (io.ReadCloser, error) { return outPipe(c, &c.Stderr, "Stderr") }

//model: (*os/exec.Cmd).StdinPipe
func CmdStdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	s := state(c)
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	if s.started {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	r, w := io.Pipe()
	c.Stdin, s.in = r, w
	return w, nil
}

type exitEnt struct {
	ps   *os.ProcessState
	code int
}

var (
	cmds  []*cmdState
	exits []exitEnt
)

func state(c *exec.Cmd) *cmdState {
	for i := len(cmds) - 1; i >= 0; i-- {
		if cmds[i].cmd == c {
			return cmds[i]
		}
	}
	s := &cmdState{cmd: c, ctx: context.Background()}
	cmds = append(cmds, s)
	return s
}

//model: os/exec.LookPath
func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if err := executable(file); err != nil {
			return "", &exec.Error{Name: file, Err: err}
		}
		return file, nil
	}
	for _, dir := range filepath.SplitList(Getenv("PATH")) {
		if dir == "" {
			dir = "."
		}
		p := filepath.Join(dir, file)
		if executable(p) == nil {
			if !filepath.IsAbs(p) {
				return p, &exec.Error{Name: file, Err: exec.ErrDot}
			}
			return p, nil
		}
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

func executable(path string) error {
	n, e := get(path, true)
	if e != 0 {
		return perr("stat", path, e)
	}
	if n.kind == kDir {
		return syscall.EISDIR
	}
	if n.mode&0111 == 0 {
		return fs.ErrPermission
	}
	return nil
}

//model: os/exec.Command
func Command(name string, args ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
	if filepath.Base(name) == name {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

//model: os/exec.CommandContext
func CommandContext(ctx context.Context, name string, args ...string) *exec.Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, args...)
	state(c).ctx = ctx
	return c
}

//model: (*os/exec.Cmd).Environ
func CmdEnviron(c *exec.Cmd) []string {
	e := c.Env
	if e == nil {
		e = Environ()
		if c.Dir != "" {
			e = append(e, "PWD="+c.Dir)
		}
	}
	return dedup(e)
}

func dedup(e []string) []string {
	var out []string
	for i, kv := range e {
		k, _, ok := strings.Cut(kv, "=")
		if !ok || k == "" {
			out = append(out, kv)
			continue
		}
		later := false
		for _, kv2 := range e[i+1:] {
			if strings.HasPrefix(kv2, k+"=") {
				later = true
				break
			}
		}
		if !later {
			out = append(out, kv)
		}
	}
	return out
}

type pipeBuf struct{ chunks [][]byte }

func (p *pipeBuf) Write(b []byte) (int, error) {
	if len(b) > 0 {
		p.chunks = append(p.chunks, append([]byte(nil), b...))
	}
	return len(b), nil
}

// pipeReader is the reading end; it has no other methods.
type pipeReader struct{ p *pipeBuf }

func (r pipeReader) Read(b []byte) (int, error) { return r.p.Read(b) }

func (p *pipeBuf) Read(b []byte) (int, error) {
	if len(p.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.chunks[0])
	p.chunks[0] = p.chunks[0][n:]
	if len(p.chunks[0]) == 0 {
		p.chunks = p.chunks[1:]
	}
	return n, nil
}

//model: (*os/exec.Cmd).Start
func CmdStart(c *exec.Cmd) error {
	nd.Yield("start")
	s := state(c)
	if s.started {
		return errors.New("exec: already started")
	}
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		return c.Err
	}
	if err := s.ctx.Err(); err != nil {
		return err
	}
	for _, a := range c.Args {
		if strings.IndexByte(a, 0) >= 0 {
			return perr("fork/exec", c.Path, syscall.EINVAL)
		}
	}
	for _, kv := range c.Env {
		if strings.IndexByte(kv, 0) >= 0 {
			return errors.New("exec: environment variable contains NUL")
		}
	}
	dir := cwd
	if c.Dir != "" {
		n, e := get(c.Dir, true)
		if e != 0 {
			return perr("chdir", c.Dir, e)
		}
		if n.kind != kDir {
			return perr("fork/exec", c.Path, syscall.ENOTDIR)
		}
		dir = filepath.Join(cwd, c.Dir)
		if filepath.IsAbs(c.Dir) {
			dir = filepath.Clean(c.Dir)
		}
	}
	path := c.Path
	if !filepath.IsAbs(path) {
		path = filepath.Join(dir, path)
	}
	n, e := get(path, true)
	if e != 0 {
		return perr("fork/exec", c.Path, e)
	}
	if n.kind == kDir || n.mode&0111 == 0 {
		return perr("fork/exec", c.Path, syscall.EACCES)
	}
	// a script is run by the program named in its first line
	prog, script := path, ""
	if len(n.data) > 3 && n.data[0] == '#' && n.data[1] == '!' && n.data[2] == '/' {
		i := 2
		for i < len(n.data) && n.data[i] != '\n' {
			i++
		}
		prog, script = string(n.data[2:i]), c.Path
		if n, e = get(prog, true); e != 0 {
			return perr("fork/exec", c.Path, e)
		}
	}
	if string(n.data) != "#!vprog" {
		return perr("fork/exec", c.Path, syscall.ENOEXEC)
	}
	s.started = true
	c.Process = &os.Process{Pid: 4243}
	p := &nd.Proc{}
	p.Name = filepath.Base(prog)
	if script != "" {
		p.Args = append(p.Args, script)
	}
	if len(c.Args) > 0 {
		p.Args = append(p.Args, c.Args[1:]...)
	}
	p.Dir = dir
	p.Env = CmdEnviron(c)
	p.Log = func(in nd.Invocation) { nd.LogInvocation(in) }
	p.In = strings.NewReader("")
	if c.Stdin != nil {
		p.In = c.Stdin
	}
	var outP, errP *pipeBuf
	sink := func(w io.Writer) (io.Writer, *pipeBuf) {
		if w == nil {
			return io.Discard, nil
		}
		if f, ok := w.(*os.File); ok {
			return fileWriter{f}, nil
		}
		if pp, ok := w.(*procPipe); ok {
			return pp, nil
		}
		pb := &pipeBuf{}
		return pb, pb
	}
	p.Out, outP = sink(c.Stdout)
	if c.Stderr != nil && same(c.Stdout, c.Stderr) {
		p.Err = p.Out
	} else {
		p.Err, errP = sink(c.Stderr)
	}
	copier := func(w io.Writer, pb *pipeBuf) {
		if pb == nil {
			return
		}
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			if _, err := io.Copy(w, pipeReader{pb}); err != nil {
				s.mu.Lock()
				if s.copyErr == nil {
					s.copyErr = err
				}
				s.mu.Unlock()
			}
		}()
	}
	run := func() {
		on := nd.CrashOff()
		s.code = p.Act()
		on()
		copier(c.Stdout, outP)
		copier(c.Stderr, errP)
	}
	if s.in == nil {
		run()
		return nil
	}
	s.ended.Add(1)
	go func() {
		defer s.ended.Done()
		run()
	}()
	return nil
}

func same(a, b io.Writer) bool {
	defer func() { recover() }()
	return a == b
}

//model: (*os/exec.Cmd).Wait
func CmdWait(c *exec.Cmd) error {
	s := state(c)
	if !s.started {
		return errors.New("exec: not started")
	}
	if s.waited {
		return errors.New("exec: Wait was already called")
	}
	s.waited = true
	s.ended.Wait()
	s.wg.Wait()
	for _, p := range s.pipes {
		p.closed = true
	}
	if s.in != nil {
		s.in.Close()
	}
	ps := new(os.ProcessState)
	c.ProcessState = ps
	exits = append(exits, exitEnt{ps, s.code})
	if s.code != 0 {
		return &exec.ExitError{ProcessState: ps}
	}
	return s.copyErr
}

//model: (*os/exec.Cmd).Run
func CmdRun(c *exec.Cmd) error {
	if err := CmdStart(c); err != nil {
		return err
	}
	return CmdWait(c)
}

type buffer struct{ b []byte }

func (w *buffer) Write(b []byte) (int, error) {
	w.b = append(w.b, b...)
	return len(b), nil
}

//model: (*os/exec.Cmd).Output
func CmdOutput(c *exec.Cmd) ([]byte, error) {
	var b buffer
	c.Stdout = &b
	err := CmdRun(c)
	return b.b, err
}

//model: (*os/exec.Cmd).CombinedOutput
func CmdCombinedOutput(c *exec.Cmd) ([]byte, error) {
	var b buffer
	c.Stdout = &b
	c.Stderr = &b
	err := CmdRun(c)
	return b.b, err
}

//model: (*os/exec.Cmd).String
func CmdString(c *exec.Cmd) string {
	if c.Err != nil {
		return strings.Join(c.Args, " ")
	}
	s := c.Path
	if len(c.Args) > 1 {
		s += " " + strings.Join(c.Args[1:], " ")
	}
	return s
}

//model: (*os.ProcessState).ExitCode
func ExitCode(p *os.ProcessState) int {
	if p == nil {
		return -1
	}
	for _, e := range exits {
		if e.ps == p {
			return e.code
		}
	}
	return 0
}

//model: (*os.ProcessState).Success
func ExitSuccess(p *os.ProcessState) bool { return ExitCode(p) == 0 }

//model: (*os.ProcessState).String
func ExitString(p *os.ProcessState) string {
	code := ExitCode(p)
	if code < 0 {
		return "signal: killed"
	}
	text := ""
	for _, unit := range []int{100, 10} {
		d := 0
		for code >= unit {
			code -= unit
			d++
		}
		if d > 0 || text != "" {
			text += string(rune('0' + d))
		}
	}
	return "exit status " + text + string(rune('0'+code))
}

//model: (*os/exec.ExitError).Error
func ExitErrorError(e *exec.ExitError) string { return ExitString(e.ProcessState) }

func init() {
	bin := &node{kind: kDir, mode: 0755}
	root.put("bin", bin)
	home := &node{kind: kDir, mode: 0755}
	root.put("home", home)
	for _, p := range []string{"go", "protoc", "sh", "vprog"} {
		bin.put(p, &node{kind: kFile, mode: 0755, data: []byte("#!vprog")})
	}
	env = []string{"HOME=/home", "PATH=/bin", "TMPDIR=/tmp"}
}
