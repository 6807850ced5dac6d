package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT process.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	stack    []*Term // asserted, one push level each
	declared map[string]bool
	bin      []string

	Queries  int
	SatN     int
	UnsatN   int
	UnkN     int
	Time     time.Duration
	Restarts int
	log      io.Writer
}

func NewSolver(bin []string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.declared = map[string]bool{}
	s.send("(set-option :print-success false)")
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send("(set-option :timeout 20000)")
	s.send("(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(line string) {
	if s.log != nil {
		fmt.Fprintln(s.log, line)
	}
	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

func (s *Solver) declare(t *Term) {
	vs := map[string]*Term{}
	t.vars(map[*Term]bool{}, vs)
	for n, v := range vs {
		if !s.declared[n] {
			s.declared[n] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)", n, sortName(v.w)))
		}
	}
}

func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if i < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-i))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.declare(pc[i])
		s.send("(push 1)")
		s.send("(assert " + pc[i].SMT() + ")")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc ∧ cond; on Sat it returns a model of all the variables.
func (s *Solver) Check(pc []*Term, cond *Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	s.declare(cond)
	s.send("(push 1)")
	s.send("(assert " + cond.SMT() + ")")
	s.send("(check-sat)")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	var model Model
	if err == nil {
		switch line {
		case "sat":
			res = Sat
			s.SatN++
			model, err = s.getModel(pc, cond)
			if err != nil {
				res = Unknown
			}
		case "unsat":
			res = Unsat
			s.UnsatN++
		default:
			err = fmt.Errorf("solver said %q", line)
		}
	}
	if err != nil {
		s.UnkN++
		s.Restarts++
		s.Close()
		s.start()
		return Unknown, nil
	}
	s.send("(pop 1)")
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line, nil
	}
}

func (s *Solver) getModel(pc []*Term, cond *Term) (Model, error) {
	vs := map[string]*Term{}
	seen := map[*Term]bool{}
	for _, t := range pc {
		t.vars(seen, vs)
	}
	cond.vars(seen, vs)
	if len(vs) == 0 {
		return Model{}, nil
	}
	names := make([]string, 0, len(vs))
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for n := range vs {
		names = append(names, n)
		sb.WriteString("|" + n + "| ")
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// Read a balanced s-expression.
	depth := 0
	var buf strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		buf.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := buf.String()
	if strings.Contains(txt, "error") && !strings.Contains(txt, "|") {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	m := Model{}
	// Entries look like (|name| #x00), (|name| #b01), (|name| true).
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '(' || txt[i] == ')' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	for {
		skip()
		if i >= len(txt) {
			break
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < len(txt) && txt[j] != ' ' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		skip()
		j := i
		for j < len(txt) && txt[j] != ')' && txt[j] != ' ' {
			j++
		}
		val := txt[i:j]
		i = j
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			v, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[name] = v
		case strings.HasPrefix(val, "#b"):
			v, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[name] = v
		default:
			return nil, fmt.Errorf("cannot parse value %q of %s", val, name)
		}
	}
	return m, nil
}
