package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	CrossChecked, CrossDisagree     int
	Time                            time.Duration
	MaxQuery                        time.Duration
	Errors                          []string
}

// Solver drives one live SMT solver process. Level 1 holds the current path.
type Solver struct {
	argv   []string
	cmd    *exec.Cmd
	in     *bufio.Writer
	inc    io.WriteCloser
	out    *bufio.Reader
	epoch  int
	path   []string // everything emitted at the path level (for cross-checking and restarts)
	record bool
	st     *SolverStats
	timeMs int
	dead   bool
}

func solverArgv(name string, timeMs int) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeMs)}
	case "z3":
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", timeMs)}
	default:
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", timeMs)}
	}
}

func NewSolver(name string, timeMs int, st *SolverStats) (*Solver, error) {
	s := &Solver{argv: solverArgv(name, timeMs), st: st, timeMs: timeMs}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :produce-models true)")
	if s.argv[0] == "cvc5" {
		s.raw("(set-logic ALL)")
	}
	s.dead = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) raw(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) emit(x string) {
	s.path = append(s.path, x)
	s.raw(x)
}

// BeginPath discards everything of the previous path.
func (s *Solver) BeginPath() {
	if s.epoch > 0 {
		s.raw("(pop 1)")
	}
	s.epoch++
	s.path = s.path[:0]
	s.raw("(push 1)")
}

// define makes t's definition available at path level.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.epoch == s.epoch {
		return
	}
	// iterative to keep the stack small on long chains
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := &st[len(st)-1]
		x := it.t
		if x.op == OpConst || x.epoch == s.epoch {
			st = st[:len(st)-1]
			continue
		}
		if it.done || x.op == OpVar {
			x.epoch = s.epoch
			if x.op == OpVar {
				s.emit(fmt.Sprintf("(declare-const %s %s)", x.name, x.sort()))
			} else {
				s.emit(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, x.sort(), x.body()))
			}
			st = st[:len(st)-1]
			continue
		}
		it.done = true
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OpConst && y.epoch != s.epoch {
				st = append(st, item{y, false})
			}
		}
	}
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.emit("(assert " + t.ref() + ")")
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// Check decides path ∧ t. If sat and m != nil the model is stored in m.
func (s *Solver) Check(t *Term, vars []*Term, m *Model) Result {
	start := time.Now()
	s.define(t)
	s.raw("(push 1)")
	s.raw("(assert " + t.ref() + ")")
	s.raw("(check-sat)")
	s.in.Flush()
	s.st.Queries++
	r := Unknown
	l, err := s.readLine()
	switch {
	case err != nil:
		s.st.Errors = append(s.st.Errors, "solver died: "+err.Error())
		s.restart()
		s.note(start, Unknown)
		return Unknown
	case l == "sat":
		r = Sat
	case l == "unsat":
		r = Unsat
	case strings.HasPrefix(l, "(error"):
		s.st.Errors = append(s.st.Errors, l)
		s.restart()
		s.note(start, Unknown)
		return Unknown
	}
	if r == Sat && m != nil {
		var live []*Term
		for _, v := range vars {
			if v.epoch == s.epoch {
				live = append(live, v)
			}
		}
		for i := 0; i < len(live); i += 200 {
			j := min(i+200, len(live))
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range live[i:j] {
				sb.WriteString(v.name)
				sb.WriteByte(' ')
			}
			sb.WriteString("))")
			s.raw(sb.String())
			s.in.Flush()
			if err := s.readValues(live[i:j], m); err != nil {
				s.st.Errors = append(s.st.Errors, err.Error())
				s.restart()
				s.note(start, Unknown)
				return Unknown
			}
		}
	}
	s.raw("(pop 1)")
	s.note(start, r)
	return r
}

func (s *Solver) note(start time.Time, r Result) {
	d := time.Since(start)
	s.st.Time += d
	if d > s.st.MaxQuery {
		s.st.MaxQuery = d
	}
	switch r {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnknownN++
	}
}

// restart kills the process and replays the path level.
func (s *Solver) restart() {
	s.Close()
	if err := s.start(); err != nil {
		panic(err)
	}
	s.raw("(push 1)")
	for _, l := range s.path {
		s.raw(l)
	}
}

func (s *Solver) readValues(vars []*Term, m *Model) error {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	x := sb.String()
	if strings.HasPrefix(strings.TrimSpace(x), "(error") {
		return fmt.Errorf("%s", x)
	}
	x = strings.NewReplacer("(", " ", ")", " ").Replace(x)
	f := strings.Fields(x)
	if len(f) != 2*len(vars) {
		return fmt.Errorf("get-value: unexpected answer %q", sb.String())
	}
	for i, v := range vars {
		if f[2*i] != v.name {
			return fmt.Errorf("get-value: expected %s got %s", v.name, f[2*i])
		}
		y := f[2*i+1]
		var n uint64
		var err error
		switch {
		case y == "true":
			n = 1
		case y == "false":
			n = 0
		case strings.HasPrefix(y, "#x"):
			n, err = strconv.ParseUint(y[2:], 16, 64)
		case strings.HasPrefix(y, "#b"):
			n, err = strconv.ParseUint(y[2:], 2, 64)
		default:
			err = fmt.Errorf("get-value: bad value %q", y)
		}
		if err != nil {
			return err
		}
		m.vals[v.k] = n
	}
	return nil
}

// CrossCheck decides path ∧ t with another solver, one shot.
func (s *Solver) CrossCheck(name string, t *Term, timeMs int) Result {
	s.define(t)
	var sb strings.Builder
	if name == "cvc5" {
		sb.WriteString("(set-logic ALL)\n")
	}
	for _, l := range s.path {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	sb.WriteString("(assert " + t.ref() + ")\n(check-sat)\n")
	argv := solverArgv(name, timeMs)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(sb.String())
	start := time.Now()
	out, _ := cmd.Output()
	s.st.Time += time.Since(start)
	if strings.Contains(string(out), "(error") {
		return Unknown
	}
	switch strings.TrimSpace(string(out)) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}
