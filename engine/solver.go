package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process incrementally. The assertion stack mirrors the path condition.
type Solver struct {
	tt      *TermTable
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	timeout int
	Queries int
	Unknown int
	Time    time.Duration
	Errors  int
	lastErr string
	path    string
	script  *os.File
	ints    bool    // integer encoding
	alt     *Solver // the integer solver of a bit-vector solver
	IntQ    int
}

func NewSolver(tt *TermTable, path string, timeoutMs int) (*Solver, error) {
	s := &Solver{tt: tt, timeout: timeoutMs, path: path}
	if os.Getenv("VV_NOINTS") == "" {
		s.alt = &Solver{tt: tt, timeout: timeoutMs, path: path, ints: true}
		if err := s.alt.start(); err != nil {
			return nil, err
		}
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.path, "-in", "-memory:3000")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.stack = nil
	if os.Getenv("VDUMP") != "" {
		s.script, _ = os.Create(fmt.Sprintf("%s.%d", os.Getenv("VDUMP"), s.cmd.Process.Pid))
	}
	s.send(fmt.Sprintf("(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout))
	return nil
}

func (s *Solver) send(str string) {
	if s.script != nil {
		s.script.WriteString(str)
	}
	io.WriteString(s.in, str)
}

func (s *Solver) Close() {
	if s.alt != nil {
		s.alt.Close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	a := s.alt
	s.alt = nil
	s.Close()
	s.alt = a
	for _, t := range s.tt.tab {
		if s.ints {
			t.sentI = false
		} else {
			t.sent = false
		}
	}
	for _, t := range s.tt.varLst {
		if s.ints {
			t.sentI = false
		} else {
			t.sent = false
		}
	}
	if err := s.start(); err != nil {
		panic(err)
	}
}

type satRes int

const (
	Sat satRes = iota
	Unsat
	UnknownRes
)

// Check decides pc ∧ extra. When sat, returns a model over the variables used.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (satRes, Model) {
	if extra.isFalse() {
		return Unsat, nil
	}
	if s.alt != nil && extra.ints() {
		ok := true
		for i := len(pc) - 1; i >= 0; i-- {
			if !pc[i].ints() {
				ok = false
				break
			}
		}
		if ok {
			t0, u0 := s.alt.Time, s.alt.Unknown
			r, m := s.alt.check(pc, extra, vars)
			s.Time += s.alt.Time - t0
			s.Queries++
			s.IntQ++
			if r != UnknownRes {
				return r, m
			}
			s.alt.Unknown = u0
		}
	}
	return s.check(pc, extra, vars)
}

func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (satRes, Model) {
	def := (*Term).define
	ref := (*Term).ref
	if s.ints {
		def, ref = (*Term).defineI, (*Term).refI
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	var sb strings.Builder
	// align
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		def(pc[n], &sb)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", ref(pc[n]))
		s.stack = append(s.stack, pc[n])
	}
	def(extra, &sb)
	for _, v := range vars {
		def(v, &sb)
	}
	sb.WriteString("(push 1)\n")
	if s.ints {
		for _, v := range vars {
			if v.w > 0 {
				sb.WriteString(v.rangeI())
			}
		}
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", ref(extra))
	s.send(sb.String())
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Errors++
		s.lastErr = line + fmt.Sprint(err)
		s.Unknown++
		s.restart()
		return UnknownRes, nil
	}
	switch line {
	case "unsat":
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(ref(v))
				q.WriteByte(' ')
			}
			q.WriteString("))\n(pop 1)\n")
			s.send(q.String())
			if err := s.readModel(m, vars); err != nil {
				s.Errors++
				s.lastErr = err.Error()
				s.Unknown++
				s.restart()
				return UnknownRes, nil
			}
		} else {
			s.send("(pop 1)\n")
		}
		return Sat, m
	}
	s.send("(pop 1)\n")
	s.Unknown++
	return UnknownRes, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// readModel parses ((v1 #x..) (v2 true) ...) possibly spanning lines.
func (s *Solver) readModel(m Model, vars []*Term) error {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		if depth == 0 && c != '(' {
			continue
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	str := sb.String()
	if strings.HasPrefix(str, "(error") {
		return fmt.Errorf("%s", str)
	}
	byRef := map[string]*Term{}
	for _, v := range vars {
		byRef[v.ref()] = v
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(str))
	for i := 0; i+1 < len(toks); i++ {
		if toks[i] == "(" {
			if v, ok := byRef[toks[i+1]]; ok {
				val := toks[i+2]
				switch {
				case val == "true":
					m[v.name] = 1
				case val == "false":
					m[v.name] = 0
				case strings.HasPrefix(val, "#x"):
					u, err := strconv.ParseUint(val[2:], 16, 64)
					if err != nil {
						return err
					}
					m[v.name] = u
				case strings.HasPrefix(val, "#b"):
					u, err := strconv.ParseUint(val[2:], 2, 64)
					if err != nil {
						return err
					}
					m[v.name] = u
				case val[0] >= '0' && val[0] <= '9':
					u, err := strconv.ParseUint(val, 10, 64)
					if err != nil {
						return err
					}
					m[v.name] = u
				default:
					return fmt.Errorf("bad model value %q", val)
				}
				i += 3
			}
		}
	}
	return nil
}
