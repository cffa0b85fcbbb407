package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one z3 process; the assertion stack mirrors the path condition of the
// state being queried, so consecutive queries of neighbouring states share work.
type Solver struct {
	ts      *TS
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	timeout int
	emitN   int

	queries, sat, unsat, unknown int
	dur                          time.Duration
	errs                         []string
	bin                          string

	ints    bool    // this process works over the integers
	lia     *Solver // the integer twin of a bit-vector solver
	linears int
}

func NewSolver(ts *TS, bin string, timeoutMS int) *Solver {
	s := &Solver{ts: ts, bin: bin, timeout: timeoutMS}
	s.start()
	s.lia = &Solver{ts: ts, bin: bin, timeout: timeoutMS, ints: true}
	s.lia.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic " + s.logic() + ")\n")
	if s.timeout > 0 {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.stack = nil
	for _, t := range s.ts.tab {
		s.mark(t, false)
	}
	for _, v := range s.ts.vars {
		s.mark(v.term, false)
	}
}

func (s *Solver) logic() string {
	if s.ints {
		return "QF_LIA"
	}
	return "QF_BV"
}

func (s *Solver) mark(t *Term, v bool) {
	if s.ints {
		t.emittedI = v
	} else {
		t.emitted = v
	}
}

func (s *Solver) marked(t *Term) bool {
	if s.ints {
		return t.emittedI
	}
	return t.emitted
}

func (s *Solver) emit(t *Term, b *strings.Builder) {
	if s.ints {
		s.ts.emitI(t, b)
	} else {
		s.ts.emit(t, b)
	}
}

func (s *Solver) close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	l := s.lia
	s.lia = nil
	s.close()
	s.lia = l
	s.start()
}

func (s *Solver) send(x string) { io.WriteString(s.in, x) }

// Check decides pc ∧ extra; on Sat a model is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (SatRes, *Model) {
	if s.lia != nil && s.allLinear(pc, extra) {
		l := s.lia
		r, m := l.Check(pc, extra)
		s.queries += l.queries
		s.sat += l.sat
		s.unsat += l.unsat
		s.linears += l.queries
		s.dur += l.dur
		s.errs = append(s.errs, l.errs...)
		l.queries, l.sat, l.unsat, l.unknown, l.dur, l.errs = 0, 0, 0, 0, 0, nil
		if r != Unknown {
			return r, m
		}
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	if s.ts.n > 0 && s.emitN > 400000 {
		s.emitN = 0
		s.restart()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	var b strings.Builder
	if len(s.stack) > n {
		fmt.Fprintf(&b, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.emit(t, &b)
		b.WriteString("(push 1)\n(assert " + ref(t) + ")\n")
		s.stack = append(s.stack, t)
		s.emitN++
	}
	if extra != nil {
		s.emit(extra, &b)
		b.WriteString("(push 1)\n(assert " + ref(extra) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	s.emitN += b.Len() / 60
	s.send(b.String())
	res := Unknown
	line := s.readLine()
	var m *Model
	switch line {
	case "sat":
		res = Sat
		m = s.model()
		if m == nil {
			res = Unknown
		}
	case "unsat":
		res = Unsat
	default:
		if line != "unknown" && line != "timeout" {
			s.errs = append(s.errs, line)
			s.unknown++
			s.restart()
			return Unknown, nil
		}
	}
	if d := os.Getenv("SYMGO_SLOW"); d != "" && time.Since(t0) > 300*time.Millisecond {
		s.dump(d, pc, extra)
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.sat++
	case Unsat:
		s.unsat++
	default:
		s.unknown++
	}
	return res, m
}

func (s *Solver) allLinear(pc []*Term, extra *Term) bool {
	for _, t := range pc {
		if !s.ts.linear(t) {
			return false
		}
	}
	return extra == nil || s.ts.linear(extra)
}

// dump writes a slow query as a stand-alone problem (diagnostics only).
func (s *Solver) dump(dir string, pc []*Term, extra *Term) {
	var save []*Term
	for _, t := range s.ts.tab {
		if t.emitted {
			save = append(save, t)
			t.emitted = false
		}
	}
	for _, v := range s.ts.vars {
		if v.term.emitted {
			save = append(save, v.term)
			v.term.emitted = false
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	for _, t := range pc {
		s.ts.emit(t, &b)
		b.WriteString("(assert " + ref(t) + ")\n")
	}
	if extra != nil {
		s.ts.emit(extra, &b)
		b.WriteString("(assert " + ref(extra) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/q%d-%p.smt2", dir, s.queries, s), []byte(b.String()), 0o644)
	for _, t := range save {
		t.emitted = true
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error io " + err.Error() + ")"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) model() *Model {
	var names []*VarInfo
	for _, v := range s.ts.vars {
		if s.marked(v.term) {
			names = append(names, v)
		}
	}
	m := &Model{v: map[string]uint64{}}
	if len(names) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range names {
		b.WriteString("|" + v.name + "| ")
	}
	b.WriteString("))\n")
	s.send(b.String())
	// read a balanced s-expression
	depth := 0
	started := false
	var txt strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		txt.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	t := txt.String()
	if strings.Contains(t, "(error") {
		s.errs = append(s.errs, t)
		return nil
	}
	i := 0
	for _, v := range names {
		key := "|" + v.name + "|"
		p := strings.Index(t[i:], key)
		if p < 0 {
			// z3 may print simple symbols without bars
			key = "(" + v.name + " "
			p = strings.Index(t[i:], key)
			if p < 0 {
				s.errs = append(s.errs, "model: missing "+v.name)
				return nil
			}
		}
		i += p + len(key)
		rest := strings.TrimLeft(t[i:], " \n")
		if strings.HasPrefix(rest, "(- ") {
			e := strings.Index(rest, ")")
			u, err := strconv.ParseUint(strings.TrimSpace(rest[3:e]), 10, 64)
			if err != nil {
				s.errs = append(s.errs, "model value "+rest[:e])
				return nil
			}
			m.v[v.name] = -u
			continue
		}
		e := strings.IndexAny(rest, ")")
		val := strings.TrimSpace(rest[:e])
		var u uint64
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, _ = strconv.ParseUint(val[2:], 2, 64)
		case s.ints:
			x, err := strconv.ParseUint(val, 10, 64)
			if err != nil {
				s.errs = append(s.errs, "model value "+val)
				return nil
			}
			u = x
		default:
			s.errs = append(s.errs, "model value "+val)
			return nil
		}
		m.v[v.name] = u
	}
	return m
}
