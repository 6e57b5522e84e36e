package main

import (
	"os"
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one persistent SMT process (z3 -in). Terms are declared once with global
// declarations; every query is (push) asserts (check-sat) [get-value] (pop).
type Solver struct {
	path    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	gen     uint32
	queries int
	sat     int
	unsat   int
	unknown int
	dur     time.Duration
	declared int
	log     io.Writer
	errs    []string
	timeoutMs int
	nq      int
}

var solverGen uint32

func newSolver(path string, args []string, timeoutMs int) *Solver {
	s := &Solver{path: path, args: args, timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.declared = 0
	s.nq = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if l := os.Getenv("GOSYM_LOGIC"); l != "" {
		s.send("(set-logic " + l + ")\n")
	} else if strings.Contains(s.path, "z3") {
		s.send("(set-logic QF_BV)\n") // the incremental SAT core
	}
	if strings.Contains(s.path, "z3") {
		if s.timeoutMs > 0 {
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMs))
		}
	} else {
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() { s.close(); s.start() }

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func tname(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t.w, t.k)
	case OVar:
		return "v" + strconv.FormatUint(t.k, 10)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.emit == s.gen {
		return
	}
	// iterative post-order
	var stack []*Term
	stack = append(stack, t)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || x.emit == s.gen {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			s.send("(declare-const " + tname(x) + " " + sortOf(x.w) + ")\n")
			x.emit = s.gen
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for i := 0; i < int(x.na); i++ {
			c := x.a[i]
			if c.op != OConst && c.emit != s.gen {
				stack = append(stack, c)
				ready = false
			}
		}
		if !ready {
			continue
		}
		s.send("(define-fun " + tname(x) + " () " + sortOf(x.w) + " " + smtBody(x, tname) + ")\n")
		x.emit = s.gen
		s.declared++
		stack = stack[:len(stack)-1]
	}
}

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// check decides the conjunction of cs. On sat returns values for the variables in vars.
func (s *Solver) check(cs []*Term, vars []*VarInfo) (satRes, []uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.nq++
	if s.declared > 200000 || s.nq > 200000 {
		s.restart()
	}
	for _, c := range cs {
		s.define(c)
	}
	for _, v := range vars {
		s.define(v.term)
	}
	s.send("(push)\n")
	for _, c := range cs {
		s.send("(assert " + tname(c) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	r := s.readTok()
	switch r {
	case "sat":
		s.sat++
		var vals []uint64
		if len(vars) > 0 {
			s.send("(get-value (")
			for _, v := range vars {
				s.send(tname(v.term) + " ")
			}
			s.send("))\n(pop)\n")
			s.in.Flush()
			vals = s.readValues(len(vars))
		} else {
			s.send("(pop)\n")
		}
		return rSat, vals
	case "unsat":
		s.unsat++
		s.send("(pop)\n")
		return rUnsat, nil
	}
	s.unknown++
	if len(s.errs) < 20 {
		s.errs = append(s.errs, r)
	}
	s.restart()
	return rUnknown, nil
}

func (s *Solver) readTok() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "eof:" + err.Error()
	}
	return strings.TrimSpace(line)
}

func (s *Solver) readValues(n int) []uint64 {
	// read balanced parens
	depth := 0
	started := false
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver eof: " + sb.String())
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic("solver error: " + txt)
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	vals := make([]uint64, 0, n)
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		switch {
		case v == "true":
			vals = append(vals, 1)
		case v == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			vals = append(vals, u)
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			vals = append(vals, u)
		default:
			panic("solver value: " + txt)
		}
	}
	if len(vals) != n {
		panic("solver values: " + txt)
	}
	return vals
}
