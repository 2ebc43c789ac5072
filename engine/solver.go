package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives one Z3 process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	depth   int
	queries int
	sat     int
	unsat   int
	unknown int
	tm      time.Duration
	tmoMs   int
	dead    atomic.Bool // killed because it did not keep its own time limit
	log     io.Writer
}

func newSolver(bin string, tmoMs int) (*Solver, error) {
	s := &Solver{tmoMs: tmoMs}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send(fmt.Sprintf("(set-option :print-success false)(set-option :produce-models true)(set-option :timeout %d)\n", tmoMs))
	return s, nil
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) close() {
	s.in.WriteString("(exit)\n")
	s.in.Flush()
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) push() { s.send("(push 1)\n"); s.depth++ }
func (s *Solver) pop(n int) {
	if n > 0 {
		s.send("(pop " + strconv.Itoa(n) + ")\n")
		s.depth -= n
	}
}
func (s *Solver) reset() { s.pop(s.depth) }

func (s *Solver) declare(v *Var) {
	var sb strings.Builder
	n := "v" + strconv.Itoa(v.id)
	srt := "Int"
	if !v.isInt {
		srt = "Real"
	}
	sb.WriteString("(declare-const " + n + " " + srt + ")(assert (<= ")
	smtNum(&sb, v.lo, !v.isInt)
	sb.WriteString(" " + n + " ")
	smtNum(&sb, v.hi, !v.isInt)
	sb.WriteString("))\n")
	s.send(sb.String())
}

func (s *Solver) assert(f *Form) {
	var sb strings.Builder
	sb.WriteString("(assert ")
	f.smt(&sb)
	sb.WriteString(")\n")
	s.send(sb.String())
}

func (s *Solver) assertRaw(t string) { s.send("(assert " + t + ")\n") }

type solverError struct{ msg string }

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		if s.dead.Load() {
			panic(pathEnd{"unknown", "solver over its time limit"})
		}
		panic(solverError{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

// check returns 1 sat, 0 unsat, -1 unknown.
func (s *Solver) check() int {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	s.queries++
	dog := time.AfterFunc(time.Duration(s.tmoMs)*2*time.Millisecond+3*time.Second, func() {
		s.dead.Store(true)
		s.cmd.Process.Kill()
	})
	defer func() {
		dog.Stop()
		s.tm += time.Since(t0)
	}()
	l := s.readLine()
	switch l {
	case "sat":
		s.sat++
		return 1
	case "unsat":
		s.unsat++
		return 0
	case "unknown", "timeout":
		s.unknown++
		return -1
	}
	panic(solverError{"unexpected solver answer: " + l})
}

func (s *Solver) model(nvars int) Model {
	m := Model{}
	if nvars == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := 0; i < nvars; i++ {
		sb.WriteString("v" + strconv.Itoa(i) + " ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	started := false
	var txt []byte
	for !started || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(solverError{"solver died: " + err.Error()})
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		txt = append(txt, b)
	}
	s.readLine()
	p := &sexpParser{s: string(txt)}
	e := p.parse()
	if len(e.l) > 0 && e.l[0].a == "error" {
		panic(solverError{"get-value: " + string(txt)})
	}
	for _, kv := range e.l {
		if len(kv.l) != 2 {
			panic(solverError{"get-value: " + string(txt)})
		}
		id, err := strconv.Atoi(kv.l[0].a[1:])
		if err != nil {
			panic(solverError{"get-value: " + string(txt)})
		}
		r := kv.l[1].rat()
		if r == nil { // algebraic number
			return nil
		}
		m[id] = r
	}
	return m
}

type sexp struct {
	a string
	l []sexp
}

func (e sexp) rat() *big.Rat {
	if e.l == nil {
		r, ok := new(big.Rat).SetString(e.a)
		if !ok {
			return nil
		}
		return r
	}
	if len(e.l) == 0 {
		return nil
	}
	switch e.l[0].a {
	case "-":
		r := e.l[1].rat()
		if r == nil {
			return nil
		}
		return r.Neg(r)
	case "/":
		a, b := e.l[1].rat(), e.l[2].rat()
		if a == nil || b == nil {
			return nil
		}
		return a.Quo(a, b)
	case "to_real":
		return e.l[1].rat()
	}
	return nil
}

type sexpParser struct {
	s string
	i int
}

func (p *sexpParser) parse() sexp {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\r' || p.s[p.i] == '\t') {
		p.i++
	}
	if p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		e := sexp{l: []sexp{}}
		for {
			for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n') {
				p.i++
			}
			if p.i >= len(p.s) {
				return e
			}
			if p.s[p.i] == ')' {
				p.i++
				return e
			}
			e.l = append(e.l, p.parse())
		}
	}
	j := p.i
	for j < len(p.s) && p.s[j] != ' ' && p.s[j] != '\n' && p.s[j] != ')' && p.s[j] != '(' {
		j++
	}
	e := sexp{a: p.s[p.i:j]}
	p.i = j
	return e
}
