package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver wraps one long-lived SMT solver process (z3 or cvc5) driven over pipes.
type Solver struct {
	argv     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	Queries  int64
	SatN     int64
	UnsatN   int64
	UnknownN int64
	CacheHit int64
	Time     time.Duration
	MaxTime  time.Duration
	timeout  int // ms per query
	cache    map[[2]uint64]*cacheEnt
	Log      io.Writer
}

type cacheEnt struct {
	res   int // 1 sat 0 unsat -1 unknown
	model map[string]uint64
}

func NewSolver(argv []string, timeoutMs int) (*Solver, error) {
	s := &Solver{argv: argv, timeout: timeoutMs, cache: map[[2]uint64]*cacheEnt{}}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	pre := "(set-option :print-success false)\n(set-option :produce-models true)\n"
	if strings.Contains(s.argv[0], "z3") {
		pre += fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
	}
	pre += "(set-logic QF_BV)\n"
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads a balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	quoted := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		b.WriteByte(c)
		if c == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		switch c {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}

func setHash(cs []*Term) [2]uint64 {
	h := [2]uint64{0x1234567, 0x89abcdef}
	for _, c := range cs {
		h[0] = mix(h[0], c.h[0]+uint64(c.op))
		h[1] = mix(h[1]+3, c.h[1]+uint64(c.w))
	}
	return h
}

// Check decides the conjunction of cs; on sat it returns values of all variables occurring in it.
func (s *Solver) Check(cs []*Term) (int, map[string]uint64, error) {
	// dedupe + order
	sorted := append([]*Term(nil), cs...)
	sortTerms(sorted)
	uniq := sorted[:0]
	for i, c := range sorted {
		if c.IsTrue() {
			continue
		}
		if c.IsFalse() {
			return 0, nil, nil
		}
		if i > 0 && len(uniq) > 0 && sameTerm(c, uniq[len(uniq)-1]) {
			continue
		}
		uniq = append(uniq, c)
	}
	if len(uniq) == 0 {
		return 1, map[string]uint64{}, nil
	}
	key := setHash(uniq)
	if e, ok := s.cache[key]; ok {
		s.CacheHit++
		return e.res, e.model, nil
	}
	res, model, err := s.query(uniq)
	if err != nil {
		return -1, nil, err
	}
	if len(s.cache) > 400000 {
		s.cache = map[[2]uint64]*cacheEnt{}
	}
	s.cache[key] = &cacheEnt{res, model}
	return res, model, nil
}

func (s *Solver) query(cs []*Term) (int, map[string]uint64, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return -1, nil, err
		}
	}
	start := time.Now()
	varSet := map[string]*Term{}
	for _, c := range cs {
		for _, v := range c.vars {
			varSet[v.name] = v
		}
	}
	names := make([]string, 0, len(varSet))
	for n := range varSet {
		names = append(names, n)
	}
	sort.Strings(names)
	w := &smtWriter{refs: map[*Term]int{}, defs: map[*Term]string{}}
	var decl strings.Builder
	for _, n := range names {
		if !s.declared[n] {
			s.declared[n] = true
			if varSet[n].w == 0 {
				fmt.Fprintf(&decl, "(declare-const %s Bool)\n", smtName(n))
			} else {
				fmt.Fprintf(&decl, "(declare-const %s (_ BitVec %d))\n", smtName(n), varSet[n].w)
			}
		}
	}
	for _, c := range cs {
		w.count(c)
	}
	exprs := make([]string, len(cs))
	for i, c := range cs {
		exprs[i] = w.expr(c)
	}
	var b strings.Builder
	b.WriteString(decl.String())
	b.WriteString("(push 1)\n")
	b.WriteString(w.b.String())
	for _, e := range exprs {
		b.WriteString("(assert " + e + ")\n")
	}
	b.WriteString("(check-sat)\n")
	if s.Log != nil {
		io.WriteString(s.Log, b.String())
	}
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		return -1, nil, err
	}
	line, err := s.readLine()
	for err == nil && line == "" {
		line, err = s.readLine()
	}
	if err != nil {
		s.Close()
		return -1, nil, fmt.Errorf("solver died: %v", err)
	}
	s.Queries++
	var res int
	var model map[string]uint64
	switch {
	case line == "sat":
		res = 1
		s.SatN++
		model = map[string]uint64{}
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, n := range names {
			q.WriteString(smtName(n) + " ")
		}
		q.WriteString("))\n(pop 1)\n")
		io.WriteString(s.in, q.String())
		sexp, err := s.readSexp()
		if err != nil {
			s.Close()
			return -1, nil, err
		}
		if strings.Contains(sexp, "(error") {
			return -1, nil, fmt.Errorf("solver error: %s", sexp)
		}
		parseModel(sexp, model)
		if len(model) != len(names) {
			return -1, nil, fmt.Errorf("solver returned %d of %d values: %s", len(model), len(names), sexp)
		}
	case line == "unsat":
		s.UnsatN++
		io.WriteString(s.in, "(pop 1)\n")
	case line == "unknown" || line == "timeout":
		res = -1
		s.UnknownN++
		io.WriteString(s.in, "(pop 1)\n")
	default:
		s.Close()
		return -1, nil, fmt.Errorf("solver error: %s", line)
	}
	d := time.Since(start)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, model, nil
}

func parseModel(sexp string, m map[string]uint64) {
	// ((|name| #x..) (|name| true) ...)
	i := 0
	for {
		j := strings.IndexByte(sexp[i:], '|')
		var name string
		if j >= 0 {
			i += j + 1
			k := strings.IndexByte(sexp[i:], '|')
			name = sexp[i : i+k]
			i += k + 1
		} else {
			return
		}
		for sexp[i] == ' ' || sexp[i] == '\n' {
			i++
		}
		k := i
		for sexp[k] != ')' {
			k++
		}
		v := strings.TrimSpace(sexp[i:k])
		i = k
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = n
		}
	}
}
