package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallback int
	Time                                      time.Duration
	MaxQ                                      time.Duration
}

type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	ctx      *Ctx
	defined  map[*Term]bool
	asserted []*Term
	timeout  int // ms per query
	fbTime   int // seconds for the fallback solvers
	Stats    SolverStats
	uses     int
}

func NewSolver(bin string, timeoutMs, fbSec int) *Solver {
	return &Solver{bin: bin, timeout: timeoutMs, fbTime: fbSec}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	s.uses = 0
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// BeginPath starts a new assertion scope with a fresh term context.
func (s *Solver) BeginPath(ctx *Ctx) {
	if s.cmd != nil && s.uses > 400 {
		s.Close()
	}
	if s.cmd == nil {
		s.start()
	} else if s.ctx != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	s.uses++
	fmt.Fprintf(s.in, "(push 1)\n")
	s.ctx = ctx
	s.defined = map[*Term]bool{}
	s.asserted = nil
}

func define(w io.Writer, t *Term, done map[*Term]bool) {
	if done[t] || t.op == OpConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if done[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OpConst && !done[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		done[x] = true
		if x.op == OpVar {
			fmt.Fprintf(w, "(declare-const %s %s)\n", x.leafName(), x.sortName())
			if x.sort == SInt {
				if x.lo != nil {
					fmt.Fprintf(w, "(assert (>= %s %s))\n", x.leafName(), smtInt(x.lo))
				}
				if x.hi != nil {
					fmt.Fprintf(w, "(assert (<= %s %s))\n", x.leafName(), smtInt(x.hi))
				}
			}
		} else {
			fmt.Fprintf(w, "(define-fun %s () %s %s)\n", x.leafName(), x.sortName(), x.body())
		}
	}
}

func (s *Solver) Assert(t *Term) {
	s.asserted = append(s.asserted, t)
	define(s.in, t, s.defined)
	fmt.Fprintf(s.in, "(assert %s)\n", t.leafName())
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

var queryLog *os.File

// Check asks whether asserted ∧ extra is satisfiable. On Sat it returns a model.
func (s *Solver) Check(extra *Term, wantModel bool) (SatRes, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQ {
			s.Stats.MaxQ = d
		}
	}()
	if extra != nil {
		if extra.op == OpConst && extra.val.Sign() == 0 {
			s.Stats.UnsatN++
			return Unsat, nil
		}
		define(s.in, extra, s.defined)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", extra.leafName())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	res := Unknown
	dead := false
	for {
		l, err := s.readLine()
		if err != nil {
			dead = true
			break
		}
		if l == "sat" {
			res = Sat
			break
		}
		if l == "unsat" {
			res = Unsat
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			dead = true
			break
		}
	}
	var m Model
	if dead {
		s.restart()
	} else {
		if res == Sat && wantModel {
			m = s.getModel()
			if m == nil {
				res = Unknown
			}
		}
		if extra != nil {
			fmt.Fprintf(s.in, "(pop 1)\n")
		}
	}
	if res == Unknown {
		s.Stats.Fallback++
		res, m = s.fallback(extra, wantModel)
	}
	switch res {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return res, m
}

func (s *Solver) restart() {
	as := s.asserted
	s.Close()
	s.start()
	fmt.Fprintf(s.in, "(push 1)\n")
	s.defined = map[*Term]bool{}
	s.asserted = nil
	for _, a := range as {
		s.Assert(a)
	}
}

func (s *Solver) getModel() Model {
	var vs []*Term
	for _, v := range s.ctx.vars {
		if s.defined[v] {
			vs = append(vs, v)
		}
	}
	m := Model{}
	if len(vs) == 0 {
		return m
	}
	fmt.Fprintf(s.in, "(get-value (")
	for _, v := range vs {
		fmt.Fprintf(s.in, "%s ", v.leafName())
	}
	fmt.Fprintf(s.in, "))\n")
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil || strings.HasPrefix(txt, "(error") {
		return nil
	}
	parseModel(txt, s.ctx, m)
	return m
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if started && depth == 0 {
				return strings.TrimSpace(sb.String()), nil
			}
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string, i int) (*sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] == '(' {
		x := &sexp{list: []*sexp{}}
		i++
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) || s[i] == ')' {
				return x, i + 1
			}
			var c *sexp
			c, i = parseSexp(s, i)
			x.list = append(x.list, c)
		}
	}
	j := i
	if s[i] == '|' {
		j = i + 1
		for s[j] != '|' {
			j++
		}
		return &sexp{atom: s[i+1 : j]}, j + 1
	}
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return &sexp{atom: s[i:j]}, j
}

func sexpVal(x *sexp) *big.Int {
	if x.list == nil {
		switch {
		case x.atom == "true":
			return big1
		case x.atom == "false":
			return big0
		case strings.HasPrefix(x.atom, "#x"):
			v, _ := new(big.Int).SetString(x.atom[2:], 16)
			return v
		case strings.HasPrefix(x.atom, "#b"):
			v, _ := new(big.Int).SetString(x.atom[2:], 2)
			return v
		}
		v, ok := new(big.Int).SetString(x.atom, 10)
		if !ok {
			return nil
		}
		return v
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		v := sexpVal(x.list[1])
		if v == nil {
			return nil
		}
		return new(big.Int).Neg(v)
	}
	if len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
		v, _ := new(big.Int).SetString(x.list[1].atom[2:], 10)
		return v
	}
	return nil
}

func parseModel(txt string, ctx *Ctx, m Model) {
	x, _ := parseSexp(txt, 0)
	if x == nil {
		return
	}
	for _, p := range x.list {
		if len(p.list) == 2 {
			if v, ok := ctx.vmap[p.list[0].atom]; ok {
				if val := sexpVal(p.list[1]); val != nil {
					m[v] = val
				}
			}
		}
	}
}

// Script renders the current query as a standalone SMT-LIB2 script.
func (s *Solver) Script(extra *Term, model bool) string {
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	done := map[*Term]bool{}
	for _, a := range s.asserted {
		define(&sb, a, done)
		fmt.Fprintf(&sb, "(assert %s)\n", a.leafName())
	}
	if extra != nil {
		define(&sb, extra, done)
		fmt.Fprintf(&sb, "(assert %s)\n", extra.leafName())
	}
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-value (")
		for v := range done {
			if v.op == OpVar {
				sb.WriteString(v.leafName() + " ")
			}
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// fallback races other solver configurations on the standalone script.
func (s *Solver) fallback(extra *Term, wantModel bool) (SatRes, Model) {
	if s.fbTime <= 0 {
		return Unknown, nil
	}
	script := s.Script(extra, true)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		f.WriteString(script)
		f.Close()
	}
	type cfg struct {
		name string
		args []string
	}
	cfgs := []cfg{
		{"z3-new", []string{"-in", "-smt2"}},
		{"z3", []string{"-in", "-smt2"}},
		{"cvc5", []string{"--lang=smt2", "--nl-ext-tplanes"}},
		{"cvc5", []string{"--lang=smt2", "--solve-bv-as-int=sum"}},
	}
	type ans struct {
		r SatRes
		m Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.fbTime)*time.Second)
	defer cancel()
	ch := make(chan ans, len(cfgs))
	for _, c := range cfgs {
		go func(c cfg) {
			cmd := exec.CommandContext(ctx, c.name, c.args...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := string(out)
			if strings.HasPrefix(txt, "unsat") {
				ch <- ans{Unsat, nil}
				return
			}
			if strings.HasPrefix(txt, "sat") {
				m := Model{}
				i := strings.Index(txt, "(")
				if i >= 0 && !strings.Contains(txt, "(error") {
					parseModel(txt[i:], s.ctx, m)
					ch <- ans{Sat, m}
					return
				}
			}
			ch <- ans{Unknown, nil}
		}(c)
	}
	for range cfgs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
