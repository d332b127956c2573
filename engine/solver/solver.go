// Package solver drives SMT solver processes over SMT-LIB 2 text.
package solver

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"symgo/term"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Fallback int
	Witness  int // satisfiable by a model at hand, without a query
	Time     time.Duration
}

func (a *Stats) Add(b Stats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Fallback += b.Fallback
	a.Witness += b.Witness
	a.Time += b.Time
}

type Solver struct {
	St       *term.Store
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	emitted  map[int]string
	script   bytes.Buffer // current path's declarations and assertions
	vars     []*term.T
	pc       []*term.T
	divs     map[string]bool
	pool     []*term.Model // models of the path condition
	tries    int
	anyHard  bool
	paths    int
	Stats    Stats
	Timeout  time.Duration // incremental query timeout
	Hard     time.Duration // portfolio timeout
	lastFail bool
	qdepth   int
	dead     bool
}

func New(st *term.Store) *Solver {
	return &Solver{St: st, Timeout: 4 * time.Second, Hard: 40 * time.Second}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReader(out)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.Timeout.Milliseconds())
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// StartPath begins a fresh assertion context.
func (s *Solver) StartPath() {
	if s.cmd != nil && (s.paths%400 == 399 || s.dead) {
		s.Close()
	}
	s.paths++
	if s.cmd == nil {
		s.start()
	} else {
		io.WriteString(s.in, "(pop 1)\n")
	}
	io.WriteString(s.in, "(push 1)\n")
	s.emitted = map[int]string{}
	s.divs = map[string]bool{}
	s.script.Reset()
	s.vars = nil
	s.pc = nil
	s.qdepth = 0
	s.tries = poolSize
	s.anyHard = false
	s.pool = s.pool[:0]
	for i := 1; i <= poolSize; i++ {
		s.pool = append(s.pool, term.NewModel(i))
	}
}

// The pool holds concrete models of the path condition: some are guessed when
// the path begins, others come from the solver.  They only ever answer "satisfiable".
const poolSize = 24

// witness returns a model at hand that satisfies pc ∧ c.
func (s *Solver) witness(c *term.T) *term.Model {
	for _, m := range s.pool {
		if s.St.EvalBool(c, m) {
			s.Stats.Witness++
			return m
		}
	}
	return nil
}

// learn adds a model of the path condition from the solver.
func (s *Solver) learn(m *term.Model, c *term.T) *term.Model {
	if m == nil {
		return nil
	}
	n := term.NewModel(5 + len(s.pool))
	for k, v := range m.Ints {
		n.Ints[k] = v
	}
	for k, v := range m.Bools {
		n.Bools[k] = v
	}
	for _, p := range s.pc {
		if !s.St.EvalBool(p, n) {
			return nil
		}
	}
	if len(s.pool) <= 2*poolSize {
		s.pool = append(s.pool, n)
	}
	if !s.St.EvalBool(c, n) {
		return nil
	}
	return n
}

func (s *Solver) PC() []*term.T { return s.pc }

func (s *Solver) w(f string, a ...any) {
	n := s.script.Len()
	fmt.Fprintf(&s.script, f, a...)
	if _, err := s.in.Write(s.script.Bytes()[n:]); err != nil {
		s.dead = true
	}
}

func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// name emits the definitions t needs and returns an SMT expression for it.
func (s *Solver) name(t *term.T) string {
	switch t.Op {
	case term.OConst:
		return num(t.C)
	case term.BConst:
		return fmt.Sprint(t.BV)
	}
	if n, ok := s.emitted[t.ID]; ok {
		return n
	}
	var n string
	switch t.Op {
	case term.OVar:
		n = "|" + t.Name + "|"
		s.w("(declare-const %s Int)\n", n)
		if t.Lo != nil {
			s.w("(assert (>= %s %s))\n", n, num(t.Lo))
		}
		if t.Hi != nil {
			s.w("(assert (<= %s %s))\n", n, num(t.Hi))
		}
		s.vars = append(s.vars, t)
	case term.BVar:
		n = "|" + t.Name + "|"
		s.w("(declare-const %s Bool)\n", n)
		s.vars = append(s.vars, t)
	case term.OSum:
		var p []string
		if t.C.Sign() != 0 {
			p = append(p, num(t.C))
		}
		for i, a := range t.Args {
			an := s.name(a)
			if t.Coefs[i].IsInt64() && t.Coefs[i].Int64() == 1 {
				p = append(p, an)
			} else {
				p = append(p, "(* "+num(t.Coefs[i])+" "+an+")")
			}
		}
		e := p[0]
		if len(p) > 1 {
			e = "(+ " + strings.Join(p, " ") + ")"
		}
		n = s.def(t, "Int", e)
	case term.OMul:
		var p []string
		for _, a := range t.Args {
			p = append(p, s.name(a))
		}
		n = s.def(t, "Int", "(* "+strings.Join(p, " ")+")")
	case term.ODiv, term.OMod:
		a, b := s.name(t.Args[0]), s.name(t.Args[1])
		key := fmt.Sprintf("%d_%d", t.Args[0].ID, t.Args[1].ID)
		q, r := "q"+key, "r"+key
		if !s.divs[key] {
			s.divs[key] = true
			s.w("(declare-const %s Int)\n(declare-const %s Int)\n", q, r)
			if t.Args[1].Op == term.OConst {
				s.w("(assert (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (< %s %s)))\n", a, b, q, r, r, r, b)
			} else {
				s.w("(assert (=> (> %s 0) (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (< %s %s))))\n", b, a, b, q, r, r, r, b)
				if lo := t.Args[0].Lo; lo != nil && lo.Sign() >= 0 {
					s.w("(assert (=> (> %s 0) (and (<= 0 %s) (<= %s %s))))\n", b, q, q, a)
				}
			}
		}
		if t.Op == term.ODiv {
			n = q
		} else {
			n = r
		}
	case term.OIte:
		n = s.def(t, "Int", fmt.Sprintf("(ite %s %s %s)", s.name(t.Args[0]), s.name(t.Args[1]), s.name(t.Args[2])))
	case term.OCmp:
		x := s.name(t.Args[0])
		n = s.def(t, "Int", fmt.Sprintf("(ite (< %s 0) (- 1) (ite (= %s 0) 0 1))", x, x))
	case term.OBits:
		x := s.name(t.Args[0])
		n = fmt.Sprintf("bl%d", t.ID)
		s.w("(declare-const %s Int)\n(assert (>= %s 0))\n", n, n)
		for k := 1; k <= 320; k += 16 {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(k))
			s.w("(assert (= (<= %s %d) (and (< %s %s) (< (- %s) %s))))\n", n, k, x, lim, x, lim)
		}
	case term.BNot:
		n = "(not " + s.name(t.Args[0]) + ")"
	case term.BAnd, term.BOr:
		op := "and"
		if t.Op == term.BOr {
			op = "or"
		}
		var p []string
		for _, a := range t.Args {
			p = append(p, s.name(a))
		}
		n = s.def(t, "Bool", "("+op+" "+strings.Join(p, " ")+")")
	case term.BLe:
		// print pos <= neg for readability
		n = s.def(t, "Bool", "(<= "+s.name(t.Args[0])+" 0)")
	case term.BEq:
		n = s.def(t, "Bool", "(= "+s.name(t.Args[0])+" 0)")
	}
	s.emitted[t.ID] = n
	return n
}

func (s *Solver) def(t *term.T, sort, e string) string {
	n := fmt.Sprintf("t%d", t.ID)
	s.w("(define-fun %s () %s %s)\n", n, sort, e)
	return n
}

// Assert adds c to the path condition.
func (s *Solver) Assert(c *term.T) {
	if c == s.St.True {
		return
	}
	n := s.name(c)
	if hard(c) {
		if !s.anyHard {
			s.anyHard = true
			s.w("(declare-const hard Bool)\n")
		}
		s.w("(assert (=> hard %s))\n", n)
	} else {
		s.w("(assert %s)\n", n)
	}
	s.pc = append(s.pc, c)
	k := 0
	for _, m := range s.pool {
		if s.St.EvalBool(c, m) {
			s.pool[k] = m
			k++
		}
	}
	s.pool = s.pool[:k]
	s.St.Tighten(c)
	if len(s.pool) < poolSize/4 {
		s.refill()
	}
}

// refill guesses more models, within the bounds the path has by now.
func (s *Solver) refill() {
	if s.tries > 40*poolSize {
		return
	}
next:
	for i := 0; i < poolSize; i++ {
		s.tries++
		m := term.NewModel(s.tries)
		if i < 4 {
			m.Seed = i + 1
		}
		for j := len(s.pc) - 1; j >= 0; j-- {
			if !s.St.EvalBool(s.pc[j], m) {
				continue next
			}
		}
		s.pool = append(s.pool, m)
	}
}

// hard says whether c is a fact that seldom decides anything but makes queries
// slow: queries are first tried without them.
func hard(c *term.T) bool {
	if c.Op != term.BNot || c.Args[0].Op != term.BEq {
		return false
	}
	d := c.Args[0].Args[0]
	for _, a := range append([]*term.T{d}, d.Args...) {
		switch a.Op {
		case term.ODiv, term.OMod, term.OMul, term.OIte:
			return true
		}
	}
	return false
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

var debugSlow = os.Getenv("SYMGO_SLOW") != ""

// Check decides pc ∧ c with the incremental solver only.
func (s *Solver) Check(c *term.T) Result {
	r, _ := s.Model(c)
	return r
}

// Model decides pc ∧ c with the incremental solver, with a model if it is satisfiable.
func (s *Solver) Model(c *term.T) (Result, *term.Model) {
	if c == s.St.False {
		return Unsat, nil
	}
	if m := s.witness(c); m != nil {
		return Sat, m
	}
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	n := s.name(c)
	var r Result
	var m *term.Model
	if s.anyHard {
		// without the hard facts: unsatisfiable is an answer, and so is a model of all facts
		r, m = s.ask("(assert (not hard))\n(assert " + n + ")\n")
		if r == Sat {
			if m = s.learn(m, c); m == nil {
				r = Unknown
			}
		}
		if r == Unknown && !s.dead {
			r, m = s.ask("(assert hard)\n(assert " + n + ")\n")
			if r == Sat {
				s.learn(m, c)
			}
		}
	} else {
		r, m = s.ask("(assert " + n + ")\n")
		if r == Sat {
			s.learn(m, c)
		}
	}
	if debugSlow && time.Since(t0) > time.Second {
		fmt.Fprintf(os.Stderr, "[slow %v %v] %v\n", time.Since(t0), r, c)
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	if s.dead {
		s.restart()
	}
	return r, m
}

// ask puts one query to the incremental solver.
func (s *Solver) ask(q string) (Result, *term.Model) {
	io.WriteString(s.in, "(push 1)\n"+q+"(check-sat)\n")
	l, err := s.readLine()
	r := Unknown
	var m *term.Model
	switch {
	case err != nil:
		s.dead = true
	case l == "sat":
		r = Sat
		if gv := s.getValue(); gv == "" {
			m = &term.Model{Ints: map[string]*big.Int{}, Bools: map[string]bool{}}
		} else {
			io.WriteString(s.in, gv)
			m = s.parseModel(s.readSexp())
		}
	case l == "unsat":
		r = Unsat
	case strings.HasPrefix(l, "(error"):
		panic("solver: " + l + "\n" + s.script.String())
	}
	if !s.dead {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return r, m
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	io.WriteString(s.in, "(push 1)\n")
	s.in.Write(s.script.Bytes())
	s.dead = false
}

// CheckHard decides pc ∧ c with a portfolio of fresh solver processes.
func (s *Solver) CheckHard(c *term.T, extra string) (Result, *term.Model) {
	if c == s.St.False {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	n := s.name(c)
	s.Stats.Fallback++
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n")
	b.WriteString("%LOGIC%")
	b.Write(s.script.Bytes())
	if s.anyHard {
		b.WriteString("(assert hard)\n")
	}
	fmt.Fprintf(&b, "(assert %s)\n%s\n", n, extra)
	body := b.String()
	gv := s.getValue()
	ctx, cancel := context.WithTimeout(context.Background(), s.Hard)
	defer cancel()
	type ans struct {
		r   Result
		out string
	}
	cands := [][]string{
		{"z3", "-in", "-smt2", "-memory:3000"},
		{"z3-new", "-in", "-smt2", "-memory:3000"},
		{"z3", "-in", "-smt2", "-memory:3000", "smt.arith.nl.order=true", "smt.random_seed=7", "smt.arith.solver=6"},
		{"cvc5", "--lang=smt2", "--nl-ext-tplanes", "--produce-models"},
	}
	ch := make(chan ans, len(cands))
	for i, c := range cands {
		go func(i int, c []string) {
			txt := body
			lg := ""
			if c[0] == "cvc5" {
				lg = "(set-logic ALL)\n"
			}
			txt = strings.Replace(txt, "%LOGIC%", lg, 1)
			chk := "(check-sat)\n"
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt + chk + gv)
			out, _ := cmd.Output()
			o := string(out)
			switch {
			case strings.HasPrefix(o, "sat"):
				ch <- ans{Sat, o[3:]}
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{Unsat, ""}
			default:
				ch <- ans{Unknown, o}
			}
		}(i, c)
	}
	for range cands {
		a := <-ch
		switch a.r {
		case Unsat:
			s.Stats.Unsat++
			return Unsat, nil
		case Sat:
			s.Stats.Sat++
			return Sat, s.parseModel(a.out)
		}
	}
	s.Stats.Unknown++
	return Unknown, nil
}

func (s *Solver) getValue() string {
	if len(s.vars) == 0 {
		return ""
	}
	var p []string
	for _, v := range s.vars {
		p = append(p, "|"+v.Name+"|")
	}
	return "(get-value (" + strings.Join(p, " ") + "))\n"
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String()
		}
		b.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
			if started && depth == 0 {
				return b.String()
			}
		}
	}
}

func (s *Solver) parseModel(txt string) *term.Model {
	m := &term.Model{Ints: map[string]*big.Int{}, Bools: map[string]bool{}}
	// tokens
	var toks []string
	i := 0
	for i < len(txt) {
		c := txt[i]
		switch {
		case c == '(' || c == ')':
			toks = append(toks, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(txt[i+1:], '|')
			if j < 0 {
				return m
			}
			toks = append(toks, txt[i+1:i+1+j])
			i += j + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(txt) && !strings.ContainsRune("() \n\t\r", rune(txt[j])) {
				j++
			}
			toks = append(toks, txt[i:j])
			i = j
		}
	}
	byName := map[string]*term.T{}
	for _, v := range s.vars {
		byName[v.Name] = v
	}
	for k := 0; k+2 < len(toks); k++ {
		if toks[k] != "(" {
			continue
		}
		v, ok := byName[toks[k+1]]
		if !ok {
			continue
		}
		x := toks[k+2]
		if v.Op == term.BVar {
			m.Bools[v.Name] = x == "true"
			continue
		}
		neg := false
		if x == "(" && k+4 < len(toks) && toks[k+3] == "-" {
			neg = true
			x = toks[k+4]
		}
		n, ok := new(big.Int).SetString(x, 10)
		if !ok {
			continue
		}
		if neg {
			n.Neg(n)
		}
		m.Ints[v.Name] = n
	}
	return m
}

// Script returns the current path's SMT-LIB text with goal c.
func (s *Solver) Script(c *term.T) string {
	n := s.name(c)
	h := ""
	if s.anyHard {
		h = "(assert hard)\n"
	}
	return s.script.String() + h + fmt.Sprintf("(assert %s)\n(check-sat)\n", n)
}
