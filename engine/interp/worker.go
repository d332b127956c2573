package interp

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"symgo/load"
	"symgo/solver"
	"symgo/term"
)

// Program is the shared, immutable part: SSA of the code under test.
type Program struct {
	Prog           *ssa.Program
	Pkgs           map[string]*ssa.Package
	Load           *load.Result
	Module         string
	RT             string // import path of the harness runtime package
	Trace          bool
	SkipInit       func(string) bool
	mu             sync.Mutex
	built          map[*ssa.Package]bool
	noBody         map[*ssa.Package]bool
	errorStringPtr types.Type
}

func NewProgram(res *load.Result, module, rt string) *Program {
	P := &Program{Load: res, Module: module, RT: rt, Pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, noBody: map[*ssa.Package]bool{}}
	P.Prog = ssa.NewProgram(res.Fset, ssa.InstantiateGenerics)
	for _, p := range res.Order {
		if p.ImportPath == "unsafe" {
			P.built[P.Prog.CreatePackage(types.Unsafe, nil, nil, true)] = true
			continue
		}
		if p.Types == nil {
			continue
		}
		sp := P.Prog.CreatePackage(p.Types, p.Files, p.Info, true)
		P.Pkgs[p.ImportPath] = sp
		if !p.Bodies || len(p.Errs) > 0 {
			P.noBody[sp] = true
		}
	}
	P.errorStringPtr = types.NewPointer(P.Pkgs["errors"].Type("errorString").Type())
	return P
}

func (P *Program) build(p *ssa.Package) {
	if P.built[p] {
		return
	}
	P.built[p] = true
	if P.noBody[p] {
		return
	}
	p.Build()
}

// Func finds a package-level function.
func (P *Program) Func(pkg, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

type undoRec struct {
	p *Value
	v Value
	f func()
}

type Decision struct {
	Val bool
	K   *big.Int
}

type nondet struct {
	Name string
	T    Value // *term.T, int64 or bool
}

type Worker struct {
	P         *Program
	st        *term.Store
	sol       *solver.Solver
	codes     map[*ssa.Function]*code
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	initDepth int
	zeros     map[types.Type]func() Value
	typeIDs   map[types.Type]int
	typeMap   typeutil.Map
	meths     map[methKey]*ssa.Function
	impls     map[implKey]bool
	intrCache map[*ssa.Function]Intrinsic
	symStrs   map[int]*term.T
	instants  map[[2]int]*term.T
	touched   map[*ssa.Function]bool

	journal                bool
	undo                   []undoRec
	steps, maxSteps, depth int
	stack                  []*code

	// path state
	prefix     []Decision
	pos        int
	trace      []Decision
	names      map[string]int
	nondets    []nondet
	frozen     map[int]*frozenObj
	nfrozen    int
	obs        []nondet
	notes      []string
	E          *Explorer
	natives    map[string]any
	mapRev     bool
	scheduler  *sched
	onceDone   map[*Value]bool
	table      map[string]Intrinsic
	methNames  map[methName]*ssa.Function
	msgTypes   map[types.Type]bool
	protoNames map[int]string
}

func NewWorker(P *Program, e *Explorer) *Worker {
	w := &Worker{P: P, E: e, st: term.NewStore(), codes: map[*ssa.Function]*code{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, zeros: map[types.Type]func() Value{}, typeIDs: map[types.Type]int{},
		meths: map[methKey]*ssa.Function{}, impls: map[implKey]bool{}, symStrs: map[int]*term.T{}, instants: map[[2]int]*term.T{},
		touched: map[*ssa.Function]bool{}, maxSteps: 1 << 62, frozen: map[int]*frozenObj{}, natives: map[string]any{}, onceDone: map[*Value]bool{},
		methNames: map[methName]*ssa.Function{}, msgTypes: map[types.Type]bool{}, protoNames: map[int]string{}}
	w.sol = solver.New(w.st)
	if e != nil {
		if e.QueryTimeout > 0 {
			w.sol.Timeout = e.QueryTimeout
		}
		if e.HardTimeout > 0 {
			w.sol.Hard = e.HardTimeout
		}
	}
	return w
}

// ---- branching -------------------------------------------------------------------

func (w *Worker) replaying() bool { return w.pos < len(w.prefix) }

func (w *Worker) fork(d Decision) {
	alt := make([]Decision, len(w.trace)+1)
	copy(alt, w.trace)
	alt[len(w.trace)] = d
	w.E.push(alt)
}

func (w *Worker) decide(d Decision) {
	w.trace = append(w.trace, d)
}

func (w *Worker) branch(c *term.T) bool {
	if c.Op == term.BConst {
		return c.BV
	}
	if w.initDepth > 0 {
		w.unsup("symbolic branch during package initialisation")
	}
	nc := w.st.Not(c)
	if w.replaying() {
		d := w.prefix[w.pos]
		w.pos++
		w.decide(d)
		if d.K != nil {
			panic("decision kind mismatch: " + w.where())
		}
		if d.Val {
			w.sol.Assert(c)
		} else {
			w.sol.Assert(nc)
		}
		return d.Val
	}
	r1 := w.feasible(c)
	if r1 == solver.Unsat {
		w.decide(Decision{Val: false})
		w.sol.Assert(nc)
		return false
	}
	r2 := w.feasible(nc)
	if r2 == solver.Unsat {
		w.decide(Decision{Val: true})
		w.sol.Assert(c)
		return true
	}
	if r1 == solver.Unknown || r2 == solver.Unknown {
		w.E.noteUnknownBranch()
	}
	w.E.stat(func(s *Stats) { s.Forks++ })
	w.fork(Decision{Val: false})
	w.decide(Decision{Val: true})
	w.sol.Assert(c)
	return true
}

// choose makes an n-way decision.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.replaying() {
		d := w.prefix[w.pos]
		w.pos++
		w.decide(d)
		return int(d.K.Int64())
	}
	for i := n - 1; i > 0; i-- {
		w.fork(Decision{Val: true, K: big.NewInt(int64(i))})
	}
	w.decide(Decision{Val: true, K: big.NewInt(0)})
	return 0
}

func (w *Worker) concretizeInt(t *term.T) int64 {
	v := w.concretize(t)
	return v.(int64)
}

// concretize enumerates the feasible values of t.
func (w *Worker) concretize(t *term.T) Value {
	if t.IsConst() {
		if t.IsBool() {
			return t.BV
		}
		return fromTermInt(t)
	}
	if t.IsBool() {
		return w.branch(t)
	}
	for n := 0; ; n++ {
		if n > 64 {
			w.unsup("too many values while concretising %v", t)
		}
		if w.replaying() {
			d := w.prefix[w.pos]
			w.pos++
			w.decide(d)
			e := w.st.Eq(t, w.st.Const(d.K))
			if d.Val {
				w.sol.Assert(e)
				return fromTermInt(w.st.Const(d.K))
			}
			w.sol.Assert(w.st.Not(e))
			continue
		}
		r, m := w.sol.Model(w.st.True)
		if r != solver.Sat {
			w.unsup("cannot concretise %v: %v", t, r)
		}
		k := w.st.EvalInt(t, m)
		e := w.st.Eq(t, w.st.Const(k))
		if w.sol.Check(w.st.Not(e)) != solver.Unsat {
			w.fork(Decision{Val: false, K: k})
		}
		w.decide(Decision{Val: true, K: k})
		w.sol.Assert(e)
		return fromTermInt(w.st.Const(k))
	}
}

func (w *Worker) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assume"})
		}
	case *term.T:
		if !w.replaying() {
			if w.sol.Check(c) == solver.Unsat {
				panic(pathEnd{"assume"})
			}
		}
		w.sol.Assert(c)
	default:
		w.badPoison(v)
		w.unsup("assume %T", v)
	}
}

// Violation is a failed assertion with the concrete inputs that reach it.
type Violation struct {
	Label  string
	Inputs map[string]string
	Order  []string
	Notes  []string
	Where  string
	PathNo int
}

func (w *Worker) inputs(m *term.Model) (map[string]string, []string) {
	in := map[string]string{}
	var ord []string
	for _, n := range w.nondets {
		in[n.Name] = w.evalStr(n.T, m)
		ord = append(ord, n.Name)
	}
	return in, ord
}

func (w *Worker) evalStr(v Value, m *term.Model) string {
	switch x := v.(type) {
	case *term.T:
		if x.IsBool() {
			return fmt.Sprint(w.st.EvalBool(x, m))
		}
		return w.st.EvalInt(x, m).String()
	case int64, bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) assertProp(label string, v Value) {
	w.E.stat(func(s *Stats) { s.assert(label) })
	switch c := v.(type) {
	case bool:
		if c {
			return
		}
		if w.replaying() {
			panic(pathEnd{"assertion failed on shared prefix"})
		}
		_, m := w.anyModel(w.st.True)
		if m == nil {
			w.E.undecided(label, w.where())
			panic(pathEnd{"undecided"})
		}
		w.violation(label, m)
	case *term.T:
		if w.replaying() {
			w.sol.Assert(c)
			return
		}
		nc := w.st.Not(c)
		r, m := w.anyModel(nc)
		switch {
		case r == solver.Unsat:
			w.sol.Assert(c)
			return
		case r == solver.Sat:
			w.violation(label, m)
		default:
			w.E.undecided(label, w.where())
			if d := os.Getenv("SYMGO_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/undecided-%s-%d.smt2", d, label, time.Now().UnixNano()), []byte(w.sol.Script(nc)), 0o644)
			}
			w.sol.Assert(c)
		}
	default:
		w.badPoison(v)
		w.unsup("assert %T", v)
	}
}

// feasible says whether pc ∧ c is: what the incremental solver cannot answer in its
// time goes to the portfolio, a limited number of times per harness.
func (w *Worker) feasible(c *term.T) solver.Result {
	r := w.sol.Check(c)
	if r == solver.Unknown && w.E.escalate() {
		r, _ = w.sol.CheckHard(c, "")
	}
	return r
}

// anyModel decides pc ∧ c: incremental solver first, then the portfolio.
func (w *Worker) anyModel(c *term.T) (solver.Result, *term.Model) {
	r, m := w.sol.Model(c)
	if r != solver.Unknown {
		return r, m
	}
	return w.sol.CheckHard(c, "")
}

func (w *Worker) violation(label string, m *term.Model) {
	in, ord := w.inputs(m)
	w.E.violation(Violation{Label: label, Inputs: in, Order: ord, Where: w.where(), Notes: append([]string(nil), w.notes...)})
	panic(pathEnd{"violation " + label})
}

// ---- path execution -----------------------------------------------------------------

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.v
		}
	}
	if cap(w.undo) > 1<<20 {
		w.undo = nil
	} else {
		clear(w.undo)
		w.undo = w.undo[:0]
	}
}

func (w *Worker) runPath(fn *ssa.Function, prefix []Decision) {
	w.prefix, w.pos = prefix, 0
	w.trace = w.trace[:0]
	w.names = map[string]int{}
	w.nondets = nil
	w.notes = nil
	w.obs = nil
	w.steps = 0
	w.maxSteps = w.E.MaxSteps
	w.depth = 0
	w.stack = w.stack[:0]
	w.frozen = map[int]*frozenObj{}
	w.nfrozen = 0
	w.symStrs = map[int]*term.T{}
	w.instants = map[[2]int]*term.T{}
	w.mapRev = false
	w.st.Reset()
	w.sol.StartPath()
	w.journal = true
	end := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				end = x.why
			case unsupported:
				end = "unsupported"
				w.E.failure(x.msg, w.where())
			case targetPanic:
				end = "panic"
				w.uncaught(x)
			default:
				if os.Getenv("SYMGO_CRASH") != "" {
					panic(r)
				}
				end = "crash"
				w.E.failure(fmt.Sprintf("engine crash: %v", r), w.where()+string(debug.Stack()))
			}
		}()
		w.call(nil, fn, nil, nil)
		w.finishPath()
	}()
	w.endTasks()
	w.journal = false
	w.rollback()
	w.E.pathDone(w, end)
}

// uncaught reports a panic that reached the harness's top as a violation.
func (w *Worker) uncaught(x targetPanic) {
	at := w.where()
	msg := w.show(x.v)
	if len(msg) > 160 {
		msg = msg[:160]
	}
	var m *term.Model
	if r, mm := w.anyModel(w.st.True); r == solver.Sat {
		m = mm
	}
	if m == nil {
		w.E.failure("uncaught panic in harness (no model): "+msg, at)
		return
	}
	in, ord := w.inputs(m)
	w.E.violation(Violation{Label: "panic: " + msg, Inputs: in, Order: ord, Where: at, Notes: append([]string(nil), w.notes...)})
}

// finishPath records a witness model of a completed path.
func (w *Worker) finishPath() {
	if w.E.WantWitness == nil || !w.E.WantWitness() {
		return
	}
	r, m := w.anyModel(w.st.True)
	if r == solver.Sat {
		in, ord := w.inputs(m)
		obs := map[string]string{}
		for _, o := range w.obs {
			obs[o.Name] = w.evalStr(o.T, m)
		}
		w.E.witness(Witness{Inputs: in, Order: ord, Obs: obs})
	}
}

type Witness struct {
	Inputs map[string]string `json:"inputs"`
	Order  []string          `json:"order"`
	Obs    map[string]string `json:"observed"`
}

// ---- explorer ------------------------------------------------------------------------

type Stats struct {
	Paths, Forks  int
	Steps         int64
	Ends          map[string]int
	Asserts       map[string]int
	Reached       map[string]int
	Known         map[string]int
	UnknownBranch int
	Escalated     int
	Undecided     map[string]int
	Solver        solver.Stats
}

func (s *Stats) assert(l string) { s.Asserts[l]++ }

type Explorer struct {
	P            *Program
	Workers      int
	MaxSteps     int
	MaxPaths     int
	Deadline     time.Time
	QueryTimeout time.Duration
	HardTimeout  time.Duration
	MaxViol      int
	WantWitness  func() bool
	Tier         string
	KnownIDs     map[string]bool
	Verbose      bool
	Seed         int64

	mu        sync.Mutex
	cond      *sync.Cond
	work      [][]Decision
	active    int
	stopped   bool
	Stat      Stats
	Viols     []Violation
	Fails     map[string]int
	FailAt    map[string]string
	UndecAt   map[string]string
	Witnesses []Witness
	Truncated bool
	Funcs     map[string]bool
	pool      []*Worker
}

func (e *Explorer) stat(f func(*Stats)) { e.mu.Lock(); f(&e.Stat); e.mu.Unlock() }
// escalate says whether another branch may be decided by the portfolio.
func (e *Explorer) escalate() (ok bool) {
	e.stat(func(s *Stats) {
		if ok = s.Escalated < 40; ok {
			s.Escalated++
		}
	})
	return ok
}
func (e *Explorer) noteUnknownBranch()  { e.stat(func(s *Stats) { s.UnknownBranch++ }) }
func (e *Explorer) undecided(l, at string) {
	e.mu.Lock()
	e.Stat.Undecided[l]++
	if e.UndecAt[l] == "" {
		e.UndecAt[l] = at
	}
	e.mu.Unlock()
}
func (e *Explorer) failure(msg, at string) {
	e.mu.Lock()
	k := msg
	if i := strings.IndexByte(k, '\n'); i > 0 {
		k = k[:i]
	}
	e.Fails[k]++
	if e.FailAt[k] == "" {
		e.FailAt[k] = at + msg[len(k):]
	}
	e.mu.Unlock()
}
func (e *Explorer) violation(v Violation) {
	e.mu.Lock()
	v.PathNo = e.Stat.Paths
	e.Viols = append(e.Viols, v)
	n := 0
	for _, o := range e.Viols {
		if o.Label == v.Label {
			n++
		}
	}
	if len(e.Viols) >= e.MaxViol {
		e.stopped = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}
func (e *Explorer) witness(x Witness) {
	e.mu.Lock()
	e.Witnesses = append(e.Witnesses, x)
	e.mu.Unlock()
}

func (e *Explorer) push(p []Decision) {
	e.mu.Lock()
	e.work = append(e.work, p)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pathDone(w *Worker, end string) {
	e.mu.Lock()
	e.Stat.Paths++
	e.Stat.Steps += int64(w.steps)
	e.Stat.Ends[end]++
	e.mu.Unlock()
}

func (e *Explorer) Init() {
	e.cond = sync.NewCond(&e.mu)
	e.Stat.Ends = map[string]int{}
	e.Stat.Asserts = map[string]int{}
	e.Stat.Reached = map[string]int{}
	e.Stat.Known = map[string]int{}
	e.Stat.Undecided = map[string]int{}
	e.Fails = map[string]int{}
	e.FailAt = map[string]string{}
	e.UndecAt = map[string]string{}
	e.Funcs = map[string]bool{}
	if e.MaxViol == 0 {
		e.MaxViol = 3
	}
}

// Run explores all paths of fn.
func (e *Explorer) Run(fn *ssa.Function) {
	e.work = [][]Decision{nil}
	e.stopped = false
	start := e.Stat.Paths
	var wg sync.WaitGroup
	for len(e.pool) < e.Workers {
		e.pool = append(e.pool, NewWorker(e.P, e))
	}
	for i := 0; i < e.Workers; i++ {
		wg.Add(1)
		w := e.pool[i]
		go func() {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stopped {
					e.cond.Wait()
				}
				if e.stopped || (len(e.work) == 0 && e.active == 0) {
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				if (e.MaxPaths > 0 && e.Stat.Paths-start+e.active >= e.MaxPaths) || (!e.Deadline.IsZero() && time.Now().After(e.Deadline)) {
					e.Truncated = true
					e.stopped = true
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				p := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()
				w.runPath(fn, p)
				e.mu.Lock()
				e.active--
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	e.Stat.Solver = solver.Stats{}
	for _, w := range e.pool {
		for f := range w.touched {
			e.Funcs[f.String()] = true
		}
		e.Stat.Solver.Add(w.sol.Stats)
	}
}

func (e *Explorer) Close() {
	for _, w := range e.pool {
		w.sol.Close()
	}
}

func (e *Explorer) FuncList() []string {
	var r []string
	for f := range e.Funcs {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}
