package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

type operand struct {
	reg  int // >=0: register
	v    Value
	nil_ bool
}

type instr struct {
	in      ssa.Instruction
	dst     int
	a, b, c operand
	d       operand
	args    []operand
	t       types.Type // auxiliary type
	t2      types.Type
	i       int
	noLog   bool
	mth     *types.Func
	name    string
}

type phi struct {
	dst   int
	edges []operand
}

type blk struct {
	phis []phi
	ins  []instr
	succ [2]*blk
	pred map[int]int // pred block index -> edge index
	idx  int
}

type code struct {
	fn       *ssa.Function
	nregs    int
	params   []int
	free     []int
	blocks   []*blk
	recover_ *blk
	hasDefer bool
	intr     Intrinsic
	noBody   bool
	nRes     int
	repo     bool
	isInit   bool
	name     string
}

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
}

type frame struct {
	w         *Worker
	code      *code
	regs      []Value
	caller    *frame
	defers    *deferred
	result    Value
	panicking bool
	pan       any
	phitmp    []Value
}

type Intrinsic func(w *Worker, fr *frame, fn *ssa.Function, args []Value) Value

func (fr *frame) get(o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.v
}

// ---- compilation -----------------------------------------------------------------

func (w *Worker) codeOf(fn *ssa.Function) *code {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	c := w.compile(fn)
	return c
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) compile(fn *ssa.Function) *code {
	c := &code{fn: fn, name: fn.String()}
	w.codes[fn] = c
	c.nRes = fn.Signature.Results().Len()
	if in := w.findIntrinsic(fn); in != nil {
		c.intr = in
		return c
	}
	P := w.P
	P.mu.Lock()
	var pkg *ssa.Package = fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg != nil {
		P.build(pkg)
	}
	if fn.Blocks == nil {
		c.noBody = true
		P.mu.Unlock()
		return c
	}
	if pkg != nil {
		c.repo = strings.HasPrefix(pkg.Pkg.Path(), P.Module)
		if c.repo && strings.Contains(pkg.Pkg.Path(), "/verifh") {
			c.repo = false
		}
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		c.repo = strings.HasPrefix(o.Pkg().Path(), P.Module)
	}
	c.isInit = fn.Synthetic == "package initializer"
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		r, ok := regs[v]
		if !ok {
			r = len(regs)
			regs[v] = r
		}
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, reg(p))
	}
	var needInit []*ssa.Package
	op := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{reg: -1, nil_: true}
		case *ssa.Const:
			return operand{reg: -1, v: w.constValue(x)}
		case *ssa.Global:
			needInit = append(needInit, x.Pkg)
			return operand{reg: -1, v: w.global(x)}
		case *ssa.Function:
			return operand{reg: -1, v: x}
		case *ssa.Builtin:
			return operand{reg: -1, v: x}
		}
		return operand{reg: reg(v)}
	}
	blocks := make([]*blk, len(fn.Blocks))
	for i := range blocks {
		blocks[i] = &blk{idx: i, pred: map[int]int{}}
	}
	c.blocks = blocks
	localAlloc := map[ssa.Value]bool{}
	var isLocal func(v ssa.Value) bool
	isLocal = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return isLocal(x.X)
		}
		return false
	}
	_ = localAlloc
	for i, b := range fn.Blocks {
		bb := blocks[i]
		for j, p := range b.Preds {
			bb.pred[p.Index] = j
		}
		for j, s := range b.Succs {
			if j < 2 {
				bb.succ[j] = blocks[s.Index]
			}
		}
		for _, in := range b.Instrs {
			var ci instr
			ci.in = in
			ci.dst = -1
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			call := func(cc *ssa.CallCommon) {
				if cc.IsInvoke() {
					ci.a = op(cc.Value)
					ci.mth = cc.Method
				} else {
					ci.a = op(cc.Value)
				}
				for _, a := range cc.Args {
					ci.args = append(ci.args, op(a))
				}
			}
			switch x := in.(type) {
			case *ssa.Phi:
				p := phi{dst: reg(x)}
				for _, e := range x.Edges {
					p.edges = append(p.edges, op(e))
				}
				bb.phis = append(bb.phis, p)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
				ci.a = op(x.X)
				ci.t = x.X.Type()
			case *ssa.BinOp:
				ci.a, ci.b = op(x.X), op(x.Y)
				ci.t = x.X.Type()
				ci.t2 = x.Y.Type()
				// comparison of interface with concrete operand cannot happen in SSA
			case *ssa.Call:
				call(&x.Call)
			case *ssa.Defer:
				c.hasDefer = true
				call(&x.Call)
				if x.DeferStack != nil {
					ci.d = op(x.DeferStack)
				} else {
					ci.d = operand{reg: -1, nil_: true}
				}
			case *ssa.Go:
				call(&x.Call)
			case *ssa.ChangeInterface:
				ci.a = op(x.X)
			case *ssa.ChangeType:
				ci.a = op(x.X)
			case *ssa.Convert:
				ci.a = op(x.X)
				ci.t, ci.t2 = x.Type(), x.X.Type()
			case *ssa.MultiConvert:
				ci.a = op(x.X)
				ci.t, ci.t2 = x.Type(), x.X.Type()
			case *ssa.SliceToArrayPointer:
				ci.a = op(x.X)
				ci.i = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.MakeInterface:
				ci.a = op(x.X)
				ci.t = x.X.Type()
			case *ssa.Extract:
				ci.a = op(x.Tuple)
				ci.i = x.Index
			case *ssa.Slice:
				ci.a, ci.b, ci.c, ci.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
			case *ssa.Return:
				for _, r := range x.Results {
					ci.args = append(ci.args, op(r))
				}
			case *ssa.RunDefers:
			case *ssa.Panic:
				ci.a = op(x.X)
			case *ssa.Send:
				ci.a, ci.b = op(x.Chan), op(x.X)
			case *ssa.Store:
				ci.a, ci.b = op(x.Addr), op(x.Val)
				ci.noLog = isLocal(x.Addr)
			case *ssa.If:
				ci.a = op(x.Cond)
			case *ssa.Jump:
			case *ssa.MakeChan:
				ci.a = op(x.Size)
				ci.t = x.Type()
			case *ssa.Alloc:
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.MakeSlice:
				ci.a, ci.b = op(x.Len), op(x.Cap)
				ci.t = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MakeMap:
			case *ssa.Range:
				ci.a = op(x.X)
			case *ssa.Next:
				ci.a = op(x.Iter)
			case *ssa.FieldAddr:
				ci.a = op(x.X)
				ci.i = x.Field
			case *ssa.Field:
				ci.a = op(x.X)
				ci.i = x.Field
			case *ssa.IndexAddr:
				ci.a, ci.b = op(x.X), op(x.Index)
			case *ssa.Index:
				ci.a, ci.b = op(x.X), op(x.Index)
			case *ssa.Lookup:
				ci.a, ci.b = op(x.X), op(x.Index)
				if m, ok := x.X.Type().Underlying().(*types.Map); ok {
					ci.t = m.Elem()
				}
				if x.CommaOk {
					ci.i = 1
				}
			case *ssa.MapUpdate:
				ci.a, ci.b, ci.c = op(x.Map), op(x.Key), op(x.Value)
			case *ssa.TypeAssert:
				ci.a = op(x.X)
				ci.t = x.AssertedType
				if x.CommaOk {
					ci.i = 1
				}
			case *ssa.MakeClosure:
				ci.a = op(x.Fn)
				for _, b := range x.Bindings {
					ci.args = append(ci.args, op(b))
				}
			case *ssa.Select:
				for _, st := range x.States {
					ci.args = append(ci.args, op(st.Chan), op(st.Send))
				}
			default:
				P.mu.Unlock()
				panic(fmt.Sprintf("compile: unknown instruction %T", in))
			}
			bb.ins = append(bb.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.recover_ = blocks[fn.Recover.Index]
	}
	c.nregs = len(regs)
	P.mu.Unlock()
	for _, p := range needInit {
		w.ensureInit(p)
	}
	return c
}

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	v := w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := new(Value)
	*p = v
	w.globals[g] = p
	return p
}

// ensureInit runs the variable initialisers and init functions of a package,
// without those of the packages it imports (these run on first use).
func (w *Worker) ensureInit(p *ssa.Package) {
	if p == nil || w.inited[p] {
		return
	}
	w.inited[p] = true
	path := p.Pkg.Path()
	if w.P.SkipInit != nil && w.P.SkipInit(path) {
		return
	}
	j := w.journal
	w.journal = false
	saveMute := w.initDepth
	w.initDepth++
	steps := w.steps
	defer func() {
		w.journal = j
		w.initDepth = saveMute
		w.steps = steps
	}()
	fn := p.Func("init")
	if fn == nil {
		return
	}
	if w.P.Trace {
		fmt.Printf("init %s\n", path)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, targetPanic:
					if w.P.Trace {
						fmt.Printf("init %s aborted: %v\n", path, w.panicText(r))
					}
				default:
					panic(r)
				}
			}
		}()
		w.call(nil, fn, nil, nil)
	}()
}

// ---- calls -----------------------------------------------------------------------

func (w *Worker) callValue(fr *frame, f Value, args []Value) Value {
	switch x := f.(type) {
	case *ssa.Function:
		if x == nil {
			w.panicStr("invalid memory address or nil pointer dereference (nil func)")
		}
		return w.call(fr, x, args, nil)
	case *closure:
		if x == nil {
			w.panicStr("invalid memory address or nil pointer dereference (nil func)")
		}
		return w.call(fr, x.fn, args, x.env)
	case *ssa.Builtin:
		return w.builtin(fr, x, args, nil)
	case *native:
		if g, ok := x.v.(func(*Worker, []Value) Value); ok {
			return g(w, args)
		}
	}
	w.badPoison(f)
	w.unsup("call of %T", f)
	return nil
}

const maxDepth = 2000

func (w *Worker) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := w.codeOf(fn)
	if c.intr != nil {
		return c.intr(w, caller, fn, args)
	}
	if c.noBody {
		w.unsup("no body for %s", fn)
	}
	if c.repo {
		w.touched[fn] = true
	}
	fr := &frame{w: w, code: c, caller: caller}
	fr.regs = make([]Value, c.nregs)
	for i, r := range c.params {
		fr.regs[r] = args[i]
	}
	for i, r := range c.free {
		fr.regs[r] = env[i]
	}
	w.depth++
	if w.depth > maxDepth {
		w.depth = 0
		w.unsup("call depth exceeded in %s", fn)
	}
	w.stack = append(w.stack, c)
	if c.hasDefer {
		w.runDeferring(fr)
	} else {
		w.run(fr, c.blocks[0])
	}
	w.stack = w.stack[:len(w.stack)-1]
	w.depth--
	return fr.result
}

func (w *Worker) runDeferring(fr *frame) {
	depth, sl := w.depth, len(w.stack)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			w.depth, w.stack = depth, w.stack[:sl]
			if _, ok := r.(targetPanic); !ok {
				if re, isRT := r.(error); isRT {
					w.hostPanic(re)
				}
				panic(r)
			}
			fr.panicking = true
			fr.pan = r
			fr.runDefers()
			// recovered
			if fr.code.recover_ != nil {
				w.run(fr, fr.code.recover_)
			} else {
				// functions without named results return zero values
				res := fr.code.fn.Signature.Results()
				switch res.Len() {
				case 0:
				case 1:
					fr.result = w.zero(res.At(0).Type())
				default:
					fr.result = w.zero(res)
				}
			}
		}()
		w.run(fr, fr.code.blocks[0])
	}()
}

func (fr *frame) runDefer(d *deferred) {
	w := fr.w
	depth, sl := w.depth, len(w.stack)
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, is := r.(targetPanic); !is {
				panic(r)
			}
			w.depth, w.stack = depth, w.stack[:sl]
			fr.panicking = true
			fr.pan = r
		}
	}()
	w.callValue(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	w.P.mu.Lock()
	f := w.P.Prog.LookupMethod(t, m.Pkg(), m.Name())
	w.P.mu.Unlock()
	w.meths[k] = f
	return f
}

// findMethod looks a method up by name.
func (w *Worker) findMethod(t types.Type, name string) *ssa.Function {
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	ms := w.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (fr *frame) prepare(in *instr) (Value, []Value) {
	w := fr.w
	f := fr.get(&in.a)
	if in.mth != nil {
		recv, ok := f.(iface)
		if !ok {
			w.badPoison(f)
			w.unsup("invoke %s on %T", in.mth.Name(), f)
		}
		if recv.t == nil {
			w.panicStr("invalid memory address or nil pointer dereference (method " + in.mth.Name() + " on nil interface)")
		}
		args := make([]Value, len(in.args)+1)
		args[0] = recv.v
		for i := range in.args {
			args[i+1] = fr.get(&in.args[i])
		}
		if nat, ok := recv.v.(*native); ok {
			if h, ok := nat.v.(nativeMethods); ok {
				return &native{func(w *Worker, args []Value) Value { return h.call(w, in.mth.Name(), args[1:]) }}, args
			}
		}
		m := w.lookupMethod(recv.t, in.mth)
		if m == nil {
			w.unsup("no method %s on %v", in.mth.Name(), recv.t)
		}
		return m, args
	}
	args := make([]Value, len(in.args))
	for i := range in.args {
		args[i] = fr.get(&in.args[i])
	}
	return f, args
}

type nativeMethods interface {
	call(w *Worker, name string, args []Value) Value
}

func (w *Worker) initCall(fr *frame, f Value, args []Value) (res Value) {
	depth, sl := w.depth, len(w.stack)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, targetPanic:
				w.depth, w.stack = depth, w.stack[:sl]
				txt := w.panicText(r)
				if w.P.Trace {
					fmt.Printf("init poison in %s: %s\n", fr.code.name, txt)
				}
				res = poison{txt}
			default:
				panic(r)
			}
		}
	}()
	if fn, ok := f.(*ssa.Function); ok {
		if fn.Synthetic == "package initializer" {
			return nil
		}
	}
	return w.callValue(fr, f, args)
}

func (w *Worker) nilDeref() { w.panicStr("invalid memory address or nil pointer dereference") }

func (w *Worker) run(fr *frame, b *blk) {
	prev := -1
	for {
		// phis
		if len(b.phis) > 0 {
			e := b.pred[prev]
			if cap(fr.phitmp) < len(b.phis) {
				fr.phitmp = make([]Value, len(b.phis))
			}
			tmp := fr.phitmp[:len(b.phis)]
			for i := range b.phis {
				tmp[i] = fr.get(&b.phis[i].edges[e])
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
		w.steps += len(b.ins)
		if w.steps > w.maxSteps {
			w.unsup("step budget exceeded")
		}
		var next *blk
		for k := range b.ins {
			in := &b.ins[k]
			switch x := in.in.(type) {
			case *ssa.UnOp:
				v := fr.get(&in.a)
				switch x.Op {
				case token.MUL:
					p, ok := v.(*Value)
					if !ok {
						w.badPoison(v)
						w.unsup("load through %T", v)
					}
					if p == nil {
						w.nilDeref()
					}
					fr.regs[in.dst] = copyVal(*p)
				case token.ARROW:
					r, ok := w.chRecv(v)
					if x.CommaOk {
						fr.regs[in.dst] = tuple{r, ok}
					} else {
						fr.regs[in.dst] = r
					}
				default:
					fr.regs[in.dst] = w.unop(x.Op, in.t, v)
				}
			case *ssa.BinOp:
				fr.regs[in.dst] = w.binop(x.Op, in.t, in.t2, fr.get(&in.a), fr.get(&in.b))
			case *ssa.Call:
				f, args := fr.prepare(in)
				if fr.code.isInit {
					fr.regs[in.dst] = w.initCall(fr, f, args)
				} else if bi, ok := f.(*ssa.Builtin); ok {
					fr.regs[in.dst] = w.builtin(fr, bi, args, x)
				} else {
					fr.regs[in.dst] = w.callValue(fr, f, args)
				}
			case *ssa.ChangeInterface, *ssa.ChangeType:
				fr.regs[in.dst] = fr.get(&in.a)
			case *ssa.Convert, *ssa.MultiConvert:
				fr.regs[in.dst] = w.conv(in.t, in.t2, fr.get(&in.a))
			case *ssa.SliceToArrayPointer:
				s := fr.get(&in.a).([]Value)
				if len(s) < in.i {
					w.panicStr("slice to array conversion: length mismatch")
				}
				if s == nil {
					fr.regs[in.dst] = (*Value)(nil)
				} else {
					p := new(Value)
					*p = array(s[:in.i:in.i])
					fr.regs[in.dst] = p
				}
			case *ssa.MakeInterface:
				v := fr.get(&in.a)
				if p, ok := v.(poison); ok {
					fr.regs[in.dst] = p
				} else {
					fr.regs[in.dst] = iface{in.t, v}
				}
			case *ssa.Extract:
				tv := fr.get(&in.a)
				tp, ok := tv.(tuple)
				if !ok {
					if p, isP := tv.(poison); isP {
						fr.regs[in.dst] = p
						break
					}
					w.unsup("extract from %T", tv)
				}
				fr.regs[in.dst] = tp[in.i]
			case *ssa.Slice:
				fr.regs[in.dst] = w.slice(fr.get(&in.a), fr.opt(&in.b), fr.opt(&in.c), fr.opt(&in.d))
			case *ssa.Return:
				switch len(in.args) {
				case 0:
				case 1:
					fr.result = fr.get(&in.args[0])
				default:
					r := make(tuple, len(in.args))
					for i := range r {
						r[i] = fr.get(&in.args[i])
					}
					fr.result = r
				}
				return
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				v := fr.get(&in.a)
				i, ok := v.(iface)
				if !ok {
					w.badPoison(v)
				}
				panic(targetPanic{i})
			case *ssa.Store:
				a := fr.get(&in.a)
				p, ok := a.(*Value)
				if !ok {
					w.badPoison(a)
					w.unsup("store through %T", a)
				}
				if p == nil {
					w.nilDeref()
				}
				w.store(p, fr.get(&in.b))
			case *ssa.If:
				cv := fr.get(&in.a)
				var t bool
				switch c := cv.(type) {
				case bool:
					t = c
				case *term.T:
					t = w.branch(c)
				default:
					w.badPoison(cv)
					w.unsup("if on %T", cv)
				}
				if t {
					next = b.succ[0]
				} else {
					next = b.succ[1]
				}
			case *ssa.Jump:
				next = b.succ[0]
			case *ssa.Alloc:
				p := new(Value)
				*p = w.zero(in.t)
				fr.regs[in.dst] = p
			case *ssa.MakeSlice:
				n, c := w.asInt(fr.get(&in.a)), w.asInt(fr.get(&in.b))
				if n < 0 || c < n {
					w.panicStr("runtime error: makeslice: len out of range")
				}
				if c > 1<<24 {
					w.unsup("makeslice of %d", c)
				}
				s := make([]Value, c)
				for i := range s {
					s[i] = w.zero(in.t)
				}
				fr.regs[in.dst] = s[:n]
			case *ssa.MakeMap:
				fr.regs[in.dst] = &hmap{m: map[any]*mapEntry{}}
			case *ssa.Range:
				v := fr.get(&in.a)
				switch m := v.(type) {
				case *hmap:
					it := &mapIter{m: m}
					if m != nil {
						it.ord = append([]*mapEntry(nil), m.order...)
						w.mapOrder(fr, it)
					}
					fr.regs[in.dst] = &native{it}
				case string:
					fr.regs[in.dst] = &native{&strIter{s: m}}
				default:
					w.badPoison(v)
					w.unsup("range over %T", v)
				}
			case *ssa.Next:
				switch it := fr.get(&in.a).(*native).v.(type) {
				case *mapIter:
					fr.regs[in.dst] = it.next()
				case *strIter:
					fr.regs[in.dst] = it.next()
				}
			case *ssa.FieldAddr:
				a := fr.get(&in.a)
				p, ok := a.(*Value)
				if !ok {
					w.badPoison(a)
					w.unsup("fieldaddr of %T", a)
				}
				if p == nil {
					w.nilDeref()
				}
				s, ok := (*p).(structure)
				if !ok {
					w.badPoison(*p)
					w.unsup("fieldaddr into %T in %s", *p, fr.code.name)
				}
				fr.regs[in.dst] = &s[in.i]
			case *ssa.Field:
				sv := fr.get(&in.a)
				s, ok := sv.(structure)
				if !ok {
					w.badPoison(sv)
					w.unsup("field of %T", sv)
				}
				fr.regs[in.dst] = s[in.i]
			case *ssa.IndexAddr:
				xv := fr.get(&in.a)
				i := w.asInt(fr.get(&in.b))
				switch s := xv.(type) {
				case []Value:
					if i < 0 || i >= int64(len(s)) {
						w.panicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(s)))
					}
					fr.regs[in.dst] = &s[i]
				case *Value:
					if s == nil {
						w.nilDeref()
					}
					ar, ok := (*s).(array)
					if !ok {
						w.badPoison(*s)
						w.unsup("indexaddr into %T", *s)
					}
					if i < 0 || i >= int64(len(ar)) {
						w.panicStr("runtime error: index out of range")
					}
					fr.regs[in.dst] = &ar[i]
				default:
					w.badPoison(xv)
					w.unsup("indexaddr of %T", xv)
				}
			case *ssa.Index:
				xv := fr.get(&in.a)
				i := w.asInt(fr.get(&in.b))
				switch s := xv.(type) {
				case array:
					if i < 0 || i >= int64(len(s)) {
						w.panicStr("runtime error: index out of range")
					}
					fr.regs[in.dst] = s[i]
				case string:
					if i < 0 || i >= int64(len(s)) {
						w.panicStr("runtime error: index out of range")
					}
					fr.regs[in.dst] = int64(s[i])
				default:
					w.badPoison(xv)
					w.unsup("index of %T", xv)
				}
			case *ssa.Lookup:
				xv := fr.get(&in.a)
				switch m := xv.(type) {
				case string:
					i := w.asInt(fr.get(&in.b))
					if i < 0 || i >= int64(len(m)) {
						w.panicStr("runtime error: index out of range")
					}
					fr.regs[in.dst] = int64(m[i])
				case *hmap:
					v, ok := w.mapGet(m, fr.get(&in.b))
					if ok {
						v = copyVal(v)
					} else {
						v = w.zero(in.t)
					}
					if in.i == 1 {
						fr.regs[in.dst] = tuple{v, ok}
					} else {
						fr.regs[in.dst] = v
					}
				default:
					w.badPoison(xv)
					w.unsup("lookup in %T", xv)
				}
			case *ssa.MapUpdate:
				mv := fr.get(&in.a)
				m, ok := mv.(*hmap)
				if !ok {
					w.badPoison(mv)
					w.unsup("mapupdate of %T", mv)
				}
				w.mapSet(m, fr.get(&in.b), copyVal(fr.get(&in.c)))
			case *ssa.TypeAssert:
				fr.regs[in.dst] = w.typeAssert(in, x, fr.get(&in.a))
			case *ssa.MakeClosure:
				env := make([]Value, len(in.args))
				for i := range env {
					env[i] = fr.get(&in.args[i])
				}
				fr.regs[in.dst] = &closure{in.a.v.(*ssa.Function), env}
			case *ssa.Defer:
				f, args := fr.prepare(in)
				target := &fr.defers
				if !in.d.nil_ {
					target = fr.get(&in.d).(*native).v.(**deferred)
				}
				*target = &deferred{f, args, *target}
			case *ssa.Go:
				f, args := fr.prepare(in)
				w.goStmt(f, args)
			case *ssa.MakeChan:
				fr.regs[in.dst] = w.makeChan(in.t, fr.get(&in.a))
			case *ssa.Send:
				w.chSend(fr.get(&in.a), copyVal(fr.get(&in.b)))
			case *ssa.Select:
				n := len(x.States)
				chans, sends := make([]Value, n), make([]Value, n)
				for i := range chans {
					chans[i], sends[i] = fr.get(&in.args[2*i]), fr.opt(&in.args[2*i+1])
				}
				fr.regs[in.dst] = w.selectStmt(x, chans, sends)
			default:
				w.unsup("instruction %T in %s", in.in, fr.code.name)
			}
		}
		if next == nil {
			w.unsup("block without successor in %s", fr.code.name)
		}
		prev = b.idx
		b = next
	}
}

func (fr *frame) opt(o *operand) Value {
	if o.reg < 0 && o.nil_ {
		return nil
	}
	return fr.get(o)
}

func (w *Worker) asInt(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *term.T:
		return w.concretizeInt(x)
	}
	w.badPoison(v)
	w.unsup("asInt %T", v)
	return 0
}

// set writes one cell, recording the old content.
func (w *Worker) set(p *Value, v Value) {
	if w.journal {
		w.undo = append(w.undo, undoRec{p: p, v: *p})
	}
	*p = v
}

// store writes v into *p; aggregates are written field by field so that
// interior pointers stay valid.
func (w *Worker) store(p *Value, v Value) {
	switch x := v.(type) {
	case structure:
		d, ok := (*p).(structure)
		if !ok || len(d) != len(x) {
			w.set(p, copyVal(v))
			return
		}
		for i := range x {
			w.store(&d[i], x[i])
		}
	case array:
		d, ok := (*p).(array)
		if !ok || len(d) != len(x) {
			w.set(p, copyVal(v))
			return
		}
		for i := range x {
			w.store(&d[i], x[i])
		}
	default:
		w.set(p, v)
	}
}

func (w *Worker) slice(x, lo, hi, max Value) Value {
	l := int64(0)
	if lo != nil {
		l = w.asInt(lo)
	}
	bad := func() { w.panicStr("runtime error: slice bounds out of range") }
	switch s := x.(type) {
	case string:
		h := int64(len(s))
		if hi != nil {
			h = w.asInt(hi)
		}
		if l < 0 || h < l || h > int64(len(s)) {
			bad()
		}
		return s[l:h]
	case []Value:
		h := int64(len(s))
		if hi != nil {
			h = w.asInt(hi)
		}
		m := int64(cap(s))
		if max != nil {
			m = w.asInt(max)
		}
		if l < 0 || h < l || m < h || m > int64(cap(s)) {
			bad()
		}
		return s[l:h:m]
	case *Value:
		if s == nil {
			w.nilDeref()
		}
		a, ok := (*s).(array)
		if !ok {
			w.badPoison(*s)
			w.unsup("slice of pointer to %T", *s)
		}
		h := int64(len(a))
		if hi != nil {
			h = w.asInt(hi)
		}
		m := int64(cap(a))
		if max != nil {
			m = w.asInt(max)
		}
		if l < 0 || h < l || m < h || m > int64(cap(a)) {
			bad()
		}
		return []Value(a)[l:h:m]
	}
	w.badPoison(x)
	w.unsup("slice of %T", x)
	return nil
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := w.impls[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	w.impls[k] = v
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (w *Worker) typeAssert(in *instr, x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(iface)
	if !ok {
		if p, isP := v.(poison); isP {
			return p
		}
		w.unsup("typeassert on %T", v)
	}
	var res Value
	good := false
	if it, isI := in.t.Underlying().(*types.Interface); isI {
		if i.t != nil && w.implements(i.t, it) {
			res, good = i, true
		}
	} else if i.t != nil && w.typeID(i.t) == w.typeID(in.t) {
		res, good = copyVal(i.v), true
	}
	if in.i == 1 {
		if !good {
			res = w.zero(in.t)
		}
		return tuple{res, good}
	}
	if !good {
		w.panicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", i.t, in.t))
	}
	return res
}

// ---- builtins ------------------------------------------------------------------------

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.Call) Value {
	for _, a := range args {
		w.badPoison(a)
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case []Value:
			return int64(len(x))
		case *hmap:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "close":
		w.chClose(args[0])
		return nil
	case "Sizeof":
		return types.SizesFor("gc", "amd64").Sizeof(call.Call.Args[0].Type())
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case string:
			add = stringToBytes(y)
		case []Value:
			add = make([]Value, len(y))
			for i, e := range y {
				add[i] = copyVal(e)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			for i, e := range add {
				w.set(&r[n+i], e)
			}
			return r
		}
		nc := 2 * cap(s)
		if nc < n+len(add) {
			nc = n + len(add)
		}
		r := make([]Value, n+len(add), nc)
		for i, e := range s {
			r[i] = copyVal(e)
		}
		copy(r[n:], add)
		// spare capacity must hold zero values of the right shape
		if nc > len(r) {
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = w.zeroLike(r[0])
			}
		}
		return r
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case string:
			src = stringToBytes(y)
		case []Value:
			src = y
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.set(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		w.mapDel(args[0].(*hmap), args[1])
		return nil
	case "panic":
		panic(targetPanic{args[0].(iface)})
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := call.Call.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if w.truth(w.binop(op, t, t, a, r)) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.order...) {
					if !e.dead {
						w.mapDel(x, e.k)
					}
				}
			}
			return nil
		case []Value:
			for i := range x {
				w.set(&x[i], w.zeroLike(x[i]))
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.panicStr(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return &native{&fr.defers}
	}
	w.unsup("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (w *Worker) zeroLike(v Value) Value {
	switch x := v.(type) {
	case structure:
		r := make(structure, len(x))
		for i, e := range x {
			r[i] = w.zeroLike(e)
		}
		return r
	case array:
		r := make(array, len(x))
		for i, e := range x {
			r[i] = w.zeroLike(e)
		}
		return r
	case int64:
		return int64(0)
	case bool:
		return false
	case string:
		return ""
	case float64:
		return float64(0)
	case []Value:
		return []Value(nil)
	case *Value:
		return (*Value)(nil)
	case *hmap:
		return (*hmap)(nil)
	case iface:
		return iface{}
	case *term.T:
		if x.IsBool() {
			return false
		}
		return int64(0)
	case *closure, *ssa.Function:
		return (*closure)(nil)
	case *native:
		return (*native)(nil)
	case *chanv:
		return (*chanv)(nil)
	}
	return v
}

func (w *Worker) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *term.T:
		return w.branch(x)
	}
	w.badPoison(v)
	w.unsup("truth of %T", v)
	return false
}

func (w *Worker) doRecover(fr *frame) Value {
	// recover() must be exactly one level beneath the deferred function
	// (two levels beneath the panicking function).
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		p := fr.caller.pan.(targetPanic)
		fr.caller.pan = nil
		return p.v
	}
	return iface{}
}

func (w *Worker) hostPanic(err error) {
	panic(unsupported{"engine failure: " + err.Error() + "\n" + w.where()})
}

// panicStr raises a run-time panic in the interpreted program.
func (w *Worker) panicStr(msg string) {
	panic(targetPanic{w.mkError(msg)})
}

// mkError builds an error value (*errors.errorString).
func (w *Worker) mkError(msg string) iface {
	p := new(Value)
	*p = structure{msg}
	return iface{w.P.errorStringPtr, p}
}

func (w *Worker) where() string {
	var b strings.Builder
	n := 0
	for i := len(w.stack) - 1; i >= 0 && n < 25; i-- {
		fmt.Fprintf(&b, "    at %s\n", w.stack[i].name)
		n++
	}
	return b.String()
}

func (w *Worker) panicText(r any) string {
	switch x := r.(type) {
	case unsupported:
		return "unsupported: " + x.msg
	case targetPanic:
		return "panic: " + w.show(x.v)
	case pathEnd:
		return x.why
	}
	return fmt.Sprint(r)
}
