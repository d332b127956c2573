package interp

import (
	"math/big"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

// cell of a *big.Int
func (w *Worker) big(v Value) *term.T {
	p, ok := v.(*Value)
	if !ok {
		w.badPoison(v)
		w.unsup("*big.Int is %T", v)
	}
	if p == nil {
		w.nilDeref()
	}
	t, ok := (*p).(*term.T)
	if !ok {
		w.badPoison(*p)
		w.unsup("big.Int cell holds %T", *p)
	}
	return t
}

func (w *Worker) newBig(t *term.T) *Value {
	p := new(Value)
	*p = t
	return p
}

func (w *Worker) setBig(v Value, t *term.T) Value {
	p := v.(*Value)
	if p == nil {
		w.nilDeref()
	}
	w.set(p, t)
	return p
}

func (w *Worker) nonZero(t *term.T) {
	if w.branch(w.st.Eq(t, w.st.Int64(0))) {
		w.panicStr("division by zero")
	}
}

// nrm splits on the sign of a divisor; division terms need a positive one.
func (w *Worker) divisor(b *term.T) (*term.T, bool) {
	w.nonZero(b)
	if w.branch(w.st.Lt(w.st.Int64(0), b)) {
		return b, false
	}
	return w.st.Neg(b), true
}

func (w *Worker) quo(a, b *term.T) *term.T {
	b, neg := w.divisor(b)
	q := w.st.Quo(a, b)
	if neg {
		return w.st.Neg(q)
	}
	return q
}

func (w *Worker) rem(a, b *term.T) *term.T {
	b, _ = w.divisor(b)
	return w.st.Rem(a, b)
}

var decPrec = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

// roundHalfEven is round-half-to-even of d / 10^18.
func (w *Worker) roundHalfEven(d *term.T) *term.T {
	s := w.st
	if d.Op == term.OConst {
		q, r := new(big.Int).QuoRem(new(big.Int).Abs(d.C), decPrec, new(big.Int))
		r.Lsh(r, 1)
		if c := r.Cmp(decPrec); c > 0 || (c == 0 && q.Bit(0) == 1) {
			q.Add(q, big.NewInt(1))
		}
		if d.C.Sign() < 0 {
			q.Neg(q)
		}
		return s.Const(q)
	}
	two := big.NewInt(2)
	p2 := s.Const(new(big.Int).Mul(decPrec, two))
	n := s.Add(s.Scale(d, two), s.Const(decPrec))
	r := s.Div(n, p2) // floor(d/P + 1/2): ties go up
	if r.Op != term.ODiv {
		// an exact quotient, or already simplified
		if rest := s.Sub(n, s.Add(s.Mul(r, p2), s.Const(decPrec))); rest.Op == term.OConst && rest.C.Sign() == 0 {
			return r
		}
	}
	tie := s.Eq(n, s.Mul(r, p2))
	odd := s.Eq(s.Mod(r, s.Int64(2)), s.Int64(1))
	return s.Ite(s.And(tie, odd), s.Sub(r, s.Int64(1)), r)
}

func (w *Worker) bigTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	b := func(name string, f func(w *Worker, a []Value) Value) {
		m["(*math/big.Int)."+name] = func(w *Worker, fr *frame, fn *ssa.Function, args []Value) Value { return f(w, args) }
	}
	bin := func(name string, f func(w *Worker, x, y *term.T) *term.T) {
		b(name, func(w *Worker, a []Value) Value { return w.setBig(a[0], f(w, w.big(a[1]), w.big(a[2]))) })
	}
	un := func(name string, f func(w *Worker, x *term.T) *term.T) {
		b(name, func(w *Worker, a []Value) Value { return w.setBig(a[0], f(w, w.big(a[1]))) })
	}
	bin("Add", func(w *Worker, x, y *term.T) *term.T { return w.st.Add(x, y) })
	bin("Sub", func(w *Worker, x, y *term.T) *term.T { return w.st.Sub(x, y) })
	bin("Mul", func(w *Worker, x, y *term.T) *term.T { return w.st.Mul(x, y) })
	bin("Quo", func(w *Worker, x, y *term.T) *term.T { return w.quo(x, y) })
	bin("Rem", func(w *Worker, x, y *term.T) *term.T { return w.rem(x, y) })
	bin("Div", func(w *Worker, x, y *term.T) *term.T {
		d, neg := w.divisor(y)
		q := w.st.Div(x, d)
		if neg {
			q = w.st.Neg(q)
		}
		return q
	})
	bin("Mod", func(w *Worker, x, y *term.T) *term.T {
		d, _ := w.divisor(y)
		return w.st.Mod(x, d)
	})
	b("QuoRem", func(w *Worker, a []Value) Value {
		x, y := w.big(a[1]), w.big(a[2])
		q := w.quo(x, y)
		r := w.st.Sub(x, w.st.Mul(q, y))
		w.setBig(a[0], q)
		w.setBig(a[3], r)
		return tuple{a[0], a[3]}
	})
	b("DivMod", func(w *Worker, a []Value) Value {
		x, y := w.big(a[1]), w.big(a[2])
		d, neg := w.divisor(y)
		q, r := w.st.Div(x, d), w.st.Mod(x, d)
		if neg {
			q = w.st.Neg(q)
		}
		w.setBig(a[0], q)
		w.setBig(a[3], r)
		return tuple{a[0], a[3]}
	})
	un("Set", func(w *Worker, x *term.T) *term.T { return x })
	un("Neg", func(w *Worker, x *term.T) *term.T { return w.st.Neg(x) })
	un("Abs", func(w *Worker, x *term.T) *term.T { return w.st.Abs(x) })
	b("Cmp", func(w *Worker, a []Value) Value { return fromTermInt(w.st.CmpT(w.big(a[0]), w.big(a[1]))) })
	b("CmpAbs", func(w *Worker, a []Value) Value {
		return fromTermInt(w.st.CmpT(w.st.Abs(w.big(a[0])), w.st.Abs(w.big(a[1]))))
	})
	b("Sign", func(w *Worker, a []Value) Value { return fromTermInt(w.st.CmpT(w.big(a[0]), w.st.Int64(0))) })
	b("BitLen", func(w *Worker, a []Value) Value { return fromTermInt(w.st.BitLen(w.big(a[0]))) })
	b("SetInt64", func(w *Worker, a []Value) Value { return w.setBig(a[0], w.toTerm(a[1], 0)) })
	b("SetUint64", func(w *Worker, a []Value) Value {
		if c, ok := a[1].(int64); ok {
			return w.setBig(a[0], w.st.Const(new(big.Int).SetUint64(uint64(c))))
		}
		return w.setBig(a[0], a[1].(*term.T))
	})
	b("Int64", func(w *Worker, a []Value) Value { return fromTermInt(w.wrap(w.big(a[0]), 6 /* types.Int64 */)) })
	b("Uint64", func(w *Worker, a []Value) Value { return fromTermInt(w.wrap(w.big(a[0]), 11 /* types.Uint64 */)) })
	b("IsInt64", func(w *Worker, a []Value) Value {
		t := w.big(a[0])
		return fromTermBool(w.st.And(w.st.Le(w.st.Int64(-1<<63), t), w.st.Le(t, w.st.Int64(1<<63-1))))
	})
	b("IsUint64", func(w *Worker, a []Value) Value {
		t := w.big(a[0])
		return fromTermBool(w.st.And(w.st.Le(w.st.Int64(0), t), w.st.Lt(t, w.st.Const(two64))))
	})
	b("Exp", func(w *Worker, a []Value) Value {
		x, y := w.big(a[1]), w.big(a[2])
		if y.Op != term.OConst || a[3].(*Value) != nil && w.big(a[3]).Op == term.OConst && w.big(a[3]).C.Sign() != 0 {
			w.unsup("big.Int.Exp")
		}
		if x.Op == term.OConst {
			return w.setBig(a[0], w.st.Const(new(big.Int).Exp(x.C, y.C, nil)))
		}
		r := w.st.Int64(1)
		for i := int64(0); i < y.C.Int64(); i++ {
			r = w.st.Mul(r, x)
		}
		return w.setBig(a[0], r)
	})
	b("Lsh", func(w *Worker, a []Value) Value {
		return w.setBig(a[0], w.st.Scale(w.big(a[1]), new(big.Int).Lsh(big.NewInt(1), uint(w.asInt(a[2])))))
	})
	b("Rsh", func(w *Worker, a []Value) Value {
		return w.setBig(a[0], w.st.Div(w.big(a[1]), w.st.Const(new(big.Int).Lsh(big.NewInt(1), uint(w.asInt(a[2]))))))
	})
	b("String", func(w *Worker, a []Value) Value {
		if p := a[0].(*Value); p == nil {
			return "<nil>"
		}
		return w.symString("I", w.big(a[0]))
	})
	b("Text", func(w *Worker, a []Value) Value {
		t := w.big(a[0])
		if t.Op == term.OConst {
			return t.C.Text(int(w.asInt(a[1])))
		}
		return w.symString("I", t)
	})
	b("MarshalText", func(w *Worker, a []Value) Value {
		if p := a[0].(*Value); p == nil {
			return tuple{fromBytes([]byte("<nil>")), iface{}}
		}
		return tuple{fromBytes([]byte(w.symString("I", w.big(a[0])))), iface{}}
	})
	b("UnmarshalText", func(w *Worker, a []Value) Value {
		s := string(w.bytesOf(a[1]))
		t, ok := w.parseInt(s, 0)
		if !ok {
			return w.mkError("math/big: cannot unmarshal " + s + " into a *big.Int")
		}
		w.setBig(a[0], t)
		return iface{}
	})
	b("SetString", func(w *Worker, a []Value) Value {
		t, ok := w.parseInt(a[1].(string), int(w.asInt(a[2])))
		if !ok {
			return tuple{(*Value)(nil), false}
		}
		return tuple{w.setBig(a[0], t), true}
	})
	b("Sqrt", func(w *Worker, a []Value) Value {
		x := w.big(a[1])
		if x.Op != term.OConst {
			w.unsup("big.Int.Sqrt of a symbolic value")
		}
		return w.setBig(a[0], w.st.Const(new(big.Int).Sqrt(x.C)))
	})
	b("IsProbablyPrime", func(w *Worker, a []Value) Value { w.unsup("IsProbablyPrime"); return nil })
	m["math/big.NewInt"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.newBig(w.toTerm(a[0], 0))
	}
	dec := func(name string, f func(w *Worker, d *term.T) *term.T) {
		m["cosmossdk.io/math."+name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.setBig(a[0], f(w, w.big(a[0])))
		}
	}
	dec("chopPrecisionAndRound", func(w *Worker, d *term.T) *term.T {
		if d.Lo != nil && d.Lo.Sign() >= 0 {
			return w.roundHalfEven(d)
		}
		if w.branch(w.st.Le(w.st.Int64(0), d)) {
			return w.roundHalfEven(d)
		}
		return w.st.Neg(w.roundHalfEven(w.st.Neg(d)))
	})
	dec("chopPrecisionAndRoundUp", func(w *Worker, d *term.T) *term.T {
		// negative: truncated towards zero; positive: ceiling.  Both are -floor(-d/P).
		return w.st.Neg(w.st.Div(w.st.Neg(d), w.st.Const(decPrec)))
	})
	m["(cosmossdk.io/math.LegacyDec).String"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(structure)[0].(*Value)
		if p == nil {
			return "<nil>"
		}
		t := w.big(p)
		if t.Op == term.OConst {
			return decString(t.C)
		}
		return w.symString("D", t)
	}
	m["cosmossdk.io/math.bigIntOverflows"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(a[0])
		lim := w.st.Const(new(big.Int).Lsh(big.NewInt(1), 256))
		return fromTermBool(w.st.Or(w.st.Le(lim, t), w.st.Le(t, w.st.Neg(lim))))
	}
	m["cosmossdk.io/math.LegacyNewDecFromStr"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(string)
		if t, ok := w.symParse("D", s); ok {
			return tuple{structure{w.newBig(t)}, iface{}}
		}
		w.checkStr(s)
		d, ok := parseDec(s)
		if !ok {
			return tuple{structure{(*Value)(nil)}, w.mkError("invalid decimal " + s)}
		}
		return tuple{structure{w.newBig(w.st.Const(d))}, iface{}}
	}
	return m
}

func parseDec(s string) (*big.Int, bool) {
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	ip, fp := s, ""
	dots := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			dots++
			ip, fp = s[:i], s[i+1:]
		} else if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	if dots > 1 || ip == "" || (dots == 1 && fp == "") || len(fp) > 18 {
		return nil, false
	}
	for len(fp) < 18 {
		fp += "0"
	}
	r, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, false
	}
	if neg {
		r.Neg(r)
	}
	return r, true
}

func decString(c *big.Int) string {
	neg := c.Sign() < 0
	s := new(big.Int).Abs(c).String()
	for len(s) < 19 {
		s = "0" + s
	}
	s = s[:len(s)-18] + "." + s[len(s)-18:]
	if neg {
		s = "-" + s
	}
	return s
}

func (w *Worker) symParse(kind, s string) (*term.T, bool) {
	pre := symMark + kind
	if len(s) < len(pre)+2 || s[:len(pre)] != pre || s[len(s)-1] != '#' {
		return nil, false
	}
	id := 0
	for _, c := range s[len(pre) : len(s)-1] {
		if c < '0' || c > '9' {
			return nil, false
		}
		id = id*10 + int(c-'0')
	}
	t, ok := w.symStrs[id]
	return t, ok
}

func (w *Worker) parseInt(s string, base int) (*term.T, bool) {
	if t, ok := w.symParse("I", s); ok {
		return t, true
	}
	w.checkStr(s)
	r, ok := new(big.Int).SetString(s, base)
	if !ok {
		return nil, false
	}
	return w.st.Const(r), true
}
