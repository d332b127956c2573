package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

func kindOf(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func kindBits(k types.BasicKind) (bits uint, unsigned bool, ok bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false, true
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	}
	return 0, false, false
}

func truncInt(v int64, k types.BasicKind) int64 {
	switch k {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// toTerm lifts a concrete or symbolic integer of kind k to a term.
func (w *Worker) toTerm(v Value, k types.BasicKind) *term.T {
	switch x := v.(type) {
	case *term.T:
		return x
	case int64:
		if _, uns, _ := kindBits(k); uns && x < 0 {
			return w.st.Const(new(big.Int).Add(big.NewInt(x), two64))
		}
		return w.st.Int64(x)
	case bool:
		return w.st.Bool(x)
	}
	w.unsup("toTerm of %T", v)
	return nil
}

// fromTerm lowers constant terms to host values.
func fromTermInt(t *term.T) Value {
	if t.Op == term.OConst {
		if t.C.IsInt64() {
			return t.C.Int64()
		}
		if t.C.IsUint64() {
			return int64(t.C.Uint64())
		}
	}
	return t
}
func fromTermBool(t *term.T) Value {
	if t.Op == term.BConst {
		return t.BV
	}
	return t
}

// wrap reduces t to the range of integer kind k.
func (w *Worker) wrap(t *term.T, k types.BasicKind) *term.T {
	bits, uns, ok := kindBits(k)
	if !ok {
		return t
	}
	var lo, hi *big.Int
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	if uns {
		lo, hi = new(big.Int), new(big.Int).Sub(m, big.NewInt(1))
	} else {
		h := new(big.Int).Lsh(big.NewInt(1), bits-1)
		lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	s := w.st
	if uns {
		return s.Mod(t, s.Const(m))
	}
	h := s.Const(new(big.Int).Neg(lo))
	return s.Sub(s.Mod(s.Add(t, h), s.Const(m)), h)
}

func (w *Worker) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if _, uns, _ := kindBits(b.Kind()); uns {
				return int64(c.Uint64())
			}
			return c.Int64()
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	if _, ok := c.Type().Underlying().(*types.Interface); ok {
		return iface{}
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

func (w *Worker) badPoison(x Value) {
	if p, ok := x.(poison); ok {
		w.unsup("use of uninitialisable value: %s", p.why)
	}
}

func (w *Worker) binop(op token.Token, t types.Type, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.eq(t, x, y)
	case token.NEQ:
		return w.not(w.eq(t, x, y))
	}
	k := kindOf(t)
	_, xs := x.(*term.T)
	_, ys := y.(*term.T)
	if xs || ys {
		return w.symBinop(op, k, kindOf(ty), x, y)
	}
	switch a := x.(type) {
	case int64:
		b, ok := y.(int64)
		if !ok {
			w.badPoison(y)
			w.unsup("binop %v on int64 and %T", op, y)
		}
		_, uns, _ := kindBits(k)
		switch op {
		case token.ADD:
			return truncInt(a+b, k)
		case token.SUB:
			return truncInt(a-b, k)
		case token.MUL:
			return truncInt(a*b, k)
		case token.QUO:
			if b == 0 {
				w.panicStr("runtime error: integer divide by zero")
			}
			if uns {
				return int64(uint64(a) / uint64(b))
			}
			return truncInt(a/b, k)
		case token.REM:
			if b == 0 {
				w.panicStr("runtime error: integer divide by zero")
			}
			if uns {
				return int64(uint64(a) % uint64(b))
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return truncInt(a^b, k)
		case token.AND_NOT:
			return a &^ b
		case token.SHL, token.SHR:
			_, yuns, _ := kindBits(kindOf(ty))
			if !yuns && b < 0 {
				w.panicStr("runtime error: negative shift amount")
			}
			sh := uint64(b)
			if op == token.SHL {
				return truncInt(a<<sh, k)
			}
			if uns {
				return int64(uint64(a) >> sh)
			}
			return a >> sh
		case token.LSS:
			if uns {
				return uint64(a) < uint64(b)
			}
			return a < b
		case token.LEQ:
			if uns {
				return uint64(a) <= uint64(b)
			}
			return a <= b
		case token.GTR:
			if uns {
				return uint64(a) > uint64(b)
			}
			return a > b
		case token.GEQ:
			if uns {
				return uint64(a) >= uint64(b)
			}
			return a >= b
		}
	case string:
		b := y.(string)
		if op == token.ADD {
			return a + b
		}
		c := w.strCmp(a, b)
		switch op {
		case token.LSS:
			return c < 0
		case token.LEQ:
			return c <= 0
		case token.GTR:
			return c > 0
		case token.GEQ:
			return c >= 0
		}
	case float64:
		b := y.(float64)
		f := func(v float64) Value {
			if k == types.Float32 {
				return float64(float32(v))
			}
			return v
		}
		switch op {
		case token.ADD:
			return f(a + b)
		case token.SUB:
			return f(a - b)
		case token.MUL:
			return f(a * b)
		case token.QUO:
			return f(a / b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	w.badPoison(x)
	w.unsup("binop %v on %T and %T (%v)", op, x, y, t)
	return nil
}

func (w *Worker) symBinop(op token.Token, k, yk types.BasicKind, x, y Value) Value {
	s := w.st
	if op == token.SHL || op == token.SHR {
		sh, ok := y.(int64)
		if !ok {
			sh = w.concretizeInt(y.(*term.T))
		}
		a := w.toTerm(x, k)
		if op == token.SHL {
			if sh > 128 {
				return int64(0)
			}
			return fromTermInt(w.wrap(s.Scale(a, new(big.Int).Lsh(big.NewInt(1), uint(sh))), k))
		}
		if sh > 128 {
			sh = 128
		}
		return fromTermInt(s.Div(a, s.Const(new(big.Int).Lsh(big.NewInt(1), uint(sh)))))
	}
	a, b := w.toTerm(x, k), w.toTerm(y, k)
	if a.IsBool() {
		switch op {
		case token.AND:
			return fromTermBool(s.And(a, b))
		case token.OR:
			return fromTermBool(s.Or(a, b))
		}
		w.unsup("bool binop %v", op)
	}
	switch op {
	case token.ADD:
		return fromTermInt(w.wrap(s.Add(a, b), k))
	case token.SUB:
		return fromTermInt(w.wrap(s.Sub(a, b), k))
	case token.MUL:
		return fromTermInt(w.wrap(s.Mul(a, b), k))
	case token.QUO:
		if w.branch(s.Eq(b, s.Int64(0))) {
			w.panicStr("runtime error: integer divide by zero")
		}
		return fromTermInt(w.wrap(s.Quo(a, b), k))
	case token.REM:
		if w.branch(s.Eq(b, s.Int64(0))) {
			w.panicStr("runtime error: integer divide by zero")
		}
		return fromTermInt(s.Rem(a, b))
	case token.LSS:
		return fromTermBool(s.Lt(a, b))
	case token.LEQ:
		return fromTermBool(s.Le(a, b))
	case token.GTR:
		return fromTermBool(s.Lt(b, a))
	case token.GEQ:
		return fromTermBool(s.Le(b, a))
	case token.AND:
		if b.Op != term.OConst {
			a, b = b, a
		}
		if b.Op == term.OConst && a.Lo != nil && a.Lo.Sign() >= 0 && b.C.Sign() >= 0 {
			// contiguous mask: ((a >> lowbit) mod 2^width) << lowbit
			if b.C.Sign() == 0 {
				return int64(0)
			}
			tz := b.C.TrailingZeroBits()
			m := new(big.Int).Rsh(b.C, tz)
			m1 := new(big.Int).Add(m, big.NewInt(1))
			if new(big.Int).And(m, m1).Sign() == 0 {
				v := s.Div(a, s.Const(new(big.Int).Lsh(big.NewInt(1), tz)))
				v = s.Mod(v, s.Const(m1))
				return fromTermInt(s.Scale(v, new(big.Int).Lsh(big.NewInt(1), tz)))
			}
		}
	case token.AND_NOT:
		if b.Op == term.OConst && b.C.Sign() >= 0 && a.Lo != nil && a.Lo.Sign() >= 0 {
			m1 := new(big.Int).Add(b.C, big.NewInt(1))
			if new(big.Int).And(b.C, m1).Sign() == 0 {
				return fromTermInt(s.Sub(a, s.Mod(a, s.Const(m1))))
			}
		}
	case token.OR:
		if a.Op == term.OConst {
			a, b = b, a
		}
		if b.Op == term.OConst && b.C.Sign() == 0 {
			return fromTermInt(a)
		}
		if r := s.Disjoint(a, b); r != nil {
			return fromTermInt(r)
		}
		if r := s.Disjoint(b, a); r != nil {
			return fromTermInt(r)
		}
	}
	w.unsup("symbolic binop %v on %v, %v", op, a, b)
	return nil
}

func (w *Worker) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *term.T:
		return fromTermBool(w.st.Not(x))
	}
	w.badPoison(v)
	w.unsup("not of %T", v)
	return nil
}

func (w *Worker) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromTermBool(w.st.And(a.(*term.T), b.(*term.T)))
}

func (w *Worker) eq(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case int64:
		switch b := y.(type) {
		case int64:
			return a == b
		case *term.T:
			return fromTermBool(w.st.Eq(w.toTerm(a, kindOf(t)), b))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *term.T:
			return fromTermBool(w.st.Eq(w.st.Bool(a), b))
		}
	case *term.T:
		return fromTermBool(w.st.Eq(a, w.toTerm(y, kindOf(t))))
	case string:
		b, ok := y.(string)
		if ok {
			return w.strEq(a, b)
		}
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case *Value:
		b, ok := y.(*Value)
		if ok {
			return a == b
		}
	case *hmap:
		b := y.(*hmap)
		return a == b
	case []Value:
		b := y.([]Value)
		// only comparison with nil is legal
		if a == nil || b == nil {
			return a == nil && b == nil
		}
	case *closure, *ssa.Function, *ssa.Builtin:
		return isNilFunc(x) && isNilFunc(y)
	case *native:
		b, ok := y.(*native)
		if ok {
			if ta, isT := a.v.(*rtype); isT {
				tb, isT := b.v.(*rtype)
				return isT && w.typeID(ta.t) == w.typeID(tb.t)
			}
		}
		return ok && a == b
	case *chanv:
		b, ok := y.(*chanv)
		if ok {
			return a == b
		}
	case unsafePtr:
		return a == y.(unsafePtr)
	case iface:
		b, ok := y.(iface)
		if !ok {
			w.unsup("iface eq with %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if w.typeID(a.t) != w.typeID(b.t) {
			return false
		}
		return w.eq(a.t, a.v, b.v)
	case structure:
		b := y.(structure)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			r = w.and(r, w.eq(st.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		b := y.(array)
		el := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range a {
			r = w.and(r, w.eq(el, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	w.badPoison(x)
	w.badPoison(y)
	w.unsup("eq on %T and %T (%v)", x, y, t)
	return nil
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	case *ssa.Builtin:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (w *Worker) unop(op token.Token, t types.Type, x Value) Value {
	switch op {
	case token.NOT:
		return w.not(x)
	case token.SUB:
		switch a := x.(type) {
		case int64:
			return truncInt(-a, kindOf(t))
		case float64:
			return -a
		case *term.T:
			return fromTermInt(w.wrap(w.st.Neg(a), kindOf(t)))
		}
	case token.XOR:
		switch a := x.(type) {
		case int64:
			return truncInt(^a, kindOf(t))
		case *term.T:
			// ^a = -a-1 (then wrapped)
			return fromTermInt(w.wrap(w.st.Sub(w.st.Neg(a), w.st.Int64(1)), kindOf(t)))
		}
	}
	w.badPoison(x)
	w.unsup("unop %v on %T", op, x)
	return nil
}

// conv converts x from type src to dst.
func (w *Worker) conv(dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	if p, ok := x.(poison); ok {
		return p
	}
	switch d := ud.(type) {
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return unsafePtr{x}
		}
		switch v := x.(type) {
		case int64:
			switch {
			case d.Info()&types.IsInteger != 0:
				return truncInt(v, d.Kind())
			case d.Info()&types.IsFloat != 0:
				_, uns, _ := kindBits(kindOf(us))
				f := float64(v)
				if uns {
					f = float64(uint64(v))
				}
				if d.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			case d.Info()&types.IsString != 0:
				return string(rune(v))
			}
		case *term.T:
			if d.Info()&types.IsInteger != 0 {
				return fromTermInt(w.wrap(v, d.Kind()))
			}
			if d.Info()&types.IsBoolean != 0 {
				return v
			}
			if d.Info()&types.IsFloat != 0 {
				return poison{"float conversion of a symbolic integer"}
			}
		case float64:
			switch {
			case d.Info()&types.IsInteger != 0:
				_, uns, _ := kindBits(d.Kind())
				if uns && v >= math.MaxInt64 {
					return int64(uint64(v))
				}
				return truncInt(int64(v), d.Kind())
			case d.Info()&types.IsFloat != 0:
				if d.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			}
		case string:
			return v
		case bool:
			return v
		case []Value:
			if d.Info()&types.IsString != 0 {
				if el, ok := us.(*types.Slice); ok && kindOf(el.Elem()) == types.Int32 {
					rs := make([]rune, len(v))
					for i, r := range v {
						rs[i] = rune(r.(int64))
					}
					return string(rs)
				}
				return w.bytesToString(v)
			}
		case complex128:
			return v
		case unsafePtr:
			return int64(0)
		}
	case *types.Slice:
		switch v := x.(type) {
		case string:
			if kindOf(d.Elem()) == types.Int32 {
				var r []Value
				for _, c := range v {
					r = append(r, int64(c))
				}
				if r == nil {
					r = []Value{}
				}
				return r
			}
			return stringToBytes(v)
		case []Value:
			return v
		}
	case *types.Pointer:
		if u, ok := x.(unsafePtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			w.unsup("unsafe pointer conversion to %v", dst)
		}
		return x
	default:
		return x
	}
	w.unsup("conversion of %T from %v to %v", x, src, dst)
	return nil
}

func stringToBytes(s string) []Value {
	r := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int64(s[i])
	}
	return r
}

func (w *Worker) bytesToString(v []Value) string {
	b := make([]byte, len(v))
	for i, e := range v {
		switch c := e.(type) {
		case int64:
			b[i] = byte(c)
		case *term.T:
			b[i] = byte(w.concretizeInt(c))
		default:
			w.badPoison(e)
			w.unsup("byte of type %T", e)
		}
	}
	return string(b)
}

func (w *Worker) bytesOf(v Value) []byte {
	switch x := v.(type) {
	case []Value:
		return []byte(w.bytesToString(x))
	case string:
		return []byte(x)
	}
	w.unsup("bytesOf %T", v)
	return nil
}

func fromBytes(b []byte) []Value {
	if b == nil {
		return nil
	}
	r := make([]Value, len(b))
	for i, c := range b {
		r[i] = int64(c)
	}
	return r
}

// deepEq is reflect.DeepEqual on values of type t.
func (w *Worker) deepEq(t types.Type, x, y Value, d int) Value {
	if d > 60 {
		w.unsup("reflect.DeepEqual nests too deeply")
	}
	if isBigInt(t) {
		return w.eq(t, x, y)
	}
	all := func(n int, f func(i int) Value) Value {
		var r Value = true
		for i := 0; i < n; i++ {
			r = w.and(r, f(i))
			if r == false {
				return false
			}
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return w.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		return all(u.NumFields(), func(i int) Value { return w.deepEq(u.Field(i).Type(), a[i], b[i], d+1) })
	case *types.Array:
		a, b := x.(array), y.(array)
		return all(len(a), func(i int) Value { return w.deepEq(u.Elem(), a[i], b[i], d+1) })
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		return all(len(a), func(i int) Value { return w.deepEq(u.Elem(), a[i], b[i], d+1) })
	case *types.Map:
		a, b := x.(*hmap), y.(*hmap)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r Value = true
		for _, e := range a.order {
			if e.dead {
				continue
			}
			f, ok := b.m[w.mapKey(e.k)]
			if !ok || f.dead {
				return false
			}
			r = w.and(r, w.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if w.typeID(a.t) != w.typeID(b.t) {
			return false
		}
		return w.deepEq(a.t, a.v, b.v, d+1)
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	}
	return w.eq(t, x, y)
}
