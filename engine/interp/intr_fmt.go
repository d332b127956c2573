package interp

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

// goVal renders an interface value as a host value for formatting.
func (w *Worker) goVal(v Value, verb rune) any {
	i, ok := v.(iface)
	if !ok {
		if p, isP := v.(poison); isP {
			return "?" + p.why
		}
		return w.hostVal(nil, v)
	}
	if i.t == nil {
		return nil
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 0 || verb == 'x' {
		for _, name := range []string{"Error", "String"} {
			if name == "String" && verb == 'x' {
				continue
			}
			if m := w.methodNoArgs(i.t, name); m != nil {
				if p, isP := i.v.(*Value); isP && p == nil {
					return "<nil>"
				}
				r := w.call(nil, m, []Value{i.v}, nil)
				if s, ok := r.(string); ok {
					return fmtStr(s)
				}
			}
		}
	}
	return w.hostVal(i.t, i.v)
}

type fmtStr string

func (w *Worker) methodNoArgs(t types.Type, name string) *ssa.Function {
	k := methName{w.typeID(t), name}
	if f, ok := w.methNames[k]; ok {
		return f
	}
	var f *ssa.Function
	switch t.Underlying().(type) {
	case *types.Interface:
	default:
		f = w.findMethod(t, name)
		if f != nil {
			sig := f.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || kindOf(sig.Results().At(0).Type()) != types.String {
				f = nil
			}
		}
	}
	w.methNames[k] = f
	return f
}

type methName struct {
	t    int
	name string
}

func (w *Worker) hostVal(t types.Type, v Value) any {
	switch x := v.(type) {
	case int64:
		if t != nil {
			bits, uns, ok := kindBits(kindOf(t))
			if ok && uns {
				if bits == 8 {
					return uint8(x)
				}
				return uint64(x)
			}
		}
		return x
	case bool, string, float64, complex128:
		return x
	case *term.T:
		if x.IsBool() {
			return "<symbolic bool>"
		}
		return fmtStr(w.symString("I", x))
	case []Value:
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				if kindOf(s.Elem()) == types.Uint8 {
					return []byte(w.bytesToString(x))
				}
				r := make([]any, len(x))
				for i, e := range x {
					r[i] = w.goVal(iface{s.Elem(), e}, 'v')
					if it, ok := e.(iface); ok {
						r[i] = w.goVal(it, 'v')
					}
				}
				return r
			}
		}
		return w.show(x)
	case array:
		if t != nil {
			if s, ok := t.Underlying().(*types.Array); ok && kindOf(s.Elem()) == types.Uint8 {
				return []byte(w.bytesToString([]Value(x)))
			}
		}
		return w.show(x)
	case iface:
		return w.goVal(x, 'v')
	}
	return w.show(v)
}

func (w *Worker) format(f string, args []Value) string {
	var hs []any
	ai := 0
	// work out which verb each argument is used with
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if ai < len(args) {
			verb := rune(f[i])
			if verb == 'w' {
				verb = 'v'
			}
			var h any
			if verb == 'T' {
				if it, ok := args[ai].(iface); ok && it.t != nil {
					h = tname(it.t)
				}
			} else {
				h = w.goVal(args[ai], verb)
			}
			hs = append(hs, h)
			ai++
		}
	}
	for ; ai < len(args); ai++ {
		hs = append(hs, w.goVal(args[ai], 'v'))
	}
	f = strings.ReplaceAll(f, "%w", "%v")
	f = strings.ReplaceAll(f, "%T", "%v")
	f = strings.ReplaceAll(f, "%+v", "%v")
	f = strings.ReplaceAll(f, "%#v", "%v")
	// symbolic integers are rendered as strings
	for i, h := range hs {
		if s, ok := h.(fmtStr); ok {
			hs[i] = string(s)
			if strings.HasPrefix(string(s), symMark) {
				f = nthVerbToV(f, i)
			}
		}
	}
	return fmt.Sprintf(f, hs...)
}

func nthVerbToV(f string, n int) string {
	var b strings.Builder
	k := 0
	for i := 0; i < len(f); i++ {
		b.WriteByte(f[i])
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			continue
		}
		if f[j] == '%' {
			b.WriteByte('%')
			i = j
			continue
		}
		if k == n {
			b.WriteByte('v')
		} else {
			b.WriteString(f[i+1 : j+1])
		}
		k++
		i = j
	}
	return b.String()
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) wrapErr(msg string, err Value) Value {
	p := new(Value)
	*p = structure{msg, err}
	return iface{types.NewPointer(w.P.Pkgs["fmt"].Type("wrapError").Type()), p}
}

// show renders any value for diagnostics.
func (w *Worker) show(v Value) string { return w.showD(v, 0) }
func (w *Worker) showD(v Value, d int) string {
	if d > 5 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case iface:
		if x.t == nil {
			return "nil"
		}
		if m := w.methodNoArgs(x.t, "Error"); m != nil && w.depth < maxDepth-100 {
			var s string
			func() {
				defer func() {
					if r := recover(); r != nil {
						s = tname(x.t) + "{…}"
					}
				}()
				s, _ = w.call(nil, m, []Value{x.v}, nil).(string)
			}()
			return s
		}
		return w.showD(x.v, d+1)
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + w.showD(*x, d+1)
	case structure:
		var p []string
		for _, e := range x {
			p = append(p, w.showD(e, d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case array:
		return w.showD([]Value(x), d)
	case []Value:
		var p []string
		for i, e := range x {
			if i > 40 {
				p = append(p, "…")
				break
			}
			p = append(p, w.showD(e, d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *hmap:
		if x == nil {
			return "map[]"
		}
		var p []string
		for _, e := range x.order {
			if !e.dead {
				p = append(p, w.showD(e.k, d+1)+":"+w.showD(e.v, d+1))
			}
		}
		return "map[" + strings.Join(p, " ") + "]"
	case *ssa.Function:
		if x == nil {
			return "nil"
		}
		return x.String()
	case *closure:
		if x == nil {
			return "nil"
		}
		return x.fn.String()
	case *native:
		return fmt.Sprintf("native(%T)", x.v)
	case *term.T:
		s := x.String()
		if len(s) > 200 {
			s = s[:200] + "…"
		}
		return s
	case poison:
		return "poison(" + x.why + ")"
	}
	return fmt.Sprint(v)
}

func (w *Worker) fmtTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	vari := func(v Value) []Value {
		s, _ := v.([]Value)
		return s
	}
	sprint := func(w *Worker, a []Value, ln bool) string {
		hs := make([]any, len(a))
		for i, e := range a {
			h := w.goVal(e, 'v')
			if s, ok := h.(fmtStr); ok {
				h = string(s)
			}
			hs[i] = h
		}
		if ln {
			return fmt.Sprintln(hs...)
		}
		return fmt.Sprint(hs...)
	}
	m["fmt.Sprintf"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.format(a[0].(string), vari(a[1]))
	}
	m["fmt.Sprint"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return sprint(w, vari(a[0]), false) }
	m["fmt.Sprintln"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return sprint(w, vari(a[0]), true) }
	m["fmt.Errorf"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(string)
		args := vari(a[1])
		msg := w.format(f, args)
		ai := 0
		var wrapped []Value
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && ai < len(args) {
				if e, ok := args[ai].(iface); ok && e.t != nil {
					wrapped = append(wrapped, e)
				}
			}
			ai++
		}
		switch len(wrapped) {
		case 0:
			return w.mkError(msg)
		case 1:
			return w.wrapErr(msg, wrapped[0])
		}
		p := new(Value)
		*p = structure{msg, wrapped}
		return iface{types.NewPointer(w.P.Pkgs["fmt"].Type("wrapErrors").Type()), p}
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		m["fmt."+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return tuple{int64(0), iface{}} }
	}
	fp := func(get func(w *Worker, a []Value) string) Intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			s := get(w, a)
			wr := a[0].(iface)
			mth := w.findMethod(wr.t, "Write")
			return w.call(fr, mth, []Value{wr.v, stringToBytes(s)}, nil)
		}
	}
	m["fmt.Fprintf"] = fp(func(w *Worker, a []Value) string { return w.format(a[1].(string), vari(a[2])) })
	m["fmt.Fprint"] = fp(func(w *Worker, a []Value) string { return sprint(w, vari(a[1]), false) })
	m["fmt.Fprintln"] = fp(func(w *Worker, a []Value) string { return sprint(w, vari(a[1]), true) })
	return m
}

func bigFromString(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 0) }
