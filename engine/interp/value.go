// Package interp executes go/ssa code with symbolic scalars.
package interp

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

// Value is one of:
//
//	int64            any concrete integer kind (bit pattern)
//	*term.T          symbolic integer or boolean; content of a math/big.Int cell
//	bool float64 complex128 string
//	structure array []Value (slice) tuple
//	*Value           pointer (nil allowed)
//	*hmap            map
//	iface            interface
//	*ssa.Function *closure *ssa.Builtin   functions
//	*native          host object
//	poison           result of an initialiser that could not be executed
type Value = any

type structure []Value
type array []Value
type tuple []Value
type iface struct {
	t types.Type
	v Value
}
type closure struct {
	fn  *ssa.Function
	env []Value
}
type native struct{ v any }
type poison struct{ why string }
type unsafePtr struct{ v Value }

type mapEntry struct {
	k, v Value
	dead bool
}
type hmap struct {
	m     map[any]*mapEntry
	order []*mapEntry
	n     int
}

type targetPanic struct{ v iface }
type unsupported struct{ msg string }
type pathEnd struct{ why string }

func copyVal(v Value) Value {
	switch x := v.(type) {
	case structure:
		r := make(structure, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	case array:
		r := make(array, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

func (w *Worker) unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---- zero values -------------------------------------------------------------

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (w *Worker) zero(t types.Type) Value {
	if mk, ok := w.zeros[t]; ok {
		return mk()
	}
	mk := w.zeroMaker(t)
	w.zeros[t] = mk
	return mk()
}

func (w *Worker) zeroMaker(t types.Type) func() Value {
	k := func(v Value) func() Value { return func() Value { return v } }
	if isBigInt(t) {
		return k(w.st.Int64(0))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return k(unsafePtr{})
		case u.Info()&types.IsBoolean != 0:
			return k(false)
		case u.Info()&types.IsInteger != 0:
			return k(int64(0))
		case u.Info()&types.IsFloat != 0:
			return k(float64(0))
		case u.Info()&types.IsComplex != 0:
			return k(complex128(0))
		case u.Info()&types.IsString != 0:
			return k("")
		case u.Kind() == types.UntypedNil:
			return k(nil)
		}
	case *types.Pointer:
		return k((*Value)(nil))
	case *types.Slice:
		return k([]Value(nil))
	case *types.Map:
		return k((*hmap)(nil))
	case *types.Signature:
		return k((*closure)(nil))
	case *types.Interface:
		return k(iface{})
	case *types.Chan:
		return k((*chanv)(nil))
	case *types.Tuple:
		return func() Value {
			r := make(tuple, u.Len())
			for i := range r {
				r[i] = w.zero(u.At(i).Type())
			}
			return r
		}
	case *types.Array:
		n := int(u.Len())
		el := u.Elem()
		return func() Value {
			r := make(array, n)
			if n > 0 {
				z := w.zero(el)
				r[0] = z
				switch z.(type) {
				case structure, array:
					for i := 1; i < n; i++ {
						r[i] = w.zero(el)
					}
				default:
					for i := 1; i < n; i++ {
						r[i] = z
					}
				}
			}
			return r
		}
	case *types.Struct:
		n := u.NumFields()
		fs := make([]types.Type, n)
		for i := range fs {
			fs[i] = u.Field(i).Type()
		}
		return func() Value {
			r := make(structure, n)
			for i := range r {
				r[i] = w.zero(fs[i])
			}
			return r
		}
	}
	panic(unsupported{fmt.Sprintf("zero value of %v", t)})
}

// ---- maps ----------------------------------------------------------------------

type ptrKey struct{ p *Value }
type ifKey struct {
	t int
	k any
}

func (w *Worker) mapKey(v Value) any {
	switch x := v.(type) {
	case int64, bool, float64:
		return x
	case string:
		w.checkStr(x)
		return x
	case *Value:
		return ptrKey{x}
	case iface:
		if x.t == nil {
			return nil
		}
		return ifKey{w.typeID(x.t), w.mapKey(x.v)}
	case structure:
		var b strings.Builder
		for _, e := range x {
			fmt.Fprintf(&b, "%T:%#v;", e, w.mapKey(e))
		}
		return "S" + b.String()
	case array:
		var b strings.Builder
		for _, e := range x {
			fmt.Fprintf(&b, "%T:%#v;", e, w.mapKey(e))
		}
		return "A" + b.String()
	case *term.T:
		return w.concretize(x)
	case *native:
		return x
	}
	w.unsup("map key of type %T", v)
	return nil
}

func (w *Worker) mapGet(m *hmap, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	e, ok := m.m[w.mapKey(k)]
	if !ok {
		return nil, false
	}
	return e.v, true
}

func (w *Worker) mapSet(m *hmap, k, v Value) {
	if m == nil {
		w.panicStr("assignment to entry in nil map")
	}
	kk := w.mapKey(k)
	if e, ok := m.m[kk]; ok {
		w.set(&e.v, v)
		return
	}
	e := &mapEntry{k: k, v: v}
	m.m[kk] = e
	n := len(m.order)
	m.order = append(m.order, e)
	m.n++
	if w.journal {
		w.undo = append(w.undo, undoRec{f: func() {
			delete(m.m, kk)
			m.order = m.order[:n]
			m.n--
		}})
	}
}

func (w *Worker) mapDel(m *hmap, k Value) {
	if m == nil {
		return
	}
	kk := w.mapKey(k)
	e, ok := m.m[kk]
	if !ok {
		return
	}
	delete(m.m, kk)
	e.dead = true
	m.n--
	if w.journal {
		w.undo = append(w.undo, undoRec{f: func() {
			m.m[kk] = e
			e.dead = false
			m.n++
		}})
	}
}

type mapIter struct {
	m   *hmap
	ord []*mapEntry
	i   int
}

func (it *mapIter) next() tuple {
	for it.i < len(it.ord) {
		e := it.ord[it.i]
		it.i++
		if e.dead {
			continue
		}
		return tuple{true, e.k, copyVal(e.v)}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next() tuple {
	for i, r := range it.s[it.i:] {
		p := it.i + i
		n := len(string(r))
		if r == 0xFFFD {
			n = 1
			if strings.HasPrefix(it.s[p:], "\uFFFD") {
				n = 3
			}
		}
		it.i = p + n
		return tuple{true, int64(p), int64(r)}
	}
	return tuple{false, int64(0), int64(0)}
}

// ---- type identity ----------------------------------------------------------------

func (w *Worker) typeID(t types.Type) int {
	if id, ok := w.typeIDs[t]; ok {
		return id
	}
	if id := w.typeMap.At(t); id != nil {
		w.typeIDs[t] = id.(int)
		return id.(int)
	}
	id := w.typeMap.Len() + 1
	w.typeMap.Set(t, id)
	w.typeIDs[t] = id
	return id
}

// ---- string placeholders for symbolic values -----------------------------------------

const symMark = "\x01#"

// symString renders a symbolic term as an opaque string that can be parsed
// back but not compared.
func (w *Worker) symString(kind string, t *term.T) string {
	if t.Op == term.OConst {
		return t.C.String()
	}
	w.symStrs[t.ID] = t
	return fmt.Sprintf("%s%s%d#", symMark, kind, t.ID)
}

func (w *Worker) checkStr(s string) {
	if len(s) >= 2 && strings.Contains(s, symMark) {
		w.unsup("comparison of a string rendered from a symbolic value: %q", s)
	}
}

// ---- misc ----------------------------------------------------------------------------

func bigOf(v int64) *big.Int { return big.NewInt(v) }

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
