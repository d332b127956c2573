package interp

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json over host decoding: the text is parsed by the host's package, and
// values are built by their static types; UnmarshalJSON and MarshalJSON methods run
// in the interpreter.  Symbolic numbers inside strings stay symbolic, because their
// placeholders survive as text.

type jsonDec struct {
	src    []byte
	strict bool
}

// jsonText escapes the mark of symbolic text, a control character.
func jsonText(b []byte) []byte { return bytes.ReplaceAll(b, []byte("\x01"), []byte(`\u0001`)) }

type jsonErr struct{ msg string }

func (w *Worker) jsonTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	add := func(name string, f func(w *Worker, a []Value) Value) {
		m[name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(w, a) }
	}
	add("encoding/json.Unmarshal", func(w *Worker, a []Value) Value {
		b := jsonText(w.bytesOf(a[0]))
		if !json.Valid(b) {
			var x any
			return w.mkError(json.Unmarshal(b, &x).Error())
		}
		return w.jsonInto(b, a[1], false)
	})
	add("encoding/json.Marshal", func(w *Worker, a []Value) Value {
		i := a[0].(iface)
		b, e := w.jsonOf(i.t, i.v)
		if e != nil {
			return tuple{[]Value(nil), w.mkError(e.msg)}
		}
		return tuple{fromBytes(b), iface{}}
	})
	add("encoding/json.NewDecoder", func(w *Worker, a []Value) Value {
		io := w.P.Prog.ImportedPackage("io")
		if io == nil || io.Func("ReadAll") == nil {
			w.unsup("json.NewDecoder without io")
		}
		r := w.call(nil, io.Func("ReadAll"), []Value{a[0]}, nil).(tuple)
		p := new(Value)
		*p = &native{&jsonDec{src: jsonText(w.bytesOf(r[0]))}}
		return p
	})
	get := func(v Value) *jsonDec { return (*(v.(*Value))).(*native).v.(*jsonDec) }
	add("(*encoding/json.Decoder).DisallowUnknownFields", func(w *Worker, a []Value) Value {
		get(a[0]).strict = true
		return nil
	})
	add("(*encoding/json.Decoder).Decode", func(w *Worker, a []Value) Value {
		d := get(a[0])
		hd := json.NewDecoder(bytes.NewReader(d.src))
		var raw json.RawMessage
		if err := hd.Decode(&raw); err != nil {
			return w.mkError(err.Error())
		}
		d.src = d.src[hd.InputOffset():]
		return w.jsonInto(raw, a[1], d.strict)
	})
	return m
}

func (w *Worker) jsonInto(b []byte, dst Value, strict bool) Value {
	i := dst.(iface)
	p, ok := i.v.(*Value)
	pt, isP := types.Unalias(i.t).Underlying().(*types.Pointer)
	if !ok || !isP || p == nil {
		return w.mkError("json: Unmarshal(nil or non-pointer)")
	}
	if e := w.jsonSet(p, pt.Elem(), b, strict); e != nil {
		return w.mkError(e.msg)
	}
	return iface{}
}

var anyType = types.NewInterfaceType(nil, nil)

type jsonField struct {
	name      string
	idx       int
	omitempty bool
}

func jsonFields(st *types.Struct) []jsonField {
	var r []jsonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		n := parts[0]
		if n == "" {
			n = f.Name()
		}
		om := false
		for _, o := range parts[1:] {
			om = om || o == "omitempty"
		}
		r = append(r, jsonField{n, i, om})
	}
	return r
}

// members of an object in order of appearance.
func jsonMembers(b []byte) (ks []string, vs []json.RawMessage) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.Token()
	for d.More() {
		k, _ := d.Token()
		var v json.RawMessage
		d.Decode(&v)
		ks = append(ks, k.(string))
		vs = append(vs, v)
	}
	return
}

// jsonSet decodes valid JSON text into the variable.
func (w *Worker) jsonSet(p *Value, t types.Type, b []byte, strict bool) *jsonErr {
	b = bytes.TrimSpace(b)
	mism := func() *jsonErr {
		return &jsonErr{"json: cannot unmarshal " + string(b) + " into Go value of type " + t.String()}
	}
	null := string(b) == "null"
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if null {
			w.set(p, w.zero(t))
			return nil
		}
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = w.zero(pt.Elem())
			w.set(p, q)
		}
		return w.jsonSet(q, pt.Elem(), b, strict)
	}
	if u := w.findMethod(types.NewPointer(t), "UnmarshalJSON"); u != nil {
		e := w.call(nil, u, []Value{p, fromBytes(b)}, nil).(iface)
		if e.t != nil {
			return &jsonErr{"json: unmarshal"}
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if null {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			var s string
			if json.Unmarshal(b, &s) != nil {
				return mism()
			}
			w.set(p, s)
		case u.Info()&types.IsBoolean != 0:
			var s bool
			if json.Unmarshal(b, &s) != nil {
				return mism()
			}
			w.set(p, s)
		case u.Info()&types.IsFloat != 0:
			var s float64
			if json.Unmarshal(b, &s) != nil {
				return mism()
			}
			w.set(p, s)
		case u.Info()&types.IsInteger != 0:
			bits, uns, _ := kindBits(u.Kind())
			if uns {
				var s uint64
				if json.Unmarshal(b, &s) != nil || bits < 64 && s>>bits != 0 {
					return mism()
				}
				w.set(p, int64(s))
			} else {
				var s int64
				if json.Unmarshal(b, &s) != nil || bits < 64 && (s>>(bits-1) != 0 && s>>(bits-1) != -1) {
					return mism()
				}
				w.set(p, s)
			}
		default:
			return mism()
		}
	case *types.Struct:
		if null {
			return nil
		}
		if b[0] != '{' {
			return mism()
		}
		fs := jsonFields(u)
		ks, vs := jsonMembers(b)
		s := (*p).(structure)
		var first *jsonErr
		for i, k := range ks {
			var f *jsonField
			for j := range fs {
				if fs[j].name == k {
					f = &fs[j]
					break
				}
			}
			for j := 0; f == nil && j < len(fs); j++ {
				if strings.EqualFold(fs[j].name, k) {
					f = &fs[j]
				}
			}
			if f == nil {
				if strict {
					return &jsonErr{"json: unknown field " + k}
				}
				continue
			}
			if e := w.jsonSet(&s[f.idx], u.Field(f.idx).Type(), vs[i], strict); e != nil && first == nil {
				first = e
			}
		}
		return first
	case *types.Slice:
		if null {
			w.set(p, w.zero(t))
			return nil
		}
		if b[0] != '[' {
			return mism()
		}
		var raw []json.RawMessage
		json.Unmarshal(b, &raw)
		r := make([]Value, len(raw))
		for i, x := range raw {
			r[i] = w.zero(u.Elem())
			if e := w.jsonSet(&r[i], u.Elem(), x, strict); e != nil {
				return e
			}
		}
		w.set(p, r)
	case *types.Map:
		if null {
			w.set(p, w.zero(t))
			return nil
		}
		if b[0] != '{' {
			return mism()
		}
		if kindOf(u.Key()) != types.String {
			w.unsup("json into %s", t)
		}
		m, _ := (*p).(*hmap)
		if m == nil {
			m = &hmap{m: map[any]*mapEntry{}}
			w.set(p, m)
		}
		ks, vs := jsonMembers(b)
		for i, k := range ks {
			v := w.zero(u.Elem())
			if e := w.jsonSet(&v, u.Elem(), vs[i], strict); e != nil {
				return e
			}
			w.mapSet(m, k, v)
		}
	case *types.Interface:
		if u.NumMethods() != 0 {
			return mism()
		}
		w.set(p, w.jsonAny(b))
	default:
		w.unsup("json into %s", t)
	}
	return nil
}

func (w *Worker) jsonAny(b []byte) Value {
	b = bytes.TrimSpace(b)
	put := func(t types.Type) Value {
		v := w.zero(t)
		w.jsonSet(&v, t, b, false)
		return iface{t, v}
	}
	switch b[0] {
	case 'n':
		return iface{}
	case '"':
		return put(types.Typ[types.String])
	case 't', 'f':
		return put(types.Typ[types.Bool])
	case '{':
		return put(types.NewMap(types.Typ[types.String], anyType))
	case '[':
		return put(types.NewSlice(anyType))
	}
	return put(types.Typ[types.Float64])
}

func (w *Worker) jsonOf(t types.Type, v Value) ([]byte, *jsonErr) {
	if t == nil {
		return []byte("null"), nil
	}
	if p, ok := v.(*Value); ok {
		if p == nil {
			return []byte("null"), nil
		}
	}
	if m := w.findMethod(t, "MarshalJSON"); m != nil {
		r := w.call(nil, m, []Value{v}, nil).(tuple)
		if r[1].(iface).t != nil {
			return nil, &jsonErr{"json: marshal"}
		}
		return w.bytesOf(r[0]), nil
	}
	host := func(x any) ([]byte, *jsonErr) {
		b, err := json.Marshal(x)
		if err != nil {
			return nil, &jsonErr{err.Error()}
		}
		return b, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return w.jsonOf(u.Elem(), *(v.(*Value)))
	case *types.Basic:
		switch x := v.(type) {
		case string, bool, float64:
			return host(x)
		case int64:
			if _, uns, _ := kindBits(u.Kind()); uns {
				return host(uint64(x))
			}
			return host(x)
		}
	case *types.Interface:
		i := v.(iface)
		return w.jsonOf(i.t, i.v)
	case *types.Map:
		m, _ := v.(*hmap)
		if m == nil {
			return []byte("null"), nil
		}
		out := map[string]json.RawMessage{}
		for _, e := range m.order {
			if e.dead {
				continue
			}
			k, ok := e.k.(string)
			if !ok {
				w.unsup("json of %s", t)
			}
			b, er := w.jsonOf(u.Elem(), e.v)
			if er != nil {
				return nil, er
			}
			out[k] = b
		}
		return host(out)
	case *types.Slice:
		s, _ := v.([]Value)
		if s == nil {
			return []byte("null"), nil
		}
		out := []json.RawMessage{}
		for _, e := range s {
			b, er := w.jsonOf(u.Elem(), e)
			if er != nil {
				return nil, er
			}
			out = append(out, b)
		}
		return host(out)
	case *types.Struct:
		s := v.(structure)
		var buf bytes.Buffer
		buf.WriteByte('{')
		fs := jsonFields(u)
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].idx < fs[j].idx })
		for _, f := range fs {
			if f.omitempty {
				w.unsup("json of %s", t)
			}
			b, er := w.jsonOf(u.Field(f.idx).Type(), s[f.idx])
			if er != nil {
				return nil, er
			}
			if buf.Len() > 1 {
				buf.WriteByte(',')
			}
			k, _ := json.Marshal(f.name)
			buf.Write(k)
			buf.WriteByte(':')
			buf.Write(b)
		}
		buf.WriteByte('}')
		return buf.Bytes(), nil
	}
	w.unsup("json of %s", t)
	return nil, nil
}
