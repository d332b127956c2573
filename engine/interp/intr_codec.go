package interp

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

// Encoded messages that may hold symbolic fields are represented by opaque
// tokens: byte strings naming a deep, normalised copy of the message kept on
// the side.  Decoding a token yields that copy.

type frozenObj struct {
	t types.Type
	v Value
}

const tokPrefix = "\xf1\xf2FZ"

func (w *Worker) freezeBytes(t types.Type, v Value) []Value {
	w.nfrozen++
	id := w.nfrozen
	w.frozen[id] = &frozenObj{t, v}
	return append(stringToBytes(tokPrefix), int64(id>>16&255), int64(id>>8&255), int64(id&255))
}

func (w *Worker) thawBytes(b []Value) (*frozenObj, bool) {
	if len(b) != len(tokPrefix)+3 {
		return nil, false
	}
	for i := 0; i < len(tokPrefix); i++ {
		if c, ok := b[i].(int64); !ok || byte(c) != tokPrefix[i] {
			return nil, false
		}
	}
	n := len(tokPrefix)
	id := int(b[n].(int64))<<16 | int(b[n+1].(int64))<<8 | int(b[n+2].(int64))
	o, ok := w.frozen[id]
	return o, ok
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// msgCopy is the message that decoding the encoding of v yields.
func (w *Worker) msgCopy(t types.Type, v Value) Value {
	w.badPoison(v)
	switch namedPath(t) {
	case "cosmossdk.io/math.Int", "cosmossdk.io/math.LegacyDec", "cosmossdk.io/math.Uint":
		p := v.(structure)[0].(*Value)
		if p == nil {
			return structure{w.newBig(w.st.Int64(0))}
		}
		return structure{w.newBig(w.big(p))}
	case "time.Time":
		s := copyVal(v).(structure)
		s[2] = (*Value)(nil)
		return s
	case "github.com/cosmos/cosmos-sdk/codec/types.Any", "github.com/cosmos/gogoproto/types/any.Any":
		s := copyVal(v).(structure)
		st := t.Underlying().(*types.Struct)
		for i := range s {
			switch st.Field(i).Name() {
			case "TypeUrl":
			case "Value":
				s[i] = w.msgCopy(st.Field(i).Type(), s[i])
			default:
				s[i] = w.zero(st.Field(i).Type())
			}
		}
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Struct:
		s := v.(structure)
		r := make(structure, len(s))
		for i := range s {
			r[i] = w.msgCopy(u.Field(i).Type(), s[i])
		}
		return r
	case *types.Array:
		s := v.(array)
		r := make(array, len(s))
		for i := range s {
			r[i] = w.msgCopy(u.Elem(), s[i])
		}
		return r
	case *types.Slice:
		s := v.([]Value)
		if len(s) == 0 {
			return []Value(nil)
		}
		r := make([]Value, len(s))
		for i := range s {
			r[i] = w.msgCopy(u.Elem(), s[i])
		}
		return r
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return p
		}
		q := new(Value)
		*q = w.msgCopy(u.Elem(), *p)
		return q
	case *types.Map:
		m := v.(*hmap)
		if m == nil || m.n == 0 {
			return (*hmap)(nil)
		}
		r := &hmap{m: map[any]*mapEntry{}}
		for _, e := range m.order {
			if !e.dead {
				ne := &mapEntry{k: e.k, v: w.msgCopy(u.Elem(), e.v)}
				r.m[w.mapKey(e.k)] = ne
				r.order = append(r.order, ne)
				r.n++
			}
		}
		return r
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return i
		}
		return iface{i.t, w.msgCopy(i.t, i.v)}
	case *types.Signature:
		return v
	}
	w.unsup("message field of type %v", t)
	return nil
}

// isMessage reports whether t (a struct type) is a generated protobuf message.
func (w *Worker) isMessage(t types.Type) bool {
	if v, ok := w.msgTypes[t]; ok {
		return v
	}
	r := false
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS {
			ms := types.NewMethodSet(types.NewPointer(t))
			r = ms.Lookup(nil, "ProtoMessage") != nil
		}
	}
	w.msgTypes[t] = r
	return r
}

func (w *Worker) marshalMsg(t types.Type, p *Value) Value {
	if p == nil {
		return tuple{[]Value(nil), iface{}}
	}
	return tuple{w.freezeBytes(t, w.msgCopy(t, *p)), iface{}}
}

func (w *Worker) unmarshalMsg(t types.Type, p *Value, b []Value) Value {
	if len(b) == 0 {
		return iface{}
	}
	o, ok := w.thawBytes(b)
	if !ok {
		return w.mkError("proto: cannot parse invalid wire-format data")
	}
	if w.typeID(o.t) != w.typeID(t) {
		return w.mkError("proto: wrong message type " + tname(o.t) + " for " + tname(t))
	}
	w.store(p, w.msgCopy(t, o.v))
	return iface{}
}

func recvStruct(fn *ssa.Function) (types.Type, bool) {
	r := fn.Signature.Recv()
	if r == nil {
		return nil, false
	}
	if p, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
		return p.Elem(), true
	}
	return r.Type(), false
}

// msgIntrinsic models the generated encoders of protobuf messages.
func (w *Worker) msgIntrinsic(fn *ssa.Function) Intrinsic {
	t, ptr := recvStruct(fn)
	if t == nil || !ptr {
		return nil
	}
	switch fn.Name() {
	case "Marshal", "Unmarshal", "Size", "XXX_Size", "MarshalTo", "MarshalToSizedBuffer", "String", "ProtoSize", "XXX_Unmarshal", "XXX_Marshal":
	default:
		return nil
	}
	if !w.isMessage(t) {
		return nil
	}
	if pos := w.P.Prog.Fset.Position(fn.Pos()); !strings.HasSuffix(pos.Filename, ".pb.go") {
		return nil
	}
	switch fn.Name() {
	case "Marshal":
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return w.marshalMsg(t, a[0].(*Value)) }
	case "Unmarshal":
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.unmarshalMsg(t, a[0].(*Value), a[1].([]Value))
		}
	case "XXX_Size":
		// callers only ask whether there is anything: no stored message is empty
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			if p, ok := a[0].(*Value); ok && p != nil {
				return int64(len(w.freezeBytes(t, w.msgCopy(t, *p))))
			}
			return int64(0)
		}
	case "String":
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return "<" + tname(t) + ">" }
	}
	return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		w.unsup("%s", fn)
		return nil
	}
}

// protoName is the registered name of a message type.
func (w *Worker) protoName(t types.Type) string {
	if m := w.findMethod(t, "XXX_MessageName"); m != nil {
		if s, ok := w.call(nil, m, []Value{w.zero(t)}, nil).(string); ok {
			return s
		}
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := w.protoNames[w.typeID(t)]; ok {
		return n
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		w.ensureInit(w.P.Pkgs[n.Obj().Pkg().Path()])
		if n, ok := w.protoNames[w.typeID(t)]; ok {
			return n
		}
	}
	return strings.ReplaceAll(namedPath(t), "/", ".")
}

func (w *Worker) codecTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	numMarshal := func(kind string) Intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			v := a[0]
			if p, ok := v.(*Value); ok {
				v = *p
			}
			p := v.(structure)[0].(*Value)
			t := w.st.Int64(0)
			if p != nil {
				t = w.big(p)
			}
			if t.Op == term.OConst {
				return tuple{fromBytes([]byte(t.C.String())), iface{}}
			}
			return tuple{fromBytes([]byte(w.symString("N", t))), iface{}}
		}
	}
	numUnmarshal := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := string(w.bytesOf(a[1]))
		if s == "" {
			return iface{}
		}
		t, ok := w.symParse("N", s)
		if !ok {
			t, ok = w.parseInt(s, 10)
		}
		if !ok {
			return w.mkError("math/big: cannot unmarshal " + s)
		}
		w.store(a[0].(*Value), structure{w.newBig(t)})
		return iface{}
	}
	for _, n := range []string{"Int", "LegacyDec"} {
		m["(cosmossdk.io/math."+n+").Marshal"] = numMarshal(n)
		m["(*cosmossdk.io/math."+n+").Marshal"] = numMarshal(n)
		m["(*cosmossdk.io/math."+n+").Unmarshal"] = numUnmarshal
	}
	protoMarshal := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return tuple{[]Value(nil), w.mkError("proto: Marshal called with nil")}
		}
		p, ok := i.v.(*Value)
		if !ok {
			w.unsup("proto.Marshal of %v", i.t)
		}
		return w.marshalMsg(i.t.(*types.Pointer).Elem(), p)
	}
	protoUnmarshal := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[1].(iface)
		return w.unmarshalMsg(i.t.(*types.Pointer).Elem(), i.v.(*Value), a[0].([]Value))
	}
	msgName := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return ""
		}
		return w.protoName(i.t)
	}
	for _, p := range []string{"github.com/cosmos/gogoproto/proto", "github.com/golang/protobuf/proto", "github.com/gogo/protobuf/proto"} {
		m[p+".Marshal"] = protoMarshal
		m[p+".Unmarshal"] = protoUnmarshal
		m[p+".MessageName"] = msgName
		m[p+".Clone"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(iface)
			if q, ok := i.v.(*Value); ok && q != nil {
				r := new(Value)
				*r = w.msgCopy(i.t.(*types.Pointer).Elem(), *q)
				return iface{i.t, r}
			}
			return i
		}
		nop := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
		for _, n := range []string{"RegisterFile", "RegisterEnum", "RegisterMapType", "RegisterExtension", "RegisterImportPath"} {
			m[p+"."+n] = nop
		}
		m[p+".RegisterType"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(iface)
			if pt, ok := i.t.(*types.Pointer); ok {
				w.protoNames[w.typeID(pt.Elem())] = a[1].(string)
			}
			return nil
		}
		m[p+".CompactTextString"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return "<msg>" }
		m[p+".EnumName"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			k := w.asInt(a[1])
			if e, ok := w.mapGet(a[0].(*hmap), k); ok {
				return e
			}
			return "UNKNOWN"
		}
	}
	return m
}
