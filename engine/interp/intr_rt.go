package interp

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"symgo/solver"
	"symgo/term"
)

func parseBound(s string) *big.Int {
	s = strings.TrimSpace(s)
	if t := strings.TrimSuffix(s, "-1"); t != s && strings.Contains(t, "^") {
		r := parseBound(t)
		return r.Sub(r, big.NewInt(1))
	}
	if i := strings.Index(s, "^"); i >= 0 {
		b, _ := new(big.Int).SetString(s[:i], 10)
		e, _ := new(big.Int).SetString(s[i+1:], 10)
		neg := false
		if b.Sign() < 0 {
			neg = true
			b.Neg(b)
		}
		r := new(big.Int).Exp(b, e, nil)
		if neg {
			r.Neg(r)
		}
		return r
	}
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(unsupported{"bad bound " + s})
	}
	return r
}

func (w *Worker) freshName(n string) string {
	k := w.names[n]
	w.names[n] = k + 1
	return fmt.Sprintf("%s#%d", n, k)
}

func (w *Worker) freshInt(name string, lo, hi *big.Int) *term.T {
	n := w.freshName(name)
	var t *term.T
	if lo.Cmp(hi) == 0 {
		t = w.st.Const(lo)
	} else {
		t = w.st.Var(n, lo, hi)
	}
	w.nondets = append(w.nondets, nondet{n, t})
	return t
}

func (w *Worker) rtTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	add := func(name string, f func(w *Worker, fr *frame, a []Value) Value) {
		m[w.P.RT+"."+name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(w, fr, a) }
	}
	str := func(v Value) string { return v.(string) }
	add("Symbolic", func(w *Worker, fr *frame, a []Value) Value { return true })
	add("Deep", func(w *Worker, fr *frame, a []Value) Value { return w.E.Tier == "thorough" })
	ints := func(uns bool) func(w *Worker, fr *frame, a []Value) Value {
		return func(w *Worker, fr *frame, a []Value) Value {
			cv := func(v Value) *big.Int {
				if uns {
					return new(big.Int).SetUint64(uint64(v.(int64)))
				}
				return big.NewInt(v.(int64))
			}
			return fromTermInt(w.freshInt(str(a[0]), cv(a[1]), cv(a[2])))
		}
	}
	add("Int64", ints(false))
	add("Uint64", ints(true))
	add("Uint32", ints(true))
	add("Big", func(w *Worker, fr *frame, a []Value) Value {
		return w.newBig(w.freshInt(str(a[0]), parseBound(str(a[1])), parseBound(str(a[2]))))
	})
	add("Bool", func(w *Worker, fr *frame, a []Value) Value {
		n := w.freshName(str(a[0]))
		t := w.st.BVar(n)
		w.nondets = append(w.nondets, nondet{n, t})
		return t
	})
	add("Choice", func(w *Worker, fr *frame, a []Value) Value {
		n := w.freshName(str(a[0]))
		k := int64(w.choose(int(w.asInt(a[1]))))
		w.nondets = append(w.nondets, nondet{n, k})
		return k
	})
	add("Assume", func(w *Worker, fr *frame, a []Value) Value { w.assume(a[0]); return nil })
	add("Assert", func(w *Worker, fr *frame, a []Value) Value { w.assertProp(str(a[1]), a[0]); return nil })
	add("Reach", func(w *Worker, fr *frame, a []Value) Value {
		if !w.replaying() {
			l := str(a[0])
			w.E.stat(func(s *Stats) { s.Reached[l]++ })
		}
		return nil
	})
	add("Stop", func(w *Worker, fr *frame, a []Value) Value { panic(pathEnd{"stop"}) })
	add("Note", func(w *Worker, fr *frame, a []Value) Value { w.notes = append(w.notes, str(a[0])); return nil })
	add("Observe", func(w *Worker, fr *frame, a []Value) Value {
		w.obs = append(w.obs, nondet{str(a[0]), w.big(a[1])})
		return nil
	})
	add("ObserveStr", func(w *Worker, fr *frame, a []Value) Value { return nil })
	// Known(id, cond): inputs satisfying cond are a listed finding.
	add("Known", func(w *Worker, fr *frame, a []Value) Value {
		id := str(a[0])
		if !w.E.KnownIDs[id] {
			// not listed: an ordinary assertion that cond does not occur
			w.assertProp(id, w.not(a[1]))
			return nil
		}
		switch c := a[1].(type) {
		case bool:
			if c {
				if !w.replaying() {
					w.E.stat(func(s *Stats) { s.Known[id]++ })
				}
				panic(pathEnd{"known finding " + id})
			}
		case *term.T:
			if !w.replaying() {
				if w.sol.Check(c) == solver.Sat {
					w.E.stat(func(s *Stats) { s.Known[id]++ })
				}
			}
			w.assume(w.st.Not(c))
		}
		return nil
	})
	bools := func(a Value) []*term.T {
		var r []*term.T
		s, _ := a.([]Value)
		for _, v := range s {
			r = append(r, w.toTerm(v, 0))
		}
		return r
	}
	add("And", func(w *Worker, fr *frame, a []Value) Value { return fromTermBool(w.st.And(bools(a[0])...)) })
	add("Or", func(w *Worker, fr *frame, a []Value) Value { return fromTermBool(w.st.Or(bools(a[0])...)) })
	add("Implies", func(w *Worker, fr *frame, a []Value) Value {
		return fromTermBool(w.st.Or(w.st.Not(w.toTerm(a[0], 0)), w.toTerm(a[1], 0)))
	})
	add("Ite", func(w *Worker, fr *frame, a []Value) Value {
		return w.newBig(w.st.Ite(w.toTerm(a[0], 0), w.big(a[1]), w.big(a[2])))
	})
	add("IteInt", func(w *Worker, fr *frame, a []Value) Value {
		return fromTermInt(w.st.Ite(w.toTerm(a[0], 0), w.toTerm(a[1], types.Int64), w.toTerm(a[2], types.Int64)))
	})
	// Fork(b) makes a boolean concrete.
	add("Fork", func(w *Worker, fr *frame, a []Value) Value { return w.truth(a[0]) })
	add("Concrete", func(w *Worker, fr *frame, a []Value) Value {
		if t, ok := a[0].(*term.T); ok {
			return w.concretize(t)
		}
		return a[0]
	})
	add("ReverseMaps", func(w *Worker, fr *frame, a []Value) Value { w.mapRev = a[0].(bool); return nil })
	add("SameMsg", func(w *Worker, fr *frame, a []Value) Value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if w.typeID(x.t) != w.typeID(y.t) {
			return false
		}
		var why string
		v := w.sameMsg(x.t, x.v, y.v, "", &why)
		if why != "" {
			w.notes = append(w.notes, "differs at "+why)
		}
		return v
	})
	add("SameBytes", func(w *Worker, fr *frame, a []Value) Value {
		x, y := a[0].([]Value), a[1].([]Value)
		ox, okx := w.thawBytes(x)
		oy, oky := w.thawBytes(y)
		if okx && oky {
			if w.typeID(ox.t) != w.typeID(oy.t) {
				return false
			}
			var why string
			v := w.sameMsg(ox.t, ox.v, oy.v, "", &why)
			if why != "" {
				w.notes = append(w.notes, "differs at "+why)
			}
			return v
		}
		if okx != oky || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	})
	add("UnpackAny", func(w *Worker, fr *frame, a []Value) Value { return w.unpackAny(a[0].(iface), a[1].(iface)) })
	add("Print", func(w *Worker, fr *frame, a []Value) Value {
		if w.E.Verbose {
			var p []string
			for _, e := range a[0].([]Value) {
				p = append(p, w.show(e))
			}
			fmt.Println("  |", strings.Join(p, " "))
		}
		return nil
	})
	return m
}

// sameMsg compares two messages structurally: the result is a condition.
func (w *Worker) sameMsg(t types.Type, x, y Value, path string, why *string) Value {
	no := func() Value {
		if *why == "" {
			*why = path
		}
		return false
	}
	switch namedPath(t) {
	case "cosmossdk.io/math.Int", "cosmossdk.io/math.LegacyDec", "cosmossdk.io/math.Uint":
		g := func(v Value) *term.T {
			p := v.(structure)[0].(*Value)
			if p == nil {
				return w.st.Int64(0)
			}
			return w.big(p)
		}
		r := fromTermBool(w.st.Eq(g(x), g(y)))
		if r == false {
			return no()
		}
		return r
	case "time.Time":
		a, b := x.(structure), y.(structure)
		r := w.and(w.eq(types.Typ[types.Uint64], a[0], b[0]), w.eq(types.Typ[types.Int64], a[1], b[1]))
		if r == false {
			return no()
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		var r Value = true
		for i := range a {
			n := u.Field(i).Name()
			if strings.HasPrefix(n, "XXX_") || n == "cachedValue" || n == "compat" {
				continue
			}
			r = w.and(r, w.sameMsg(u.Field(i).Type(), a[i], b[i], path+"."+n, why))
			if r == false {
				return false
			}
		}
		return r
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if kindOf(u.Elem()) == types.Uint8 {
			oa, ok1 := w.thawBytes(a)
			ob, ok2 := w.thawBytes(b)
			if ok1 && ok2 {
				if w.typeID(oa.t) != w.typeID(ob.t) {
					return no()
				}
				return w.sameMsg(oa.t, oa.v, ob.v, path+"(msg)", why)
			}
			if ok1 != ok2 {
				return no()
			}
		}
		if len(a) != len(b) {
			path += fmt.Sprintf("(len %d vs %d)", len(a), len(b))
			return no()
		}
		var r Value = true
		for i := range a {
			r = w.and(r, w.sameMsg(u.Elem(), a[i], b[i], fmt.Sprintf("%s[%d]", path, i), why))
			if r == false {
				return false
			}
		}
		return r
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == nil || b == nil {
			if a == nil && b == nil {
				return true
			}
			return no()
		}
		return w.sameMsg(u.Elem(), *a, *b, path, why)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil || w.typeID(a.t) != w.typeID(b.t) {
			if a.t == nil && b.t == nil {
				return true
			}
			return no()
		}
		return w.sameMsg(a.t, a.v, b.v, path, why)
	case *types.Basic:
		if s, ok := x.(string); ok {
			if r, ok := y.(string); ok && s == r {
				return true
			}
		}
		r := w.eq(t, x, y)
		if r == false {
			return no()
		}
		return r
	}
	w.unsup("SameMsg on %v", t)
	return nil
}

// unpackAny decodes a packed message and stores it where ptr points.
func (w *Worker) unpackAny(from, target iface) Value {
	any := from.v.(*Value)
	if any == nil {
		return iface{}
	}
	st := from.t.(*types.Pointer).Elem().Underlying().(*types.Struct)
	s := (*any).(structure)
	var val []Value
	url := ""
	ci := -1
	for i := range s {
		switch st.Field(i).Name() {
		case "TypeUrl":
			url = s[i].(string)
		case "Value":
			val = s[i].([]Value)
		case "cachedValue":
			ci = i
		}
	}
	if url == "" {
		return iface{}
	}
	el := target.t.(*types.Pointer).Elem()
	it := el.Underlying().(*types.Interface)
	put := func(v iface) Value {
		if !w.implements(v.t, it) {
			return w.mkError("can't assign any")
		}
		w.set(target.v.(*Value), v)
		return iface{}
	}
	if c, ok := s[ci].(iface); ok && c.t != nil {
		return put(c)
	}
	o, ok := w.thawBytes(val)
	if !ok {
		return w.mkError("no concrete type registered for type URL " + url)
	}
	p := new(Value)
	*p = w.msgCopy(o.t, o.v)
	v := iface{types.NewPointer(o.t), p}
	w.set(&s[ci], v)
	return put(v)
}

// ---- cosmos-sdk specifics --------------------------------------------------------------

func (w *Worker) sdkTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	add := func(name string, f func(w *Worker, a []Value) Value) {
		m[name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(w, a) }
	}
	sdk := "github.com/cosmos/cosmos-sdk/"
	add("("+sdk+"types.AccAddress).String", func(w *Worker, a []Value) Value {
		b := w.bytesOf(a[0])
		if len(b) == 0 {
			return ""
		}
		return bech32Encode("cosmos", b)
	})
	add("("+sdk+"types.ValAddress).String", func(w *Worker, a []Value) Value {
		b := w.bytesOf(a[0])
		if len(b) == 0 {
			return ""
		}
		return bech32Encode("cosmosvaloper", b)
	})
	for _, k := range [][2]string{{"Acc", "cosmos"}, {"Val", "cosmosvaloper"}} {
		prefix := k[1]
		add(sdk+"types."+k[0]+"AddressFromBech32", func(w *Worker, a []Value) Value {
			s := a[0].(string)
			if strings.TrimSpace(s) == "" {
				return tuple{[]Value{}, w.mkError("empty address string is not allowed")}
			}
			w.checkStr(s)
			hrp, b, err := bech32Decode(s)
			if err == nil && hrp != prefix {
				err = fmt.Errorf("invalid Bech32 prefix; expected %s, got %s", prefix, hrp)
			}
			if err == nil && (len(b) == 0 || len(b) > 255) {
				err = fmt.Errorf("address length")
			}
			if err != nil {
				return tuple{[]Value(nil), w.mkError(err.Error())}
			}
			return tuple{fromBytes(b), iface{}}
		})
	}
	add(sdk+"types/bech32.ConvertAndEncode", func(w *Worker, a []Value) Value {
		return tuple{bech32Encode(a[0].(string), w.bytesOf(a[1])), iface{}}
	})
	add(sdk+"types/bech32.DecodeAndConvert", func(w *Worker, a []Value) Value {
		hrp, b, err := bech32Decode(a[0].(string))
		if err != nil {
			return tuple{"", []Value(nil), w.mkError(err.Error())}
		}
		return tuple{hrp, fromBytes(b), iface{}}
	})
	bech := func(w *Worker, recv Value, b []byte) Value {
		var pre string
		switch s := recv.(type) {
		case structure:
			pre = s[0].(string)
		default:
			w.unsup("bech32 codec %T", recv)
		}
		return tuple{bech32Encode(pre, b), iface{}}
	}
	// address codecs: skip the LRU caches
	m["("+sdk+"codec/address.Bech32Codec).BytesToString"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		b := w.bytesOf(a[1])
		if len(b) == 0 {
			return tuple{"", iface{}}
		}
		return bech(w, a[0], b)
	}
	m["("+sdk+"codec/address.Bech32Codec).StringToBytes"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[1].(string)
		if strings.TrimSpace(s) == "" {
			return tuple{[]Value(nil), w.mkError("empty address string is not allowed")}
		}
		w.checkStr(s)
		hrp, b, err := bech32Decode(s)
		if err == nil && hrp != a[0].(structure)[0].(string) {
			err = fmt.Errorf("hrp does not match bech32 prefix: expected '%s' got '%s'", a[0].(structure)[0], hrp)
		}
		if err != nil {
			return tuple{[]Value(nil), w.mkError(err.Error())}
		}
		return tuple{fromBytes(b), iface{}}
	}
	add("("+sdk+"types.AccAddress).Bytes", func(w *Worker, a []Value) Value { return a[0] })
	add(sdk+"types/address.Hash", func(w *Worker, a []Value) Value {
		typ := a[0].(string)
		h1 := sha256.Sum256([]byte(typ))
		h := sha256.New()
		h.Write(h1[:])
		h.Write(w.bytesOf(a[1]))
		return fromBytes(h.Sum(nil))
	})
	// events carry no state
	for _, n := range []string{"EmitEvent", "EmitEvents", "EmitTypedEvent", "EmitTypedEvents"} {
		m["(*"+sdk+"types.EventManager)."+n] = nopIntrinsic
	}
	// wasmd needs cgo: its two checks of transactions let everything go on
	wasm := "github.com/CosmWasm/wasmd/x/wasm/keeper."
	for _, n := range []string{"LimitSimulationGasDecorator", "CountTXDecorator"} {
		m[wasm+"New"+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			p := new(Value)
			*p = w.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
			return p
		}
		for _, recv := range []string{wasm, "*" + wasm} {
			m["("+recv+n+").AnteHandle"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.callValue(fr, a[4], []Value{a[1], a[2], a[3]})
			}
		}
	}
	// registries used only by clients
	for _, n := range []string{
		sdk + "types/msgservice.RegisterMsgServiceDesc",
		sdk + "codec/legacy.RegisterAminoMsg",
		"github.com/cosmos/gogoproto/proto.HybridResolver",
	} {
		m[n] = nopIntrinsic
	}
	m["cosmossdk.io/log.NewNopLogger"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.P.Pkgs["cosmossdk.io/log"].Type("nopLogger")
		if t != nil {
			return iface{t.Type(), w.zero(t.Type())}
		}
		return iface{types.Typ[types.Int], &native{nopLogger{}}}
	}
	return m
}

type nopLogger struct{}

func (l nopLogger) call(w *Worker, name string, args []Value) Value {
	switch name {
	case "With":
		return iface{types.Typ[types.Int], &native{l}}
	case "Impl":
		return iface{}
	}
	return nil
}

// ---- bech32 -----------------------------------------------------------------------------

const bech32Chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bech32Polymod(values []int) int {
	gen := []int{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := 1
	for _, v := range values {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ v
		for i := 0; i < 5; i++ {
			if (top>>uint(i))&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func bech32HRP(hrp string) []int {
	var r []int
	for i := 0; i < len(hrp); i++ {
		r = append(r, int(hrp[i])>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(hrp); i++ {
		r = append(r, int(hrp[i])&31)
	}
	return r
}

func convBits(in []byte, from, to uint, pad bool) ([]byte, error) {
	acc, bits := uint(0), uint(0)
	var out []byte
	maxv := uint(1)<<to - 1
	for _, b := range in {
		acc = acc<<from | uint(b)
		bits += from
		for bits >= to {
			bits -= to
			out = append(out, byte(acc>>bits&maxv))
		}
	}
	if pad {
		if bits > 0 {
			out = append(out, byte(acc<<(to-bits)&maxv))
		}
	} else if bits >= from || acc<<(to-bits)&maxv != 0 {
		return nil, fmt.Errorf("invalid incomplete group")
	}
	return out, nil
}

func bech32Encode(hrp string, data []byte) string {
	d, _ := convBits(data, 8, 5, true)
	vals := bech32HRP(hrp)
	for _, b := range d {
		vals = append(vals, int(b))
	}
	pm := bech32Polymod(append(vals, 0, 0, 0, 0, 0, 0)) ^ 1
	var b strings.Builder
	b.WriteString(hrp)
	b.WriteByte('1')
	for _, c := range d {
		b.WriteByte(bech32Chars[c])
	}
	for i := 0; i < 6; i++ {
		b.WriteByte(bech32Chars[pm>>uint(5*(5-i))&31])
	}
	return b.String()
}

func bech32Decode(s string) (string, []byte, error) {
	if s != strings.ToLower(s) && s != strings.ToUpper(s) {
		return "", nil, fmt.Errorf("decoding bech32 failed: string not all lowercase or all uppercase")
	}
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 1 || i+7 > len(s) {
		return "", nil, fmt.Errorf("decoding bech32 failed: invalid separator index %d", i)
	}
	hrp := s[:i]
	var d []byte
	vals := bech32HRP(hrp)
	for _, c := range s[i+1:] {
		k := strings.IndexRune(bech32Chars, c)
		if k < 0 {
			return "", nil, fmt.Errorf("decoding bech32 failed: invalid character")
		}
		d = append(d, byte(k))
		vals = append(vals, k)
	}
	if bech32Polymod(vals) != 1 {
		return "", nil, fmt.Errorf("decoding bech32 failed: invalid checksum")
	}
	out, err := convBits(d[:len(d)-6], 5, 8, false)
	return hrp, out, err
}
