package interp

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

func (w *Worker) initTable() {
	w.table = map[string]Intrinsic{}
	for _, t := range []map[string]Intrinsic{w.bigTable(), w.fmtTable(), w.codecTable(), w.stdTable(), w.timeTable(), w.sdkTable(), w.rtTable(), w.jsonTable(), w.schedTable()} {
		for k, v := range t {
			w.table[k] = v
		}
	}
}

func (w *Worker) findIntrinsic(fn *ssa.Function) Intrinsic {
	if w.table == nil {
		w.initTable()
	}
	if in, ok := w.table[fnKey(fn)]; ok {
		return in
	}
	if in := w.msgIntrinsic(fn); in != nil {
		return in
	}
	var path string
	if p := fn.Pkg; p != nil {
		path = p.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	switch path {
	case "sync/atomic", "internal/runtime/atomic":
		return w.atomicIntrinsic(fn)
	case "math/big":
		k := fnKey(fn)
		if strings.Contains(k, "init") {
			return nil
		}
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.unsup("math/big function %s", k)
			return nil
		}
	}
	if path == "github.com/hashicorp/go-metrics" || strings.HasSuffix(path, "cosmos-sdk/telemetry") {
		if fn.Name() != "init" {
			return nopIntrinsic
		}
	}
	return nil
}

func nopIntrinsic(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	return w.zero(res)
}

func (w *Worker) atomicIntrinsic(fn *ssa.Function) Intrinsic {
	name := fn.Name()
	cell := func(a Value) *Value {
		p := a.(*Value)
		if p == nil {
			w.nilDeref()
		}
		return p
	}
	if fn.Signature.Recv() != nil {
		// (*atomic.Int64).Load etc.: the value is the last field
		inner := func(a Value) *Value {
			s := (*cell(a)).(structure)
			return &s[len(s)-1]
		}
		norm := func(fn *ssa.Function, v Value) Value {
			return v
		}
		rt, _ := recvStruct(fn)
		isBool := namedPath(rt) == "sync/atomic.Bool"
		isPtr := strings.HasPrefix(namedPath(rt), "sync/atomic.Pointer")
		isVal := namedPath(rt) == "sync/atomic.Value"
		out := func(v Value) Value {
			if isBool {
				return v != int64(0)
			}
			if u, ok := v.(unsafePtr); ok && isPtr {
				if u.v == nil {
					return (*Value)(nil)
				}
				return u.v
			}
			return norm(fn, v)
		}
		in := func(v Value) Value {
			if isBool {
				if v.(bool) {
					return int64(1)
				}
				return int64(0)
			}
			if isPtr {
				return unsafePtr{v}
			}
			return v
		}
		_ = isVal
		switch name {
		case "Load":
			return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return out(*inner(a[0])) }
		case "Store":
			return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
				w.set(inner(a[0]), in(a[1]))
				return nil
			}
		case "Swap":
			return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
				o := *inner(a[0])
				w.set(inner(a[0]), in(a[1]))
				return out(o)
			}
		case "Add":
			return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
				t := fn.Signature.Params().At(0).Type()
				v := w.binop(token.ADD, t, t, *inner(a[0]), a[1])
				w.set(inner(a[0]), v)
				return v
			}
		case "CompareAndSwap":
			return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
				p := inner(a[0])
				if fmt.Sprint(*p) == fmt.Sprint(in(a[1])) {
					w.set(p, in(a[2]))
					return true
				}
				return false
			}
		}
		return nil
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return *cell(a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.set(cell(a[0]), a[1]); return nil }
	case strings.HasPrefix(name, "Add"):
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			t := fn.Signature.Params().At(1).Type()
			v := w.binop(token.ADD, t, t, *cell(a[0]), a[1])
			w.set(cell(a[0]), v)
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			p := cell(a[0])
			if *p == a[1] {
				w.set(p, a[2])
				return true
			}
			return false
		}
	}
	return nil
}

func (w *Worker) mapOrder(fr *frame, it *mapIter) {
	if !w.mapRev {
		return
	}
	n := len(it.ord)
	for i := 0; i < n/2; i++ {
		it.ord[i], it.ord[n-1-i] = it.ord[n-1-i], it.ord[i]
	}
}

func strs(v Value) []string {
	s, _ := v.([]Value)
	r := make([]string, len(s))
	for i, e := range s {
		r[i] = e.(string)
	}
	return r
}
func fromStrs(s []string) Value {
	if s == nil {
		return []Value(nil)
	}
	r := make([]Value, len(s))
	for i, e := range s {
		r[i] = e
	}
	return r
}

// hostTime converts a concrete time.Time.
func hostTime(v Value) (time.Time, bool) {
	s, ok := v.(structure)
	if !ok {
		return time.Time{}, false
	}
	wall, ok1 := s[0].(int64)
	ext, ok2 := s[1].(int64)
	if !ok1 || !ok2 {
		return time.Time{}, false
	}
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return time.Unix(ext-unixToInternal, wall&(1<<30-1)).UTC(), true
}

func (w *Worker) stdTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	add := func(name string, f func(w *Worker, a []Value) Value) {
		m[name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(w, a) }
	}
	S := func(v Value) string {
		s, ok := v.(string)
		if !ok {
			w.badPoison(v)
			w.unsup("string argument is %T", v)
		}
		return s
	}
	ck := func(v Value) string { s := S(v); w.checkStr(s); return s }

	// strings
	ss_i := func(name string, f func(a, b string) int) {
		add("strings."+name, func(w *Worker, a []Value) Value { return int64(f(ck(a[0]), ck(a[1]))) })
	}
	ss_b := func(name string, f func(a, b string) bool) {
		add("strings."+name, func(w *Worker, a []Value) Value { return f(S(a[0]), ck(a[1])) })
	}
	ss_s := func(name string, f func(a, b string) string) {
		add("strings."+name, func(w *Worker, a []Value) Value { return f(S(a[0]), S(a[1])) })
	}
	s_s := func(name string, f func(a string) string) {
		add("strings."+name, func(w *Worker, a []Value) Value { return f(S(a[0])) })
	}
	ss_i("Index", strings.Index)
	ss_i("LastIndex", strings.LastIndex)
	add("strings.Compare", func(w *Worker, a []Value) Value { return int64(w.strCmp(S(a[0]), S(a[1]))) })
	ss_i("Count", strings.Count)
	ss_i("IndexAny", strings.IndexAny)
	ss_b("Contains", strings.Contains)
	ss_b("HasPrefix", strings.HasPrefix)
	ss_b("HasSuffix", strings.HasSuffix)
	ss_b("EqualFold", strings.EqualFold)
	ss_b("ContainsAny", strings.ContainsAny)
	ss_s("TrimPrefix", strings.TrimPrefix)
	ss_s("TrimSuffix", strings.TrimSuffix)
	ss_s("Trim", strings.Trim)
	ss_s("TrimLeft", strings.TrimLeft)
	ss_s("TrimRight", strings.TrimRight)
	s_s("ToLower", strings.ToLower)
	s_s("ToUpper", strings.ToUpper)
	s_s("TrimSpace", strings.TrimSpace)
	s_s("Clone", strings.Clone)
	add("strings.IndexByte", func(w *Worker, a []Value) Value { return int64(strings.IndexByte(ck(a[0]), byte(a[1].(int64)))) })
	add("strings.LastIndexByte", func(w *Worker, a []Value) Value {
		return int64(strings.LastIndexByte(ck(a[0]), byte(a[1].(int64))))
	})
	add("strings.IndexRune", func(w *Worker, a []Value) Value { return int64(strings.IndexRune(ck(a[0]), rune(a[1].(int64)))) })
	add("strings.ContainsRune", func(w *Worker, a []Value) Value { return strings.ContainsRune(ck(a[0]), rune(a[1].(int64))) })
	add("strings.Join", func(w *Worker, a []Value) Value { return strings.Join(strs(a[0]), S(a[1])) })
	add("strings.Split", func(w *Worker, a []Value) Value { return fromStrs(strings.Split(S(a[0]), S(a[1]))) })
	add("strings.SplitN", func(w *Worker, a []Value) Value {
		return fromStrs(strings.SplitN(S(a[0]), S(a[1]), int(w.asInt(a[2]))))
	})
	add("strings.Fields", func(w *Worker, a []Value) Value { return fromStrs(strings.Fields(S(a[0]))) })
	add("strings.Repeat", func(w *Worker, a []Value) Value { return strings.Repeat(S(a[0]), int(w.asInt(a[1]))) })
	add("strings.Replace", func(w *Worker, a []Value) Value {
		return strings.Replace(S(a[0]), S(a[1]), S(a[2]), int(w.asInt(a[3])))
	})
	add("strings.ReplaceAll", func(w *Worker, a []Value) Value { return strings.ReplaceAll(S(a[0]), S(a[1]), S(a[2])) })
	add("strings.Title", func(w *Worker, a []Value) Value { return strings.Title(S(a[0])) })
	add("strings.Cut", func(w *Worker, a []Value) Value {
		x, y, ok := strings.Cut(S(a[0]), S(a[1]))
		return tuple{x, y, ok}
	})
	add("(*strings.Builder).copyCheck", func(w *Worker, a []Value) Value { return nil })
	add("(*strings.Builder).String", func(w *Worker, a []Value) Value {
		st := (*(a[0].(*Value))).(structure)
		return w.bytesToString(st[1].([]Value))
	})
	add("(*strings.Builder).grow", func(w *Worker, a []Value) Value { return nil })
	add("(*strings.Builder).Grow", func(w *Worker, a []Value) Value { return nil })

	// bytes
	add("bytes.Equal", func(w *Worker, a []Value) Value { return w.bytesEq(a[0].([]Value), a[1].([]Value)) })
	add("bytes.Compare", func(w *Worker, a []Value) Value {
		return int64(w.strCmp(string(w.bytesOf(a[0])), string(w.bytesOf(a[1]))))
	})
	add("bytes.HasPrefix", func(w *Worker, a []Value) Value { return bytes.HasPrefix(w.bytesOf(a[0]), w.bytesOf(a[1])) })
	add("bytes.HasSuffix", func(w *Worker, a []Value) Value { return bytes.HasSuffix(w.bytesOf(a[0]), w.bytesOf(a[1])) })
	add("bytes.Index", func(w *Worker, a []Value) Value { return int64(bytes.Index(w.bytesOf(a[0]), w.bytesOf(a[1]))) })
	add("bytes.IndexByte", func(w *Worker, a []Value) Value {
		return int64(bytes.IndexByte(w.bytesOf(a[0]), byte(a[1].(int64))))
	})
	add("bytes.Contains", func(w *Worker, a []Value) Value { return bytes.Contains(w.bytesOf(a[0]), w.bytesOf(a[1])) })
	add("bytes.Clone", func(w *Worker, a []Value) Value {
		s := a[0].([]Value)
		if s == nil {
			return s
		}
		return append([]Value{}, s...)
	})
	add("bytes.Split", func(w *Worker, a []Value) Value {
		var r []Value
		for _, x := range bytes.Split(w.bytesOf(a[0]), w.bytesOf(a[1])) {
			r = append(r, fromBytes(x))
		}
		return r
	})
	add("internal/bytealg.MakeNoZero", func(w *Worker, a []Value) Value {
		n := int(w.asInt(a[0]))
		r := make([]Value, n)
		for i := range r {
			r[i] = int64(0)
		}
		return r
	})
	// unsafe-based conversions
	m["unsafe.String"] = nil
	delete(m, "unsafe.String")

	// strconv
	itoa := func(w *Worker, v Value, base int, uns bool) Value {
		switch x := v.(type) {
		case int64:
			if uns {
				return strconv.FormatUint(uint64(x), base)
			}
			return strconv.FormatInt(x, base)
		case *term.T:
			return w.symString("I", x)
		}
		w.badPoison(v)
		w.unsup("itoa %T", v)
		return nil
	}
	add("strconv.Itoa", func(w *Worker, a []Value) Value { return itoa(w, a[0], 10, false) })
	add("strconv.FormatInt", func(w *Worker, a []Value) Value { return itoa(w, a[0], int(w.asInt(a[1])), false) })
	add("strconv.FormatUint", func(w *Worker, a []Value) Value { return itoa(w, a[0], int(w.asInt(a[1])), true) })
	add("strconv.FormatBool", func(w *Worker, a []Value) Value { return strconv.FormatBool(w.truth(a[0])) })
	add("strconv.Quote", func(w *Worker, a []Value) Value { return strconv.Quote(S(a[0])) })
	perr := func(w *Worker, err error) Value {
		if err == nil {
			return iface{}
		}
		return w.mkError(err.Error())
	}
	add("strconv.ParseUint", func(w *Worker, a []Value) Value {
		s := S(a[0])
		if t, ok := w.symParse("I", s); ok {
			if w.truth(fromTermBool(w.st.And(w.st.Le(w.st.Int64(0), t), w.st.Lt(t, w.st.Const(new(big.Int).Lsh(big.NewInt(1), uint(bitSize(w.asInt(a[2]))))))))) {
				return tuple{fromTermInt(t), iface{}}
			}
			return tuple{int64(0), w.mkError("strconv.ParseUint: value out of range")}
		}
		w.checkStr(s)
		r, err := strconv.ParseUint(s, int(w.asInt(a[1])), int(w.asInt(a[2])))
		return tuple{int64(r), perr(w, err)}
	})
	add("strconv.ParseInt", func(w *Worker, a []Value) Value {
		r, err := strconv.ParseInt(ck(a[0]), int(w.asInt(a[1])), int(w.asInt(a[2])))
		return tuple{r, perr(w, err)}
	})
	add("strconv.Atoi", func(w *Worker, a []Value) Value {
		r, err := strconv.Atoi(ck(a[0]))
		return tuple{int64(r), perr(w, err)}
	})
	add("strconv.ParseBool", func(w *Worker, a []Value) Value {
		r, err := strconv.ParseBool(ck(a[0]))
		return tuple{r, perr(w, err)}
	})

	// errors
	add("errors.Is", func(w *Worker, a []Value) Value { return w.errorsIs(a[0].(iface), a[1].(iface)) })
	add("errors.As", func(w *Worker, a []Value) Value { return w.errorsAs(a[0].(iface), a[1].(iface)) })
	add("github.com/pkg/errors.callers", func(w *Worker, a []Value) Value { return (*Value)(nil) })
	add("(*github.com/pkg/errors.stack).StackTrace", func(w *Worker, a []Value) Value { return []Value(nil) })
	add("cosmossdk.io/errors.stackTrace", func(w *Worker, a []Value) Value { return []Value(nil) })

	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault"} {
		add(n, func(w *Worker, a []Value) Value { return nil })
	}
	add("(*sync.Mutex).TryLock", func(w *Worker, a []Value) Value { return true })
	add("internal/godebug.New", func(w *Worker, a []Value) Value { return (*Value)(nil) })
	add("(*internal/godebug.Setting).Value", func(w *Worker, a []Value) Value { return "" })
	m["(*sync.Once).Do"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if w.onceDone[p] {
			return nil
		}
		w.onceDone[p] = true
		if w.journal {
			w.undo = append(w.undo, undoRec{f: func() { delete(w.onceDone, p) }})
		}
		w.callValue(fr, a[1], nil)
		return nil
	}
	m["(*sync.Pool).Get"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*(a[0].(*Value))).(structure)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return w.callValue(fr, nf, nil)
	}

	// sort
	sortBy := func(w *Worker, fr *frame, s []Value, less func(i, j int) bool) {
		// stable insertion sort in place
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				a, b := copyVal(s[j]), copyVal(s[j-1])
				w.store(&s[j], b)
				w.store(&s[j-1], a)
			}
		}
	}
	sortSlice := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(iface).v.([]Value)
		sortBy(w, fr, s, func(i, j int) bool {
			return w.truth(w.callValue(fr, a[1], []Value{int64(i), int64(j)}))
		})
		return nil
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	add("sort.Strings", func(w *Worker, a []Value) Value {
		s := a[0].([]Value)
		sortBy(w, nil, s, func(i, j int) bool { return ck(s[i]) < ck(s[j]) })
		return nil
	})
	sortIf := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(iface)
		ln := w.findMethod(i.t, "Len")
		less := w.findMethod(i.t, "Less")
		swap := w.findMethod(i.t, "Swap")
		n := int(w.asInt(w.call(fr, ln, []Value{i.v}, nil)))
		for x := 1; x < n; x++ {
			for y := x; y > 0 && w.truth(w.call(fr, less, []Value{i.v, int64(y), int64(y - 1)}, nil)); y-- {
				w.call(fr, swap, []Value{i.v, int64(y), int64(y - 1)}, nil)
			}
		}
		return nil
	}
	m["sort.Sort"] = sortIf
	m["sort.Stable"] = sortIf
	sortFunc := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		sortBy(w, fr, s, func(i, j int) bool {
			c := w.callValue(fr, a[1], []Value{copyVal(s[i]), copyVal(s[j])})
			return w.truth(w.binop(token.LSS, types.Typ[types.Int], types.Typ[types.Int], c, int64(0)))
		})
		return nil
	}
	// whether two slices share memory: a question of addresses, and both answers
	// lead to the same result
	add("maps.clone", func(w *Worker, a []Value) Value {
		i := a[0].(iface)
		o, _ := i.v.(*hmap)
		if o == nil {
			return i
		}
		r := &hmap{m: map[any]*mapEntry{}}
		for _, e := range o.order {
			if !e.dead {
				w.mapSet(r, e.k, copyVal(e.v))
			}
		}
		return iface{i.t, r}
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round,
		"RoundToEven": math.RoundToEven, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp} {
		add("math."+n, func(w *Worker, a []Value) Value {
			w.badPoison(a[0])
			return f(a[0].(float64))
		})
	}
	add("math.Pow", func(w *Worker, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	add("slices.overlaps", func(w *Worker, a []Value) Value { return false })
	add("reflect.DeepEqual", func(w *Worker, a []Value) Value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if w.typeID(x.t) != w.typeID(y.t) {
			return false
		}
		return w.deepEq(x.t, x.v, y.v, 0)
	})
	m["slices.SortFunc"] = sortFunc
	m["slices.SortStableFunc"] = sortFunc
	m["slices.Sort"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		t := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		sortBy(w, fr, s, func(i, j int) bool { return w.truth(w.binop(token.LSS, t, t, s[i], s[j])) })
		return nil
	}

	// hashing
	add("crypto/sha256.Sum256", func(w *Worker, a []Value) Value {
		h := sha256.Sum256(w.bytesOf(a[0]))
		return array(fromBytes(h[:]))
	})
	add("github.com/cometbft/cometbft/crypto/tmhash.SumTruncated", func(w *Worker, a []Value) Value {
		h := sha256.Sum256(w.bytesOf(a[0]))
		return fromBytes(h[:20])
	})
	add("github.com/cometbft/cometbft/crypto/tmhash.Sum", func(w *Worker, a []Value) Value {
		h := sha256.Sum256(w.bytesOf(a[0]))
		return fromBytes(h[:])
	})

	// regexp: host objects
	mkRe := func(w *Worker, a []Value) Value { return nativePtr(regexp.MustCompile(S(a[0]))) }
	add("regexp.MustCompile", mkRe)
	add("regexp.Compile", func(w *Worker, a []Value) Value {
		re, err := regexp.Compile(S(a[0]))
		if err != nil {
			return tuple{(*Value)(nil), w.mkError(err.Error())}
		}
		return tuple{nativePtr(re), iface{}}
	})
	re := func(v Value) *regexp.Regexp {
		p := v.(*Value)
		if p == nil {
			w.nilDeref()
		}
		n, ok := (*p).(*native)
		if !ok {
			w.badPoison(*p)
			w.unsup("regexp is %T", *p)
		}
		return n.v.(*regexp.Regexp)
	}
	add("(*regexp.Regexp).MatchString", func(w *Worker, a []Value) Value { return re(a[0]).MatchString(ck(a[1])) })
	add("(*regexp.Regexp).String", func(w *Worker, a []Value) Value { return re(a[0]).String() })
	add("(*regexp.Regexp).FindStringSubmatch", func(w *Worker, a []Value) Value {
		return fromStrs(re(a[0]).FindStringSubmatch(ck(a[1])))
	})
	add("(*regexp.Regexp).ReplaceAllString", func(w *Worker, a []Value) Value {
		return re(a[0]).ReplaceAllString(ck(a[1]), S(a[2]))
	})

	// time
	add("(time.Time).Format", func(w *Worker, a []Value) Value {
		if t, ok := hostTime(a[0]); ok {
			return t.Format(S(a[1]))
		}
		if a[1] == sortableLayout {
			return w.symTime(a[0])
		}
		return symMark + "T#"
	})
	add("time.Parse", func(w *Worker, a []Value) Value { return w.parseTime(S(a[0]), S(a[1])) })
	add("(time.Time).String", func(w *Worker, a []Value) Value {
		if t, ok := hostTime(a[0]); ok {
			return t.String()
		}
		return symMark + "T#"
	})
	add("(time.Duration).String", func(w *Worker, a []Value) Value {
		if d, ok := a[0].(int64); ok {
			return time.Duration(d).String()
		}
		return symMark + "T#"
	})
	// the wall clock shows one fixed time, and on the other node, to the repository's
	// code, any time between then and 146 years later
	clock := func(w *Worker, fr *frame) Value {
		base := structure{int64(0), int64(63000000000), (*Value)(nil)}
		if w.initDepth > 0 || !w.mapRev || fr == nil || !fr.code.repo {
			return base
		}
		d := w.freshInt("clock", big.NewInt(0), big.NewInt(1<<62))
		return w.atNanos(w.st.Add(w.nanosOf(base), d), (*Value)(nil))
	}
	elapsed := func(until bool) Intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := clock(w, fr), a[0]
			if until {
				x, y = y, x
			}
			return w.table["(time.Time).Sub"](w, fr, fn, []Value{x, y})
		}
	}
	m["time.Now"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return clock(w, fr) }
	m["time.Since"] = elapsed(false)
	m["time.Until"] = elapsed(true)
	// random numbers differ between nodes
	for _, n := range []string{"Int", "Int31", "Int63", "Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "N"} {
		f := func(w *Worker, a []Value) Value {
			if !w.mapRev {
				return int64(0)
			}
			if len(a) > 0 {
				if x, ok := a[0].(int64); ok {
					return x - 1
				}
			}
			return int64(1)
		}
		add("math/rand."+n, f)
		add("math/rand/v2."+n, f)
	}
	add("time.runtimeNano", func(w *Worker, a []Value) Value { return int64(1) })

	// unicode / utf8 helpers are interpreted; the tables are not needed for ASCII
	uni := func(name string, f func(r rune) bool) {
		add("unicode."+name, func(w *Worker, a []Value) Value { return f(rune(w.asInt(a[0]))) })
	}
	uni("IsSpace", unicode.IsSpace)
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	uni("IsPrint", unicode.IsPrint)
	add("unicode.ToLower", func(w *Worker, a []Value) Value { return int64(unicode.ToLower(rune(w.asInt(a[0])))) })
	add("unicode.ToUpper", func(w *Worker, a []Value) Value { return int64(unicode.ToUpper(rune(w.asInt(a[0])))) })

	// reflect: type names only
	typeOf := func(w *Worker, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return iface{types.Typ[types.Int], &native{&rtype{i.t}}}
	}
	add("reflect.TypeOf", typeOf)
	add("cosmossdk.io/errors.errIsNil", func(w *Worker, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return true
		}
		p, ok := i.v.(*Value)
		return ok && p == nil
	})
	add("internal/reflectlite.TypeOf", typeOf)
	add("runtime.Caller", func(w *Worker, a []Value) Value { return tuple{int64(0), "", int64(0), false} })
	add("runtime.Callers", func(w *Worker, a []Value) Value { return int64(0) })
	add("runtime/debug.Stack", func(w *Worker, a []Value) Value { return []Value(nil) })
	add("runtime/debug.PrintStack", func(w *Worker, a []Value) Value { return nil })
	add("os.Getenv", func(w *Worker, a []Value) Value { return "" })
	add("os.LookupEnv", func(w *Worker, a []Value) Value { return tuple{"", false} })
	// cmp.Less / cmp.Compare on ordered types
	m["cmp.Compare"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Params().At(0).Type()
		if w.truth(w.binop(token.LSS, t, t, a[0], a[1])) {
			return int64(-1)
		}
		if w.truth(w.eq(t, a[0], a[1])) {
			return int64(0)
		}
		return int64(1)
	}
	add("math.Float64bits", func(w *Worker, a []Value) Value {
		w.unsup("Float64bits")
		return nil
	})
	return m
}

func bitSize(n int64) int64 {
	if n == 0 {
		return 64
	}
	return n
}

func nativePtr(v any) *Value {
	p := new(Value)
	*p = &native{v}
	return p
}

type rtype struct{ t types.Type }

func (r *rtype) call(w *Worker, name string, args []Value) Value {
	switch name {
	case "Comparable":
		return types.Comparable(r.t)
	case "String":
		return tname(r.t)
	case "Name":
		if n, ok := types.Unalias(r.t).(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(r.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return iface{types.Typ[types.Int], &native{&rtype{u.Elem()}}}
		case *types.Slice:
			return iface{types.Typ[types.Int], &native{&rtype{u.Elem()}}}
		}
	case "Kind":
		switch r.t.Underlying().(type) {
		case *types.Pointer:
			return int64(22)
		case *types.Struct:
			return int64(25)
		case *types.Slice:
			return int64(23)
		case *types.Interface:
			return int64(20)
		case *types.Map:
			return int64(21)
		}
	}
	w.unsup("reflect.Type.%s", name)
	return nil
}

func (w *Worker) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var r Value = true
	for i := range a {
		r = w.and(r, w.eq(types.Typ[types.Uint8], a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) unwrapErr(e iface) []iface {
	m := w.findMethodCached(e.t, "Unwrap")
	if m == nil {
		return nil
	}
	r := w.call(nil, m, []Value{e.v}, nil)
	switch x := r.(type) {
	case iface:
		if x.t == nil {
			return nil
		}
		return []iface{x}
	case []Value:
		var o []iface
		for _, v := range x {
			if i := v.(iface); i.t != nil {
				o = append(o, i)
			}
		}
		return o
	}
	return nil
}

func (w *Worker) findMethodCached(t types.Type, name string) *ssa.Function {
	k := methName{-w.typeID(t), name}
	if f, ok := w.methNames[k]; ok {
		return f
	}
	f := w.findMethod(t, name)
	w.methNames[k] = f
	return f
}

func (w *Worker) errorsIs(e, target iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	cmpable := types.Comparable(target.t)
	if cmpable && w.typeID(e.t) == w.typeID(target.t) && w.truth(w.eq(e.t, e.v, target.v)) {
		return true
	}
	if m := w.findMethodCached(e.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
		if w.truth(w.call(nil, m, []Value{e.v, target}, nil)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(e) {
		if w.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(e, target iface) bool {
	if e.t == nil {
		return false
	}
	el := target.t.(*types.Pointer).Elem()
	if it, ok := el.Underlying().(*types.Interface); ok {
		if w.implements(e.t, it) {
			w.set(target.v.(*Value), e)
			return true
		}
	} else if w.typeID(e.t) == w.typeID(el) {
		w.store(target.v.(*Value), e.v)
		return true
	}
	for _, u := range w.unwrapErr(e) {
		if w.errorsAs(u, target) {
			return true
		}
	}
	return false
}

var _ = sort.Strings
