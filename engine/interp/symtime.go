package interp

// Symbolic instants inside store keys.  The repository keys its time queues by
// sdk.FormatTimeBytes, a fixed-width rendering whose byte order is the order
// of the instants (years 0000-9999).  A symbolic instant is rendered as a
// placeholder of the same width; strings that contain placeholders are
// compared segment by segment, the placeholders by the instants they stand
// for.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"symgo/term"
)

const (
	sortableLayout = "2006-01-02T15:04:05.000000000"
	timeMark       = symMark + "t"
	timeWidth      = len(sortableLayout)
	unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	nsecMask       = 1<<30 - 1
)

var (
	timeLo = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + unixToInternal
	timeHi = time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + unixToInternal
	bigE9  = big.NewInt(1_000_000_000)
)

// symTime renders a symbolic instant in the sortable layout.
func (w *Worker) symTime(v Value) string {
	s := v.(structure)
	wall, ext := w.timeTerm(s[0]), w.timeTerm(s[1])
	if !w.truth(fromTermBool(w.st.And(w.st.Le(w.st.Int64(timeLo), ext), w.st.Lt(ext, w.st.Int64(timeHi))))) {
		w.unsup("a symbolic time outside the years 2000-2999 used as a key")
	}
	if !w.truth(fromTermBool(w.st.And(w.st.Le(w.st.Int64(0), wall), w.st.Lt(wall, w.st.Const(bigE9))))) {
		w.unsup("a symbolic time with a monotonic reading used as a key")
	}
	w.symStrs[wall.ID], w.symStrs[ext.ID] = wall, ext
	return fmt.Sprintf("%s%012d%013d#", timeMark, ext.ID, wall.ID)
}

func (w *Worker) timeTerm(v Value) *term.T {
	switch x := v.(type) {
	case *term.T:
		return x
	case int64:
		return w.st.Int64(x)
	}
	w.unsup("time field is %T", v)
	return nil
}

// timeAt recognises a placeholder at the start of s.  bump says that its last
// byte was incremented, as the end of a prefix range is.
func (w *Worker) timeAt(s string) (ext, wall *term.T, bump, ok bool) {
	if len(s) < timeWidth || s[:len(timeMark)] != timeMark {
		return
	}
	last := s[timeWidth-1]
	if last != '#' && last != '$' {
		return
	}
	var id [2]int
	for i, c := range s[len(timeMark) : timeWidth-1] {
		if c < '0' || c > '9' {
			return
		}
		k := 0
		if i >= 12 {
			k = 1
		}
		id[k] = id[k]*10 + int(c-'0')
	}
	ext, ok1 := w.symStrs[id[0]]
	wall, ok2 := w.symStrs[id[1]]
	return ext, wall, last == '$', ok1 && ok2
}

// nanos is the instant in nanoseconds since year 1.
func (w *Worker) nanos(ext, wall *term.T) *term.T {
	if t, ok := w.instants[[2]int{ext.ID, wall.ID}]; ok {
		return t
	}
	return w.st.Add(w.st.Scale(ext, bigE9), wall)
}

// strCmp orders two strings bytewise.
func (w *Worker) strCmp(a, b string) int {
	if !strings.Contains(a, timeMark) && !strings.Contains(b, timeMark) {
		w.checkStr(a)
		w.checkStr(b)
		return strings.Compare(a, b)
	}
	for i := 0; ; {
		x, y := a[i:], b[i:]
		if len(x) == 0 || len(y) == 0 {
			return sign(len(x) - len(y))
		}
		xe, xw, xb, xok := w.timeAt(x)
		ye, yw, yb, yok := w.timeAt(y)
		if !xok && !yok {
			if x[0] != y[0] {
				return sign(int(x[0]) - int(y[0]))
			}
			if strings.HasPrefix(x, symMark) || strings.HasPrefix(y, symMark) {
				w.checkStr(x)
				w.checkStr(y)
			}
			i++
			continue
		}
		var tx, ty *term.T
		for k, o := range []struct {
			s  string
			e  *term.T
			w  *term.T
			ok bool
		}{{x, xe, xw, xok}, {y, ye, yw, yok}} {
			var t *term.T
			if o.ok {
				t = w.nanos(o.e, o.w)
			} else {
				// a literal against a placeholder
				if o.s[0] != '2' {
					r := int(o.s[0]) - '2'
					if k == 1 {
						r = -r
					}
					return r
				}
				bump := false
				if len(o.s) < timeWidth {
					w.unsup("comparison of a symbolic time with %q", o.s)
				}
				lit := o.s[:timeWidth]
				h, err := time.Parse(sortableLayout, lit)
				if err != nil && lit[timeWidth-1] == ':' {
					h, err = time.Parse(sortableLayout, lit[:timeWidth-1]+"9")
					bump = true
				}
				if err != nil {
					w.unsup("comparison of a symbolic time with %q", lit)
				}
				t = w.nanos(w.st.Int64(h.Unix()+unixToInternal), w.st.Int64(int64(h.Nanosecond())))
				if k == 0 {
					xb = bump
				} else {
					yb = bump
				}
			}
			if k == 0 {
				tx = t
			} else {
				ty = t
			}
		}
		if w.truth(fromTermBool(w.st.Lt(tx, ty))) {
			return -1
		}
		if w.truth(fromTermBool(w.st.Lt(ty, tx))) {
			return 1
		}
		if xb != yb {
			if xb {
				return 1
			}
			return -1
		}
		i += timeWidth
	}
}

func (w *Worker) strEq(a, b string) bool {
	if a == b {
		return true
	}
	if len(a) != len(b) && (strings.Contains(a, timeMark) || strings.Contains(b, timeMark)) {
		// placeholders are as wide as what they stand for
		return false
	}
	return w.strCmp(a, b) == 0
}

// parseTime is time.Parse.
func (w *Worker) parseTime(layout, s string) Value {
	if ext, wall, bump, ok := w.timeAt(s); ok && len(s) == timeWidth && !bump && layout == sortableLayout {
		return tuple{structure{fromTermInt(wall), fromTermInt(ext), (*Value)(nil)}, iface{}}
	}
	w.checkStr(s)
	h, err := time.Parse(layout, s)
	if err != nil {
		return tuple{structure{int64(0), int64(0), (*Value)(nil)}, w.mkError(err.Error())}
	}
	return tuple{structure{int64(h.Nanosecond()), h.Unix() + unixToInternal, (*Value)(nil)}, iface{}}
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func (w *Worker) nanosOf(v Value) *term.T {
	s := v.(structure)
	return w.nanos(w.timeTerm(s[1]), w.timeTerm(s[0]))
}

// atNanos builds the time of an instant.
func (w *Worker) atNanos(t *term.T, loc Value) Value {
	e9 := w.st.Const(bigE9)
	ext, wall := w.st.Div(t, e9), w.st.Mod(t, e9)
	w.instants[[2]int{ext.ID, wall.ID}] = t
	return structure{fromTermInt(wall), fromTermInt(ext), loc}
}

// timeTable overrides the methods of time.Time.
func (w *Worker) timeTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	sym := func(name string, f func(w *Worker, a []Value) Value) {
		m["(time.Time)."+name] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(w, a) }
	}
	cmp := func(name string, f func(x, y *term.T) *term.T) {
		sym(name, func(w *Worker, a []Value) Value { return fromTermBool(f(w.nanosOf(a[0]), w.nanosOf(a[1]))) })
	}
	cmp("Before", func(x, y *term.T) *term.T { return w.st.Lt(x, y) })
	cmp("After", func(x, y *term.T) *term.T { return w.st.Lt(y, x) })
	cmp("Equal", func(x, y *term.T) *term.T { return w.st.Eq(x, y) })
	sym("Compare", func(w *Worker, a []Value) Value {
		return fromTermInt(w.st.CmpT(w.nanosOf(a[0]), w.nanosOf(a[1])))
	})
	sym("IsZero", func(w *Worker, a []Value) Value {
		return fromTermBool(w.st.Eq(w.nanosOf(a[0]), w.st.Int64(0)))
	})
	sym("Add", func(w *Worker, a []Value) Value {
		return w.atNanos(w.st.Add(w.nanosOf(a[0]), w.toTerm(a[1], types.Int64)), a[0].(structure)[2])
	})
	sym("Sub", func(w *Worker, a []Value) Value {
		d := w.st.Sub(w.nanosOf(a[0]), w.nanosOf(a[1]))
		lim := w.st.Int64(1<<63 - 1)
		if !w.truth(fromTermBool(w.st.And(w.st.Le(w.st.Neg(lim), d), w.st.Le(d, lim)))) {
			w.unsup("the difference of two symbolic times exceeds a duration")
		}
		return fromTermInt(d)
	})
	strip := func(w *Worker, a []Value) Value {
		s := a[0].(structure)
		return structure{s[0], s[1], (*Value)(nil)}
	}
	sym("UTC", strip)
	sym("Round", func(w *Worker, a []Value) Value {
		if a[1] != int64(0) {
			w.unsup("rounding a symbolic time")
		}
		return a[0]
	})
	sym("Unix", func(w *Worker, a []Value) Value {
		return fromTermInt(w.st.Sub(w.timeTerm(a[0].(structure)[1]), w.st.Int64(unixToInternal)))
	})
	return m
}
