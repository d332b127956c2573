// Package rt is the vocabulary the harnesses are written in.  The symbolic
// engine intercepts every exported function; compiled natively, the same
// functions replay one concrete assignment.
package rt

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/milkyway-labs/milkyway/v3/verifh/clock"
)

// Replay holds the concrete values of one run.
type Replay struct {
	Inputs map[string]string
	Known  map[string]bool
	Tier   string

	names    map[string]int
	Failed   string
	Notes    []string
	Observed map[string]string
	Reached  map[string]int
	KnownHit []string
	Random   bool // map order matters: one run may not show what another does
}

type stopT struct{ why string }

var R = &Replay{}

func Load(path string) error {
	bz, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	R = &Replay{}
	return json.Unmarshal(bz, R)
}

// Run executes a harness on the loaded assignment; it returns the label of the
// assertion that failed, or "".
func Run(f func()) (failed string) {
	R.names = map[string]int{}
	R.Observed = map[string]string{}
	R.Reached = map[string]int{}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopT); ok {
				failed = R.Failed
				if s.why == "infeasible" && failed == "" {
					failed = "!infeasible"
				}
				return
			}
			failed = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return R.Failed
}

func get(name string) (string, bool) {
	k := R.names[name]
	R.names[name] = k + 1
	v, ok := R.Inputs[fmt.Sprintf("%s#%d", name, k)]
	return v, ok
}

func bound(s string) *big.Int {
	if t := strings.TrimSuffix(s, "-1"); t != s && strings.Contains(t, "^") {
		r := bound(t)
		return r.Sub(r, big.NewInt(1))
	}
	if i := strings.Index(s, "^"); i >= 0 {
		b, _ := new(big.Int).SetString(s[:i], 10)
		e, _ := new(big.Int).SetString(s[i+1:], 10)
		neg := b.Sign() < 0
		r := new(big.Int).Exp(b.Abs(b), e, nil)
		if neg {
			r.Neg(r)
		}
		return r
	}
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad bound " + s)
	}
	return r
}

// Symbolic reports whether the harness runs in the symbolic engine.
func Symbolic() bool { return false }

// Deep reports whether the thorough bounds are in force.
func Deep() bool { return R.Tier == "thorough" }

func pick(name string, lo *big.Int) *big.Int {
	v, ok := get(name)
	if !ok {
		return lo
	}
	r, ok := new(big.Int).SetString(v, 10)
	if !ok {
		panic("bad value " + v)
	}
	return r
}

func Int64(name string, lo, hi int64) int64 { return pick(name, big.NewInt(lo)).Int64() }
func Uint64(name string, lo, hi uint64) uint64 {
	return pick(name, new(big.Int).SetUint64(lo)).Uint64()
}
func Uint32(name string, lo, hi uint32) uint32 {
	return uint32(pick(name, new(big.Int).SetUint64(uint64(lo))).Uint64())
}

// Big is an arbitrary integer in [lo, hi]; bounds are decimal or "b^e".
func Big(name, lo, hi string) *big.Int { return pick(name, bound(lo)) }

func Bool(name string) bool {
	v, ok := get(name)
	return ok && (v == "true" || v == "1")
}

// Choice is an arbitrary value in [0,n), explored value by value.
func Choice(name string, n int) int { return int(pick(name, new(big.Int)).Int64()) }

func Assume(c bool) {
	if !c {
		panic(stopT{"infeasible"})
	}
}

func Assert(c bool, label string) {
	if !c {
		R.Failed = label
		panic(stopT{"assert"})
	}
}

func Reach(label string) { R.Reached[label]++ }
func Stop()              { panic(stopT{"stop"}) }
func Note(s string)      { R.Notes = append(R.Notes, s) }

// Observe records a value the two executions must agree on.
func Observe(name string, v *big.Int) { R.Observed[name] = v.String() }

// Known marks inputs satisfying cond as the listed finding id; when the
// finding is not listed, cond is a violation.
func Known(id string, cond bool) {
	if cond {
		if R.Known[id] {
			R.KnownHit = append(R.KnownHit, id)
			panic(stopT{"known"})
		}
		R.Failed = id
		panic(stopT{"assert"})
	}
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b *big.Int) *big.Int {
	if c {
		return new(big.Int).Set(a)
	}
	return new(big.Int).Set(b)
}

func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Fork makes a condition concrete, exploring both outcomes.
func Fork(c bool) bool { return c }

// Concrete makes an integer concrete, exploring every feasible value.
func Concrete(v int64) int64 { return v }

// ReverseMaps makes what follows run as on another node: maps are iterated in
// the opposite order, the clock shows another time and random numbers differ.
func ReverseMaps(on bool) {
	R.Random = true
	clock.Other = on
	clock.Ahead = func() int64 { return Int64("clock", 0, 1<<62) }
}

func Print(args ...any) {
	if os.Getenv("RT_VERBOSE") != "" {
		fmt.Println(append([]any{"  |"}, args...)...)
	}
}

// SameMsg reports whether two protobuf messages are equal field by field
// (nil and empty slices, nil and zero numbers are the same).
func SameMsg(a, b interface{ Marshal() ([]byte, error) }) bool {
	x, e1 := a.Marshal()
	y, e2 := b.Marshal()
	return e1 == nil && e2 == nil && string(x) == string(y)
}

// SameBytes says whether two stored values are the same.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// UnpackAny is provided by the engine only.
func UnpackAny(any, ptr interface{}) error { panic("symbolic only") }
