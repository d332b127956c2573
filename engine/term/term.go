// Package term implements hash-consed integer and boolean terms with a
// polynomial normal form, interval reasoning and SMT-LIB printing.
package term

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer constant
	OVar             // integer variable
	OSum             // C + sum Coefs[i]*Args[i]; Args are atoms (non-const, non-sum)
	OMul             // product of >=2 atoms (sorted by id, repetitions allowed)
	ODiv             // floor division Args[0] / Args[1], Args[1] > 0 is a path fact
	OMod             // Args[0] mod Args[1] (Euclidean), Args[1] > 0
	OIte             // Cond, Args
	OCmp             // sign of (Args[0]) : -1/0/1
	OBits            // bit length of |Args[0]|
	BConst
	BVar
	BNot
	BAnd
	BOr
	BLe // Args[0] <= 0
	BEq // Args[0] == 0
)

type T struct {
	Op    Op
	ID    int
	C     *big.Int // OConst value, OSum constant
	Coefs []*big.Int
	Args  []*T // int args, or bool args; OIte: [cond, a, b]
	Name  string
	BV    bool
	Lo    *big.Int // nil = -inf
	Hi    *big.Int // nil = +inf
}

func (t *T) IsBool() bool { return t.Op >= BConst }
func (t *T) IsConst() bool { return t.Op == OConst || t.Op == BConst }

type Store struct {
	tab  map[string]*T
	ctab map[string]*T // constants outlive Reset
	n    int
	nc   int
	True *T
	False *T
	zero, one *T
}

func NewStore() *Store {
	s := &Store{tab: map[string]*T{}, ctab: map[string]*T{}}
	s.True = s.mk(&T{Op: BConst, BV: true})
	s.False = s.mk(&T{Op: BConst, BV: false})
	s.zero = s.Const(new(big.Int))
	s.one = s.Const(big.NewInt(1))
	return s
}

func (s *Store) key(t *T) string {
	var b strings.Builder
	b.WriteByte(byte(t.Op) + 'A')
	switch t.Op {
	case BConst:
		fmt.Fprint(&b, t.BV)
	case OVar, BVar:
		b.WriteString(t.Name)
		if t.Op == OVar {
			fmt.Fprintf(&b, "|%v|%v", t.Lo, t.Hi)
		}
	}
	if t.C != nil {
		b.WriteString(t.C.Text(62))
	}
	for i, a := range t.Args {
		b.WriteByte(',')
		if t.Coefs != nil {
			b.WriteString(t.Coefs[i].Text(62))
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%x", a.ID)
	}
	return b.String()
}

func (s *Store) mk(t *T) *T {
	k := s.key(t)
	if t.IsConst() {
		if o, ok := s.ctab[k]; ok {
			return o
		}
		s.nc++
		t.ID = -s.nc
		s.ctab[k] = t
		return t
	}
	if o, ok := s.tab[k]; ok {
		return o
	}
	s.n++
	t.ID = s.n
	s.tab[k] = t
	return t
}

func (s *Store) Size() int { return s.n }

// Reset forgets every term but the constants.
func (s *Store) Reset() {
	if s.n == 0 {
		return
	}
	s.n = 0
	if len(s.tab) > 4096 {
		s.tab = map[string]*T{}
	} else {
		clear(s.tab)
	}
}

func (s *Store) Const(v *big.Int) *T {
	c := new(big.Int).Set(v)
	return s.mk(&T{Op: OConst, C: c, Lo: c, Hi: c})
}
func (s *Store) Int64(v int64) *T { return s.Const(big.NewInt(v)) }
func (s *Store) Bool(b bool) *T {
	if b {
		return s.True
	}
	return s.False
}
func (s *Store) Var(name string, lo, hi *big.Int) *T {
	return s.mk(&T{Op: OVar, Name: name, Lo: lo, Hi: hi})
}
func (s *Store) BVar(name string) *T { return s.mk(&T{Op: BVar, Name: name}) }

// ---- linear view -----------------------------------------------------------

type lin struct {
	c  *big.Int
	cs []*big.Int
	as []*T
}

func (s *Store) lin(t *T) lin {
	switch t.Op {
	case OConst:
		return lin{c: t.C}
	case OSum:
		return lin{c: t.C, cs: t.Coefs, as: t.Args}
	}
	return lin{c: bigZero, cs: []*big.Int{bigOne}, as: []*T{t}}
}

var bigZero = new(big.Int)
var bigOne = big.NewInt(1)

func (s *Store) fromLin(l lin) *T {
	if len(l.as) == 0 {
		return s.Const(l.c)
	}
	if len(l.as) == 1 && l.c.Sign() == 0 && l.cs[0].Cmp(bigOne) == 0 {
		return l.as[0]
	}
	t := &T{Op: OSum, C: l.c, Coefs: l.cs, Args: l.as}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for i, a := range l.as {
		alo, ahi := a.Lo, a.Hi
		if l.cs[i].Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(alo, l.cs[i]))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ahi, l.cs[i]))
			}
		}
	}
	t.Lo, t.Hi = lo, hi
	return s.mk(t)
}

func addLin(a, b lin, kb *big.Int) lin {
	r := lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, kb))}
	i, j := 0, 0
	for i < len(a.as) || j < len(b.as) {
		switch {
		case j >= len(b.as) || (i < len(a.as) && a.as[i].ID < b.as[j].ID):
			r.as = append(r.as, a.as[i])
			r.cs = append(r.cs, a.cs[i])
			i++
		case i >= len(a.as) || b.as[j].ID < a.as[i].ID:
			r.as = append(r.as, b.as[j])
			r.cs = append(r.cs, new(big.Int).Mul(b.cs[j], kb))
			j++
		default:
			c := new(big.Int).Add(a.cs[i], new(big.Int).Mul(b.cs[j], kb))
			if c.Sign() != 0 {
				r.as = append(r.as, a.as[i])
				r.cs = append(r.cs, c)
			}
			i++
			j++
		}
	}
	return r
}

func (s *Store) Add(a, b *T) *T {
	if a.Op == OConst && b.Op == OConst {
		return s.Const(new(big.Int).Add(a.C, b.C))
	}
	return s.fromLin(addLin(s.lin(a), s.lin(b), bigOne))
}

var bigM1 = big.NewInt(-1)

func (s *Store) Sub(a, b *T) *T {
	if a == b {
		return s.zero
	}
	return s.fromLin(addLin(s.lin(a), s.lin(b), bigM1))
}
func (s *Store) Neg(a *T) *T { return s.Scale(a, bigM1) }
func (s *Store) Scale(a *T, k *big.Int) *T {
	if k.Sign() == 0 {
		return s.zero
	}
	return s.fromLin(addLin(lin{c: bigZero}, s.lin(a), k))
}

func (s *Store) mulAtoms(as []*T) *T {
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	t := &T{Op: OMul, Args: as}
	lo, hi := as[0].Lo, as[0].Hi
	for i := 1; i < len(as); i++ {
		if as[i] == as[i-1] && len(as) == 2 {
			// square
			if lo != nil && lo.Sign() >= 0 {
				lo, hi = mulInt(lo, hi, as[i].Lo, as[i].Hi)
			} else {
				_, hi = mulInt(lo, hi, as[i].Lo, as[i].Hi)
				lo = bigZero
			}
			continue
		}
		lo, hi = mulInt(lo, hi, as[i].Lo, as[i].Hi)
	}
	t.Lo, t.Hi = lo, hi
	return s.mk(t)
}

func mulInt(alo, ahi, blo, bhi *big.Int) (*big.Int, *big.Int) {
	// common case: both nonnegative
	if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
		lo := new(big.Int).Mul(alo, blo)
		if ahi == nil || bhi == nil {
			return lo, nil
		}
		return lo, new(big.Int).Mul(ahi, bhi)
	}
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		return nil, nil
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{alo, ahi} {
		for _, y := range []*big.Int{blo, bhi} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func atomsOf(a *T) []*T {
	if a.Op == OMul {
		return a.Args
	}
	return []*T{a}
}

func (s *Store) Mul(a, b *T) *T {
	if a.Op == OConst {
		return s.Scale(b, a.C)
	}
	if b.Op == OConst {
		return s.Scale(a, b.C)
	}
	la, lb := s.lin(a), s.lin(b)
	if len(la.as)*len(lb.as) > 64 {
		// keep it opaque: introduce product of two sums as atom pair
		return s.mulAtoms([]*T{a, b})
	}
	r := lin{c: new(big.Int).Mul(la.c, lb.c)}
	acc := s.fromLin(r)
	acc = s.Add(acc, s.Scale(s.fromLin(lin{c: bigZero, cs: lb.cs, as: lb.as}), la.c))
	acc = s.Add(acc, s.Scale(s.fromLin(lin{c: bigZero, cs: la.cs, as: la.as}), lb.c))
	for i, x := range la.as {
		for j, y := range lb.as {
			m := append(append([]*T{}, atomsOf(x)...), atomsOf(y)...)
			acc = s.Add(acc, s.Scale(s.mulAtoms(m), new(big.Int).Mul(la.cs[i], lb.cs[j])))
		}
	}
	return acc
}

// FloorDivBig / EuclidMod for constants
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 => floor
	return q
}

// Div is floor division by a positive divisor.
func (s *Store) Div(a, b *T) *T {
	if b.Op == OConst {
		if b.C.Sign() <= 0 {
			panic("term.Div: non-positive constant divisor")
		}
		if b.C.Cmp(bigOne) == 0 {
			return a
		}
		if a.Op == OConst {
			return s.Const(floorDiv(a.C, b.C))
		}
		// pull out coefficients divisible by b
		l := s.lin(a)
		out := lin{c: floorDiv(l.c, b.C)}
		rest := lin{c: new(big.Int).Mod(l.c, b.C)}
		g := new(big.Int).Set(b.C)
		for i := range l.as {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(l.cs[i], b.C, m)
			if m.Sign() == 0 {
				out.as = append(out.as, l.as[i])
				out.cs = append(out.cs, q)
			} else {
				rest.as = append(rest.as, l.as[i])
				rest.cs = append(rest.cs, l.cs[i])
				g.GCD(nil, nil, g, new(big.Int).Abs(l.cs[i]))
			}
		}
		o := s.fromLin(out)
		if len(rest.as) == 0 {
			return o
		}
		d := b.C
		if g.Cmp(bigOne) > 0 {
			// floor((g*x + c)/ (g*d')) = floor((x + floor(c/g))/d')
			d = new(big.Int).Quo(d, g)
			for i := range rest.cs {
				rest.cs[i] = new(big.Int).Quo(rest.cs[i], g)
			}
			rest.c = floorDiv(rest.c, g)
			if d.Cmp(bigOne) == 0 {
				return s.Add(o, s.fromLin(rest))
			}
		}
		return s.Add(o, s.rawDiv(s.fromLin(rest), s.Const(d)))
	}
	if a.Op == OConst && a.C.Sign() == 0 {
		return s.zero
	}
	// symbolic divisor: cancel common factors
	la, lb := s.lin(a), s.lin(b)
	if len(lb.as) == 1 && lb.c.Sign() == 0 {
		// b = k * monomial : pull out monomials of a divisible by it
		bm := atomsOf(lb.as[0])
		out := lin{c: bigZero}
		var rest lin
		rest.c = la.c
		acc := s.fromLin(out)
		pulled := false
		for i, x := range la.as {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(la.cs[i], lb.cs[0], m)
			rem, ok := divMonomial(atomsOf(x), bm)
			if ok && m.Sign() == 0 {
				pulled = true
				acc = s.Add(acc, s.Scale(s.monomial(rem), q))
			} else {
				rest.as = append(rest.as, x)
				rest.cs = append(rest.cs, la.cs[i])
			}
		}
		if pulled {
			r := s.fromLin(rest)
			if r.Op == OConst && r.C.Sign() == 0 {
				return acc
			}
			return s.Add(acc, s.Div(r, b))
		}
	}
	if a == b {
		return s.one
	}
	if len(lb.as) >= 1 && len(la.as) >= len(lb.as) && len(la.as) <= 64 {
		if q, r, ok := s.polyDiv(la, lb); ok {
			if r.Op == OConst && r.C.Sign() == 0 {
				return q
			}
			return s.Add(q, s.Div(r, b))
		}
	}
	// gcd of all coefficients
	g := new(big.Int)
	gg := func(l lin) {
		g.GCD(nil, nil, g, new(big.Int).Abs(l.c))
		for _, c := range l.cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	gg(la)
	gg(lb)
	if g.Cmp(bigOne) > 0 {
		a = s.fromLin(quoLin(la, g))
		b = s.fromLin(quoLin(lb, g))
	}
	// common single-monomial factor of a (monomial) and b: strip shared atoms when a,b both single monomials
	la, lb = s.lin(a), s.lin(b)
	if len(la.as) == 1 && len(lb.as) == 1 && la.c.Sign() == 0 && lb.c.Sign() == 0 {
		am, bm, changed := stripCommon(atomsOf(la.as[0]), atomsOf(lb.as[0]))
		if changed {
			// valid only when the stripped factors are positive; b>0 and factors nonneg intervals
			return s.Div(s.Scale(s.monomial(am), la.cs[0]), s.Scale(s.monomial(bm), lb.cs[0]))
		}
	}
	return s.rawDiv(a, b)
}

// polyDiv divides polynomials with integer coefficients: a = q*b + r.  It
// reports success when r is zero or has fewer terms than a.
func (s *Store) polyDiv(la, lb lin) (*T, *T, bool) {
	// leading term of b: the monomial greatest by degree, then by atom order
	lead := func(l lin) int {
		best := -1
		for i := range l.as {
			if best < 0 || monoLess(l.as[best], l.as[i]) {
				best = i
			}
		}
		return best
	}
	bi := lead(lb)
	bm := atomsOf(lb.as[bi])
	bc := lb.cs[bi]
	b := s.fromLin(lb)
	rest := la
	q := s.zero
	var keep lin
	keep.c = bigZero
	for steps := 0; len(rest.as) > 0; steps++ {
		if steps > 200 {
			return nil, nil, false
		}
		i := lead(rest)
		qc, m := new(big.Int), new(big.Int)
		qc.QuoRem(rest.cs[i], bc, m)
		rem, ok := divMonomial(atomsOf(rest.as[i]), bm)
		if !ok || m.Sign() != 0 {
			keep.as = append(keep.as, rest.as[i])
			keep.cs = append(keep.cs, rest.cs[i])
			n := lin{c: rest.c}
			n.as = append(append(n.as, rest.as[:i]...), rest.as[i+1:]...)
			n.cs = append(append(n.cs, rest.cs[:i]...), rest.cs[i+1:]...)
			rest = n
			continue
		}
		t := s.Scale(s.monomial(rem), qc)
		q = s.Add(q, t)
		rest = s.lin(s.Sub(s.fromLin(rest), s.Mul(t, b)))
		if len(rest.as) > 100 {
			return nil, nil, false
		}
	}
	keep.c = rest.c
	r := s.Const(keep.c)
	for i := range keep.as {
		r = s.Add(r, s.Scale(keep.as[i], keep.cs[i]))
	}
	if q.Op == OConst && q.C.Sign() == 0 {
		return nil, nil, false
	}
	if r.Op == OConst && r.C.Sign() == 0 {
		return q, r, true
	}
	if len(keep.as) < len(la.as) {
		return q, r, true
	}
	return nil, nil, false
}

func monoLess(a, b *T) bool {
	x, y := atomsOf(a), atomsOf(b)
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	for i := range x {
		if x[i] != y[i] {
			return x[i].ID < y[i].ID
		}
	}
	return false
}

func stripCommon(a, b []*T) ([]*T, []*T, bool) {
	var ra []*T
	rb := append([]*T{}, b...)
	ch := false
	for _, x := range a {
		found := false
		for j, y := range rb {
			if x == y && x.Lo != nil && x.Lo.Sign() >= 0 {
				rb = append(rb[:j:j], rb[j+1:]...)
				found, ch = true, true
				break
			}
		}
		if !found {
			ra = append(ra, x)
		}
	}
	return ra, rb, ch
}

func (s *Store) monomial(as []*T) *T {
	switch len(as) {
	case 0:
		return s.one
	case 1:
		return as[0]
	}
	return s.mulAtoms(append([]*T{}, as...))
}

func divMonomial(a, b []*T) ([]*T, bool) {
	rem := append([]*T{}, a...)
	for _, y := range b {
		ok := false
		for i, x := range rem {
			if x == y {
				rem = append(rem[:i:i], rem[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			return nil, false
		}
	}
	return rem, true
}

func quoLin(l lin, g *big.Int) lin {
	r := lin{c: new(big.Int).Quo(l.c, g), as: l.as}
	for _, c := range l.cs {
		r.cs = append(r.cs, new(big.Int).Quo(c, g))
	}
	return r
}

func (s *Store) rawDiv(a, b *T) *T {
	t := &T{Op: ODiv, Args: []*T{a, b}}
	// b >= 1
	blo := bigOne
	if b.Lo != nil && b.Lo.Cmp(bigOne) > 0 {
		blo = b.Lo
	}
	if a.Lo != nil {
		if a.Lo.Sign() >= 0 {
			if b.Hi != nil && b.Hi.Sign() > 0 {
				t.Lo = floorDiv(a.Lo, b.Hi)
			} else {
				t.Lo = bigZero
			}
		} else {
			t.Lo = floorDiv(a.Lo, blo)
		}
	}
	if a.Hi != nil {
		if a.Hi.Sign() >= 0 {
			t.Hi = floorDiv(a.Hi, blo)
		} else if b.Hi != nil && b.Hi.Sign() > 0 {
			t.Hi = floorDiv(a.Hi, b.Hi)
		} else {
			t.Hi = bigM1
		}
	}
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(t.Hi) == 0 {
		return s.Const(t.Lo)
	}
	return s.mk(t)
}

// Mod is the Euclidean remainder by a positive divisor, expressed by Div.
func (s *Store) Mod(a, b *T) *T {
	if a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && b.Op == OConst && a.Hi.Cmp(b.C) < 0 {
		return a
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Const(new(big.Int).Mod(a.C, b.C))
	}
	q := s.Div(a, b)
	r := s.Sub(a, s.Mul(b, q))
	// tighten the interval of the remainder through an OMod atom
	if r.Op == OConst {
		return r
	}
	if b.Op == OConst {
		// reduce coefficients modulo b first
		l := s.lin(a)
		nl := lin{c: new(big.Int).Mod(l.c, b.C)}
		for i := range l.as {
			m := new(big.Int).Mod(l.cs[i], b.C)
			if m.Sign() != 0 {
				nl.as = append(nl.as, l.as[i])
				nl.cs = append(nl.cs, m)
			}
		}
		a = s.fromLin(nl)
		if a.Op == OConst {
			return s.Const(new(big.Int).Mod(a.C, b.C))
		}
		if a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && a.Hi.Cmp(b.C) < 0 {
			return a
		}
		t := &T{Op: OMod, Args: []*T{a, b}, Lo: bigZero, Hi: new(big.Int).Sub(b.C, bigOne)}
		if a.Lo != nil && a.Lo.Sign() >= 0 && a.Hi != nil && a.Hi.Cmp(t.Hi) < 0 {
			t.Hi = a.Hi
		}
		return s.mk(t)
	}
	t := &T{Op: OMod, Args: []*T{a, b}, Lo: bigZero}
	if b.Hi != nil {
		t.Hi = new(big.Int).Sub(b.Hi, bigOne)
	}
	if a.Lo != nil && a.Lo.Sign() >= 0 && a.Hi != nil && (t.Hi == nil || a.Hi.Cmp(t.Hi) < 0) {
		t.Hi = a.Hi
	}
	return s.mk(t)
}

// Quo is Go's truncated division with positive divisor known (b>0).
func (s *Store) QuoPos(a, b *T) *T {
	if a.Lo != nil && a.Lo.Sign() >= 0 {
		return s.Div(a, b)
	}
	if a.Hi != nil && a.Hi.Sign() <= 0 {
		return s.Neg(s.Div(s.Neg(a), b))
	}
	return s.Ite(s.Le(s.zero, a), s.Div(a, b), s.Neg(s.Div(s.Neg(a), b)))
}

// Quo truncates toward zero; divisor must be nonzero on the path.
func (s *Store) Quo(a, b *T) *T {
	if b.Lo != nil && b.Lo.Sign() >= 0 {
		return s.QuoPos(a, b)
	}
	if b.Hi != nil && b.Hi.Sign() <= 0 {
		return s.Neg(s.QuoPos(a, s.Neg(b)))
	}
	return s.Ite(s.Lt(s.zero, b), s.QuoPos(a, b), s.Neg(s.QuoPos(a, s.Neg(b))))
}

func (s *Store) Rem(a, b *T) *T {
	if a.Lo != nil && a.Lo.Sign() >= 0 && b.Lo != nil && b.Lo.Sign() >= 0 {
		return s.Mod(a, b)
	}
	return s.Sub(a, s.Mul(b, s.Quo(a, b)))
}

func (s *Store) Abs(a *T) *T {
	if a.Lo != nil && a.Lo.Sign() >= 0 {
		return a
	}
	if a.Hi != nil && a.Hi.Sign() <= 0 {
		return s.Neg(a)
	}
	return s.Ite(s.Le(s.zero, a), a, s.Neg(a))
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (s *Store) Ite(c, a, b *T) *T {
	if c.Op == BConst {
		if c.BV {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.IsBool() {
		return s.Or(s.And(c, a), s.And(s.Not(c), b))
	}
	if c.Op == BNot {
		c, a, b = c.Args[0], b, a
	}
	return s.mk(&T{Op: OIte, Args: []*T{c, a, b}, Lo: minB(a.Lo, b.Lo), Hi: maxB(a.Hi, b.Hi)})
}

// CmpSign is the sign of a-b.
func (s *Store) CmpT(a, b *T) *T {
	d := s.Sub(a, b)
	if d.Op == OConst {
		return s.Int64(int64(d.C.Sign()))
	}
	lo, hi := int64(-1), int64(1)
	if d.Lo != nil {
		if d.Lo.Sign() > 0 {
			return s.one
		}
		if d.Lo.Sign() == 0 {
			lo = 0
		}
	}
	if d.Hi != nil {
		if d.Hi.Sign() < 0 {
			return s.Int64(-1)
		}
		if d.Hi.Sign() == 0 {
			hi = 0
		}
	}
	return s.mk(&T{Op: OCmp, Args: []*T{d}, Lo: big.NewInt(lo), Hi: big.NewInt(hi)})
}

func (s *Store) BitLen(a *T) *T {
	if a.Op == OConst {
		return s.Int64(int64(a.C.BitLen()))
	}
	var hi *big.Int
	if a.Lo != nil && a.Hi != nil {
		n := a.Lo.BitLen()
		if a.Hi.BitLen() > n {
			n = a.Hi.BitLen()
		}
		hi = big.NewInt(int64(n))
	}
	return s.mk(&T{Op: OBits, Args: []*T{a}, Lo: bigZero, Hi: hi})
}

// ---- booleans ---------------------------------------------------------------

func (s *Store) Le(a, b *T) *T { return s.le0(s.Sub(a, b)) }
func (s *Store) Lt(a, b *T) *T { return s.le0(s.Add(s.Sub(a, b), s.one)) }
func (s *Store) Eq(a, b *T) *T {
	if a.IsBool() {
		if a == b {
			return s.True
		}
		return s.Or(s.And(a, b), s.And(s.Not(a), s.Not(b)))
	}
	return s.eq0(s.Sub(a, b))
}

func (s *Store) le0(d *T) *T {
	if d.Hi != nil && d.Hi.Sign() <= 0 {
		return s.True
	}
	if d.Lo != nil && d.Lo.Sign() > 0 {
		return s.False
	}
	l := s.lin(d)
	if m, a, b, k, ok := s.remForm(l); ok {
		if m.Sign() > 0 { // rem <= n
			n := floorDiv(new(big.Int).Neg(k), m)
			switch {
			case n.Cmp(new(big.Int).Sub(b, bigOne)) >= 0:
				return s.True
			case n.Sign() < 0:
				return s.False
			case n.Sign() == 0:
				if r := s.congr(a, b, n); r != nil {
					return r
				}
			}
		} else { // rem >= n
			n := new(big.Int).Neg(floorDiv(new(big.Int).Neg(k), new(big.Int).Neg(m)))
			switch {
			case n.Sign() <= 0:
				return s.True
			case n.Cmp(b) >= 0:
				return s.False
			case n.Cmp(bigOne) == 0:
				if r := s.congr(a, b, bigZero); r != nil {
					return s.Not(r)
				}
			}
		}
	}
	// single special atom with unit coefficient: k*atom + c <= 0
	if len(l.as) == 1 {
		a, k := l.as[0], l.cs[0]
		if k.Cmp(bigOne) == 0 || k.Cmp(bigM1) == 0 {
			pos := k.Sign() > 0
			switch a.Op {
			case OCmp:
				// pos: cmp <= -c ; neg: cmp >= c
				x := a.Args[0]
				if pos {
					n := new(big.Int).Neg(l.c)
					switch {
					case n.Cmp(bigOne) >= 0:
						return s.True
					case n.Sign() == 0:
						return s.le0(x)
					case n.Cmp(bigM1) == 0:
						return s.le0(s.Add(x, s.one))
					default:
						return s.False
					}
				}
				n := l.c
				switch {
				case n.Cmp(bigM1) <= 0:
					return s.True
				case n.Sign() == 0:
					return s.le0(s.Neg(x))
				case n.Cmp(bigOne) == 0:
					return s.le0(s.Add(s.Neg(x), s.one))
				default:
					return s.False
				}
			case OBits:
				x := a.Args[0]
				if pos { // bits <= n
					n := new(big.Int).Neg(l.c)
					if n.Sign() < 0 {
						return s.False
					}
					lim := s.Const(new(big.Int).Lsh(bigOne, uint(n.Int64())))
					return s.And(s.Lt(x, lim), s.Lt(s.Neg(lim), x))
				}
				// bits >= n
				n := l.c
				if n.Sign() <= 0 {
					return s.True
				}
				lim := s.Const(new(big.Int).Lsh(bigOne, uint(n.Int64()-1)))
				return s.Or(s.Le(lim, x), s.Le(x, s.Neg(lim)))
			case ODiv:
				if x, b := a.Args[0], a.Args[1]; b.Lo != nil && b.Lo.Sign() > 0 {
					if pos { // floor(x/b) <= n  <=>  x <= (n+1)*b - 1
						n1 := new(big.Int).Sub(bigOne, l.c)
						return s.le0(s.Add(s.Sub(x, s.Scale(b, n1)), s.one))
					}
					// floor(x/b) >= n  <=>  x >= n*b
					return s.le0(s.Sub(s.Scale(b, l.c), x))
				}
			}
		}
		if a.Op == OIte && (isConstTree(a) || divIte(a)) {
			f := func(x *T) *T { return s.le0(s.Add(s.Scale(x, k), s.Const(l.c))) }
			return s.boolIte(a.Args[0], f(a.Args[1]), f(a.Args[2]))
		}
		if k.CmpAbs(bigOne) != 0 {
			g := new(big.Int).Abs(k)
			c := new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.c), g))
			return s.le0(s.fromLin(lin{as: l.as, cs: []*big.Int{big.NewInt(int64(k.Sign()))}, c: c}))
		}
	}
	// normalise by gcd
	g := new(big.Int)
	for _, c := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigOne) > 0 {
		nl := lin{as: l.as}
		for _, c := range l.cs {
			nl.cs = append(nl.cs, new(big.Int).Quo(c, g))
		}
		// sum g*x + c <= 0  <=>  sum x <= floor(-c/g)  <=> sum x - floor(-c/g) <= 0
		nl.c = new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.c), g))
		d = s.fromLin(nl)
		if d.Hi != nil && d.Hi.Sign() <= 0 {
			return s.True
		}
		if d.Lo != nil && d.Lo.Sign() > 0 {
			return s.False
		}
	}
	return s.mk(&T{Op: BLe, Args: []*T{d}})
}

// remForm recognises m*(a mod b) + k, with b > 0 constant, in either of its shapes.
func (s *Store) remForm(l lin) (m *big.Int, a *T, b, k *big.Int, ok bool) {
	if len(l.as) == 1 {
		if x := l.as[0]; x.Op == OMod && x.Args[1].Op == OConst {
			return l.cs[0], x.Args[0], x.Args[1].C, l.c, true
		}
	}
	for i, x := range l.as {
		if x.Op != ODiv || x.Args[1].Op != OConst {
			continue
		}
		// l = -m*b*x + m*a + k
		b = x.Args[1].C
		q, r := new(big.Int), new(big.Int)
		q.QuoRem(l.cs[i], b, r)
		if r.Sign() != 0 {
			continue
		}
		m = q.Neg(q)
		rest := s.Sub(s.Sub(s.fromLin(l), s.Scale(x, l.cs[i])), s.Scale(x.Args[0], m))
		if rest.Op == OConst {
			return m, x.Args[0], b, rest.C, true
		}
	}
	return nil, nil, nil, nil, false
}

// congr decides a mod b = n where a is linear in one variable that can take at most
// one such value; nil otherwise.
func (s *Store) congr(a *T, b, n *big.Int) *T {
	l := s.lin(a)
	if len(l.as) != 1 {
		return nil
	}
	x, k := l.as[0], l.cs[0]
	if x.Lo == nil || x.Hi == nil {
		return nil
	}
	g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(k), b)
	c, r := new(big.Int).Sub(n, l.c), new(big.Int)
	c.DivMod(c, g, r)
	if r.Sign() != 0 {
		return s.False
	}
	b = new(big.Int).Quo(b, g)
	k = new(big.Int).Mod(new(big.Int).Quo(k, g), b)
	if b.Cmp(bigOne) == 0 {
		return s.True
	}
	inv := new(big.Int).ModInverse(k, b)
	v := c.Mul(c, inv)
	v.Mod(v, b)
	// the first solution that is not below x.Lo
	v.Add(x.Lo, r.Mod(r.Sub(v, x.Lo), b))
	if v.Cmp(x.Hi) > 0 {
		return s.False
	}
	if new(big.Int).Add(v, b).Cmp(x.Hi) > 0 {
		return s.eq0(s.Sub(x, s.Const(v)))
	}
	return nil
}

// divIte says whether a comparison of a with a constant is worth pushing into
// its branches: one of them is a constant or a quotient, for which the
// comparison simplifies.
func divIte(a *T) bool {
	for _, x := range a.Args[1:] {
		if x.Op == OConst || x.Op == ODiv || x.Op == OIte && divIte(x) {
			return true
		}
	}
	return false
}

func isConstTree(a *T) bool {
	if a.Op == OConst {
		return true
	}
	return a.Op == OIte && isConstTree(a.Args[1]) && isConstTree(a.Args[2])
}

func (s *Store) boolIte(c, a, b *T) *T {
	if a == b {
		return a
	}
	if a.Op == BConst && b.Op == BConst {
		if a.BV {
			return c
		}
		return s.Not(c)
	}
	return s.And(s.Or(s.Not(c), a), s.Or(c, b))
}

func (s *Store) eq0(d *T) *T {
	if d.Op == OConst {
		return s.Bool(d.C.Sign() == 0)
	}
	if d.Lo != nil && d.Lo.Sign() > 0 {
		return s.False
	}
	if d.Hi != nil && d.Hi.Sign() < 0 {
		return s.False
	}
	l := s.lin(d)
	if m, a, b, k, ok := s.remForm(l); ok {
		n, r := new(big.Int), new(big.Int)
		n.DivMod(new(big.Int).Neg(k), m, r)
		if r.Sign() != 0 || n.Sign() < 0 || n.Cmp(b) >= 0 {
			return s.False
		}
		if r := s.congr(a, b, n); r != nil {
			return r
		}
	}
	if len(l.as) == 1 {
		a, k := l.as[0], l.cs[0]
		if a.Op == OCmp && (k.Cmp(bigOne) == 0 || k.Cmp(bigM1) == 0) {
			n := new(big.Int).Neg(l.c)
			if k.Sign() < 0 {
				n.Neg(n)
			}
			x := a.Args[0]
			if n.IsInt64() {
				switch n.Int64() {
				case 0:
					return s.eq0(x)
				case 1:
					return s.le0(s.Add(s.Neg(x), s.one))
				case -1:
					return s.le0(s.Add(x, s.one))
				}
			}
			return s.False
		}
		if a.Op == OBits && k.CmpAbs(bigOne) == 0 {
			return s.And(s.le0(d), s.le0(s.Neg(d)))
		}
		if a.Op == ODiv && a.Args[1].Lo != nil && a.Args[1].Lo.Sign() > 0 {
			n, m := new(big.Int), new(big.Int)
			n.DivMod(new(big.Int).Neg(l.c), k, m)
			if m.Sign() != 0 {
				return s.False
			}
			e := s.fromLin(lin{as: []*T{a}, cs: []*big.Int{bigOne}, c: new(big.Int).Neg(n)})
			return s.And(s.le0(e), s.le0(s.Neg(e)))
		}
		if a.Op == OIte && (isConstTree(a) || divIte(a)) {
			f := func(x *T) *T { return s.eq0(s.Add(s.Scale(x, k), s.Const(l.c))) }
			return s.boolIte(a.Args[0], f(a.Args[1]), f(a.Args[2]))
		}
	}
	g := new(big.Int)
	for _, c := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if new(big.Int).Mod(l.c, g).Sign() != 0 {
		return s.False
	}
	if l.cs[0].Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) != 0 {
		nl := lin{as: l.as, c: new(big.Int).Quo(l.c, g)}
		for _, c := range l.cs {
			nl.cs = append(nl.cs, new(big.Int).Quo(c, g))
		}
		d = s.fromLin(nl)
	}
	return s.mk(&T{Op: BEq, Args: []*T{d}})
}

func (s *Store) Not(a *T) *T {
	switch a.Op {
	case BConst:
		return s.Bool(!a.BV)
	case BNot:
		return a.Args[0]
	case BLe: // d <= 0  ->  d >= 1  ->  1-d <= 0
		return s.le0(s.Sub(s.one, a.Args[0]))
	}
	return s.mk(&T{Op: BNot, Args: []*T{a}})
}

func (s *Store) nary(op Op, unit, absorb *T, as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x == absorb {
			return false
		}
		if x == unit || seen[x.ID] {
			return true
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return absorb
		}
	}
	for _, x := range out {
		if seen[s.Not(x).ID] {
			return absorb
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return s.mk(&T{Op: op, Args: out})
}

func (s *Store) And(as ...*T) *T { return s.nary(BAnd, s.True, s.False, as...) }
func (s *Store) Or(as ...*T) *T  { return s.nary(BOr, s.False, s.True, as...) }

// Tighten narrows the interval of a variable by a fact of the current path.  It
// affects the terms built from now on.
func (s *Store) Tighten(c *T) {
	switch c.Op {
	case BAnd:
		for _, a := range c.Args {
			s.Tighten(a)
		}
		return
	case BLe, BEq:
	default:
		return
	}
	l := s.lin(c.Args[0])
	if len(l.as) != 1 || l.as[0].Op != OVar || l.cs[0].CmpAbs(bigOne) != 0 {
		return
	}
	v := l.as[0]
	up := l.cs[0].Sign() > 0 // v <= -c, otherwise v >= c
	b := new(big.Int).Set(l.c)
	if up {
		b.Neg(b)
	}
	if (up || c.Op == BEq) && (v.Hi == nil || b.Cmp(v.Hi) < 0) {
		v.Hi = b
	}
	if (!up || c.Op == BEq) && (v.Lo == nil || b.Cmp(v.Lo) > 0) {
		v.Lo = b
	}
}

// ---- evaluation ---------------------------------------------------------------

type Model struct {
	Ints  map[string]*big.Int
	Bools map[string]bool
	// Seed > 0: variables without a value get one derived from it.
	Seed int
	memo map[int]*big.Int
}

// NewModel returns an empty model that derives its values from a seed.
func NewModel(seed int) *Model {
	return &Model{Ints: map[string]*big.Int{}, Bools: map[string]bool{}, Seed: seed, memo: map[int]*big.Int{}}
}

// Memo makes the model remember the values of terms (of the current path).
func (m *Model) Memo(seed int) *Model {
	m.Seed, m.memo = seed, map[int]*big.Int{}
	return m
}

func fnv(name string, seed int, k uint64) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	h ^= uint64(seed)*0x9E3779B97F4A7C15 + k*0xC2B2AE3D27D4EB4F
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>33
}

// pick derives a value in the interval of the variable from the seed.
func (m *Model) pick(t *T) *big.Int {
	lo := t.Lo
	if lo == nil {
		lo = bigZero
	}
	r := new(big.Int).Lsh(bigOne, 64)
	if t.Hi != nil {
		r.Sub(t.Hi, lo)
	}
	if r.Sign() <= 0 {
		return lo
	}
	v := new(big.Int)
	switch m.Seed {
	case 1:
		v.Set(bigZero)
	case 2:
		v.Set(r)
	case 3:
		v.Set(bigOne)
	case 4:
		v.Sub(r, bigOne)
	default:
		bits := uint64(r.BitLen())
		if m.Seed%3 != 0 {
			bits = fnv(t.Name, m.Seed, 0)%bits + 1
		}
		for k := uint64(0); k*32 < bits; k++ {
			v.Lsh(v, 32)
			v.Or(v, new(big.Int).SetUint64(fnv(t.Name, m.Seed, k+1)&0xffffffff))
		}
		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne))
		if v.Cmp(r) > 0 {
			v.Mod(v, r)
		}
	}
	return v.Add(v, lo)
}

// EvalInt is the value of t in m.
func (s *Store) EvalInt(t *T, m *Model) *big.Int {
	if m.memo == nil || t.Op == OConst || t.Op == OVar {
		return s.evalInt(t, m)
	}
	if v, ok := m.memo[t.ID]; ok {
		return v
	}
	v := s.evalInt(t, m)
	m.memo[t.ID] = v
	return v
}

func (s *Store) evalInt(t *T, m *Model) *big.Int {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		if v, ok := m.Ints[t.Name]; ok {
			return v
		}
		if m.Seed > 0 {
			v := m.pick(t)
			m.Ints[t.Name] = v
			return v
		}
		if t.Lo != nil {
			return t.Lo
		}
		return bigZero
	case OSum:
		r := new(big.Int).Set(t.C)
		for i, a := range t.Args {
			r.Add(r, new(big.Int).Mul(t.Coefs[i], s.EvalInt(a, m)))
		}
		return r
	case OMul:
		r := big.NewInt(1)
		for _, a := range t.Args {
			r.Mul(r, s.EvalInt(a, m))
		}
		return r
	case ODiv:
		b := s.EvalInt(t.Args[1], m)
		if b.Sign() <= 0 {
			return bigZero
		}
		return floorDiv(s.EvalInt(t.Args[0], m), b)
	case OMod:
		b := s.EvalInt(t.Args[1], m)
		if b.Sign() <= 0 {
			return bigZero
		}
		return new(big.Int).Mod(s.EvalInt(t.Args[0], m), b)
	case OIte:
		if s.EvalBool(t.Args[0], m) {
			return s.EvalInt(t.Args[1], m)
		}
		return s.EvalInt(t.Args[2], m)
	case OCmp:
		return big.NewInt(int64(s.EvalInt(t.Args[0], m).Sign()))
	case OBits:
		return big.NewInt(int64(s.EvalInt(t.Args[0], m).BitLen()))
	}
	panic("EvalInt")
}

func (s *Store) EvalBool(t *T, m *Model) bool {
	switch t.Op {
	case BConst:
		return t.BV
	case BVar:
		v, ok := m.Bools[t.Name]
		if !ok && m.Seed > 0 {
			v = fnv(t.Name, m.Seed, 0)&1 == 1
			m.Bools[t.Name] = v
		}
		return v
	case BNot:
		return !s.EvalBool(t.Args[0], m)
	case BAnd:
		for _, a := range t.Args {
			if !s.EvalBool(a, m) {
				return false
			}
		}
		return true
	case BOr:
		for _, a := range t.Args {
			if s.EvalBool(a, m) {
				return true
			}
		}
		return false
	case BLe:
		return s.EvalInt(t.Args[0], m).Sign() <= 0
	case BEq:
		return s.EvalInt(t.Args[0], m).Sign() == 0
	}
	panic("EvalBool")
}

func (t *T) String() string {
	switch t.Op {
	case OConst:
		return t.C.String()
	case OVar, BVar:
		return t.Name
	case BConst:
		return fmt.Sprint(t.BV)
	case OSum:
		var p []string
		if t.C.Sign() != 0 {
			p = append(p, t.C.String())
		}
		for i, a := range t.Args {
			if t.Coefs[i].Cmp(bigOne) == 0 {
				p = append(p, a.String())
			} else {
				p = append(p, t.Coefs[i].String()+"*"+a.String())
			}
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OMul:
		var p []string
		for _, a := range t.Args {
			p = append(p, a.String())
		}
		return strings.Join(p, "·")
	}
	names := map[Op]string{ODiv: "div", OMod: "mod", OIte: "ite", OCmp: "sgn", OBits: "bits", BNot: "not", BAnd: "and", BOr: "or", BLe: "<=0", BEq: "=0"}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.String())
	}
	return names[t.Op] + "(" + strings.Join(p, ", ") + ")"
}
