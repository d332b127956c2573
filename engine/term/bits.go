package term

import "math/big"

// Disjoint is a|b when b is a multiple of a power of two that bounds a, else nil.
func (s *Store) Disjoint(a, b *T) *T {
	if a.Lo == nil || a.Lo.Sign() < 0 || a.Hi == nil || b.Lo == nil || b.Lo.Sign() < 0 {
		return nil
	}
	l := s.lin(b)
	var all big.Int
	all.Or(&all, new(big.Int).Abs(l.c))
	for _, m := range l.cs {
		all.Or(&all, new(big.Int).Abs(m))
	}
	if all.Sign() == 0 {
		return a
	}
	t := all.TrailingZeroBits()
	if uint(a.Hi.BitLen()) > t {
		return nil
	}
	// the digits of one number: mod(x, 2^k) | 2^k*mod(div(x, 2^k), 2^j)
	if a.Op == OMod && a.Args[1].Op == OConst {
		x, m := a.Args[0], a.Args[1]
		d := s.Div(x, m)
		if s.Scale(d, m.C) == b {
			return x
		}
		for _, j := range []uint{8, 16, 24, 32, 40, 48, 56} {
			n := new(big.Int).Lsh(big.NewInt(1), j)
			if s.Scale(s.Mod(d, s.Const(n)), m.C) == b {
				return s.Mod(x, s.Const(new(big.Int).Mul(n, m.C)))
			}
		}
	}
	return s.Add(a, b)
}
