package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

var (
	ledgerDenoms = []string{"uaa", "ubb", "ucc"}
	rewardDenoms = []string{"rxx", "ryy"}
)

// entry is a reward amount of one ledger, zero if it has none.
type entry [3][2]math.LegacyDec

// ledgerOf is a ledger of up to n denoms of any amounts of up to two rewards (one, if narrow).
func ledgerOf(name string, n int, narrow bool) (rewardstypes.DecPools, entry) {
	var p rewardstypes.DecPools
	var x entry
	for i := range 3 {
		for j := range 2 {
			x[i][j] = math.LegacyZeroDec()
		}
		if i >= n {
			continue
		}
		c := 4
		if narrow {
			c = 2
		}
		has := rt.Choice(name+ledgerDenoms[i], c)
		var coins sdk.DecCoins
		for j := range 2 {
			if has>>j&1 == 1 {
				x[i][j] = math.LegacyNewDecFromBigIntWithPrec(rt.Big(name+ledgerDenoms[i]+rewardDenoms[j], "1", "10^40"), 18)
				coins = append(coins, sdk.NewDecCoinFromDec(rewardDenoms[j], x[i][j]))
			}
		}
		if len(coins) > 0 {
			p = append(p, rewardstypes.NewDecPool(ledgerDenoms[i], coins))
		}
	}
	return p, x
}

// isLedger says that a ledger has exactly some amounts, in canonical form.
func isLedger(p rewardstypes.DecPools, x entry, what string) {
	for k, l := range p {
		rt.Assert(k == 0 || p[k-1].Denom < l.Denom, what+": in order, every denom once")
		rt.Assert(len(l.DecCoins) > 0, what+": no empty pools")
		for m, c := range l.DecCoins {
			rt.Assert(m == 0 || l.DecCoins[m-1].Denom < c.Denom, what+": rewards in order, each once")
			rt.Assert(!c.Amount.IsZero(), what+": no empty rewards")
		}
	}
	for i, d := range ledgerDenoms {
		for j, r := range rewardDenoms {
			got := math.LegacyZeroDec()
			for _, l := range p {
				if l.Denom == d {
					got = got.Add(l.DecCoins.AmountOf(r))
				}
			}
			rt.Assert(got.Equal(x[i][j]), what+": the right amounts")
			rt.Assert(p.CoinsOf(d).AmountOf(r).Equal(x[i][j]), what+": the right amounts are found")
		}
	}
}

func each(x, y entry, f func(a, b math.LegacyDec) math.LegacyDec) entry {
	var z entry
	for i := range 3 {
		for j := range 2 {
			z[i][j] = f(x[i][j], y[i][j])
		}
	}
	return z
}

// C14_ledgers: two ledgers of any amounts of two rewards for two denoms, or
// of one for three, any of them absent. Their sum, difference and intersection have exactly the right amounts
// of everything in canonical order, taking more than there is is noticed, and the ledgers themselves stay as they are.
func C14_ledgers() {
	narrow := rt.Choice("narrow", 2) == 1
	n := 2
	if narrow {
		n = 3
	}
	p, x := ledgerOf("a", n, narrow)
	q, y := ledgerOf("b", n, narrow)
	isLedger(p.Add(q...), each(x, y, math.LegacyDec.Add), "sum")
	min := each(x, y, func(a, b math.LegacyDec) math.LegacyDec {
		if a.LT(b) {
			return a
		}
		return b
	})
	isLedger(p.Intersect(q), min, "intersection")
	less := false
	for i := range 3 {
		for j := range 2 {
			less = less || x[i][j].LT(y[i][j])
		}
	}
	d, neg := p.SafeSub(q)
	rt.Assert(neg == less, "taking too much is noticed")
	isLedger(d, each(x, y, math.LegacyDec.Sub), "difference")
	isLedger(p, x, "after")
	isLedger(q, y, "after")
	sum := p.CoinsAmount()
	for j, r := range rewardDenoms {
		rt.Assert(sum.AmountOf(r).Equal(x[0][j].Add(x[1][j]).Add(x[2][j])), "the total")
		rt.Assert(p.Sum().AmountOf(r).Equal(sum.AmountOf(r)), "the total")
	}
	rt.Reach("end")
}

// C14_truncated: a ledger of any amounts of two rewards for two denoms or one
// for three. What is paid out and what remains add up to what there was: whole coins of every
// reward and less than one coin of each, on any node.
func C14_truncated() {
	narrow := rt.Choice("narrow", 2) == 1
	n := 2
	if narrow {
		n = 3
	}
	p, x := ledgerOf("a", n, narrow)
	rt.ReverseMaps(rt.Choice("node", 2) == 1)
	whole, rest := p.TruncateDecimal()
	var w, r entry
	for i := range 3 {
		for j := range 2 {
			w[i][j] = math.LegacyNewDecFromInt(x[i][j].TruncateInt())
			r[i][j] = x[i][j].Sub(w[i][j])
		}
	}
	isLedger(rest, r, "change")
	isLedger(rewardstypes.NewDecPoolsFromPools(whole), w, "paid")
	for i, d := range ledgerDenoms {
		rt.Assert(i == 0 || i >= len(whole) || whole[i-1].Denom < whole[i].Denom, "paid: in order")
		for j, c := range rewardDenoms {
			rt.Assert(math.LegacyNewDecFromInt(whole.CoinsOf(d).AmountOf(c)).Equal(w[i][j]), "paid: the right amounts are found")
		}
	}
	for j, c := range rewardDenoms {
		rt.Assert(math.LegacyNewDecFromInt(whole.Sum().AmountOf(c)).Equal(w[0][j].Add(w[1][j]).Add(w[2][j])), "paid: the total")
	}
	rt.ReverseMaps(false)
	rt.Reach("end")
}

// C14_services: two ledgers per service of up to three services, each of any amount of one
// reward for up to two denoms. Their sum and difference have exactly the right amounts for every service, in order.
func C14_services() {
	build := func(name string) (rewardstypes.ServicePools, [3]entry) {
		var p rewardstypes.ServicePools
		var x [3]entry
		for s := range 3 {
			n := 1
			if s == 1 {
				n = 2
			}
			var l rewardstypes.DecPools
			l, x[s] = ledgerOf(name+string(rune('1'+s)), n, true)
			if len(l) > 0 {
				p = append(p, rewardstypes.NewServicePool(uint32(s+1), l))
			}
		}
		return p, x
	}
	p, x := build("a")
	q, y := build("b")
	check := func(l rewardstypes.ServicePools, f func(a, b math.LegacyDec) math.LegacyDec, what string) {
		var got [3]rewardstypes.DecPools
		for i, s := range l {
			rt.Assert(i == 0 || l[i-1].ServiceID < s.ServiceID, what+": services in order, each once")
			rt.Assert(len(s.DecPools) > 0, what+": no empty services")
			got[s.ServiceID-1] = s.DecPools
		}
		for s := range 3 {
			isLedger(got[s], each(x[s], y[s], f), what)
		}
	}
	check(p.Add(q...), math.LegacyDec.Add, "sum")
	d, neg := p.SafeSub(q)
	less := false
	for s := range 3 {
		for i := range 3 {
			less = less || x[s][i][0].LT(y[s][i][0])
		}
	}
	rt.Assert(neg == less, "taking too much is noticed")
	check(d, math.LegacyDec.Sub, "difference")
	check(p, func(a, _ math.LegacyDec) math.LegacyDec { return a }, "after")
	check(q, func(_, b math.LegacyDec) math.LegacyDec { return b }, "after")
	rt.Reach("end")
}
