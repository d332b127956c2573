package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
)

// insured is a world where alice restaked and is unbonding arbitrary amounts of the
// locked representations of umilk (in two targets) and, maybe, of utia, and has an
// arbitrary insurance fund in both; bob has a fund too.
func insured(pct math.LegacyDec) (*env.World, Target, Target) {
	w := lvWorld(pct, env.Opts{NoHooks: true})
	k1 := rt.Choice("kind", 3)
	k2 := (k1 + 1) % 3
	if rt.Deep() {
		k2 = rt.Choice("kind 2", 3)
	}
	t1, t2 := lvTarget(k1), lvTarget(k2)
	r := pos("restaked")
	t1.grant(w, alice, sdk.Coins{coin(lM, r)})
	t1.grant(w, bob, sdk.Coins{coin(lM, pos("restaked by bob"))})
	if rt.Choice("unbonding", 2) == 1 {
		u := pos("unbonding amount")
		rt.Assume(u.LTE(r))
		rt.Assert(t1.Undelegate(w, alice, sdk.Coins{coin(lM, u)}) == nil, "undelegate")
	}
	if t2.Kind != kPool {
		t2.grant(w, alice, sdk.Coins{coin(lT, pos("restaked T")), coin(dM, pos("restaked natively"))})
		insure(w, alice, dT, pos("fund T"))
	} else {
		insure(w, alice, dT, amt("fund T"))
	}
	insure(w, alice, dM, amt("fund"))
	insure(w, bob, dM, pos("bob's fund"))
	return w, t1, t2
}

// funds says that the module account holds exactly what the users' funds say.
func funds(w *env.World) {
	for _, d := range []string{dM, dT} {
		rt.Assert(eq(w.Bank.Bal(w.Ctx, lvAddr, d), fund(w, alice, d).Add(fund(w, bob, d))), "the module account holds exactly the users' funds")
	}
}

func covered(w *env.World, pct math.LegacyDec, u sdk.AccAddress) bool {
	return rt.And(covers(pct, active(w, u, lM), fund(w, u, dM)), covers(pct, active(w, u, lT), fund(w, u, dT)))
}

// C15_restake: a user with any insurance fund in two denoms and any locked
// representations restaked or unbonding, in pools, operators and services, restakes
// any amounts of locked and native coins to any target; amounts up to 2^90 and
// percentages 2 and a third (thorough tier: also 100 and the least). It is accepted exactly if the fund
// still covers the percentage of everything restaked or unbonding.
func C15_restake() {
	pct := percentage("percentage")
	w, _, t2 := insured(pct)
	x := pos("amount")
	hold(w, alice, lM, x)
	c := sdk.Coins{coin(lM, x)}
	if t2.Kind != kPool {
		n := pos("native amount")
		hold(w, alice, dM, n)
		switch rt.Choice("coins", 3) {
		case 1:
			c = sdk.Coins{coin(lM, x), coin(dM, n)}
		case 2:
			c = sdk.Coins{coin(dM, n)}
		}
	}
	locked := c.AmountOf(lM)
	before := active(w, alice, lM)
	bobs := active(w, bob, lM)
	should := rt.And(covers(pct, before.Add(locked), fund(w, alice, dM)), covers(pct, active(w, alice, lT), fund(w, alice, dT)))
	err := t2.Delegate(w, alice, c)
	if locked.IsZero() {
		rt.Assert(err == nil, "native coins need no insurance")
		rt.Reach("native")
	} else if should {
		rt.Assert(err == nil, "an insured restake is accepted")
		rt.Reach("accepted")
	} else {
		rt.Assert(err != nil, "an uninsured restake is refused")
		rt.Reach("refused")
		locked = math.ZeroInt()
	}
	rt.Assert(eq(active(w, alice, lM), before.Add(locked)), "restaked exactly that much")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), x.Sub(locked)), "paid exactly that much")
	rt.Assert(eq(active(w, bob, lM), bobs), "others are not affected")
	funds(w)
}

// C15_withdraw: in the same states, the user withdraws any amounts of one or two
// denoms from the insurance fund; it is accepted exactly if the fund has them and
// what is left still covers everything; then exactly those coins are paid to the
// user out of that user's fund and no other.
func C15_withdraw() {
	pct := percentage("percentage")
	w, _, _ := insured(pct)
	f, fT := fund(w, alice, dM), fund(w, alice, dT)
	x := pos("amount")
	y := math.ZeroInt()
	c := sdk.Coins{coin(dM, x)}
	if rt.Choice("both denoms", 2) == 1 {
		y = pos("amount T")
		c = sdk.Coins{coin(dM, x), coin(dT, y)}
	}
	bobs := fund(w, bob, dM)
	should := rt.And(
		x.LTE(f), y.LTE(fT),
		covers(pct, active(w, alice, lM), f.Sub(x)), covers(pct, active(w, alice, lT), fT.Sub(y)))
	err := withdrawFund(w, alice, c)
	if should {
		rt.Assert(err == nil, "a withdrawal that leaves enough is accepted")
		rt.Reach("withdrawn")
	} else {
		rt.Assert(err != nil, "a withdrawal that leaves too little is refused")
		rt.Reach("refused")
		x, y = math.ZeroInt(), math.ZeroInt()
	}
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dM), x), "paid")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dT), y), "paid in the other denom")
	rt.Assert(eq(fund(w, alice, dM), f.Sub(x)), "the fund is charged")
	rt.Assert(eq(fund(w, alice, dT), fT.Sub(y)), "the fund is charged in the other denom")
	rt.Assert(eq(fund(w, bob, dM), bobs), "nobody else's fund is charged")
	funds(w)
}

// C15_history: from any insured state (2 percent), any two (thorough tier: three) of: restake, undelegate,
// withdraw from the fund, mint, burn (liquid or restaked), all pending unbonding
// completing; symbolic amounts. After each, everything restaked or unbonding is
// covered and the module account holds exactly the funds.
func C15_history() {
	pct := math.LegacyNewDec(2)
	w := lvWorld(pct, env.Opts{NoHooks: true})
	t := lvTarget(rt.Choice("kind", 3))
	r := pos("restaked")
	t.grant(w, alice, sdk.Coins{coin(lM, r)})
	insure(w, alice, dM, pos("fund"))
	hold(w, alice, lM, pos("liquid"))
	rt.Assume(covered(w, pct, alice))
	n := 2
	if rt.Deep() {
		n = 3
	}
	for i := 0; i < n; i++ {
		x := pos("amount")
		var err error
		switch rt.Choice("operation", 6) {
		case 0:
			err = t.Delegate(w, alice, sdk.Coins{coin(lM, x)})
		case 1:
			err = t.Undelegate(w, alice, sdk.Coins{coin(lM, x)})
		case 2:
			err = withdrawFund(w, alice, sdk.Coins{coin(dM, x)})
		case 3:
			err = mint(w, minter, alice, sdk.Coins{coin(dM, x)})
			rt.Assert(err == nil, "mint")
		case 4:
			err = burn(w, burner, alice, sdk.Coins{coin(lM, x)})
		default:
			w.At(2 * unbond)
			rt.Assert(endBlock(w) == nil, "end of block succeeds")
		}
		if err == nil {
			rt.Reach("accepted")
		} else {
			rt.Reach("refused")
		}
		rt.Assert(covered(w, pct, alice), "what is restaked or unbonding stays insured")
		funds(w)
	}
}
