package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
)

// owned is everything a user has of a denom: liquid, restaked and unbonding.
func owned(w *env.World, u sdk.AccAddress, d string) math.Int {
	return w.Bank.Bal(w.Ctx, u, d).Add(active(w, u, d))
}

// C16_mint: anyone (a minter, a burner, the authority, others) mints the locked
// representation of one or two denoms, one of which may itself be locked, to a user
// who holds any amounts; only minters can, exactly the amounts are created for the
// receiver as locked representations, and the native coins are not touched.
func C16_mint() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	for _, d := range []string{dM, dT, lM, lT} {
		hold(w, alice, d, amt("held"))
		hold(w, bob, d, amt("held by bob"))
	}
	who := rt.Choice("sender", 4)
	by := []string{minter.String(), burner.String(), w.Authority, alice.String()}[who]
	x, y := pos("amount"), math.ZeroInt()
	c := sdk.Coins{coin(dM, x)}
	bad := false
	switch rt.Choice("coins", 4) {
	case 1:
		y = pos("amount T")
		c = sdk.Coins{coin(dM, x), coin(dT, y)}
	case 2:
		c = sdk.Coins{coin(lM, x)}
		bad = true
	case 3:
		c = sdk.Coins{coin(lM, x), coin(dT, pos("amount T"))}
		bad = true
	}
	old := map[string]math.Int{}
	for _, d := range []string{dM, dT, lM, lT} {
		old[d] = w.Bank.Bal(w.Ctx, alice, d)
		old["bob"+d] = w.Bank.Bal(w.Ctx, bob, d)
		old["supply"+d] = w.Bank.Supply(w.Ctx, d)
	}
	err := mint(w, sdk.MustAccAddressFromBech32(by), alice, c)
	rt.Assert((err == nil) == (who == 0 && !bad), "minters, and only they, mint native coins' representations")
	if err != nil {
		x, y = math.ZeroInt(), math.ZeroInt()
		rt.Reach("refused")
	} else {
		rt.Reach("minted")
	}
	for _, d := range []string{dM, dT, lM, lT} {
		add := math.ZeroInt()
		if d == lM {
			add = x
		} else if d == lT {
			add = y
		}
		rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, d), old[d].Add(add)), "the receiver gets exactly the amount")
		rt.Assert(eq(w.Bank.Bal(w.Ctx, bob, d), old["bob"+d]), "others get nothing")
		rt.Assert(eq(w.Bank.Supply(w.Ctx, d), old["supply"+d].Add(add)), "the supply grows by the amount")
		rt.Assert(w.Bank.Bal(w.Ctx, lvAddr, d).IsZero(), "the module keeps nothing")
	}
}

// portfolio gives alice liquid coins and delegations of lM in up to three targets,
// with native coins beside them.
func portfolio(w *env.World) {
	if rt.Choice("liquid", 2) == 1 {
		hold(w, alice, lM, pos("liquid amount"))
	}
	hold(w, alice, dM, pos("native liquid"))
	for k, n := range []string{"pool", "operator", "service"} {
		t := lvTarget(k)
		if rt.Choice("in "+n, 2) == 0 {
			continue
		}
		t.grant(w, alice, sdk.Coins{coin(lM, pos("in "+n+" amount"))})
		t.grant(w, bob, sdk.Coins{coin(lM, pos("bob in "+n))})
		if k == kOperator {
			t.grant(w, alice, sdk.Coins{coin(dM, pos("native in "+n))})
		}
	}
}

// C16_burn: a user holds any amount of a locked representation, liquid and restaked
// in a pool, an operator and a service beside native coins and others' delegations,
// and a burner burns any amount. It succeeds exactly if the user has that much; then
// the liquid coins go first and at once, the rest when their unbonding ends, and in
// the end exactly that amount is gone from the user and from the supply.
func C16_burn() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	portfolio(w)
	native := owned(w, alice, dM)
	bobs := owned(w, bob, lM)
	has := owned(w, alice, lM)
	liquid := w.Bank.Bal(w.Ctx, alice, lM)
	supply := w.Bank.Supply(w.Ctx, lM)
	x := pos("amount")
	err := burn(w, burner, alice, sdk.Coins{coin(lM, x)})
	if has.GTE(x) {
		rt.Assert(err == nil, "a burner can burn what the user has")
		rt.Reach("burned")
	} else {
		rt.Assert(err != nil, "a burner cannot burn more than the user has")
		rt.Reach("refused")
		x = math.ZeroInt()
	}
	now := math.MinInt(x, liquid)
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), liquid.Sub(now)), "liquid coins are burned first")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(now)), "liquid coins are burned at once")
	w.At(unbond - 1)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(now)), "nothing is burned early")
	w.At(unbond)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	done := func() {
		rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(x)), "exactly the amount is burned")
		rt.Assert(eq(owned(w, alice, lM), has.Sub(x)), "the user loses exactly the amount")
		rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), liquid.Sub(now)), "nothing unbonds for the user's benefit")
		rt.Assert(eq(owned(w, alice, dM), native), "native coins are not burned")
		rt.Assert(eq(owned(w, bob, lM), bobs), "others lose nothing")
		rt.Assert(w.Bank.Bal(w.Ctx, lvAddr, lM).IsZero(), "the module keeps nothing")
		for k := range []int{kPool, kOperator, kService} {
			lvTarget(k).backed(w)
		}
	}
	done()
	w.At(2 * unbond)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	done()
}

// backed says that the target records exactly the delegations and holds the coins.
func (t Target) backed(w *env.World) {
	for _, d := range []string{dM, dT, lM, lT} {
		if t.Kind == kPool && d != lM {
			continue
		}
		sum := t.DelShares(w, alice, d).Add(t.DelShares(w, bob, d))
		rt.Assert(t.Shares(w, d).Equal(sum), "the target's shares are its delegators'")
		rt.Assert(dec(t.Tokens(w, d)).Equal(sum), "the target's tokens are its delegators'")
		rt.Assert(w.Bank.Bal(w.Ctx, t.Addr(), d).GTE(t.Tokens(w, d)), "the target holds its tokens")
	}
}

// C16_who_burns: anyone (a minter, a burner, the authority, the owner) asks to burn
// locked or native coins, liquid or restaked; only burners can, and only locked ones.
func C16_who_burns() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	portfolio(w)
	t := lvTarget(kOperator)
	t.grant(w, alice, sdk.Coins{coin(dM, pos("native"))})
	who := rt.Choice("sender", 4)
	by := []string{burner.String(), minter.String(), w.Authority, alice.String()}[who]
	d := []string{lM, dM}[rt.Choice("denom", 2)]
	c := sdk.Coins{coin(d, pos("amount"))}
	if d == dM && rt.Choice("with locked", 2) == 1 {
		c = sdk.Coins{coin(lM, pos("amount")), coin(dM, pos("amount"))}
	}
	has, native := owned(w, alice, lM), owned(w, alice, dM)
	liquid := w.Bank.Bal(w.Ctx, alice, lM)
	err := burn(w, sdk.MustAccAddressFromBech32(by), alice, c)
	if who != 0 || d == dM {
		rt.Assert(err != nil, "only burners burn, and only locked representations")
		rt.Reach("refused")
	} else if has.GTE(c.AmountOf(lM)) {
		rt.Assert(err == nil, "a burner can burn what the user has")
		rt.Reach("burned")
		return
	}
	rt.Assert(eq(owned(w, alice, lM), has), "a refused burn takes nothing")
	rt.Assert(eq(owned(w, alice, dM), native), "a refused burn takes no native coins")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), liquid), "a refused burn unbonds nothing")
}

// C16_queue: two burns of restaked coins at different times, with the unbonding time
// changed in between, and undelegations of the user's own before, between or after
// them; any amounts and times. Every burn completes when its own unbonding does, no
// end of block fails, and the user is paid exactly the undelegations.
func C16_queue() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	t := lvTarget(rt.Choice("kind", 3))
	has := pos("restaked")
	t.grant(w, alice, sdk.Coins{coin(lM, has)})
	u1 := someTime("unbonding time 1")
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.NewParams(u1, nil)))
	supply := w.Bank.Supply(w.Ctx, lM)
	own := math.ZeroInt()
	undelegate := func() {
		x := pos("undelegated")
		rt.Assume(x.LT(t.DelShares(w, alice, lM).TruncateInt()))
		rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(lM, x)}) == nil, "undelegate")
		own = own.Add(x)
	}
	when := rt.Choice("undelegate", 3)
	if when == 0 {
		undelegate()
	}
	b1 := pos("burned 1")
	rt.Assume(b1.LT(t.DelShares(w, alice, lM).TruncateInt()))
	rt.Assert(burn(w, burner, alice, sdk.Coins{coin(lM, b1)}) == nil, "first burn")
	if when == 1 {
		undelegate()
	}
	gap := time.Duration(rt.Int64("gap", 0, 1<<50))
	if rt.Choice("same block", 2) == 0 {
		w.At(gap)
		rt.Assert(endBlock(w) == nil, "end of block succeeds")
	} else {
		gap = 0
	}
	u2 := someTime("unbonding time 2")
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.NewParams(u2, nil)))
	// what is already unbonded is liquid, and is burned first
	liquid := w.Bank.Bal(w.Ctx, alice, lM)
	b2 := pos("burned 2")
	rt.Assume(b2.LTE(t.DelShares(w, alice, lM).TruncateInt().Add(liquid)))
	rt.Assert(burn(w, burner, alice, sdk.Coins{coin(lM, b2)}) == nil, "second burn")
	if when == 2 && t.DelShares(w, alice, lM).GT(oneDec) {
		undelegate()
	}
	at := gap + time.Duration(rt.Int64("then", 0, 1<<51))
	w.At(at)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	burned := math.MinInt(liquid, b2)
	if u1 <= at {
		burned = burned.Add(b1)
		rt.Reach("first completed")
	}
	if gap+u2 <= at {
		burned = burned.Add(b2.Sub(math.MinInt(liquid, b2)))
		rt.Reach("second completed")
	}
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(burned)), "each burn completes at its own time")
	w.At(at + u1 + u2)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(b1).Sub(b2)), "all is burned")
	rt.Assert(eq(owned(w, alice, lM), has.Sub(b1).Sub(b2)), "the user keeps the rest")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), own.Sub(math.MinInt(liquid, b2))), "the user is paid the undelegations")
	rt.Assert(len(w.LV.GetAllBurnCoins(w.Ctx)) == 0, "nothing is left to burn")
	rt.Reach("end")
}

// C16_two_denoms: a burner burns any amounts of two locked representations at once,
// each liquid or restaked in its own pool or together in an operator and a service.
func C16_two_denoms() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, lT)
	env.Must(err)
	hold(w, alice, lM, amt("liquid"))
	if rt.Choice("pools", 2) == 1 {
		Target{kPool, 2}.grant(w, alice, sdk.Coins{coin(lM, pos("in pool"))})
		Target{kPool, 3}.grant(w, alice, sdk.Coins{coin(lT, pos("in pool T"))})
	}
	for _, k := range []int{kOperator, kService} {
		switch rt.Choice("in target", 3) {
		case 1:
			lvTarget(k).grant(w, alice, sdk.Coins{coin(lM, pos("in target"))})
		case 2:
			lvTarget(k).grant(w, alice, sdk.Coins{coin(lM, pos("in target")), coin(lT, pos("in target T"))})
		}
	}
	t3 := Target{kPool, 3}
	hasM := owned(w, alice, lM)
	hasT := owned(w, alice, lT).Add(t3.DelShares(w, alice, lT).TruncateInt())
	sM, sT := w.Bank.Supply(w.Ctx, lM), w.Bank.Supply(w.Ctx, lT)
	x, y := pos("burned"), pos("burned T")
	err = burn(w, burner, alice, sdk.Coins{coin(lM, x), coin(lT, y)})
	if !rt.And(x.LTE(hasM), y.LTE(hasT)) {
		rt.Assert(err != nil, "a burner cannot burn more than the user has")
		rt.Reach("refused")
		return
	}
	rt.Assert(err == nil, "a burner can burn what the user has")
	w.At(unbond)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), sM.Sub(x)), "the first is burned")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lT), sT.Sub(y)), "the second is burned")
	rt.Reach("burned")
}

// C16_bystander: the user also restakes other coins in another pool, or nothing but
// other coins in an operator, or undelegated everything from one of the targets;
// none of it stands in the way of burning the restaked representation.
func C16_bystander() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	t := lvTarget(rt.Choice("kind", 3))
	x := pos("restaked")
	t.grant(w, alice, sdk.Coins{coin(lM, x)})
	o := Target{rt.Choice("other kind", 3), 1}
	if o.Kind == t.Kind && o.Kind != kPool {
		return
	}
	o.grant(w, alice, sdk.Coins{coin(dM, pos("other"))})
	b := pos("burned")
	rt.Assume(b.LTE(x))
	supply := w.Bank.Supply(w.Ctx, lM)
	rt.Assert(burn(w, burner, alice, sdk.Coins{coin(lM, b)}) == nil, "a burner can burn what the user restaked")
	w.At(unbond)
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Supply(w.Ctx, lM), supply.Sub(b)), "it is burned")
	rt.Reach("end")
}
