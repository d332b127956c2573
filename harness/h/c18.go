package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// party is one of the kinds of accounts a transfer may involve.
func party(w *env.World, n int) (addr sdk.AccAddress, target, lv bool) {
	switch n {
	case 0:
		return alice, false, false
	case 1:
		return bob, false, false
	case 2:
		return Target{kPool, 1}.Addr(), true, false
	case 3:
		return Target{kOperator, 1}.Addr(), true, false
	case 4:
		return Target{kService, 1}.Addr(), true, false
	case 5:
		return lvAddr, false, true
	case 6:
		return rewardsPool(), false, false
	case 7:
		return Target{kPool, 2}.Addr(), true, false
	case 8:
		return opAdm, false, false // the administrator of an operator is not its account
	case 9:
		return Target{kService, 7}.Addr(), false, false // no such service
	default:
		return authtypes.NewModuleAddress("distribution"), false, false
	}
}

// C18_transfers: coins of any mixture of native and locked denoms, any amounts, sent
// from and to accounts of every kind (users, pools, operators, services, the liquid
// vesting and other modules, administrators, addresses of targets that do not exist).
// Locked representations move only between an account and a target, or through the
// liquid vesting module; nothing moves between targets; native coins move otherwise freely.
func C18_transfers() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	from, ft, fl := party(w, rt.Choice("from", 11))
	to, tt, tl := party(w, rt.Choice("to", 11))
	if from.Equals(to) {
		return
	}
	var c sdk.Coins
	locked := false
	set := 1 + rt.Choice("coins", 15)
	for i, d := range []string{"ibc/locked/x", lM, lT, dM} {
		if set&(1<<i) != 0 {
			a := pos("amount")
			c = append(c, coin(d, a))
			w.Bank.SetBal(w.Ctx, from, d, a)
			locked = locked || d == lM || d == lT
		}
	}
	err, p := w.Try(func(ctx sdk.Context) error { return w.Bank.SendCoins(ctx, from, to, c) })
	rt.Assert(!p, "no panic")
	want := true
	switch {
	case fl || tl:
		rt.Reach("through the module")
	case ft && tt:
		want = false
		rt.Reach("between targets")
	case locked && !ft && !tt:
		want = false
		rt.Reach("locked between accounts")
	}
	rt.Assert((err == nil) == want, "locked representations move only into and out of targets")
	for _, x := range c {
		f, t := x.Amount, math.ZeroInt()
		if want {
			f, t = t, f
		}
		rt.Assert(eq(w.Bank.Bal(w.Ctx, from, x.Denom), f), "the sender pays exactly that")
		rt.Assert(eq(w.Bank.Bal(w.Ctx, to, x.Denom), t), "the receiver gets exactly that")
	}
}

// C18_deleted: while an operator or service exists its account is a target; after it
// is deleted its account is no longer one, so locked representations cannot be sent there.
func C18_deleted() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	t := Target{1 + rt.Choice("kind", 2), 1}
	x := pos("amount")
	hold(w, alice, lM, x.MulRaw(2))
	send := func() error {
		err, p := w.Try(func(ctx sdk.Context) error { return w.Bank.SendCoins(ctx, alice, t.Addr(), sdk.Coins{coin(lM, x)}) })
		rt.Assert(!p, "no panic")
		return err
	}
	rt.Assert(send() == nil, "a target accepts locked representations")
	if t.Kind == kOperator {
		t.setStatus(w, int(operatorstypes.OPERATOR_STATUS_INACTIVE))
	} else {
		t.setStatus(w, int(servicestypes.SERVICE_STATUS_INACTIVE))
	}
	rt.Assert(t.Delete(w) == nil, "delete")
	rt.Assert(send() != nil, "the account of a deleted target is an ordinary one")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, lM), x), "nothing more is sent")
	rt.Reach("end")
}
