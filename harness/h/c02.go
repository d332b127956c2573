package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// holding is what a user delegated to a target, per denom.
type holding struct{ m, t math.Int }

func (h holding) coins() sdk.Coins { return sdk.NewCoins(sdk.NewCoin(dM, h.m), sdk.NewCoin(dT, h.t)) }
func (h holding) of(d string) math.Int {
	if d == dM {
		return h.m
	}
	return h.t
}

func (t Target) sharesOf(h holding) sdk.DecCoins {
	return sdk.NewDecCoins(sdk.NewDecCoinFromDec(t.ShareDenom(dM), dec(h.m)), sdk.NewDecCoinFromDec(t.ShareDenom(dT), dec(h.t)))
}

// anyHolding is an arbitrary holding: each denom held or not.
func anyHolding(name string, t Target) holding {
	h := holding{math.ZeroInt(), math.ZeroInt()}
	if rt.Choice(name+" holds M", 2) == 1 {
		h.m = pos(name + " M")
	}
	if t.Kind != kPool && rt.Choice(name+" holds T", 2) == 1 {
		h.t = pos(name + " T")
	}
	return h
}

// put stores the holdings of alice and bob and the totals they imply.
func (t Target) put(w *env.World, a, b holding) {
	for _, x := range []struct {
		u sdk.AccAddress
		h holding
	}{{alice, a}, {bob, b}} {
		if s := t.sharesOf(x.h); !s.IsZero() {
			t.setDelegation(w, x.u, s)
		}
	}
	tot := holding{a.m.Add(b.m), a.t.Add(b.t)}
	t.setTotals(w, tot.coins(), t.sharesOf(tot))
	for _, c := range tot.coins() {
		w.Bank.SetBal(w.Ctx, t.Addr(), c.Denom, c.Amount)
	}
}

// indexed reports whether the by-target index lists the user.
func (t Target) indexed(w *env.World, u sdk.AccAddress) bool {
	var pre []byte
	switch t.Kind {
	case kPool:
		pre = restakingtypes.DelegationByPoolIDStoreKey(t.ID, u.String())
	case kOperator:
		pre = restakingtypes.DelegationByOperatorIDStoreKey(t.ID, u.String())
	default:
		pre = restakingtypes.DelegationByServiceIDStoreKey(t.ID, u.String())
	}
	ok, _ := env.Service{Name: "restaking"}.OpenKVStore(w.Ctx).Has(pre)
	return ok
}

// listed collects the delegations of the target from the full listing.
func (t Target) listed(w *env.World) (n int, users map[string]sdk.DecCoins) {
	all, err := w.Restaking.GetAllDelegations(w.Ctx)
	env.Must(err)
	users = map[string]sdk.DecCoins{}
	for _, d := range all {
		if d.Type == t.Type() && d.TargetID == t.ID {
			n++
			users[d.UserAddress] = d.Shares
		}
	}
	return
}

// consistent asserts that totals, delegations, listing and index agree.
func (t Target) consistent(w *env.World) {
	n, users := t.listed(w)
	cnt := 0
	for _, u := range []sdk.AccAddress{alice, bob} {
		del, ok := t.Delegation(w, u)
		if ok {
			cnt++
			rt.Assert(!del.Shares.IsZero(), "no empty delegation is kept")
			rt.Assert(users[u.String()] != nil, "listing has the delegation")
			rt.Assert(t.indexed(w, u), "index has the delegation")
			seen := false
			env.Must(w.Restaking.IterateUserDelegations(w.Ctx, u.String(), func(d restakingtypes.Delegation) (bool, error) {
				if d.Type == t.Type() && d.TargetID == t.ID {
					seen = true
				}
				return false, nil
			}))
			rt.Assert(seen, "user listing has the delegation")
		} else {
			rt.Assert(!t.indexed(w, u), "index has no stale entry")
		}
	}
	rt.Assert(n == cnt, "listing has only the delegations")
	for _, d := range []string{dM, dT} {
		sum := t.DelShares(w, alice, d).Add(t.DelShares(w, bob, d))
		rt.Assert(sum.Equal(t.Shares(w, d)), "shares of the target are the sum of the delegations'")
		rt.Assert(t.Shares(w, d).Equal(dec(t.Tokens(w, d))), "one share per token")
	}
}

func pickCoins(name string, t Target) (holding, sdk.Coins) {
	h := holding{math.ZeroInt(), math.ZeroInt()}
	k := 1
	if t.Kind != kPool {
		k = 1 + rt.Choice(name+" coins", 3)
	}
	var c sdk.Coins
	if k&1 != 0 {
		h.m = pos(name + " M amount")
		c = append(c, coin(dM, h.m))
	}
	if k&2 != 0 {
		h.t = pos(name + " T amount")
		c = append(c, coin(dT, h.t))
	}
	return h, c
}

// C02_accounting_step: every target kind; alice and bob each hold any
// combination of two denoms on the target, and holdings on a second target of
// the same kind; alice delegates or undelegates any one or two coins, amounts up
// to 2^90.  Shares, totals, listings and index agree afterwards and nothing but
// alice's delegation to that target changes.
func C02_accounting_step() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	kind := rt.Choice("kind", 3)
	t := Target{kind, 1}
	other := Target{kind, 2}
	env.Must(w.Pools.SetNextPoolID(w.Ctx, 2))
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	a := anyHolding("alice", t)
	b := anyHolding("bob", t)
	t.put(w, a, b)
	oa, ob := holding{pos("alice other"), math.ZeroInt()}, holding{pos("bob other"), math.ZeroInt()}
	if kind == kPool {
		oa, ob = holding{math.ZeroInt(), oa.m}, holding{math.ZeroInt(), ob.m}
	}
	other.put(w, oa, ob)
	bal := amt("balance M")
	balT := amt("balance T")
	w.Bank.SetBal(w.Ctx, alice, dM, bal)
	w.Bank.SetBal(w.Ctx, alice, dT, balT)
	w.Bank.SetBal(w.Ctx, bob, dM, amt("bob balance"))
	bobBal := w.Bank.Bal(w.Ctx, bob, dM)
	t.consistent(w)

	x, c := pickCoins("step", t)
	op := rt.Choice("op", 2)
	var e error
	if op == 0 {
		e = t.Delegate(w, alice, c)
		rt.Assert((e == nil) == rt.And(x.m.LTE(bal), x.t.LTE(balT)), "delegating succeeds exactly when covered")
	} else {
		e = t.Undelegate(w, alice, c)
		rt.Assert((e == nil) == rt.And(x.m.LTE(a.m), x.t.LTE(a.t)), "undelegating succeeds exactly when delegated")
	}
	want := a
	if e == nil {
		if op == 0 {
			rt.Reach("delegated")
			want = holding{a.m.Add(x.m), a.t.Add(x.t)}
		} else {
			rt.Reach("undelegated")
			want = holding{a.m.Sub(x.m), a.t.Sub(x.t)}
		}
	} else {
		rt.Reach("refused")
	}
	t.consistent(w)
	for _, d := range []string{dM, dT} {
		rt.Assert(t.DelShares(w, alice, d).Equal(dec(want.of(d))), "the delegation changes by the amount")
		rt.Assert(t.DelShares(w, bob, d).Equal(dec(b.of(d))), "another user's delegation is untouched")
		rt.Assert(other.DelShares(w, alice, d).Equal(dec(oa.of(d))), "the user's other delegation is untouched")
		rt.Assert(other.DelShares(w, bob, d).Equal(dec(ob.of(d))), "other delegations are untouched")
	}
	other.consistent(w)
	rt.Assert(eq(w.Bank.Bal(w.Ctx, bob, dM), bobBal), "another user's balance is untouched")
	_, hasB := t.Delegation(w, bob)
	rt.Assert(hasB == !t.sharesOf(b).IsZero(), "another user's delegation still exists")
}

// C02T_accounting_seq: every target kind, from the empty state; any three
// operations, each by alice or bob, delegating or undelegating any amount of one
// denom.  Shares, totals, listings and index agree after each.
func C02T_accounting_seq() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	t := Target{rt.Choice("kind", 3), 1}
	users := []sdk.AccAddress{alice, bob}
	var bal, held [2]math.Int
	for i, u := range users {
		bal[i] = amt("balance")
		held[i] = math.ZeroInt()
		w.Bank.SetBal(w.Ctx, u, dM, bal[i])
	}
	for i := 0; i < 3; i++ {
		k := rt.Choice("who", 2)
		x := pos("amount")
		if rt.Choice("op", 2) == 0 {
			if t.Delegate(w, users[k], sdk.Coins{coin(dM, x)}) == nil {
				held[k] = held[k].Add(x)
				bal[k] = bal[k].Sub(x)
			}
		} else if t.Undelegate(w, users[k], sdk.Coins{coin(dM, x)}) == nil {
			held[k] = held[k].Sub(x)
			rt.Reach("undelegated")
		}
		t.consistent(w)
		for j, u := range users {
			rt.Assert(t.DelShares(w, u, dM).Equal(dec(held[j])), "delegation follows the operations")
			rt.Assert(eq(w.Bank.Bal(w.Ctx, u, dM), bal[j]), "balance follows the operations")
		}
	}
}
