package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
)

// rst is a restaking state: one target with the delegations of two users, a
// pending unbonding of each and spare coins on the target's account.
type rst struct {
	w      *env.World
	t      Target
	a, b   math.Int // delegated by alice and bob
	ua, ub math.Int // being unbonded
	extra  math.Int // other coins on the target account
	bal    math.Int // alice's balance
	d      string
}

// restState builds an arbitrary state that satisfies the invariants: one share
// per token, the target's totals are the sums of the delegations.
func restState(t Target, d string) *rst {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	s := &rst{w: w, t: t, d: d}
	sd := t.ShareDenom(d)
	s.a, s.b = math.ZeroInt(), math.ZeroInt()
	s.ua, s.ub = math.ZeroInt(), math.ZeroInt()
	if rt.Choice("alice delegated", 2) == 1 {
		s.a = pos("a")
		t.setDelegation(w, alice, sdk.NewDecCoins(sdk.NewDecCoinFromDec(sd, dec(s.a))))
	}
	if rt.Choice("bob delegated", 2) == 1 {
		s.b = pos("b")
		t.setDelegation(w, bob, sdk.NewDecCoins(sdk.NewDecCoinFromDec(sd, dec(s.b))))
	}
	tot := s.a.Add(s.b)
	t.setTotals(w, sdk.NewCoins(sdk.NewCoin(d, tot)), sdk.NewDecCoins(sdk.NewDecCoinFromDec(sd, dec(tot))))
	if rt.Choice("alice unbonding", 2) == 1 {
		s.ua = pos("ua")
		s.addUnbonding(alice, s.ua)
	}
	if rt.Choice("bob unbonding", 2) == 1 {
		s.ub = pos("ub")
		s.addUnbonding(bob, s.ub)
	}
	s.extra = amt("extra")
	w.Bank.SetBal(w.Ctx, t.Addr(), d, tot.Add(s.ua).Add(s.ub).Add(s.extra))
	s.bal = amt("bal")
	w.Bank.SetBal(w.Ctx, alice, d, s.bal)
	return s
}

// addUnbonding stores an entry the way an earlier undelegation left it: it
// matures one second after the world's start.
func (s *rst) addUnbonding(user sdk.AccAddress, x math.Int) {
	c := sdk.NewCoins(sdk.NewCoin(s.d, x))
	end := env.T0.Add(1e9)
	id, err := s.w.Restaking.IncrementUnbondingID(s.w.Ctx)
	env.Must(err)
	var ubd restakingtypes.UnbondingDelegation
	switch s.t.Kind {
	case kPool:
		ubd = restakingtypes.NewPoolUnbondingDelegation(user.String(), s.t.ID, 5, end, c, id)
	case kOperator:
		ubd = restakingtypes.NewOperatorUnbondingDelegation(user.String(), s.t.ID, 5, end, c, id)
	default:
		ubd = restakingtypes.NewServiceUnbondingDelegation(user.String(), s.t.ID, 5, end, c, id)
	}
	key, err := s.w.Restaking.SetUnbondingDelegation(s.w.Ctx, ubd)
	env.Must(err)
	env.Must(s.w.Restaking.SetUnbondingDelegationByUnbondingID(s.w.Ctx, ubd, key, id))
	env.Must(s.w.Restaking.InsertUBDQueue(s.w.Ctx, ubd, end))
}

// slack is the target account's balance beyond what it owes.
func (s *rst) slack() math.Int {
	return s.w.Bank.Bal(s.w.Ctx, s.t.Addr(), s.d).Sub(s.t.Tokens(s.w, s.d)).
		Sub(s.t.Unbonding(s.w, alice, s.d)).Sub(s.t.Unbonding(s.w, bob, s.d))
}

// step performs one arbitrary operation by alice and reports whether it went
// through.
func (s *rst) step() (op int, x math.Int, err error) {
	op = rt.Choice("op", 3)
	x = math.ZeroInt()
	switch op {
	case 0:
		x = amt("x")
		err = s.t.Delegate(s.w, alice, sdk.Coins{coin(s.d, x)})
	case 1:
		x = amt("x")
		err = s.t.Undelegate(s.w, alice, sdk.Coins{coin(s.d, x)})
	case 2:
		s.w.At([]int64Dur{0, 1e9, 2e9}[rt.Choice("when", 3)].d())
		err = endRestaking(s.w)
	}
	return
}

// C01_backing_step: every target kind, any amounts up to 2^90, each of the two
// users with or without a delegation and a pending unbonding; one arbitrary
// delegate, undelegate or end-of-block step.  The target's account holds the
// recorded tokens plus the pending unbondings before and after, and the coins
// beyond that do not change.
func C01_backing_step() {
	s := restState(Target{rt.Choice("kind", 3), 1}, dM)
	rt.Assert(eq(s.slack(), s.extra), "setup")
	op, x, err := s.step()
	rt.Assert(eq(s.slack(), s.extra), "account backs tokens and unbondings exactly")
	total := s.w.Bank.Bal(s.w.Ctx, alice, s.d).Add(s.t.Tokens(s.w, s.d)).Add(s.t.Unbonding(s.w, alice, s.d))
	switch op {
	case 0:
		rt.Assert((err == nil) == rt.And(x.IsPositive(), x.LTE(s.bal)), "a covered positive delegation succeeds")
		rt.Assert(eq(total, s.bal.Add(s.a).Add(s.b).Add(s.ua)), "delegating conserves the coins")
		if err == nil {
			rt.Reach("delegated")
			rt.Assert(eq(s.t.Tokens(s.w, s.d), s.a.Add(s.b).Add(x)), "tokens grow by the amount")
			rt.Assert(eq(s.w.Bank.Bal(s.w.Ctx, alice, s.d), s.bal.Sub(x)), "delegator pays the amount")
		}
	case 1:
		rt.Assert((err == nil) == rt.And(x.IsPositive(), x.LTE(s.a)), "undelegating up to the delegation succeeds")
		rt.Assert(eq(total, s.bal.Add(s.a).Add(s.b).Add(s.ua)), "undelegating conserves the coins")
		if err == nil {
			rt.Reach("undelegated")
			rt.Assert(eq(s.t.Tokens(s.w, s.d), s.a.Add(s.b).Sub(x)), "tokens shrink by the amount")
			rt.Assert(eq(s.t.Unbonding(s.w, alice, s.d), s.ua.Add(x)), "the amount is unbonding")
			rt.Assert(eq(s.w.Bank.Bal(s.w.Ctx, alice, s.d), s.bal), "nothing is paid yet")
		}
	case 2:
		rt.Assert(err == nil, "end of block succeeds")
		rt.Reach("end block")
	}
}

// C01_denoms: an operator or a service that holds two denoms, one of any amounts, of
// one or two users; any undelegation or delegation of both denoms by one of them, the
// whole of either or both included. The account backs the tokens and unbondings of
// each denom exactly, each denom moves by its own amount, and a target that everybody
// has left holds no tokens.
func C01_denoms() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	t := Target{1 + rt.Choice("kind", 2), 1}
	ds := []string{dM, dT}
	has := map[string]math.Int{dM: pos("a"), dT: math.NewInt(1000)}
	bobs := map[string]math.Int{dM: math.ZeroInt(), dT: math.ZeroInt()}
	shares := func(m map[string]math.Int) (r sdk.DecCoins) {
		for _, d := range ds {
			r = r.Add(sdk.NewDecCoinFromDec(t.ShareDenom(d), dec(m[d])))
		}
		return
	}
	tokens := sdk.NewCoins(coin(dM, has[dM]), coin(dT, has[dT]))
	total := shares(has)
	t.setDelegation(w, alice, shares(has))
	if rt.Choice("bob", 2) == 1 {
		bobs[dM], bobs[dT] = pos("b"), math.NewInt(500)
		t.setDelegation(w, bob, shares(bobs))
		tokens = tokens.Add(coin(dM, bobs[dM]), coin(dT, bobs[dT]))
		total = total.Add(shares(bobs)...)
	}
	t.setTotals(w, tokens, total)
	extra, bal := map[string]math.Int{}, map[string]math.Int{}
	for _, d := range ds {
		extra[d], bal[d] = amt("extra"), pos("balance")
		w.Bank.SetBal(w.Ctx, t.Addr(), d, tokens.AmountOf(d).Add(extra[d]))
		w.Bank.SetBal(w.Ctx, alice, d, bal[d])
	}
	x := map[string]math.Int{dM: amt("x"), dT: math.NewInt([]int64{0, 30, 1000, 1001}[rt.Choice("y", 4)])}
	c := sdk.NewCoins(coin(dM, x[dM]), coin(dT, x[dT]))
	del := rt.Choice("op", 2) == 0
	covered := !c.IsZero()
	for _, d := range ds {
		if del {
			covered = rt.And(covered, x[d].LTE(bal[d]))
		} else {
			covered = rt.And(covered, x[d].LTE(has[d]))
		}
	}
	var err error
	if del {
		err = t.Delegate(w, alice, c)
	} else {
		err = t.Undelegate(w, alice, c)
	}
	rt.Assert((err == nil) == covered, "exactly what is covered in each denom goes through")
	all := true
	for _, d := range ds {
		tk, ub := t.Tokens(w, d), t.Unbonding(w, alice, d)
		rt.Assert(eq(w.Bank.Bal(w.Ctx, t.Addr(), d), tk.Add(ub).Add(extra[d])), "account backs tokens and unbondings exactly")
		in, out := math.ZeroInt(), math.ZeroInt()
		if err == nil && del {
			in = x[d]
		} else if err == nil {
			out = x[d]
		}
		rt.Assert(eq(tk, tokens.AmountOf(d).Add(in).Sub(out)), "the tokens change by the amount")
		rt.Assert(eq(ub, out), "the amount is unbonding")
		rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, d), bal[d].Sub(in)), "the delegator pays the amount")
		all = all && tk.IsZero()
	}
	if err != nil {
		rt.Reach("refused")
		return
	}
	if del {
		rt.Reach("delegated")
	} else {
		rt.Reach("undelegated")
	}
	if all {
		rt.Assert(t.Get(w).GetTokens().IsZero(), "nothing is recorded for a target that everybody left")
		rt.Assert(t.Get(w).GetDelegatorShares().IsZero(), "no shares are left either")
		rt.Reach("everybody left")
	}
}
