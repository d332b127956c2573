package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

// up40 is a symbolic amount in [1, 2^40].
func up40(name string) math.Int { return math.NewIntFromBigInt(rt.Big(name, "1", "2^40")) }

// claim withdraws the rewards of a user and returns what was received.
func (t Target) claim(w *env.World, u sdk.AccAddress) math.Int {
	was := w.Bank.Bal(w.Ctx, u, dR)
	err := do(w, rewardskeeper.NewMsgServer(w.Rewards).WithdrawDelegatorReward, rewardstypes.NewMsgWithdrawDelegatorReward(t.Type(), t.ID, u.String()))
	rt.Assert(err == nil, "a delegator can always withdraw")
	return w.Bank.Bal(w.Ctx, u, dR).Sub(was)
}

func withdrawCommission(w *env.World, op uint32) error {
	return do(w, rewardskeeper.NewMsgServer(w.Rewards).WithdrawOperatorCommission, rewardstypes.NewMsgWithdrawOperatorCommission(op, opAdm.String()))
}

// earning has one target of the kind that earns the rewards of a plan.
type earning struct {
	w  *env.World
	t  Target
	d  int
	at sdk.AccAddress // the plan's pool
}

func newEarning(kind int) *earning {
	w := base(env.Opts{})
	setAsset(w, dM, math.NewInt(2), 0)
	env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, 1, 1))
	m := day1(sdk.Coins{coin(dR, math.NewInt(1))})
	m.EndTime = env.T0.Add(1000 * day)
	id, err := createPlan(w, m)
	rt.Assert(err == nil, "the plan is created")
	w.At(0)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	return &earning{w: w, t: Target{kind, 1}, at: rewardstypes.GetRewardsPoolAddress(id)}
}

func (e *earning) join(u sdk.AccAddress, x math.Int) {
	e.w.Bank.SetBal(e.w.Ctx, u, dM, e.w.Bank.Bal(e.w.Ctx, u, dM).Add(x))
	rt.Assert(e.t.Delegate(e.w, u, sdk.Coins{coin(dM, x)}) == nil, "delegate")
}

// pay moves a day on and lets the plan pay r.
func (e *earning) pay(r math.Int) {
	p, err := e.w.Rewards.GetRewardsPlan(e.w.Ctx, 1)
	env.Must(err)
	p.AmountPerDay = sdk.Coins{coin(dR, r)}
	env.Must(e.w.Rewards.RewardsPlans.Set(e.w.Ctx, 1, p))
	was := e.w.Bank.Bal(e.w.Ctx, rewardsPool(), dR)
	e.w.Bank.SetBal(e.w.Ctx, e.at, dR, r)
	e.d++
	e.w.At(day * int64Dur(e.d).d())
	rt.Assert(beginBlock(e.w) == nil, "the block succeeds")
	rt.Assert(eq(e.w.Bank.Bal(e.w.Ctx, rewardsPool(), dR), was.Add(r)), "the plan pays")
}

// fair says that got is what x of the total tokens earn of r: never more, and
// at most slack less.
func fair(got, r, x, total math.Int, slack int64) bool {
	return rt.And(got.Mul(total).LTE(r.Mul(x)), r.Mul(x).LTE(got.AddRaw(slack).Mul(total)))
}

// split picks how two users share a target and what it earns: any split of a fixed
// total with fixed rewards, or a fixed split with any rewards up to 2^90.
func split() (x, y, r math.Int) {
	n := 5
	if rt.Deep() {
		n = 9
	}
	switch k := rt.Choice("split", n); k {
	case 0, 1, 2, 5, 6:
		tot := []int64{7, 1000000007, 1<<50 - 27, 0, 0, 3, 1<<40 + 1}[k]
		r = math.NewInt([]int64{1000003, 5, 1<<51 + 5, 0, 0, 1, 1 << 60}[k])
		x = math.NewIntFromBigInt(rt.Big("alice", "1", "2^50"))
		rt.Assume(x.LT(math.NewInt(tot)))
		return x, math.NewInt(tot).Sub(x), r
	default:
		x = math.NewInt([]int64{0, 0, 0, 1, 1, 0, 0, 3, 1<<40 + 15}[k])
		y = math.NewInt([]int64{0, 0, 0, 1, 3, 0, 0, 5, 1 << 50}[k])
		return x, y, pos("rewards")
	}
}

// C12_share: two users hold a pool, operator or service that earns rewards: any
// split of three totals up to 2^50 with three amounts of rewards up to 2^51, or six splits with any rewards up to 2^90; then a user joins, one of
// them delegates more, or undelegates a part or all, or nothing happens; everyone withdraws in
// either order, twice.  Each of the two is paid what their share earned up to
// rounding down, the one who joined later nothing, and the second time nobody anything.
func C12_share() {
	e := newEarning(rt.Choice("kind", 3))
	x, y, r := split()
	e.join(alice, x)
	e.join(bob, y)
	e.pay(r)
	w, t := e.w, e.t
	event := rt.Choice("event", 5)
	z := up40("event")
	left := x
	switch event {
	case 1:
		e.join(carol, z)
		rt.Reach("joined")
	case 2:
		e.join(alice, z)
		rt.Reach("more")
	case 3:
		rt.Assume(z.LT(x))
		left = x.Sub(z)
		rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(dM, z)}) == nil, "undelegate")
		rt.Reach("less")
	case 4:
		left = math.ZeroInt()
		rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(dM, x)}) == nil, "undelegate")
		rt.Reach("left")
	}
	w.At(day*int64Dur(e.d).d() + 1)
	users := []sdk.AccAddress{alice, bob}
	if rt.Choice("order", 2) == 1 {
		users = []sdk.AccAddress{bob, alice}
	}
	if event == 1 {
		users = append(users, carol)
	}
	for _, u := range users {
		if u.Equals(alice) && left.IsZero() {
			continue
		}
		t.claim(w, u)
	}
	a, b := w.Bank.Bal(w.Ctx, alice, dR), w.Bank.Bal(w.Ctx, bob, dR)
	all := x.Add(y)
	rt.Assert(fair(a, r, x, all, 2), "alice is paid her share")
	rt.Assert(fair(b, r, y, all, 2), "bob is paid his share")
	rt.Assert(w.Bank.Bal(w.Ctx, carol, dR).IsZero(), "who joined later is paid nothing")
	w.At(day*int64Dur(e.d).d() + 2)
	for _, u := range users {
		if u.Equals(alice) && left.IsZero() {
			continue
		}
		rt.Assert(t.claim(w, u).IsZero(), "nothing is paid twice")
	}
	rt.Assert(t.outstanding(w, dR).LTE(dec(w.Bank.Bal(w.Ctx, rewardsPool(), dR))), "what is outstanding is there")
}

// near says that got is want rounded, by less than slack.
func near(got math.Int, want math.LegacyDec, slack int64) bool {
	return rt.And(dec(got).LTE(want), want.LT(dec(got.AddRaw(slack))))
}

// C12_twice: two users hold a target at any split of a fixed total; the rewards
// of two days, of fixed amounts, are paid out, between which one of them withdraws, or
// delegates more; then both withdraw.  Over the two days each is paid what their
// shares earned, up to rounding down.
func C12_twice() {
	e := newEarning(rt.Choice("kind", 3))
	n := 2
	if rt.Deep() {
		n = 4
	}
	k := rt.Choice("split", n)
	tot := math.NewInt([]int64{1000000007, 1<<50 - 27, 7, 1<<40 + 1}[k])
	r1, r2 := math.NewInt([]int64{1000003, 5, 10, 1 << 60}[k]), math.NewInt([]int64{1 << 40, 1<<51 + 5, 1, 3}[k])
	x := math.NewIntFromBigInt(rt.Big("alice", "1", "2^50"))
	rt.Assume(x.LT(tot))
	y := tot.Sub(x)
	e.join(alice, x)
	e.join(bob, y)
	e.pay(r1)
	w, t := e.w, e.t
	w.At(day*int64Dur(e.d).d() + 1)
	more := math.ZeroInt()
	switch rt.Choice("between", 3) {
	case 1:
		t.claim(w, alice)
		rt.Reach("withdraws")
	case 2:
		more = tot
		e.join(alice, more)
		rt.Reach("more")
	}
	e.pay(r2)
	w.At(day*int64Dur(e.d).d() + 1)
	if rt.Choice("order", 2) == 0 {
		t.claim(w, alice)
		t.claim(w, bob)
	} else {
		t.claim(w, bob)
		t.claim(w, alice)
	}
	all := tot.Add(more)
	wa := dec(r1).MulInt(x).QuoInt(tot).Add(dec(r2).MulInt(x.Add(more)).QuoInt(all))
	wb := dec(r1).MulInt(y).QuoInt(tot).Add(dec(r2).MulInt(y).QuoInt(all))
	a, b := w.Bank.Bal(w.Ctx, alice, dR), w.Bank.Bal(w.Ctx, bob, dR)
	// the quotients above are rounded to 18 decimals themselves
	eps := math.LegacyNewDecWithPrec(1, 15)
	rt.Assert(near(a, wa.Add(eps), 4), "alice is paid what her shares earned")
	rt.Assert(near(b, wb.Add(eps), 4), "bob is paid what his shares earned")
	rt.Assert(a.Add(b).LTE(r1.Add(r2)), "no more is paid than there is")
	rt.Assert(t.outstanding(w, dR).LTE(dec(w.Bank.Bal(w.Ctx, rewardsPool(), dR))), "what is outstanding is there")
}

// C12_commission: an operator at any commission rate earns fixed rewards, or any rewards
// up to 2^90 at listed rates; its admin may have set another address to be paid at. The commission is paid to
// that address, only on the admin's request or when the operator is deleted, the rest to the delegators.
func C12_commission() {
	e := newEarning(kOperator)
	w, t := e.w, e.t
	var rate math.LegacyDec
	var r math.Int
	x := math.NewInt(8)
	if rt.Choice("any", 2) == 0 {
		x = math.NewInt(1)
		rate = math.LegacyNewDecFromBigIntWithPrec(rt.Big("rate", "0", "10^18"), 18)
		r = math.NewInt([]int64{1, 1000003, 1<<51 + 5}[rt.Choice("rewards", 3)])
	} else {
		rate = math.LegacyNewDecWithPrec([]int64{0, 5, 30, 100}[rt.Choice("rate", 4)], 2)
		r = pos("rewards")
	}
	env.Must(w.Operators.SaveOperatorParams(w.Ctx, 1, operatorstypes.NewOperatorParams(rate)))
	e.join(alice, x)
	opAddr := t.Addr()
	to, own := opAdm, rt.Choice("address", 2) == 0
	if !own {
		to = bob
		err := do(w, rewardskeeper.NewMsgServer(w.Rewards).SetWithdrawAddress, rewardstypes.NewMsgSetWithdrawAddress(bob.String(), opAdm.String()))
		rt.Assert(err == nil, "the withdraw address is set")
		rt.Reach("address")
	}
	e.pay(r)
	w.At(day*int64Dur(e.d).d() + 1)
	err := do(w, rewardskeeper.NewMsgServer(w.Rewards).WithdrawOperatorCommission, rewardstypes.NewMsgWithdrawOperatorCommission(1, alice.String()))
	rt.Assert(err != nil, "only the admin withdraws the commission")
	how := rt.Choice("how", 3)
	if how > 0 {
		err = withdrawCommission(w, 1)
		rt.Assert(rt.Implies(rate.IsPositive(), err == nil), "the admin withdraws the commission")
		if how == 2 {
			_ = withdrawCommission(w, 1)
		}
		rt.Reach("withdrawn")
	}
	if rt.Choice("claim", 2) == 1 {
		t.claim(w, alice)
	}
	if how != 1 {
		rt.Assert(t.Deactivate(w) == nil, "deactivate")
		w.At(day*int64Dur(e.d+30).d() + 2)
		rt.Assert(beginBlock(w) == nil, "the operator becomes inactive")
		rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(dM, x)}) == nil, "undelegate")
		rt.Assert(t.Delete(w) == nil, "the operator is deleted")
		rt.Reach("deleted")
	} else {
		t.claim(w, alice)
	}
	c := w.Bank.Bal(w.Ctx, to, dR)
	a := w.Bank.Bal(w.Ctx, alice, dR)
	want := dec(r).Mul(rate)
	eps := math.LegacyNewDecWithPrec(1, 12)
	rt.Assert(near(c, want.Add(eps), 3), "the commission is paid")
	rt.Assert(near(a, dec(r).Sub(want).Add(eps), 3), "the delegators are paid the rest")
	rt.Assert(a.Add(c).LTE(r), "no more is paid than there is")
	for _, u := range []sdk.AccAddress{opAdm, bob, opAddr, carol} {
		rt.Assert(rt.Or(u.Equals(to), w.Bank.Bal(w.Ctx, u, dR).IsZero()), "nobody else is paid")
	}
}

// C12_deleted_service: users hold a pool at any split of a fixed total and trust a service
// that has rewarded them; the service is deactivated and deleted before or after
// one of them withdraws, and another service rewards them as well or not.  Both
// are still paid what the service had given them.
func C12_deleted_service() {
	e := newEarning(kPool)
	w, t := e.w, e.t
	k := rt.Choice("split", 2)
	tot := math.NewInt([]int64{1000000007, 1<<50 - 27}[k])
	r := math.NewInt([]int64{1000003, 1<<51 + 5}[k])
	x := math.NewIntFromBigInt(rt.Big("alice", "1", "2^50"))
	rt.Assume(x.LT(tot))
	y := tot.Sub(x)
	e.join(alice, x)
	e.join(bob, y)
	e.pay(r)
	w.At(day*int64Dur(e.d).d() + 1)
	early := rt.Choice("early", 2) == 1
	if early {
		t.claim(w, alice)
		rt.Reach("early")
	}
	s := Target{kService, 1}
	rt.Assert(s.Deactivate(w) == nil, "deactivate")
	rt.Assert(s.Delete(w) == nil, "delete")
	w.At(day*int64Dur(e.d).d() + 2)
	t.claim(w, alice)
	t.claim(w, bob)
	rt.Assert(fair(w.Bank.Bal(w.Ctx, alice, dR), r, x, tot, 2), "alice is paid her share")
	rt.Assert(fair(w.Bank.Bal(w.Ctx, bob, dR), r, y, tot, 2), "bob is paid his share")
}
