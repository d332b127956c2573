package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type due struct {
	u  int
	x  math.Int
	at time.Duration
}

// ledger follows the operations of a history independently of the chain.
type ledger struct {
	w         *env.World
	t         Target
	users     []sdk.AccAddress
	bal, held [2]math.Int
	pend      []due
	now       time.Duration
	unbonding time.Duration
}

func newLedger(t Target, unbonding time.Duration) *ledger {
	l := &ledger{w: base(env.Opts{NoHooks: true, NoRestrictions: true}), t: t, users: []sdk.AccAddress{alice, bob}, unbonding: unbonding}
	env.Must(l.w.Restaking.SetParams(l.w.Ctx, restakingtypes.NewParams(unbonding, nil)))
	var h [2]holding
	for i, u := range l.users {
		l.bal[i] = amt("balance")
		l.held[i] = pos("held")
		h[i] = holding{l.held[i], math.ZeroInt()}
		l.w.Bank.SetBal(l.w.Ctx, u, dM, l.bal[i])
	}
	t.put(l.w, h[0], h[1])
	l.w.At(0)
	return l
}

func (l *ledger) undelegate(i int, x math.Int) {
	err := l.t.Undelegate(l.w, l.users[i], sdk.Coins{coin(dM, x)})
	rt.Assert((err == nil) == x.LTE(l.held[i]), "undelegating succeeds exactly when delegated")
	if err == nil {
		l.held[i] = l.held[i].Sub(x)
		l.pend = append(l.pend, due{i, x, l.now + l.unbonding})
	}
}

// end runs the end of the block and moves to the next one.
func (l *ledger) end(advance time.Duration) {
	rt.Assert(endRestaking(l.w) == nil, "end of block succeeds")
	var keep []due
	for _, p := range l.pend {
		if p.at <= l.now {
			l.bal[p.u] = l.bal[p.u].Add(p.x)
			rt.Reach("paid out")
		} else {
			keep = append(keep, p)
		}
	}
	l.pend = keep
	l.check()
	l.now += advance
	l.w.At(l.now)
}

func (l *ledger) check() {
	for i, u := range l.users {
		rt.Assert(eq(l.w.Bank.Bal(l.w.Ctx, u, dM), l.bal[i]), "balance is what matured unbondings paid")
		s := math.ZeroInt()
		for _, p := range l.pend {
			if p.u == i {
				s = s.Add(p.x)
			}
		}
		rt.Assert(eq(l.t.Unbonding(l.w, u, dM), s), "pending unbondings are the immature ones")
		_, ok, err := l.w.Restaking.GetUnbondingDelegation(l.w.Ctx, u.String(), l.t.Type(), l.t.ID)
		env.Must(err)
		rt.Assert(ok == s.IsPositive(), "no empty unbonding is kept")
	}
	all, err := l.w.Restaking.GetAllUnbondingDelegations(l.w.Ctx)
	env.Must(err)
	n := 0
	for _, u := range all {
		n += len(u.Entries)
		for _, e := range u.Entries {
			for _, c := range e.Balance {
				rt.Assert(c.Denom == dM, "pending coins are of the undelegated denom")
			}
		}
	}
	rt.Assert(n <= len(l.pend), "no more entries than undelegations")
}

// C04_queue_seq: every target kind, two users with arbitrary delegations and
// balances up to 2^90, two (thorough: three) undelegations, the first by alice, the
// second by any of the two, the third by bob, of any amounts, each in the same block as the one before or in a block an
// arbitrary time later, an arbitrary unbonding time (all times in
// [1,2^50] ns), then three more blocks after arbitrary times, the last one late
// enough for all.  Each undelegation is paid in full to its
// delegator, once, by the first block at or after its completion time, and
// the end of block never fails.
func C04_queue_seq() {
	l := newLedger(Target{rt.Choice("kind", 3), 1}, someTime("unbonding time"))
	steps := 2
	if rt.Deep() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		who := 0 // the first one by alice, the third by bob
		switch i {
		case 1:
			who = rt.Choice("who", 2)
		case 2:
			who = 1
		}
		l.undelegate(who, pos("amount"))
		if rt.Choice("same block", 2) == 0 {
			l.end(someTime("gap"))
		}
	}
	l.end(someTime("gap 1"))
	l.end(l.unbonding)
	l.end(time.Second)
	rt.Assert(len(l.pend) == 0, "everything matured")
	sum := l.w.Bank.Bal(l.w.Ctx, l.t.Addr(), dM)
	rt.Assert(eq(sum, l.held[0].Add(l.held[1])), "the target account keeps exactly the delegations")
	rt.Reach("end")
}

func someTime(name string) time.Duration { return time.Duration(rt.Int64(name, 1, 1<<50)) }

// C04_param_change: every target kind; the unbonding time changes between
// arbitrary values between two undelegations in the same block or in blocks
// an arbitrary time apart; each is paid at the time fixed when it was requested.
func C04_param_change() {
	l := newLedger(Target{rt.Choice("kind", 3), 1}, someTime("first unbonding time"))
	u1 := l.unbonding
	l.undelegate(0, pos("amount"))
	if rt.Choice("same block", 2) == 0 {
		l.end(someTime("gap"))
	}
	l.unbonding = someTime("second unbonding time")
	env.Must(l.w.Restaking.SetParams(l.w.Ctx, restakingtypes.NewParams(l.unbonding, nil)))
	l.undelegate(rt.Choice("who", 2), pos("amount"))
	l.end(someTime("gap 2"))
	l.end(l.unbonding)
	l.end(u1)
	l.end(1)
	rt.Assert(len(l.pend) == 0, "everything matured")
	rt.Reach("end")
}

// C04_two_targets: one user undelegates from two targets (of any kinds,
// different or of the same kind) in one block; both are paid, each from its own target.
func C04_two_targets() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	k1, k2 := rt.Choice("kind 1", 3), rt.Choice("kind 2", 3)
	t1, t2 := Target{k1, 1}, Target{k2, 2}
	if k2 == kPool {
		if k1 == kPool {
			return
		}
		t2.ID = 1
	}
	z := math.ZeroInt()
	a1, a2 := pos("delegated 1"), pos("delegated 2")
	t1.put(w, holding{a1, z}, holding{z, z})
	t2.put(w, holding{a2, z}, holding{z, z})
	x1, x2 := pos("amount 1"), pos("amount 2")
	rt.Assume(x1.LTE(a1))
	rt.Assume(x2.LTE(a2))
	rt.Assert(t1.Undelegate(w, alice, sdk.Coins{coin(dM, x1)}) == nil, "first undelegation succeeds")
	rt.Assert(t2.Undelegate(w, alice, sdk.Coins{coin(dM, x2)}) == nil, "second undelegation succeeds")
	rt.Assert(eq(t1.Unbonding(w, alice, dM), x1), "first is pending")
	rt.Assert(eq(t2.Unbonding(w, alice, dM), x2), "second is pending")
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(w.Bank.Bal(w.Ctx, alice, dM).IsZero(), "nothing is paid early")
	w.At(unbond - time.Nanosecond)
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(w.Bank.Bal(w.Ctx, alice, dM).IsZero(), "nothing is paid early")
	w.At(unbond)
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dM), x1.Add(x2)), "both are paid")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, t1.Addr(), dM), a1.Sub(x1)), "first target pays its own")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, t2.Addr(), dM), a2.Sub(x2)), "second target pays its own")
	w.At(2 * unbond)
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dM), x1.Add(x2)), "nothing is paid twice")
	rt.Reach("end")
}

// C04_deleted_target: an operator or service whose users undelegated everything
// is deactivated and deleted by its admin before the unbonding completes; the
// coins are still paid on time and the end of block does not fail.
func C04_deleted_target() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	t := Target{1 + rt.Choice("kind", 2), 1}
	z := math.ZeroInt()
	a := pos("delegated")
	t.put(w, holding{a, z}, holding{z, z})
	rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(dM, a)}) == nil, "undelegation succeeds")
	if t.Kind == kOperator {
		ms := operatorskeeper.NewMsgServer(w.Operators)
		env.Must(w.Operators.SetParams(w.Ctx, operatorstypes.NewParams(nil, time.Second)))
		env.Must(do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(1, opAdm.String())))
		w.At(2 * time.Second)
		env.Must(beginOperators(w))
		if do(w, ms.DeleteOperator, operatorstypes.NewMsgDeleteOperator(1, opAdm.String())) == nil {
			rt.Reach("deleted operator")
		}
	} else {
		ms := serviceskeeper.NewMsgServer(w.Services)
		env.Must(do(w, ms.DeactivateService, servicestypes.NewMsgDeactivateService(1, svcAdm.String())))
		if do(w, ms.DeleteService, servicestypes.NewMsgDeleteService(1, svcAdm.String())) == nil {
			rt.Reach("deleted service")
		}
	}
	w.At(unbond)
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dM), a), "the coins are paid")
}
