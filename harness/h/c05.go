package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

const dA = "uatom"

// anyDenoms is an arbitrary subset of the two denoms and a foreign one, in either order.
func anyDenoms(name string) []string {
	return [][]string{nil, {dM}, {dT}, {dM, dT}, {dT, dM}, {dA}, {dA, dM}}[rt.Choice(name, 7)]
}

func has(l []string, d string) bool {
	for _, x := range l {
		if x == d {
			return true
		}
	}
	return false
}

func (t Target) setStatus(w *env.World, st int) {
	switch t.Kind {
	case kOperator:
		o := t.Get(w).(operatorstypes.Operator)
		o.Status = operatorstypes.OperatorStatus(st)
		env.Must(w.Operators.SaveOperator(w.Ctx, o))
	case kService:
		s := t.Get(w).(servicestypes.Service)
		s.Status = servicestypes.ServiceStatus(st)
		env.Must(w.Services.SaveService(w.Ctx, s))
	}
}

// C05_admission: every target kind in every status, existing or not, every
// combination of the allowed denoms of the chain and of the service out of
// three, delegating one or two coins of arbitrary amounts; accepted exactly when
// the target exists and is active, every coin is allowed by both lists, and the
// delegator owns them.
func C05_admission() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	kind := rt.Choice("kind", 3)
	t := Target{kind, 1}
	chain := anyDenoms("chain")
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.NewParams(time.Second, chain)))
	active := true
	exists := true
	var svc []string
	switch kind {
	case kOperator:
		st := rt.Choice("status", 4)
		if st == 3 {
			exists = false
			t.ID = 5
		} else {
			t.setStatus(w, 1+st)
			active = st == 0
		}
	case kService:
		st := rt.Choice("status", 4)
		if st == 3 {
			exists = false
			t.ID = 5
		} else {
			t.setStatus(w, 1+st)
			active = st == int(servicestypes.SERVICE_STATUS_ACTIVE)-1
			svc = anyDenoms("service")
			env.Must(w.Services.SetServiceParams(w.Ctx, 1, servicestypes.NewServiceParams(svc)))
		}
	}
	bm, bt := amt("balance M"), amt("balance T")
	w.Bank.SetBal(w.Ctx, alice, dM, bm)
	w.Bank.SetBal(w.Ctx, alice, dT, bt)
	x, c := pickCoins("delegate", t)
	if kind == kPool && rt.Choice("new pool", 2) == 1 {
		x = holding{math.ZeroInt(), x.m}
		c = sdk.Coins{coin(dT, x.t)}
		_, found, err := w.Pools.GetPoolByDenom(w.Ctx, dT)
		env.Must(err)
		rt.Assert(!found, "no pool before the first delegation")
		t.ID = 2
	}
	allowed := true
	for _, cc := range c {
		if len(chain) > 0 && !has(chain, cc.Denom) {
			allowed = false
		}
		if len(svc) > 0 && !has(svc, cc.Denom) {
			allowed = false
		}
	}
	err := t.Delegate(w, alice, c)
	if !exists || !active || !allowed {
		rt.Reach("inadmissible")
		rt.Assert(err != nil, "an inadmissible delegation is refused")
		_, ok := t.Delegation(w, alice)
		rt.Assert(!ok, "a refused delegation is not recorded")
		rt.Assert(rt.And(eq(w.Bank.Bal(w.Ctx, alice, dM), bm), eq(w.Bank.Bal(w.Ctx, alice, dT), bt)), "a refused delegation moves no coins")
		if kind == kPool {
			_, found, err := w.Pools.GetPoolByDenom(w.Ctx, dT)
			env.Must(err)
			rt.Assert(!found, "a refused delegation creates no pool")
		}
		return
	}
	rt.Assert((err == nil) == rt.And(x.m.LTE(bm), x.t.LTE(bt)), "an admissible delegation is accepted exactly when covered")
	if err == nil {
		rt.Reach("accepted")
		for _, d := range []string{dM, dT} {
			rt.Assert(t.DelShares(w, alice, d).Equal(dec(x.of(d))), "the delegation is recorded")
		}
		if kind == kPool {
			p, found, err := w.Pools.GetPoolByDenom(w.Ctx, c[0].Denom)
			env.Must(err)
			rt.Assert(found && p.ID == t.ID && p.Denom == c[0].Denom, "the pool of the denom holds the delegation")
			rt.Reach("pool delegation")
		}
	}
}

// C05_invalid_amounts: every target kind; delegating or undelegating an amount
// in [-2^90, 0], a coin list with a repeated denom or in the wrong order, or no
// coin at all, is refused and changes nothing, whatever the user delegated.
func C05_invalid_amounts() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	t := Target{rt.Choice("kind", 3), 1}
	z := math.ZeroInt()
	h := holding{pos("held"), z}
	t.put(w, h, holding{z, z})
	w.Bank.SetBal(w.Ctx, alice, dM, amt("balance"))
	w.Bank.SetBal(w.Ctx, alice, dT, amt("balance T"))
	bm, bt := w.Bank.Bal(w.Ctx, alice, dM), w.Bank.Bal(w.Ctx, alice, dT)
	neg := math.NewIntFromBigInt(rt.Big("bad", "-2^90", "0"))
	x, y := pos("x"), pos("y")
	var c sdk.Coins
	n := 5
	if t.Kind == kPool {
		n = 1
	}
	switch rt.Choice("shape", n) {
	case 0:
		c = sdk.Coins{coin(dM, neg)}
	case 1:
		c = sdk.Coins{coin(dM, x), coin(dM, y)}
	case 2:
		c = sdk.Coins{coin(dT, x), coin(dM, y)}
	case 3:
		c = sdk.Coins{coin(dM, x), coin(dT, neg)}
	default:
		c = sdk.Coins{}
	}
	if rt.Choice("op", 2) == 0 {
		rt.Assert(t.Delegate(w, alice, c) != nil, "an ill-formed delegation is refused")
	} else {
		rt.Assert(t.Undelegate(w, alice, c) != nil, "an ill-formed undelegation is refused")
	}
	rt.Assert(rt.And(eq(w.Bank.Bal(w.Ctx, alice, dM), bm), eq(w.Bank.Bal(w.Ctx, alice, dT), bt)), "no coins move")
	rt.Assert(t.DelShares(w, alice, dM).Equal(dec(h.m)), "the delegation is unchanged")
	rt.Assert(t.Unbonding(w, alice, dM).IsZero(), "nothing unbonds")
	rt.Reach("end")
}

// C05_exit: whatever the status of the target and the denom lists in force after
// the delegation was made, the delegator can undelegate any part of it, and only of it.
func C05_exit() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	t := Target{rt.Choice("kind", 3), 1}
	z := math.ZeroInt()
	h := holding{pos("held"), z}
	t.put(w, h, holding{pos("bob"), z})
	if t.Kind != kPool {
		t.setStatus(w, 1+rt.Choice("status", 3))
	}
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.NewParams(time.Second, anyDenoms("chain"))))
	if t.Kind == kService {
		env.Must(w.Services.SetServiceParams(w.Ctx, 1, servicestypes.NewServiceParams(anyDenoms("service"))))
	}
	x := pos("x")
	err := t.Undelegate(w, alice, sdk.Coins{coin(dM, x)})
	rt.Assert((err == nil) == x.LTE(h.m), "undelegating succeeds exactly when delegated")
	if err != nil {
		rt.Reach("too much")
		return
	}
	w.At(time.Second)
	rt.Assert(endRestaking(w) == nil, "end of block succeeds")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, alice, dM), x), "the coins are paid")
	rt.Reach("paid")
}

// C05_service_denoms: the service admin sets the allowed denoms to any of the
// lists; later delegations obey exactly the new list, and only the admin's change counts.
func C05_service_denoms() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	ms := restakingkeeper.NewMsgServer(w.Restaking)
	env.Must(w.Services.SetServiceParams(w.Ctx, 1, servicestypes.NewServiceParams(anyDenoms("before"))))
	after := anyDenoms("after")
	env.Must(w.Services.SetServiceParams(w.Ctx, 1, servicestypes.NewServiceParams(after)))
	x := pos("x")
	w.Bank.SetBal(w.Ctx, alice, dM, x)
	err := do(w, ms.DelegateService, restakingtypes.NewMsgDelegateService(1, sdk.Coins{coin(dM, x)}, alice.String()))
	rt.Assert((err == nil) == (len(after) == 0 || has(after, dM)), "the list in force decides")
	rt.Reach("end")
}

// C05_delete_exit: an operator or service with any delegations of two users is
// deactivated and deleted (or the deletion is refused) by its administrator;
// every delegator still gets out exactly what they delegated.
func C05_delete_exit() {
	w := base(env.Opts{NoRestrictions: true, NoHooks: true})
	t := Target{1 + rt.Choice("kind", 2), 1}
	a, b := anyHolding("alice", t), anyHolding("bob", t)
	t.put(w, a, b)
	rt.Assert(t.Deactivate(w) == nil, "the administrator can deactivate")
	if t.Kind == kOperator {
		w.At(operatorstypes.DefaultParams().DeactivationTime)
		rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
	}
	if rt.Choice("first leaves", 2) == 1 && a.m.IsPositive() {
		rt.Assert(t.Undelegate(w, alice, sdk.Coins{coin(dM, a.m)}) == nil, "leaving an inactive target")
		a.m = math.ZeroInt()
	}
	if t.Delete(w) == nil {
		rt.Reach("deleted")
	}
	for _, x := range []struct {
		u sdk.AccAddress
		h holding
	}{{alice, a}, {bob, b}} {
		if c := x.h.coins(); !c.IsZero() {
			rt.Assert(t.Undelegate(w, x.u, c) == nil, "a delegator can always leave")
			rt.Reach("left")
		}
	}
}
