package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

func coinsOf(m, t math.Int) sdk.Coins {
	c := sdk.Coins{}
	if m.IsPositive() {
		c = append(c, coin(dM, m))
	}
	if t.IsPositive() {
		c = append(c, coin(dT, t))
	}
	return c
}

// tokens overwrites the tokens of a target, one share per token.
func (t Target) setTokens(w *env.World, m, tt math.Int) {
	c := coinsOf(m, tt)
	s := sdk.DecCoins{}
	for _, x := range c {
		s = append(s, sdk.NewDecCoinFromDec(t.ShareDenom(x.Denom), dec(x.Amount)))
	}
	t.setTotals(w, c, s)
}

type alloc struct {
	w       *env.World
	targets []Target
	plan    sdk.AccAddress
	funds   math.Int
}

// allocWorld has operators 1 and 2 joined to service 1, which the pool secures,
// and a funded plan of the service.
func allocWorld(m *rewardstypes.MsgCreateRewardsPlan, funds math.Int) *alloc {
	w := base(env.Opts{})
	addOperator(w, 2)
	for _, op := range []uint32{1, 2} {
		env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, op, 1))
	}
	env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, 1, 1))
	setAsset(w, dM, math.NewInt(2), 0)
	setAsset(w, dT, math.NewInt(3), 0)
	id, err := createPlan(w, m)
	rt.Assert(err == nil, "the plan is created")
	a := &alloc{w: w, plan: rewardstypes.GetRewardsPoolAddress(id), funds: funds}
	a.targets = []Target{{kPool, 1}, {kOperator, 1}, {kOperator, 2}, {kService, 1}}
	w.Bank.SetBal(w.Ctx, a.plan, dR, funds)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	return a
}

// check compares what was allocated with what was drawn and returns what each
// target got.
func (a *alloc) check() []math.LegacyDec {
	w := a.w
	left := w.Bank.Bal(w.Ctx, a.plan, dR)
	drawn := a.funds.Sub(left)
	rt.Assert(!drawn.IsNegative(), "a plan's pool only pays")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, rewardsPool(), dR), drawn), "what is drawn goes to the rewards pool")
	sum := math.LegacyZeroDec()
	var out []math.LegacyDec
	for _, t := range a.targets {
		o, c := t.outstanding(w, dR), t.current(w, dR)
		if t.Kind == kOperator {
			c = c.Add(commission(w, t.ID, dR))
		}
		rt.Assert(!o.IsNegative(), "rewards are not negative")
		rt.Assert(o.Equal(c), "outstanding rewards are the delegators' and the commission")
		sum = sum.Add(o)
		out = append(out, o)
	}
	rt.Assert(sum.LTE(dec(drawn)), "no more is allocated than was drawn")
	return out
}

func day1(per sdk.Coins) *rewardstypes.MsgCreateRewardsPlan {
	m := plan(1, per, svcAdm.String())
	m.EndTime = env.T0.Add(100 * day)
	return m
}

// byDenom is what a target was allocated for the delegations of a denom.
func (t Target) byDenom(w *env.World, of, d string) math.LegacyDec {
	dt, err := w.Rewards.GetDelegationTarget(w.Ctx, t.Type(), t.ID)
	env.Must(err)
	o, err := w.Rewards.GetOutstandingRewardsCoins(w.Ctx, dt)
	env.Must(err)
	return o.CoinsOf(of).AmountOf(d)
}

var tiny = math.LegacyNewDecWithPrec(1, 15)

// share says that got is the part/whole share of total, up to truncation.
func share(got math.LegacyDec, total, part, whole math.Int) bool {
	g, x := got.MulInt(whole), dec(total.Mul(part))
	return rt.And(g.LTE(x), x.LTE(g.Add(tiny.MulInt(whole))))
}

// C10_denoms: lists of allowed denoms of the chain and of the service in any
// combination; an operator or the users of the service with any tokens of two
// denoms up to 2^40; each allowed denom gets
// its share of the value, the others nothing, and the sum never exceeds what was drawn.
func C10_denoms() {
	per := math.NewIntFromBigInt(rt.Big("per day", "1", "2^60"))
	a := allocWorld(day1(sdk.Coins{coin(dR, per)}), per)
	w := a.w
	global, local := anyDenoms("chain"), anyDenoms("service")
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.NewParams(unbond, global)))
	env.Must(w.Services.SetServiceParams(w.Ctx, 1, servicestypes.NewServiceParams(local)))
	x := math.NewIntFromBigInt(rt.Big("milk", "1", "2^40"))
	y := math.NewIntFromBigInt(rt.Big("tia", "1", "2^40"))
	t := []Target{{kOperator, 1}, {kService, 1}}[rt.Choice("target", 2)]
	t.setTokens(w, x, y)
	w.At(day)
	rt.Assert(beginBlock(w) == nil, "allocation succeeds")
	a.check()
	ok := func(d string) bool {
		return (len(global) == 0 || has(global, d)) && (len(local) == 0 || has(local, d))
	}
	vm, vt := math.ZeroInt(), math.ZeroInt()
	if ok(dM) {
		vm = x.MulRaw(2)
	}
	if ok(dT) {
		vt = y.MulRaw(3)
	}
	gm, gt := t.byDenom(w, dM, dR), t.byDenom(w, dT, dR)
	v := vm.Add(vt)
	if v.IsZero() {
		rt.Assert(rt.And(gm.IsZero(), gt.IsZero()), "nothing is allocated to denoms that are not allowed")
		rt.Reach("none allowed")
		return
	}
	rt.Assert(share(gm, per, vm, v), "an allowed denom gets its share")
	rt.Assert(share(gt, per, vt, v), "an allowed denom gets its share")
	rt.Reach("end")
}

// C10_prices: an operator or the users of the service with any tokens of two denoms up to
// 2^40, of which either, both or none are registered, have a market, and have been
// quoted; the rewards go by value to the denoms that have a price.
func C10_prices() {
	per := math.NewIntFromBigInt(rt.Big("per day", "1", "2^60"))
	a := allocWorld(day1(sdk.Coins{coin(dR, per)}), per)
	w := a.w
	price := map[string]int64{dM: 2, dT: 3}
	for _, d := range []string{dM, dT} {
		switch rt.Choice("price", 4) {
		case 1:
			env.Must(w.Assets.RemoveAsset(w.Ctx, d))
			price[d] = 0
		case 2:
			delete(w.Oracle.Price, "T"+d)
			price[d] = 0
		case 3:
			w.Oracle.Price["T"+d] = math.Int{}
			price[d] = 0
		}
	}
	t := []Target{{kOperator, 1}, {kService, 1}}[rt.Choice("target", 2)]
	x := math.NewIntFromBigInt(rt.Big("milk", "1", "2^40"))
	y := math.NewIntFromBigInt(rt.Big("tia", "1", "2^40"))
	t.setTokens(w, x, y)
	vm, vt := x.MulRaw(price[dM]), y.MulRaw(price[dT])
	w.At(day)
	rt.Assert(beginBlock(w) == nil, "allocation succeeds")
	a.check()
	gm, gt, v := t.byDenom(w, dM, dR), t.byDenom(w, dT, dR), vm.Add(vt)
	if v.IsZero() {
		rt.Assert(rt.And(gm.IsZero(), gt.IsZero()), "nothing is allocated to denoms without a price")
		rt.Reach("no price")
		return
	}
	rt.Assert(share(gm, per, vm, v), "a denom gets the share of its value")
	rt.Assert(share(gt, per, vt, v), "a denom gets the share of its value")
	rt.Reach("end")
}

// C10_targets: two operators, each eligible, inactivating, inactive, not joined, not
// listed (with or without a list) or without tokens, with any tokens up to 2^40, any
// commission rates, under a basic, egalitarian or weighted distribution with
// any weights; exactly the eligible ones are allocated, by value, equally or by
// weight, and the commission is the operator's rate of it.
func C10_targets() {
	per := math.NewIntFromBigInt(rt.Big("per day", "1", "2^60"))
	m := day1(sdk.Coins{coin(dR, per)})
	kind := rt.Choice("distribution", 3)
	weight := [3]uint32{0, rt.Uint32("weight 1", 1, 1<<32-1), rt.Uint32("weight 2", 1, 1<<32-1)}
	m.OperatorsDistribution = dist(kind, false, 1, []rewardstypes.DistributionWeight{{DelegationTargetID: 1, Weight: weight[1]}, {DelegationTargetID: 2, Weight: weight[2]}})
	a := allocWorld(m, per)
	w := a.w
	list := rt.Choice("list", 2) == 1
	if list {
		env.Must(w.Restaking.AddOperatorToServiceAllowList(w.Ctx, 1, 99))
	}
	var part [3]math.Int
	var rate [3]math.LegacyDec
	whole := math.ZeroInt()
	for id := uint32(1); id <= 2; id++ {
		t := Target{kOperator, id}
		x := math.NewIntFromBigInt(rt.Big("tokens", "1", "2^40"))
		why := rt.Choice("why not", 6)
		switch why {
		case 1:
			t.setStatus(w, int(operatorstypes.OPERATOR_STATUS_INACTIVATING))
		case 2:
			t.setStatus(w, int(operatorstypes.OPERATOR_STATUS_INACTIVE))
		case 3:
			env.Must(w.Restaking.RemoveServiceFromOperatorJoinedServices(w.Ctx, id, 1))
		case 5:
			x = math.ZeroInt()
		}
		if list && why != 4 {
			env.Must(w.Restaking.AddOperatorToServiceAllowList(w.Ctx, 1, id))
		}
		t.setTokens(w, x, math.ZeroInt())
		part[id] = math.ZeroInt()
		if why == 0 || why == 4 && !list {
			part[id] = []math.Int{x, math.OneInt(), math.NewInt(int64(weight[id]))}[kind]
		}
		whole = whole.Add(part[id])
		rate[id] = math.LegacyNewDecFromBigIntWithPrec(rt.Big("rate", "0", "10^18"), 18)
		env.Must(w.Operators.SaveOperatorParams(w.Ctx, id, operatorstypes.NewOperatorParams(rate[id])))
	}
	w.At(day)
	rt.Assert(beginBlock(w) == nil, "allocation succeeds")
	out := a.check()
	for id := uint32(1); id <= 2; id++ {
		c := commission(w, id, dR)
		if part[id].IsZero() {
			rt.Assert(out[id].IsZero(), "nothing is allocated to an operator that is not eligible")
			continue
		}
		rt.Assert(share(out[id], per, part[id], whole), "an eligible operator gets its share")
		rt.Assert(rt.And(!c.IsNegative(), c.LTE(out[id])), "the commission is a part of the rewards")
		d := out[id].Mul(rate[id]).Sub(c)
		rt.Assert(rt.And(d.LTE(tiny), d.GTE(tiny.Neg())), "the commission is the operator's rate")
		rt.Reach("eligible")
	}
	rt.Assert(out[0].Add(out[3]).IsZero(), "nothing goes to others")
	rt.Reach("end")
}

// C10_pools: two pools, each secured, not secured, not trusted or empty, with any
// tokens and trusted shares up to 2^40; only the eligible ones are allocated, by value.
func C10_pools() {
	per := math.NewIntFromBigInt(rt.Big("per day", "1", "2^60"))
	kind := rt.Choice("distribution", 3)
	weight := [3]uint32{0, rt.Uint32("weight 1", 1, 1<<32-1), rt.Uint32("weight 2", 1, 1<<32-1)}
	m := day1(sdk.Coins{coin(dR, per)})
	a := allocWorld(m, per)
	w := a.w
	p2, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	pl, err := w.Rewards.GetRewardsPlan(w.Ctx, 1)
	env.Must(err)
	pl.PoolsDistribution = dist(kind, true, 1, []rewardstypes.DistributionWeight{{DelegationTargetID: 1, Weight: weight[1]}, {DelegationTargetID: p2.ID, Weight: weight[2]}})
	env.Must(w.Rewards.RewardsPlans.Set(w.Ctx, 1, pl))
	env.Must(w.Restaking.RemovePoolFromServiceSecuringPools(w.Ctx, 1, 1))
	var part [3]math.Int
	whole := math.ZeroInt()
	any := rt.Choice("any pool", 2) == 1
	if !any {
		env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, 1, 99))
	}
	a.targets = append(a.targets, Target{kPool, p2.ID})
	for i, id := range []uint32{1, p2.ID} {
		t := Target{kPool, id}
		x := math.NewIntFromBigInt(rt.Big("tokens", "1", "2^40"))
		why := rt.Choice("why not", 4)
		if why == 2 {
			x = math.ZeroInt()
		}
		d := []string{dM, dT}[i]
		p := t.Get(w).(poolstypes.Pool)
		p.Tokens, p.DelegatorShares = x, dec(x)
		env.Must(w.Pools.SavePool(w.Ctx, p))
		if why != 1 && !any {
			env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, 1, id))
		}
		if why != 3 {
			s := math.NewIntFromBigInt(rt.Big("trusted", "1", "2^40"))
			env.Must(w.Rewards.SetPoolServiceTotalDelegatorShares(w.Ctx, id, 1, sdk.NewDecCoins(sdk.NewDecCoinFromDec(t.ShareDenom(d), dec(s)))))
		}
		part[i] = math.ZeroInt()
		if why == 0 || why == 1 && any {
			part[i] = []math.Int{x.MulRaw(int64(2 + i)), math.OneInt(), math.NewInt(int64(weight[i+1]))}[kind]
		}
		whole = whole.Add(part[i])
	}
	w.At(day)
	rt.Assert(beginBlock(w) == nil, "allocation succeeds")
	out := a.check()
	for i, o := range []math.LegacyDec{out[0], out[4]} {
		if part[i].IsZero() {
			rt.Assert(o.IsZero(), "nothing is allocated to a pool that is not eligible")
			continue
		}
		rt.Assert(share(o, per, part[i], whole), "an eligible pool gets its share")
		rt.Reach("eligible")
	}
	rt.Reach("end")
}

// C10_split: pools, an operator and users with tokens or without, and any
// weights; rewards are split over those with tokens by weight, or by value when no
// weights apply.
func C10_split() {
	per := math.NewIntFromBigInt(rt.Big("per day", "1", "2^60"))
	m := day1(sdk.Coins{coin(dR, per)})
	var weight [3]uint32
	if rt.Choice("weights", 2) == 1 {
		weight = [3]uint32{rt.Uint32("pools weight", 0, 1<<32-1), rt.Uint32("operators weight", 0, 1<<32-1), rt.Uint32("users weight", 0, 1<<32-1)}
	}
	m.PoolsDistribution = rewardstypes.NewBasicPoolsDistribution(weight[0])
	m.OperatorsDistribution = rewardstypes.NewBasicOperatorsDistribution(weight[1])
	m.UsersDistribution = rewardstypes.NewBasicUsersDistribution(weight[2])
	a := allocWorld(m, per)
	w := a.w
	z := math.ZeroInt()
	ts := []Target{{kPool, 1}, {kOperator, 1}, {kService, 1}}
	var val, wt [3]math.Int
	sumV, sumW := z, z
	for i, t := range ts {
		val[i], wt[i] = z, z
		if rt.Choice("tokens", 2) == 1 {
			val[i], wt[i] = math.NewIntFromBigInt(rt.Big("tokens", "1", "2^40")), math.NewInt(int64(weight[i]))
		}
		t.setTokens(w, val[i], z)
		sumV, sumW = sumV.Add(val[i]), sumW.Add(wt[i])
	}
	trust(w, 1, 1, math.OneInt())
	w.At(day)
	rt.Assert(beginBlock(w) == nil, "allocation succeeds")
	out := a.check()
	if sumV.IsZero() {
		rt.Reach("nobody")
		return
	}
	for i, o := range []math.LegacyDec{out[0], out[1], out[3]} {
		if sumW.IsPositive() {
			rt.Assert(share(o, per, wt[i], sumW), "rewards are split by weight")
		} else {
			rt.Assert(share(o, per, val[i], sumV), "rewards are split by value")
		}
	}
	rt.Reach("end")
}
