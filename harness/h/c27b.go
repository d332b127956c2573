package h

import (
	"slices"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// among says that a listing has exactly the IDs that are wanted, once each.
func among(got []uint32, want []uint32, label string) {
	rt.Assert(len(got) == len(want), label)
	for _, id := range want {
		rt.Assert(slices.Contains(got, id), label)
	}
}

// C27_relations: two operators and two services; any of the four joins, each service's
// list of operators any of four and list of pools any of four. The listings of joined services, allowed
// operators, securing pools and operators of each service are exactly these; an operator
// of a service is one who joined it and whom the service's list, if it has any, names.
func C27_relations() {
	w := base(env.Opts{NoHooks: true})
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	ms := restakingkeeper.NewMsgServer(w.Restaking)
	q := restakingkeeper.NewQuerier(w.Restaking)
	limit := pageSize()
	var joined, allowed, securing [3][3]bool // by service and operator or pool
	for s := uint32(1); s <= 2; s++ {
		for o := uint32(1); o <= 2; o++ {
			if joined[s][o] = rt.Bool("joined"); joined[s][o] {
				env.Must(do(w, ms.JoinService, restakingtypes.NewMsgJoinService(o, s, opAdm.String())))
			}
			if allowed[s][o] = rt.Bool("allowed"); allowed[s][o] {
				env.Must(do(w, ms.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(s, o, svcAdm.String())))
			}
		}
	}
	s, p := uint32(1+rt.Choice("borrower", 2)), uint32(1+rt.Choice("pool", 2))
	securing[s][p] = true
	env.Must(do(w, ms.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(s, p, svcAdm.String())))
	for s := uint32(1); s <= 3; s++ {
		var al, se, op []uint32
		for o := uint32(1); o <= 2 && s <= 2; o++ {
			if allowed[s][o] {
				al = append(al, o)
			}
			if securing[s][o] {
				se = append(se, o)
			}
			if joined[s][o] && (allowed[s][o] || !allowed[s][3-o]) {
				op = append(op, o)
			}
		}
		among(pages(limit, func(p *pageRequest) ([]uint32, *pageResponse, error) {
			r, err := q.ServiceAllowedOperators(w.Ctx, &restakingtypes.QueryServiceAllowedOperatorsRequest{ServiceId: s, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.OperatorIds, r.Pagination, nil
		}), al, "the operators a service allows are listed, and no others")
		among(pages(limit, func(p *pageRequest) ([]uint32, *pageResponse, error) {
			r, err := q.ServiceSecuringPools(w.Ctx, &restakingtypes.QueryServiceSecuringPoolsRequest{ServiceId: s, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.PoolIds, r.Pagination, nil
		}), se, "the pools that secure a service are listed, and no others")
		if s == 3 {
			_, err := q.ServiceOperators(w.Ctx, &restakingtypes.QueryServiceOperatorsRequest{ServiceId: s})
			rt.Assert(err != nil, "a service that does not exist has no operators")
			continue
		}
		var ids []uint32
		for _, o := range pages(limit, func(p *pageRequest) ([]operatorstypes.Operator, *pageResponse, error) {
			r, err := q.ServiceOperators(w.Ctx, &restakingtypes.QueryServiceOperatorsRequest{ServiceId: s, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Operators, r.Pagination, nil
		}) {
			ids = append(ids, o.ID)
		}
		among(ids, op, "the operators that validate a service are listed, and no others")
	}
	for o := uint32(1); o <= 2; o++ {
		var jo []uint32
		for s := uint32(1); s <= 2; s++ {
			if joined[s][o] {
				jo = append(jo, s)
			}
		}
		among(pages(limit, func(p *pageRequest) ([]uint32, *pageResponse, error) {
			r, err := q.OperatorJoinedServices(w.Ctx, &restakingtypes.QueryOperatorJoinedServicesRequest{OperatorId: o, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.ServiceIds, r.Pagination, nil
		}), jo, "the services an operator joined are listed, and no others")
	}
	rt.Reach("end")
}

// C27_registry: up to three operators, services, pools, plans and assets, any of which but
// pools may have been deleted. Each is found by its ID (or denom) exactly while it exists, and the
// listings hold exactly those, in pages of one or more.
func C27_registry() {
	w := base(env.Opts{})
	n := uint32(1 + rt.Choice("extra", 3))
	gone := uint32(rt.Choice("deleted", int(n)+1))
	denoms := []string{"", dM, dT, dR}
	for id := uint32(2); id <= n; id++ {
		addOperator(w, id)
		addService(w, id, servicestypes.SERVICE_STATUS_ACTIVE, true)
		_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, denoms[id])
		env.Must(err)
	}
	ticker := []string{"MILK", "TIA"}[rt.Choice("ticker", 2)]
	for id := uint32(1); id <= n; id++ {
		tk := "MILK"
		if id == 2 {
			tk = ticker
		}
		env.Must(do(w, assetskeeper.NewMsgServer(w.Assets).RegisterAsset, assetstypes.NewMsgRegisterAsset(w.Authority, assetstypes.NewAsset(denoms[id], tk, 6))))
		m := plan(id, sdk.Coins{coin(dR, math.NewInt(int64(id)))}, svcAdm.String())
		m.EndTime = m.StartTime.Add(1000 * day)
		_, err := createPlan(w, m)
		env.Must(err)
		env.Must(do(w, operatorskeeper.NewMsgServer(w.Operators).SetOperatorParams,
			operatorstypes.NewMsgSetOperatorParams(id, operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(int64(id), 1)), opAdm.String())))
	}
	if gone > 0 {
		env.Must(do(w, assetskeeper.NewMsgServer(w.Assets).DeregisterAsset, assetstypes.NewMsgDeregisterAsset(w.Authority, denoms[gone])))
		for k := kOperator; k <= kService; k++ {
			if k == kService {
				env.Must(w.Rewards.RewardsPlans.Remove(w.Ctx, uint64(gone)))
			}
			env.Must(Target{k, gone}.Deactivate(w))
			if k == kOperator {
				w.At(30 * day)
				rt.Assert(beginBlock(w) == nil, "the block succeeds")
			}
			env.Must(Target{k, gone}.Delete(w))
		}
	}
	var ids, all []uint32
	for id := uint32(1); id <= n; id++ {
		all = append(all, id)
		if id != gone {
			ids = append(ids, id)
		}
	}
	for id := uint32(0); id <= n+1; id++ {
		here := slices.Contains(ids, id)
		o, err := w.Operators.Operator(w.Ctx, &operatorstypes.QueryOperatorRequest{OperatorId: id})
		rt.Assert((err == nil) == here && (!here || o.Operator.ID == id), "an operator is found exactly while it exists")
		op, err := w.Operators.OperatorParams(w.Ctx, &operatorstypes.QueryOperatorParamsRequest{OperatorId: id})
		rt.Assert((err == nil) == here && (!here || op.OperatorParams.CommissionRate.Equal(math.LegacyNewDecWithPrec(int64(id), 1))), "the parameters found are the operator's")
		s, err := w.Services.Service(w.Ctx, &servicestypes.QueryServiceRequest{ServiceId: id})
		rt.Assert((err == nil) == here && (!here || s.Service.ID == id), "a service is found exactly while it exists")
		_, err = w.Services.ServiceParams(w.Ctx, &servicestypes.QueryServiceParamsRequest{ServiceId: id})
		rt.Assert((err == nil) == here, "the parameters of a service are found exactly while it exists")
		p, err := w.Pools.PoolByID(w.Ctx, &poolstypes.QueryPoolByIdRequest{PoolId: id})
		rt.Assert((err == nil) == slices.Contains(all, id), "a pool is found exactly if it exists")
		rt.Assert(err != nil || p.Pool.ID == id && p.Pool.Denom == denoms[id], "the pool found is the one asked for")
		rp, err := rewardskeeper.NewQueryServer(w.Rewards).RewardsPlan(w.Ctx, &rewardstypes.QueryRewardsPlanRequest{PlanId: uint64(id)})
		rt.Assert((err == nil) == here && (!here || rp.RewardsPlan.ID == uint64(id) && rp.RewardsPlan.ServiceID == id), "a plan is found exactly while it exists")
	}
	for i, d := range []string{dM, dT, dR} {
		id := uint32(i + 1)
		p, err := w.Pools.PoolByDenom(w.Ctx, &poolstypes.QueryPoolByDenomRequest{Denom: d})
		rt.Assert((err == nil) == (id <= n) && (err != nil || p.Pool.ID == id), "a pool is found by its denom")
		a, err := assetskeeper.NewQueryServer(w.Assets).Asset(w.Ctx, &assetstypes.QueryAssetRequest{Denom: d})
		rt.Assert((err == nil) == slices.Contains(ids, id) && (err != nil || a.Asset.Denom == d), "an asset is found by its denom while registered")
	}
	limit := pageSize()
	list := func(what string, f func(p *pageRequest) ([]uint32, *pageResponse, error)) {
		want := ids
		if what == "pools" {
			want = all
		}
		among(pages(limit, f), want, "the "+what+" listed are those that exist")
	}
	list("operators", func(p *pageRequest) (r []uint32, _ *pageResponse, _ error) {
		x, err := w.Operators.Operators(w.Ctx, &operatorstypes.QueryOperatorsRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, v := range x.Operators {
			r = append(r, v.ID)
		}
		return r, x.Pagination, nil
	})
	list("services", func(p *pageRequest) (r []uint32, _ *pageResponse, _ error) {
		x, err := w.Services.Services(w.Ctx, &servicestypes.QueryServicesRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, v := range x.Services {
			r = append(r, v.ID)
		}
		return r, x.Pagination, nil
	})
	list("pools", func(p *pageRequest) (r []uint32, _ *pageResponse, _ error) {
		x, err := w.Pools.Pools(w.Ctx, &poolstypes.QueryPoolsRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, v := range x.Pools {
			r = append(r, v.ID)
		}
		return r, x.Pagination, nil
	})
	list("plans", func(p *pageRequest) (r []uint32, _ *pageResponse, _ error) {
		x, err := rewardskeeper.NewQueryServer(w.Rewards).RewardsPlans(w.Ctx, &rewardstypes.QueryRewardsPlansRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, v := range x.RewardsPlans {
			r = append(r, uint32(v.ID))
		}
		return r, x.Pagination, nil
	})
	for _, tk := range []string{"", "MILK", "TIA"} {
		var want []uint32
		for _, id := range ids {
			t := "MILK"
			if id == 2 {
				t = ticker
			}
			if tk == "" || t == tk {
				want = append(want, id)
			}
		}
		among(pages(limit, func(p *pageRequest) (r []uint32, _ *pageResponse, _ error) {
			x, err := assetskeeper.NewQueryServer(w.Assets).Assets(w.Ctx, &assetstypes.QueryAssetsRequest{Ticker: tk, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, v := range x.Assets {
				r = append(r, uint32(slices.Index(denoms, v.Denom)))
			}
			return r, x.Pagination, nil
		}), want, "the assets listed are those registered, of the ticker asked for")
	}
	rt.Reach("end")
}

// rewardsOf asks what a user's delegation has earned.
func (t Target) rewardsOf(w *env.World, u sdk.AccAddress) (rewardstypes.DecPools, error) {
	q := rewardskeeper.NewQueryServer(w.Rewards)
	switch t.Kind {
	case kPool:
		r, err := q.PoolDelegationRewards(w.Ctx, &rewardstypes.QueryPoolDelegationRewardsRequest{PoolId: t.ID, DelegatorAddress: u.String()})
		if err != nil {
			return nil, err
		}
		return r.Rewards, nil
	case kOperator:
		r, err := q.OperatorDelegationRewards(w.Ctx, &rewardstypes.QueryOperatorDelegationRewardsRequest{OperatorId: t.ID, DelegatorAddress: u.String()})
		if err != nil {
			return nil, err
		}
		return r.Rewards, nil
	default:
		r, err := q.ServiceDelegationRewards(w.Ctx, &rewardstypes.QueryServiceDelegationRewardsRequest{ServiceId: t.ID, DelegatorAddress: u.String()})
		if err != nil {
			return nil, err
		}
		return r.Rewards, nil
	}
}

// outstandingOf asks what a target has not paid out.
func (t Target) outstandingOf(w *env.World) (r rewardstypes.OutstandingRewards, err error) {
	q := rewardskeeper.NewQueryServer(w.Rewards)
	switch t.Kind {
	case kPool:
		x, e := q.PoolOutstandingRewards(w.Ctx, &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: t.ID})
		if e != nil {
			return r, e
		}
		return x.Rewards, nil
	case kOperator:
		x, e := q.OperatorOutstandingRewards(w.Ctx, &rewardstypes.QueryOperatorOutstandingRewardsRequest{OperatorId: t.ID})
		if e != nil {
			return r, e
		}
		return x.Rewards, nil
	default:
		x, e := q.ServiceOutstandingRewards(w.Ctx, &rewardstypes.QueryServiceOutstandingRewardsRequest{ServiceId: t.ID})
		if e != nil {
			return r, e
		}
		return x.Rewards, nil
	}
}

// C27_rewards: two users hold a target that earned any rewards up to 2^90, at some commission. What is
// answered as the rewards of each, as their total, as the operator's commission
// and as outstanding is what withdrawing then pays, to the coin, and asking changes nothing.
func C27_rewards() {
	e := newEarning(rt.Choice("kind", 3))
	w, t := e.w, e.t
	env.Must(do(w, operatorskeeper.NewMsgServer(w.Operators).SetOperatorParams,
		operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(int64(rt.Choice("commission", 2)), 1)), opAdm.String())))
	e.join(alice, math.NewInt(1))
	e.join(bob, math.NewInt(3))
	e.pay(pos("rewards"))
	if rt.Bool("another target") {
		o := Target{(t.Kind + 1) % 3, 1}
		hold(w, alice, dM, math.NewInt(5))
		env.Must(o.Delegate(w, alice, sdk.Coins{coin(dM, math.NewInt(5))}))
	}
	if rt.Bool("redirected") {
		env.Must(do(w, rewardskeeper.NewMsgServer(w.Rewards).SetWithdrawAddress, rewardstypes.NewMsgSetWithdrawAddress(carol.String(), bob.String())))
	}
	w.At(w.Ctx.BlockTime().Sub(env.T0) + time.Second)
	q := rewardskeeper.NewQueryServer(w.Rewards)
	before := w.Dump("rewards")
	for i, u := range []sdk.AccAddress{alice, bob} {
		got, err := t.rewardsOf(w, u)
		rt.Assert(err == nil, "the rewards of a delegation are answered")
		tot, err := q.DelegatorTotalRewards(w.Ctx, &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: u.String()})
		rt.Assert(err == nil, "the rewards of a user are answered")
		rt.Assert(tot.Total.Sum().AmountOf(dR).Equal(got.Sum().AmountOf(dR)), "the total is the sum")
		n := 0
		for _, r := range tot.Rewards {
			if r.DelegationType == t.Type() && r.DelegationTargetID == t.ID {
				n++
				rt.Assert(r.Reward.Sum().AmountOf(dR).Equal(got.Sum().AmountOf(dR)), "the rewards of each delegation agree")
			} else {
				n += 10
				rt.Assert(r.Reward.Sum().AmountOf(dR).IsZero(), "a new delegation has earned nothing")
			}
		}
		rt.Assert(n == 1 || n == 11 && i == 0, "every delegation is listed once")
		wa, err := q.DelegatorWithdrawAddress(w.Ctx, &rewardstypes.QueryDelegatorWithdrawAddressRequest{DelegatorAddress: u.String()})
		rt.Assert(err == nil, "the withdraw address is answered")
		to := sdk.MustAccAddressFromBech32(wa.WithdrawAddress)
		out, err := t.outstandingOf(w)
		rt.Assert(err == nil, "what is outstanding is answered")
		if i == 0 {
			after := w.Dump("rewards")
			rt.Assert(len(after) == len(before), "asking changes nothing")
			for j := range after {
				rt.Assert(after[j].Key == before[j].Key && rt.SameBytes(after[j].Val, before[j].Val), "asking changes nothing")
			}
		}
		was := w.Bank.Bal(w.Ctx, to, dR)
		t.claim(w, u)
		paid := w.Bank.Bal(w.Ctx, to, dR).Sub(was)
		rt.Assert(eq(paid, got.Sum().AmountOf(dR).TruncateInt()), "a withdrawal pays what was answered")
		now, err := t.outstandingOf(w)
		rt.Assert(err == nil && out.Rewards.Sum().AmountOf(dR).Sub(now.Rewards.Sum().AmountOf(dR)).Equal(got.Sum().AmountOf(dR)), "what was paid is no longer outstanding")
	}
	c, err := q.OperatorCommission(w.Ctx, &rewardstypes.QueryOperatorCommissionRequest{OperatorId: 1})
	rt.Assert(err == nil, "the commission is answered")
	if due := c.Commission.Commissions.Sum().AmountOf(dR).TruncateInt(); due.IsPositive() {
		was := w.Bank.Bal(w.Ctx, opAdm, dR)
		env.Must(withdrawCommission(w, 1))
		rt.Assert(eq(w.Bank.Bal(w.Ctx, opAdm, dR).Sub(was), due), "the commission withdrawn is what was answered")
		rt.Reach("commission")
	}
	rt.Reach("end")
}

// C27_funds: a user with any insurance funds and restaked amounts, and another. What is
// answered as the fund and what of it is used is what limits withdrawals and restaking,
// and the amount answered as restakable can be restaked, and more than one more cannot.
func C27_funds() {
	pct := percentage("percentage")
	rt.Assume(pct.GTE(oneDec)) // less makes the rounded unit more than one
	w := lvWorld(pct, env.Opts{NoHooks: true})
	t := lvTarget(rt.Choice("kind", 3))
	f := pos("fund")
	insure(w, alice, dM, f)
	insure(w, bob, dT, pos("bob's fund"))
	q := liquidvestingkeeper.NewQuerier(w.LV)
	limit := pageSize()
	r, err := q.UserRestakableAssets(w.Ctx, &liquidvestingtypes.QueryUserRestakableAssetsRequest{UserAddress: alice.String()})
	rt.Assert(err == nil, "what can be restaked is answered")
	can := r.Amount.AmountOf(lM)
	rt.Assert(covers(pct, can, f) && !covers(pct, can.AddRaw(2), f), "as much can be restaked as the fund covers")
	x := pos("restaked")
	hold(w, alice, lM, x)
	err = t.Delegate(w, alice, sdk.Coins{coin(lM, x)})
	rt.Assert(rt.Or(err == nil, can.LT(x)), "what is answered can be restaked")
	rt.Assert(rt.Or(err != nil, x.LTE(can.AddRaw(1))), "no more than is answered can be restaked, but for a rounded unit")
	if err != nil {
		rt.Reach("over the limit")
		x = math.ZeroInt()
	}
	check := func(u sdk.AccAddress, d, l string, balance, used sdk.Coins) {
		rt.Assert(eq(balance.AmountOf(d), fund(w, u, d)) && len(balance) == 1, "the fund answered is the user's")
		act := active(w, u, l)
		us := used.AmountOf(d)
		rt.Assert(covers(pct, act, us) && (us.IsZero() || !covers(pct, act, us.SubRaw(1))), "what is answered as used is the least that covers")
	}
	for _, u := range []sdk.AccAddress{alice, bob} {
		d, l := dM, lM
		if u.Equals(bob) {
			d, l = dT, lT
		}
		one, err := q.UserInsuranceFund(w.Ctx, &liquidvestingtypes.QueryUserInsuranceFundRequest{UserAddress: u.String()})
		rt.Assert(err == nil, "the fund is answered")
		check(u, d, l, one.Balance, one.Used)
	}
	seen := map[string]int{}
	for _, a := range pages(limit, func(p *pageRequest) ([]liquidvestingtypes.UserInsuranceFundData, *pageResponse, error) {
		r, err := q.UserInsuranceFunds(w.Ctx, &liquidvestingtypes.QueryUserInsuranceFundsRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		return r.InsuranceFunds, r.Pagination, nil
	}) {
		u := sdk.MustAccAddressFromBech32(a.UserAddress)
		seen[a.UserAddress]++
		d, l := dM, lM
		if u.Equals(bob) {
			d, l = dT, lT
		}
		check(u, d, l, a.Balance, a.Used)
	}
	rt.Assert(len(seen) == 2 && seen[alice.String()] == 1 && seen[bob.String()] == 1, "every fund is listed once")
	all, err := q.InsuranceFund(w.Ctx, &liquidvestingtypes.QueryInsuranceFundRequest{})
	rt.Assert(err == nil && eq(all.Amount.AmountOf(dM), f) && eq(all.Amount.AmountOf(dT), fund(w, bob, dT)), "the whole fund is the sum")
	rt.Reach("end")
}
