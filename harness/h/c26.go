package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// agree says that two nodes have the same state and balances.
func agree(a, b *env.World) {
	same(a, b)
	x, y := a.Dump("bank"), b.Dump("bank")
	rt.Assert(len(x) == len(y), "the nodes have the same balances")
	for i := range x {
		rt.Assert(i < len(y) && x[i].Key == y[i].Key && rt.SameBytes(x[i].Val, y[i].Val), "the nodes have the same balances")
	}
}

// both runs something on one node and on another, which iterates maps in
// another order, and says that they agree.
func both(a, b *env.World, f func(w *env.World) error) {
	x := f(a)
	rt.ReverseMaps(true)
	y := f(b)
	rt.ReverseMaps(false)
	rt.Assert((x == nil) == (y == nil), "the nodes both accept or both refuse")
	agree(a, b)
}

// wide has three pools, operators and services with delegations of two users in two denoms and
// plans of two services paying in two denoms.
func wide(amount math.Int) *env.World {
	w := base(env.Opts{})
	for i := uint32(2); i <= 3; i++ {
		addOperator(w, i)
		addService(w, i, servicestypes.SERVICE_STATUS_ACTIVE, i == 3)
	}
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	for i := uint32(1); i <= 3; i++ {
		for j := uint32(1); j <= 2; j++ {
			env.Must(do(w, rs.JoinService, restakingtypes.NewMsgJoinService(i, j, opAdm.String())))
		}
	}
	for _, d := range []string{dM, dT, dR, "uzed"} {
		env.Must(w.Assets.SetAsset(w.Ctx, assetstypes.NewAsset(d, "MILK", 6)))
	}
	w.Oracle.Price["MILK"] = math.NewInt(2)
	for _, u := range []sdk.AccAddress{alice, bob} {
		env.Must(setPrefs(w, u, restakingtypes.NewUserPreferences(true, true, nil)))
		for i := uint32(1); i <= 3; i++ {
			c := sdk.Coins{coin(dM, math.NewInt(int64(1000000*i))), coin(dT, math.NewInt(3000000))}
			for k := kOperator; k <= kService; k++ {
				hold(w, u, dM, c[0].Amount)
				hold(w, u, dT, c[1].Amount)
				env.Must(Target{k, i}.Delegate(w, u, c))
			}
		}
		for _, d := range []string{dM, dT, "uzed"} {
			hold(w, u, d, amount)
			env.Must(Target{kPool, 1}.Delegate(w, u, sdk.Coins{coin(d, math.NewInt(1000000))}))
		}
	}
	for s := uint32(1); s <= 2; s++ {
		m := plan(s, sdk.Coins{coin(dR, math.NewInt(86400000)), coin("uzed", math.NewInt(86400))}, svcAdm.String())
		m.StartTime, m.EndTime = w.Ctx.BlockTime(), w.Ctx.BlockTime().Add(3*day)
		if s == 2 {
			ws := []rewardstypes.DistributionWeight{{DelegationTargetID: 3, Weight: 2}, {DelegationTargetID: 1, Weight: 1}, {DelegationTargetID: 2, Weight: 5}}
			m.PoolsDistribution = rewardstypes.NewWeightedPoolsDistribution(1, ws)
			m.OperatorsDistribution = rewardstypes.NewWeightedOperatorsDistribution(1, ws)
		}
		id, err := createPlan(w, m)
		env.Must(err)
		for _, d := range []string{dR, "uzed"} {
			hold(w, rewardstypes.GetRewardsPoolAddress(id), d, math.NewInt(1000000000))
		}
	}
	return w
}

// C26_blocks: two nodes, of which one iterates every map in the opposite order, has
// another clock and other random numbers, run two blocks that allocate
// the rewards of two plans in two denoms to three pools, operators and services
// each, in all the ways there are, and then a delegation of any amount, a withdrawal and an undelegation.
// They have the same state after every step.
func C26_blocks() {
	a := pos("amount")
	rt.Assume(a.GTE(math.NewInt(2000000)))
	w := wide(a)
	n := twin(w)
	ws := func(w *env.World) rewardstypes.MsgServer { return rewardskeeper.NewMsgServer(w.Rewards) }
	for i := range 2 {
		w.At(time.Duration(i) * time.Hour)
		n.At(time.Duration(i) * time.Hour)
		both(w, n, beginBlock)
	}
	t := Target{rt.Choice("target", 3), 1}
	more := a.SubRaw(1000000)
	both(w, n, func(w *env.World) error { return t.Delegate(w, alice, sdk.Coins{coin(dM, more)}) })
	both(w, n, func(w *env.World) error {
		return do(w, ws(w).WithdrawDelegatorReward, rewardstypes.NewMsgWithdrawDelegatorReward(t.Type(), 1, bob.String()))
	})
	both(w, n, func(w *env.World) error { return t.Undelegate(w, bob, sdk.Coins{coin(dM, math.NewInt(500000))}) })
	w.At(2 * time.Hour)
	n.At(2 * time.Hour)
	both(w, n, beginBlock)
	both(w, n, endBlock)
	rt.Reach("end")
}

// C26_changes: the two nodes run each of the changes of C21 (three operators joined
// to three services with lists, undelegations and a burn to be completed) and a block before or after these are completed, and then export their
// state: the exports are the same.
func C26_changes() {
	w := rich()
	rs, os, ss := restakingkeeper.NewMsgServer(w.Restaking), operatorskeeper.NewMsgServer(w.Operators), serviceskeeper.NewMsgServer(w.Services)
	for i := uint32(2); i <= 3; i++ {
		env.Must(do(w, os.RegisterOperator, operatorstypes.NewMsgRegisterOperator("op", "", "", nil, opAdm.String())))
		if i > 2 {
			env.Must(do(w, ss.CreateService, servicestypes.NewMsgCreateService("svc", "", "", "", nil, svcAdm.String())))
			env.Must(do(w, ss.ActivateService, servicestypes.NewMsgActivateService(i, svcAdm.String())))
		}
		for s := uint32(1); s <= i; s++ {
			env.Must(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(s, i, svcAdm.String())))
			env.Must(do(w, rs.JoinService, restakingtypes.NewMsgJoinService(i, s, opAdm.String())))
		}
		env.Must(do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(i, 1, svcAdm.String())))
		env.Must(do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(i, 2, svcAdm.String())))
	}
	env.Must(Target{kOperator, 1}.Undelegate(w, alice, sdk.Coins{coin(lM, math.NewInt(1000))}))
	env.Must(Target{kPool, 1}.Undelegate(w, bob, sdk.Coins{coin(dM, math.NewInt(1000))}))
	env.Must(burn(w, burner, alice, sdk.Coins{coin(lM, math.NewInt(500))}))
	n := twin(w)
	what := rt.Choice("what", len(changes))
	both(w, n, func(x *env.World) error {
		if x == n {
			n.Heard = w.Said
		}
		changes[what](x)
		return nil
	})
	later := []time.Duration{2 * time.Hour, 2 * unbond}[rt.Choice("later", 2)]
	w.At(later)
	n.At(later)
	both(w, n, func(w *env.World) error {
		if err := beginBlock(w); err != nil {
			return err
		}
		return endBlock(w)
	})
	x := reborn(w)
	rt.ReverseMaps(true)
	y := reborn(n)
	rt.ReverseMaps(false)
	rt.Assert((x == nil) == (y == nil), "the nodes agree on whether they export a state")
	if x == nil {
		return
	}
	for i := range x.Exports {
		rt.Assert(rt.SameBytes(x.Exports[i], y.Exports[i]), "the nodes export the same state")
	}
	agree(x, y)
	rt.Reach("end")
}
