package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// modules in the order their genesis is initialised
var modules = []string{"services", "operators", "pools", "restaking", "assets", "rewards", "liquidvesting"}

// reborn exports the state of every module, checks that each export is valid, and
// starts another chain from it whose bank and accounts are the same.
func reborn(w *env.World) *env.World {
	n := env.NewWorld(env.Opts{})
	n.Ctx = n.Ctx.WithBlockHeader(w.Ctx.BlockHeader())
	*n.Oracle = *w.Oracle
	n.CopyStore(w, "bank")
	n.CopyStore(w, "meta")
	n.CopyStore(w, "acc")
	ok := true
	for _, m := range env.GenesisOrder {
		if !ok {
			break
		}
		var valid error
		err, p := n.Try(func(to sdk.Context) error {
			from, _ := w.Ctx.CacheContext()
			raw := w.Export(from, m)
			n.Exports = append(n.Exports, raw)
			valid = w.Validate(m, raw)
			n.Import(to, m, raw)
			return nil
		})
		if valid != nil {
			rt.Print(m, valid)
		}
		rt.Assert(valid == nil, "what is exported is valid")
		if p || err != nil {
			rt.Print(m, p, err)
		}
		ok = err == nil && !p
		rt.Assert(ok, "a chain can be started from what is exported")
	}
	if !ok {
		return nil
	}
	return n
}

// same says that two chains are in the same state: every store of every module has
// the same entries, apart from the index of unbonding IDs, which nothing reads.
func same(w, n *env.World) {
	for _, m := range modules {
		a, b := entries(w, m), entries(n, m)
		i, j := 0, 0
		for i < len(a) || j < len(b) {
			switch {
			case j == len(b) || i < len(a) && a[i].Key < b[j].Key:
				rt.Print(m, "lost", []byte(a[i].Key))
				rt.Assert(false, "the new chain's state has everything")
				i++
			case i == len(a) || b[j].Key < a[i].Key:
				rt.Print(m, "added", []byte(b[j].Key))
				rt.Assert(false, "the new chain's state has nothing else")
				j++
			default:
				ok := rt.SameBytes(a[i].Val, b[j].Val)
				if !ok && m == "restaking" && a[i].Key[0] == restakingtypes.UnbondingQueueKey[0] {
					ok = sameSlice(w, a[i].Val, b[j].Val)
				}
				if !ok {
					rt.Print(m, "changed", []byte(a[i].Key), a[i].Val, b[j].Val)
				}
				rt.Assert(ok, "the new chain's state has the same values")
				i, j = i+1, j+1
			}
		}
	}
}

// sameSlice says whether what ends at one time is the same: neither the
// order nor how often a delegation is listed makes a difference when it ends.
func sameSlice(w *env.World, x, y []byte) bool {
	var a, b restakingtypes.DTDataList
	w.Cdc.MustUnmarshal(x, &a)
	w.Cdc.MustUnmarshal(y, &b)
	count := map[string]int{}
	for _, d := range a.Data {
		count[d.String()] |= 1
	}
	for _, d := range b.Data {
		count[d.String()] |= 2
	}
	for _, n := range count {
		if n != 3 {
			return false
		}
	}
	return true
}

func entries(w *env.World, m string) []env.Entry {
	var r []env.Entry
	for _, e := range w.Dump(m) {
		if m == "restaking" && e.Key[0] >= restakingtypes.UnbondingIDKey[0] && e.Key[0] <= restakingtypes.UnbondingTypeKey[0] {
			continue
		}
		r = append(r, e)
	}
	return r
}

// planOf pays a service's delegators every way a plan can.
func planOf(w *env.World, days int) error {
	m := plan(1, sdk.Coins{coin(dR, math.NewInt(86400000))}, svcAdm.String())
	m.StartTime, m.EndTime = w.Ctx.BlockTime(), w.Ctx.BlockTime().Add(time.Duration(days)*day)
	m.PoolsDistribution, m.OperatorsDistribution = dist(0, true, 1, nil), dist(0, false, 2, nil)
	id, err := createPlan(w, m)
	if err == nil {
		hold(w, rewardstypes.GetRewardsPoolAddress(id), dR, math.NewInt(86400000*10))
	}
	return err
}

const stake = 1000000000000000

// rich is a chain on which most things have happened: two services, pools of native
// and locked coins, delegations of both to every kind of target, rewards allocated
// and not claimed, joins, lists, preferences, withdraw addresses and insurance funds.
func rich() *env.World {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{})
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.DefaultParams()))
	for _, d := range []string{dM, lM} {
		env.Must(w.Assets.SetAsset(w.Ctx, assetstypes.NewAsset(d, "MILK", 6)))
	}
	w.Oracle.Price["MILK"] = math.NewInt(2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, false)
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	env.Must(do(w, rs.JoinService, restakingtypes.NewMsgJoinService(1, 1, opAdm.String())))
	env.Must(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(1, 1, svcAdm.String())))
	env.Must(do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(1, 1, svcAdm.String())))
	env.Must(setPrefs(w, bob, restakingtypes.NewUserPreferences(true, true, []uint32{2})))
	env.Must(do(w, operatorskeeper.NewMsgServer(w.Operators).SetOperatorParams,
		operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyMustNewDecFromStr("0.1")), opAdm.String())))
	env.Must(do(w, rewardskeeper.NewMsgServer(w.Rewards).SetWithdrawAddress, rewardstypes.NewMsgSetWithdrawAddress(carol.String(), alice.String())))
	insure(w, alice, dM, math.NewInt(stake))
	insure(w, bob, dT, pos("bob's insurance"))
	for k := range 3 {
		for _, u := range []sdk.AccAddress{alice, bob} {
			t, d := Target{k, 1}, dM
			if u.Equals(alice) {
				t, d = lvTarget(k), lM
			}
			hold(w, u, d, math.NewInt(2*stake))
			env.Must(t.Delegate(w, u, sdk.Coins{coin(d, math.NewInt(stake))}))
		}
	}
	env.Must(planOf(w, 3))
	env.Must(w.Services.SetParams(w.Ctx, servicestypes.NewParams(nil)))
	w.At(0)
	env.Must(beginBlock(w))
	w.At(time.Hour)
	env.Must(beginBlock(w))
	return w
}

// choose is a choice that another world repeats.
func choose(w *env.World, name string, n int) int {
	if len(w.Heard) > 0 {
		v := w.Heard[0].(int)
		w.Heard = w.Heard[1:]
		return v
	}
	v := rt.Choice(name, n)
	w.Said = append(w.Said, v)
	return v
}

func posOf(w *env.World, name string) math.Int {
	if len(w.Heard) > 0 {
		v := w.Heard[0].(math.Int)
		w.Heard = w.Heard[1:]
		return v
	}
	v := pos(name)
	w.Said = append(w.Said, v)
	return v
}

// changes are the things that happen to the chain before it is exported.
var changes = []func(w *env.World){
	func(w *env.World) { // a user leaves a target in part or in full
		k := choose(w, "target", 3)
		x := []math.Int{math.NewInt(1), math.NewInt(stake - 1), math.NewInt(stake)}[choose(w, "undelegated", 3)]
		_ = Target{k, 1}.Undelegate(w, bob, sdk.Coins{coin(dM, x)})
	},
	func(w *env.World) { // everyone leaves the operator or the service
		k := kOperator + choose(w, "left", 2)
		_ = Target{k, 1}.Undelegate(w, bob, sdk.Coins{coin(dM, Target{k, 1}.DelShares(w, bob, dM).TruncateInt())})
		_ = Target{k, 1}.Undelegate(w, alice, sdk.Coins{coin(lM, Target{k, 1}.DelShares(w, alice, lM).TruncateInt())})
	},
	func(w *env.World) { // a burn of restaked coins
		_ = burn(w, burner, alice, sdk.Coins{coin(lM, []math.Int{math.NewInt(7), math.NewInt(stake + 7), math.NewInt(3*stake + 7), math.NewInt(6 * stake)}[choose(w, "burned", 4)])})
	},
	func(w *env.World) { // time passes
		w.At(w.Ctx.BlockTime().Sub(env.T0) + []time.Duration{0, time.Hour, 3 * day, unbond, 2 * unbond}[choose(w, "elapsed", 5)])
		rt.Assert(beginBlock(w) == nil && endBlock(w) == nil, "the block succeeds")
	},
	func(w *env.World) { _ = (Target{kOperator, 1}).Deactivate(w) },
	func(w *env.World) { _ = (Target{kService, 1}).Deactivate(w) },
	func(w *env.World) { _ = (Target{kOperator, 1}).Delete(w) },
	func(w *env.World) { _ = (Target{kService, 1 + uint32(choose(w, "deleted", 2))}).Delete(w) },
	func(w *env.World) { // new commission, maybe of an operator that is not active
		_ = do(w, operatorskeeper.NewMsgServer(w.Operators).SetOperatorParams,
			operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyMustNewDecFromStr("0.2")), opAdm.String()))
	},
	func(w *env.World) { // which denoms a service accepts
		_ = do(w, serviceskeeper.NewMsgServer(w.Services).SetServiceParams,
			servicestypes.NewMsgSetServiceParams(1+uint32(choose(w, "accepting", 2)), servicestypes.NewServiceParams([]string{dM, dT}), svcAdm.String()))
	},
	func(w *env.World) { // an unsolicited payment
		to := []sdk.AccAddress{lvAddr, rewardsPool(), Target{kPool, 1}.Addr(), rewardstypes.GetRewardsPoolAddress(1)}[choose(w, "paid", 4)]
		hold(w, bob, dT, math.NewInt(7))
		_, _ = w.Try(func(ctx sdk.Context) error {
			return w.Bank.SendCoins(ctx, bob, to, sdk.Coins{coin(dT, math.NewInt(7))})
		})
	},
	func(w *env.World) { // withdrawal of all or part of an insurance fund
		u, d := alice, dM
		if choose(w, "bob's", 2) == 1 {
			u, d = bob, dT
		}
		_ = withdrawFund(w, u, sdk.Coins{coin(d, posOf(w, "withdrawn"))})
	},
	func(w *env.World) { // another insurance percentage
		p := liquidvestingtypes.NewParams(math.LegacyNewDec(1), []string{burner.String()}, []string{minter.String()}, nil, nil)
		_ = do(w, liquidvestingkeeper.NewMsgServer(w.LV).UpdateParams, liquidvestingtypes.NewMsgUpdateParams(w.Authority, p))
	},
	func(w *env.World) { // preferences
		p := []restakingtypes.UserPreferences{
			restakingtypes.NewUserPreferences(false, false, nil),
			restakingtypes.NewUserPreferences(true, false, []uint32{1, 2}),
		}[choose(w, "preferences", 2)]
		_ = setPrefs(w, []sdk.AccAddress{alice, bob}[choose(w, "whose", 2)], p)
	},
	func(w *env.World) { _ = accredit(w, 1+uint32(choose(w, "accredited", 2)), choose(w, "yes", 2) == 1) },
	func(w *env.World) { _ = planOf(w, 1) },
	func(w *env.World) { // leaving and revoking
		rs := restakingkeeper.NewMsgServer(w.Restaking)
		_ = do(w, rs.LeaveService, restakingtypes.NewMsgLeaveService(1, 1, opAdm.String()))
		_ = do(w, rs.RemoveOperatorFromAllowlist, restakingtypes.NewMsgRemoveOperatorFromAllowList(1, 1, svcAdm.String()))
		_ = do(w, rs.CeasePoolSecurityBorrow, restakingtypes.NewMsgCeasePoolSecurityBorrow(1, 1, svcAdm.String()))
	},
	func(w *env.World) { // claims
		t := choose(w, "claimed", 3)
		_ = do(w, rewardskeeper.NewMsgServer(w.Rewards).WithdrawDelegatorReward, rewardstypes.NewMsgWithdrawDelegatorReward(Target{t, 1}.Type(), 1, bob.String()))
		_ = do(w, rewardskeeper.NewMsgServer(w.Rewards).WithdrawOperatorCommission, rewardstypes.NewMsgWithdrawOperatorCommission(1, opAdm.String()))
	},
	func(w *env.World) { // an asset is gone or another one added
		ms := assetskeeper.NewMsgServer(w.Assets)
		_ = do(w, ms.DeregisterAsset, assetstypes.NewMsgDeregisterAsset(w.Authority, dM))
		_ = do(w, ms.RegisterAsset, assetstypes.NewMsgRegisterAsset(w.Authority, assetstypes.NewAsset(dT, "TIA", 6)))
	},
	func(w *env.World) { // new operator, service and pool
		_ = do(w, operatorskeeper.NewMsgServer(w.Operators).RegisterOperator, operatorstypes.NewMsgRegisterOperator("op", "", "", nil, opAdm.String()))
		_ = do(w, serviceskeeper.NewMsgServer(w.Services).CreateService, servicestypes.NewMsgCreateService("svc", "", "", "", nil, svcAdm.String()))
		hold(w, bob, dT, math.NewInt(7))
		_ = Target{kPool, 3}.Delegate(w, bob, sdk.Coins{coin(dT, math.NewInt(7))})
	},
}

// C21_one: the chain of two users with delegations of native and locked coins in every
// kind of target, unclaimed rewards, a running plan, lists, preferences, commissions and insurance
// funds, after any one of 20 changes (exits of any amount, burns, deactivations and
// deletions, time passing to an unbonding's end, parameters, accreditation, plans, claims,
// assets, unsolicited payments, ...). The exports of all the modules are valid, a chain
// starts from them, and every store of every module is the same again.
func C21_one() {
	w := rich()
	changes[rt.Choice("what", len(changes))](w)
	if n := reborn(w); n != nil {
		same(w, n)
		rt.Reach("same")
	}
}

// C21_exits: the same after two exits of any amounts, or an exit and a burn of any amount.
func C21_exits() {
	w := rich()
	t := Target{rt.Choice("target", 3), 1}
	x := pos("undelegated")
	_ = t.Undelegate(w, bob, sdk.Coins{coin(dM, x)})
	switch rt.Choice("then", 3) {
	case 0:
		_ = t.Undelegate(w, bob, sdk.Coins{coin(dM, pos("undelegated too"))})
	case 1:
		w.At(2 * time.Hour)
		_ = t.Undelegate(w, bob, sdk.Coins{coin(dM, pos("undelegated later"))})
	default:
		_ = burn(w, burner, alice, sdk.Coins{coin(lM, pos("burned"))})
	}
	if n := reborn(w); n != nil {
		same(w, n)
		rt.Reach("same")
	}
}

// C21_two: the same after any two of the changes.
func C21_two() {
	w := rich()
	changes[rt.Choice("what", len(changes))](w)
	changes[rt.Choice("then", len(changes))](w)
	if n := reborn(w); n != nil {
		same(w, n)
		rt.Reach("same")
	}
}

// C21_gone: the same when everyone left the operator and the service, which are
// inactive, after a change of parameters, deletion, accreditation, preferences or time,
// and then any change.
func C21_gone() {
	w := rich()
	for _, k := range []int{kOperator, kService} {
		env.Must(Target{k, 1}.Undelegate(w, bob, sdk.Coins{coin(dM, math.NewInt(stake))}))
		env.Must(Target{k, 1}.Undelegate(w, alice, sdk.Coins{coin(lM, math.NewInt(stake))}))
		env.Must(Target{k, 1}.Deactivate(w))
	}
	w.At(2 * unbond)
	env.Must(beginBlock(w))
	env.Must(endBlock(w))
	changes[[]int{3, 6, 7, 8, 9, 13, 14}[rt.Choice("what", 7)]](w)
	changes[rt.Choice("then", len(changes))](w)
	if n := reborn(w); n != nil {
		same(w, n)
		rt.Reach("same")
	}
}

// C21T_three: the same after an exit, a burn, a deactivation or new parameters, then
// time passing or a deletion, then any change.
func C21T_three() {
	w := rich()
	changes[[]int{0, 1, 2, 4, 5, 8, 9}[rt.Choice("what", 7)]](w)
	changes[[]int{3, 6, 7}[rt.Choice("then", 3)]](w)
	changes[rt.Choice("finally", len(changes))](w)
	if n := reborn(w); n != nil {
		same(w, n)
		rt.Reach("same")
	}
}
