package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// the fourth kind of object that is created
const kPlan = 3

// born is one object that was created.
type born struct {
	id   uint64
	addr string
	name string
	gone bool
}

// create has a user create an operator, a service or a plan of service 1.
func create(w *env.World, kind int, name string, fee sdk.Coins, by sdk.AccAddress) (id uint64, err error) {
	var p bool
	switch kind {
	case kOperator:
		m := operatorstypes.NewMsgRegisterOperator(name, "", "", fee, by.String())
		err, p = deliver(w, m, func(ctx sdk.Context) error {
			r, err := operatorskeeper.NewMsgServer(w.Operators).RegisterOperator(ctx, m)
			if err == nil {
				id = uint64(r.NewOperatorID)
			}
			return err
		})
	case kService:
		m := servicestypes.NewMsgCreateService(name, "", "", "", fee, by.String())
		err, p = deliver(w, m, func(ctx sdk.Context) error {
			r, err := serviceskeeper.NewMsgServer(w.Services).CreateService(ctx, m)
			if err == nil {
				id = uint64(r.NewServiceID)
			}
			return err
		})
	default:
		m := plan(1, sdk.NewCoins(coin(dR, math.NewInt(1000))), by.String())
		m.Description, m.FeeAmount = name, fee
		id, err = createPlan(w, m)
		_, p = err.(errPanicked)
	}
	rt.Assert(!p, "handler panicked")
	return id, err
}

// found is the account and the name of an object.
func found(w *env.World, kind int, id uint64) (addr, name, admin string, ok bool) {
	switch kind {
	case kOperator:
		o, ok, err := w.Operators.GetOperator(w.Ctx, uint32(id))
		env.Must(err)
		return o.Address, o.Moniker, o.Admin, ok && o.ID == uint32(id)
	case kService:
		o, ok, err := w.Services.GetService(w.Ctx, uint32(id))
		env.Must(err)
		return o.Address, o.Name, o.Admin, ok && o.ID == uint32(id)
	default:
		p, err := w.Rewards.GetRewardsPlan(w.Ctx, id)
		return p.RewardsPool, p.Description, "", err == nil && p.ID == id
	}
}

// noFees lets everybody create for nothing.
func noFees(w *env.World) { fees(w, nil) }

func fees(w *env.World, c sdk.Coins) {
	po, err := w.Operators.GetParams(w.Ctx)
	env.Must(err)
	po.OperatorRegistrationFee = c
	env.Must(w.Operators.SetParams(w.Ctx, po))
	ps, err := w.Services.GetParams(w.Ctx)
	env.Must(err)
	ps.ServiceRegistrationFee = c
	env.Must(w.Services.SetParams(w.Ctx, ps))
	env.Must(w.Rewards.Params.Set(w.Ctx, rewardstypes.Params{RewardsPlanCreationFee: c}))
}

// C20_ids: three creations of operators, services or plans by one user or another, from any of six
// counters up to 2^32-10 around which the encoding of identifiers changes, with in between refused creations, the deletion of any
// of the objects, or the end of a plan. Each gets an identifier and an account nobody had, and the others stay
// what they were.
func C20_ids() {
	w := base(env.Opts{})
	noFees(w)
	setAsset(w, dR, math.NewInt(1), 6)
	env.Must(w.Services.SetServiceAccredited(w.Ctx, 1, true))
	kind := []int{kOperator, kService, kPlan}[rt.Choice("kind", 3)]
	start := []uint64{2, 9, 255, 65535, 1<<24 - 1, 1<<32 - 10}[rt.Choice("start", 6)]
	env.Must(w.Operators.SetNextOperatorID(w.Ctx, uint32(start)))
	env.Must(w.Services.SetNextServiceID(w.Ctx, uint32(start)))
	env.Must(w.Rewards.NextRewardsPlanID.Set(w.Ctx, start))
	accounts := map[string]bool{}
	addrs := []string{Target{kOperator, 1}.Addr().String(), Target{kService, 1}.Addr().String(), Target{kPool, 1}.Addr().String()}
	for _, a := range addrs {
		accounts[a] = true
	}
	var all []*born
	for i, name := range []string{"first", "second", "third"} {
		by := svcAdm
		if kind != kPlan && rt.Choice("by", 2) == 1 {
			by = bob
		}
		id, err := create(w, kind, name, nil, by)
		rt.Assert(err == nil, "anybody can create one")
		if err != nil {
			return
		}
		addr, got, admin, ok := found(w, kind, id)
		rt.Assert(ok && got == name, "what was created is there")
		rt.Assert(kind == kPlan || admin == by.String(), "it belongs to who created it")
		rt.Assert(!accounts[addr], "its account is its own")
		accounts[addr] = true
		for _, o := range all {
			rt.Assert(o.id < id, "identifiers only grow")
			a, n, _, ok := found(w, kind, o.id)
			rt.Assert(ok == !o.gone, "the others stay")
			rt.Assert(o.gone || a == o.addr && n == o.name, "the others are untouched")
		}
		all = append(all, &born{id, addr, name, false})
		if i == 2 {
			break
		}
		switch rt.Choice("between", 3) {
		case 0:
		case 1:
			_, err := create(w, kind, "", sdk.Coins{{Denom: "", Amount: math.NewInt(1)}}, mallory)
			rt.Assert(err != nil, "nonsense is refused")
			rt.Reach("refused")
		case 2:
			o := all[rt.Choice("which", len(all))]
			if o.gone {
				rt.Stop()
			}
			remove(w, kind, o.id)
			o.gone = true
			rt.Reach("deleted")
		}
	}
	rt.Reach("end")
}

// remove deletes an object by the ways there are.
func remove(w *env.World, kind int, id uint64) {
	switch kind {
	case kOperator:
		o, _, err := w.Operators.GetOperator(w.Ctx, uint32(id))
		env.Must(err)
		o.Status = operatorstypes.OPERATOR_STATUS_INACTIVE
		env.Must(w.Operators.SaveOperator(w.Ctx, o))
		err = do(w, operatorskeeper.NewMsgServer(w.Operators).DeleteOperator, operatorstypes.NewMsgDeleteOperator(o.ID, o.Admin))
		rt.Assert(err == nil, "it can be deleted")
	case kService:
		s, _, err := w.Services.GetService(w.Ctx, uint32(id))
		env.Must(err)
		err = do(w, serviceskeeper.NewMsgServer(w.Services).DeleteService, servicestypes.NewMsgDeleteService(s.ID, s.Admin))
		rt.Assert(err == nil, "it can be deleted")
	default:
		p, err := w.Rewards.GetRewardsPlan(w.Ctx, id)
		env.Must(err)
		p.EndTime = w.Ctx.BlockTime()
		env.Must(w.Rewards.RewardsPlans.Set(w.Ctx, id, p))
		err, panicked := w.Try(func(ctx sdk.Context) error { return w.Rewards.TerminateEndedRewardsPlans(ctx) })
		rt.Assert(err == nil && !panicked, "a plan ends")
	}
}

// C20_fees: any fee required in none, one or two denoms, any fee offered, in the same or other
// denoms or ill-formed, and any balances. What is offered goes to the community
// pool and the object is created exactly if the offer is good and the user has it; else nothing changes.
func C20_fees() {
	w := base(env.Opts{})
	setAsset(w, dR, math.NewInt(1), 6)
	kind := []int{kOperator, kService, kPlan}[rt.Choice("kind", 3)]
	var need sdk.Coins
	switch rt.Choice("required", 3) {
	case 1:
		need = sdk.Coins{coin(dM, pos("need milk"))}
	case 2:
		need = sdk.Coins{coin(dM, pos("need milk")), coin(dT, pos("need tia"))}
	}
	fees(w, need)
	var offer sdk.Coins
	bad := false
	switch rt.Choice("offered", 6) {
	case 1:
		offer = sdk.Coins{coin(dM, pos("milk"))}
	case 2:
		offer = sdk.Coins{coin(dT, pos("tia"))}
	case 3:
		offer = sdk.Coins{coin(dM, pos("milk")), coin(dT, pos("tia"))}
	case 4:
		bad = true
		offer = sdk.Coins{coin(dM, pos("milk")), coin(dT, pos("tia").Neg())}
	case 5:
		bad = true
		offer = sdk.Coins{coin(dM, pos("milk")), coin(dM, pos("more"))}
	}
	w.Bank.SetBal(w.Ctx, svcAdm, dM, amt("has milk"))
	w.Bank.SetBal(w.Ctx, svcAdm, dT, amt("has tia"))
	cp := authtypes.NewModuleAddress("distribution")
	hasM, hasT := w.Bank.Bal(w.Ctx, svcAdm, dM), w.Bank.Bal(w.Ctx, svcAdm, dT)
	cpM, cpT := w.Bank.Bal(w.Ctx, cp, dM), w.Bank.Bal(w.Ctx, cp, dT)
	id, err := create(w, kind, "new", offer, svcAdm)
	if need == nil {
		rt.Assert(rt.Implies(!bad, err == nil), "nothing is needed when there is no fee")
		rt.Reach("free")
	} else {
		enough := false
		for _, c := range offer {
			for _, n := range need {
				enough = rt.Or(enough, rt.And(c.Denom == n.Denom, c.Amount.GTE(n.Amount)))
			}
		}
		has := rt.And(hasM.GTE(offer.AmountOf(dM)), hasT.GTE(offer.AmountOf(dT)))
		rt.Assert((err == nil) == rt.And(!bad, rt.And(enough, has)), "accepted exactly if enough is offered and owned")
	}
	paidM, paidT := math.ZeroInt(), math.ZeroInt()
	if err == nil {
		_, _, _, ok := found(w, kind, id)
		rt.Assert(ok, "what was paid for is there")
		if need != nil {
			paidM, paidT = offer.AmountOf(dM), offer.AmountOf(dT)
		}
		rt.Reach("accepted")
	} else {
		rt.Reach("refused")
	}
	rt.Assert(rt.And(eq(w.Bank.Bal(w.Ctx, svcAdm, dM), hasM.Sub(paidM)), eq(w.Bank.Bal(w.Ctx, svcAdm, dT), hasT.Sub(paidT))), "the offer is paid once, nothing else")
	rt.Assert(rt.And(eq(w.Bank.Bal(w.Ctx, cp, dM), cpM.Add(paidM)), eq(w.Bank.Bal(w.Ctx, cp, dT), cpT.Add(paidT))), "the community pool gets it")
}

// C20_pools: five delegations and full undelegations by two users in three denoms, one a
// prefix of another, and a vesting representation, in any order. There is
// at most one pool per denom, and every delegation of a denom is in it.
func C20_pools() {
	w := env.NewWorld(env.Opts{})
	w.InitDefaults()
	denoms := []string{dM, dT, "umilky"}
	users := []sdk.AccAddress{alice, bob}
	staked := map[string]math.Int{}
	for _, d := range denoms {
		for _, u := range users {
			w.Bank.SetBal(w.Ctx, u, d, pos("has"))
			staked[u.String()+d] = math.ZeroInt()
		}
	}
	n := 4
	if rt.Deep() {
		n = 5
	}
	ids := map[string]uint32{}
	for range n {
		d, u := denoms[rt.Choice("denom", 3)], users[rt.Choice("user", 2)]
		had := w.Bank.Bal(w.Ctx, u, d)
		t := Target{kPool, ids[d]}
		if k := u.String() + d; rt.Choice("leave", 2) == 1 {
			if !staked[k].IsPositive() {
				rt.Stop()
			}
			rt.Assert(t.Undelegate(w, u, sdk.Coins{coin(d, staked[k])}) == nil, "a user can leave")
			staked[k] = math.ZeroInt()
			rt.Reach("left")
		} else {
			a := math.NewInt(1000)
			rt.Assume(had.GTE(a))
			rt.Assert(t.Delegate(w, u, sdk.Coins{coin(d, a)}) == nil, "a user can join")
			staked[k] = staked[k].Add(a)
		}
		pools, err := w.Pools.GetPools(w.Ctx)
		env.Must(err)
		seen := map[string]bool{}
		for _, p := range pools {
			rt.Assert(!seen[p.Denom], "one pool per denom")
			seen[p.Denom] = true
			old, ok := ids[p.Denom]
			rt.Assert(!ok || old == p.ID, "the pool of a denom stays")
			ids[p.Denom] = p.ID
			rt.Assert(p.Address == poolstypes.GetPoolAddress(p.ID).String(), "every pool has its account")
			all := math.ZeroInt()
			for _, u := range users {
				k := staked[u.String()+p.Denom]
				all = all.Add(k)
				rt.Assert(Target{kPool, p.ID}.DelShares(w, u, p.Denom).Equal(dec(k)), "a delegation is in the pool of its denom")
			}
			rt.Assert(eq(all, p.Tokens), "a pool has all of its denom")
		}
		for d1, i := range ids {
			for d2, j := range ids {
				rt.Assert(d1 == d2 || i != j, "identifiers are unique")
			}
		}
	}
	rt.Reach("end")
}
