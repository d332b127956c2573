package h

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

func svcStatus(w *env.World, id uint32) servicestypes.ServiceStatus {
	s, ok, err := w.Services.GetService(w.Ctx, id)
	env.Must(err)
	if !ok {
		return servicestypes.SERVICE_STATUS_UNSPECIFIED
	}
	return s.Status
}

// C09_status: a service in any status, with or without delegations, and any
// three messages that activate, deactivate or delete it, by the administrator or by
// somebody else; each succeeds exactly in the statuses it is meant for, ends in
// the right status and leaves another service as it is.
func C09_status() {
	w := base(env.Opts{})
	st := servicestypes.ServiceStatus(1 + rt.Choice("status", 3))
	addService(w, 2, st, rt.Choice("accredited", 2) == 1)
	ms := serviceskeeper.NewMsgServer(w.Services)
	t := Target{kService, 2}
	held := rt.Choice("delegated", 2) == 1
	if held {
		t.setStatus(w, int(servicestypes.SERVICE_STATUS_ACTIVE))
		x := pos("amount")
		w.Bank.SetBal(w.Ctx, alice, dM, x)
		rt.Assert(t.Delegate(w, alice, sdk.Coins{coin(dM, x)}) == nil, "delegate")
		t.setStatus(w, int(st))
	}
	const active, inactive, gone = servicestypes.SERVICE_STATUS_ACTIVE, servicestypes.SERVICE_STATUS_INACTIVE, servicestypes.SERVICE_STATUS_UNSPECIFIED
	n := 2
	if rt.Deep() {
		n = 3
	}
	for i := 0; i < n; i++ {
		who := svcAdm.String()
		stranger := rt.Choice("stranger", 2) == 1
		if stranger {
			who = mallory.String()
		}
		var err error
		var ok bool
		next := st
		switch rt.Choice("message", 3) {
		case 0:
			err = do(w, ms.ActivateService, servicestypes.NewMsgActivateService(2, who))
			ok, next = st != gone && st != active, active
		case 1:
			err = do(w, ms.DeactivateService, servicestypes.NewMsgDeactivateService(2, who))
			ok, next = st == active, inactive
		default:
			err = do(w, ms.DeleteService, servicestypes.NewMsgDeleteService(2, who))
			ok, next = st != gone && st != active && !held, gone
		}
		ok = ok && !stranger
		rt.Assert((err == nil) == ok, "the message succeeds exactly when the status allows it")
		if ok {
			st = next
			rt.Reach("changed")
		}
		rt.Assert(svcStatus(w, 2) == st, "the status is the one asked for")
		rt.Assert(svcStatus(w, 1) == active, "another service is untouched")
		is, e := w.Services.IsServiceAddress(w.Ctx, t.Addr().String())
		env.Must(e)
		rt.Assert(is == (st != gone), "its account is a service's exactly while it exists")
	}
	if st == gone {
		rt.Reach("deleted")
	}
}

// links are the records that tie a service to operators and pools.
func setLinks(w *env.World, id uint32, joined, listed, secured bool) {
	if joined {
		env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, 1, id))
	}
	if listed {
		env.Must(w.Restaking.AddOperatorToServiceAllowList(w.Ctx, id, 1))
	}
	if secured {
		env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, id, 1))
	}
}

func getLinks(w *env.World, id uint32) (joined, listed, secured bool) {
	var err error
	joined, err = w.Restaking.HasOperatorJoinedService(w.Ctx, 1, id)
	env.Must(err)
	l, err := w.Restaking.GetAllServiceAllowedOperators(w.Ctx, id)
	env.Must(err)
	s, err := w.Restaking.GetAllServiceSecuringPools(w.Ctx, id)
	env.Must(err)
	return joined, len(l) > 0, len(s) > 0
}

// linked counts the two operators and the two pools that are tied to a service.
func linked(w *env.World, id uint32) (r [3]int) {
	for _, x := range []uint32{1, far} {
		j, err := w.Restaking.HasOperatorJoinedService(w.Ctx, x, id)
		env.Must(err)
		l, err := w.Restaking.IsOperatorInServiceAllowList(w.Ctx, id, x)
		env.Must(err)
		for k, y := range []bool{j, l} {
			if y {
				r[k]++
			}
		}
	}
	p, err := w.Restaking.GetAllServiceSecuringPools(w.Ctx, id)
	env.Must(err)
	r[2] = len(p)
	return
}

// C09_deletion: two services, each with both operators joined or neither, both
// listed or neither, both pools borrowed from or neither, and trusted shares recorded
// for both; deleting one leaves nothing that refers to it and everything of the other.
func C09_deletion() {
	w := base(env.Opts{})
	addOperator(w, far)
	addService(w, far, servicestypes.SERVICE_STATUS_ACTIVE, true)
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	was := map[uint32][3]int{}
	for _, id := range []uint32{1, far} {
		j, l, s := rt.Choice("joined", 2) == 1, rt.Choice("listed", 2) == 1, rt.Choice("secured", 2) == 1
		setLinks(w, id, j, l, s)
		if j {
			env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, far, id))
		}
		if l {
			env.Must(w.Restaking.AddOperatorToServiceAllowList(w.Ctx, id, far))
		}
		if s {
			env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, id, 2))
		}
		for pool := uint32(1); pool <= 2; pool++ {
			env.Must(w.Rewards.SetPoolServiceTotalDelegatorShares(w.Ctx, pool, id, sdk.NewDecCoins(sdk.NewDecCoinFromDec("pool/1/"+dM, dec(pos("trusted"))))))
		}
		was[id] = linked(w, id)
	}
	gone := []uint32{1, far}[rt.Choice("gone", 2)]
	other := 1 + far - gone
	x := pos("other's delegation")
	w.Bank.SetBal(w.Ctx, alice, dM, x)
	rt.Assert(Target{kService, other}.Delegate(w, alice, sdk.Coins{coin(dM, x)}) == nil, "delegate to the other one")
	t := Target{kService, gone}
	rt.Assert(t.Deactivate(w) == nil, "deactivate")
	rt.Assert(t.Delete(w) == nil, "delete")
	rt.Reach("deleted")
	n := linked(w, gone)
	rt.Assert(n[0] == 0, "no operator has joined a deleted service")
	rt.Assert(n[1] == 0, "a deleted service lists no operators")
	rt.Assert(n[2] == 0, "a deleted service borrows from no pool")
	n = linked(w, other)
	rt.Assert(n[0] == was[other][0], "the other service keeps its operators")
	rt.Assert(n[1] == was[other][1], "the other service keeps its list")
	rt.Assert(n[2] == was[other][2], "the other service keeps its pools")
	for _, id := range []uint32{1, far} {
		for pool := uint32(1); pool <= 2; pool++ {
			sh, err := w.Rewards.GetPoolServiceTotalDelegatorShares(w.Ctx, pool, id)
			env.Must(err)
			rt.Assert(sh.IsZero() == (id == gone), "trusted shares are kept for the remaining service only")
		}
		h, err := w.Rewards.ServiceCurrentRewards.Has(w.Ctx, id)
		env.Must(err)
		o, err := w.Rewards.ServiceOutstandingRewards.Has(w.Ctx, id)
		env.Must(err)
		rt.Assert(h == (id == other), "current rewards are kept for the remaining service only")
		rt.Assert(o == (id == other), "outstanding rewards are kept for the remaining service only")
	}
	ids, err := w.Restaking.GetUserTrustedServicesIDs(w.Ctx, alice.String())
	env.Must(err)
	for _, id := range ids {
		rt.Assert(id != gone, "nobody trusts a deleted service")
	}
	op, err := w.Services.GetServices(w.Ctx)
	env.Must(err)
	rt.Assert(len(op) == 1, "one service is left")
	rt.Assert(op[0].ID == other, "it is the other one")
}

// C09_plan: a service with a rewards plan of any amount per day and any funds
// and any start and end is deactivated and deleted at any time; blocks follow at any times.
// No block fails, and once the plan is over its funds are all accounted for: in
// the plan's pool, paid out as rewards, or returned to the service's account.
func C09_plan() {
	w := base(env.Opts{})
	rms := rewardskeeper.NewMsgServer(w.Rewards)
	day, funds := pos("per day"), amt("funds")
	from, to := someTime("start"), someTime("end")
	rt.Assume(from < to)
	m := plan(1, sdk.Coins{coin(dM, day)}, svcAdm.String())
	m.StartTime, m.EndTime = env.T0.Add(from), env.T0.Add(to)
	var p sdk.AccAddress
	err, _ := deliver(w, m, func(ctx sdk.Context) error {
		r, err := rms.CreateRewardsPlan(ctx, m)
		if err == nil {
			p = rewardstypes.GetRewardsPoolAddress(r.NewRewardsPlanID)
		}
		return err
	})
	rt.Assert(err == nil, "the plan is created")
	w.Bank.SetBal(w.Ctx, p, dM, funds)
	rt.Assert(beginBlock(w) == nil, "begin of block succeeds")
	t := Target{kService, 1}
	rt.Assert(t.Deactivate(w) == nil, "deactivate")
	at := time.Duration(0)
	if rt.Choice("later", 2) == 1 {
		at = someTime("deletion")
		w.At(at)
		rt.Assert(beginBlock(w) == nil, "begin of block succeeds")
	}
	rt.Assert(t.Delete(w) == nil, "delete")
	w.At(at + someTime("block"))
	rt.Assert(beginBlock(w) == nil, "a plan of a deleted service does not stop the chain")
	rt.Assert(endBlock(w) == nil, "end of block succeeds")
	w.At(at + to)
	rt.Assert(beginBlock(w) == nil, "the end of a plan of a deleted service does not stop the chain")
	_, err = w.Rewards.GetRewardsPlan(w.Ctx, 1)
	rt.Assert(err != nil, "an ended plan is removed")
	sum := w.Bank.Bal(w.Ctx, p, dM).Add(w.Bank.Bal(w.Ctx, t.Addr(), dM)).Add(w.Bank.Bal(w.Ctx, rewardsPool(), dM)).
		Add(w.Bank.Bal(w.Ctx, authtypes.NewModuleAddress("distribution"), dM))
	rt.Assert(eq(sum, funds), "the funds are all accounted for")
	rt.Assert(w.Bank.Bal(w.Ctx, p, dM).IsZero(), "nothing is left locked in the plan's pool")
	rt.Reach("end")
}

// C09_links: a service in any status that lists no operator, this one, another
// one or both; joining, listing and borrowing take effect exactly when
// admissible and only on the pair named.
func C09_links() {
	w := base(env.Opts{})
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	mine, others := rt.Choice("mine", 2) == 1, rt.Choice("others", 2) == 1
	if mine {
		rt.Assert(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(1, 1, svcAdm.String())) == nil, "listed")
	}
	if others {
		rt.Assert(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(1, 2, svcAdm.String())) == nil, "listed")
	}
	can, err := w.Restaking.CanOperatorValidateService(w.Ctx, 1, 1)
	env.Must(err)
	rt.Assert(can == (mine || !others), "an operator may validate when listed, or when nobody is")
	can, err = w.Restaking.CanOperatorValidateService(w.Ctx, 2, 1)
	env.Must(err)
	rt.Assert(can, "another service's list does not matter")
	st := servicestypes.ServiceStatus(1 + rt.Choice("status", 3))
	Target{kService, 1}.setStatus(w, int(st))
	ok := st == servicestypes.SERVICE_STATUS_ACTIVE
	rt.Assert((do(w, rs.JoinService, restakingtypes.NewMsgJoinService(1, 1, opAdm.String())) == nil) == ok, "an active service can be joined")
	j, _, _ := getLinks(w, 1)
	rt.Assert(j == ok, "the operator has joined exactly then")
	j, _, _ = getLinks(w, 2)
	rt.Assert(!j, "no other service is joined")
	_ = do(w, rs.LeaveService, restakingtypes.NewMsgLeaveService(1, 1, opAdm.String()))
	j, _, _ = getLinks(w, 1)
	rt.Assert(!j, "the operator has left")
	rt.Assert((do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(1, 1, svcAdm.String())) == nil) == ok, "an active service can borrow")
	Target{kService, 1}.setStatus(w, int(servicestypes.SERVICE_STATUS_ACTIVE))
	if !ok {
		rt.Assert(do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(1, 1, svcAdm.String())) == nil, "an active service can borrow")
	}
	_, _, s := getLinks(w, 1)
	rt.Assert(s, "the pool is recorded")
	_, _, s = getLinks(w, 2)
	rt.Assert(!s, "another service's pools are untouched")
	rt.Assert(do(w, rs.CeasePoolSecurityBorrow, restakingtypes.NewMsgCeasePoolSecurityBorrow(1, 1, svcAdm.String())) == nil, "cease")
	_, _, s = getLinks(w, 1)
	rt.Assert(!s, "the pool is gone")
	rt.Assert(do(w, rs.RemoveOperatorFromAllowlist, restakingtypes.NewMsgRemoveOperatorFromAllowList(1, 1, svcAdm.String())) == nil == mine, "only a listed operator can be removed")
	can, err = w.Restaking.CanOperatorValidateService(w.Ctx, 1, 2)
	env.Must(err)
	rt.Assert(can, "the other operator may validate")
	rt.Reach("end")
}
