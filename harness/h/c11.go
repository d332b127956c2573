package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

const msPerDay = 24 * 60 * 60 * 1000

// perBlock is what a plan pays for a number of milliseconds.
func perBlock(perDay math.Int, elapsed time.Duration) math.Int {
	return perDay.MulRaw(int64(elapsed / time.Millisecond)).QuoRaw(msPerDay)
}

// planWorld has a service with delegations and a plan created by its
// administrator, with the given funds.
func planWorld(m *rewardstypes.MsgCreateRewardsPlan, funds sdk.Coins) (*env.World, sdk.AccAddress) {
	w := base(env.Opts{})
	setAsset(w, dM, math.NewInt(2), 0)
	Target{kService, 1}.setTokens(w, math.NewInt(1000), math.ZeroInt())
	id, err := createPlan(w, m)
	rt.Assert(err == nil, "the plan is created")
	p := rewardstypes.GetRewardsPoolAddress(id)
	for _, c := range funds {
		w.Bank.SetBal(w.Ctx, p, c.Denom, c.Amount)
	}
	return w, p
}

// C11_window: a plan with any amount per day and funds up to 2^90 and any start
// and end in [1,2^50] ns; three blocks at any times.  A block pays the plan's
// amount for the time since the block before exactly when it falls inside the plan's
// window and the funds suffice, and nothing otherwise; the first block at or after the end
// returns what is left to the service and removes the plan.
func C11_window() {
	per, funds := pos("per day"), pos("funds")
	m := plan(1, sdk.Coins{coin(dR, per)}, svcAdm.String())
	from, to := someTime("start"), someTime("end")
	rt.Assume(from < to)
	m.StartTime, m.EndTime = env.T0.Add(from), env.T0.Add(to)
	w, p := planWorld(m, sdk.Coins{coin(dR, funds)})
	w.At(0)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, p, dR), funds), "nothing is paid in the first block")
	now, left, paid, over := time.Duration(0), funds, math.ZeroInt(), false
	for i := 0; i < 2; i++ {
		d := someTime("step")
		now += d
		w.At(now)
		rt.Assert(beginBlock(w) == nil, "the block succeeds")
		due := perBlock(per, d)
		switch {
		case now >= to:
			over = true
		case now >= from && due.LTE(left):
			rt.Reach("paid")
			left, paid = left.Sub(due), paid.Add(due)
		case now >= from:
			rt.Reach("underfunded")
		default:
			rt.Reach("not started")
		}
		rt.Assert(eq(w.Bank.Bal(w.Ctx, rewardsPool(), dR), paid), "exactly what is due is paid")
		has, err := w.Rewards.RewardsPlans.Has(w.Ctx, 1)
		env.Must(err)
		rt.Assert(has == !over, "a plan is removed when it ends and not before")
		if over {
			rt.Assert(w.Bank.Bal(w.Ctx, p, dR).IsZero(), "nothing stays in an ended plan's pool")
			rt.Assert(eq(w.Bank.Bal(w.Ctx, Target{kService, 1}.Addr(), dR), left), "what is left returns to the service")
			rt.Reach("ended")
		} else {
			rt.Assert(eq(w.Bank.Bal(w.Ctx, p, dR), left), "what is not due stays in the plan's pool")
		}
	}
}

// C11_funding: a plan paying two denoms with any amounts and any funds of each, after
// any time; both are paid or none is.
func C11_funding() {
	pa, pb, fa, fb := pos("per day"), pos("per day"), amt("funds"), amt("funds")
	m := day1(sdk.Coins{coin(dR, pa), coin(dT, pb)})
	w, p := planWorld(m, nil)
	w.Bank.SetBal(w.Ctx, p, dR, fa)
	w.Bank.SetBal(w.Ctx, p, dT, fb)
	w.At(0)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	d := someTime("step")
	w.At(d)
	rt.Assert(beginBlock(w) == nil, "the block succeeds")
	da, db := perBlock(pa, d), perBlock(pb, d)
	if da.LTE(fa) && db.LTE(fb) {
		rt.Reach("paid")
	} else {
		rt.Reach("underfunded")
		da, db = math.ZeroInt(), math.ZeroInt()
	}
	rt.Assert(eq(w.Bank.Bal(w.Ctx, p, dR), fa.Sub(da)), "the first denom is paid with the second")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, p, dT), fb.Sub(db)), "the second denom is paid with the first")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, rewardsPool(), dR), da), "the first denom goes to the rewards")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, rewardsPool(), dT), db), "the second denom goes to the rewards")
}

// C11_two_plans: two plans of one service, or of two, with any windows,
// amounts and funds and one block at any time; each is paid from its own funds by its
// own window, whatever the other does.
func C11_two_plans() {
	second := uint32(1 + rt.Choice("service", 2))
	var per, funds [2]math.Int
	var from, to [2]time.Duration
	var p [2]sdk.AccAddress
	w := base(env.Opts{})
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	setAsset(w, dM, math.NewInt(2), 0)
	for i, s := range []uint32{1, second} {
		per[i], funds[i] = pos("per day"), amt("funds")
		from[i], to[i] = someTime("start"), someTime("end")
		rt.Assume(from[i] < to[i])
		m := plan(s, sdk.Coins{coin(dR, per[i])}, svcAdm.String())
		m.StartTime, m.EndTime = env.T0.Add(from[i]), env.T0.Add(to[i])
		id, err := createPlan(w, m)
		rt.Assert(err == nil, "the plan is created")
		rt.Assert(id == uint64(i+1), "plans are numbered in order")
		p[i] = rewardstypes.GetRewardsPoolAddress(id)
		Target{kService, s}.setTokens(w, math.NewInt(1000), math.ZeroInt())
		w.Bank.SetBal(w.Ctx, p[i], dR, funds[i])
	}
	w.At(0)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	d := someTime("step")
	w.At(d)
	rt.Assert(beginBlock(w) == nil, "the block succeeds")
	sum := math.ZeroInt()
	for i := range per {
		left, has := funds[i], true
		switch due := perBlock(per[i], d); {
		case d >= to[i]:
			left, has = math.ZeroInt(), false
			rt.Reach("ended")
		case d >= from[i] && due.LTE(funds[i]):
			left = funds[i].Sub(due)
			sum = sum.Add(due)
			rt.Reach("paid")
		}
		rt.Assert(eq(w.Bank.Bal(w.Ctx, p[i], dR), left), "each plan pays from its own funds")
		x, err := w.Rewards.RewardsPlans.Has(w.Ctx, uint64(i+1))
		env.Must(err)
		rt.Assert(x == has, "each plan ends at its own end")
	}
	rt.Assert(eq(w.Bank.Bal(w.Ctx, rewardsPool(), dR), sum), "what is due is paid")
}

// C11_accepted: a plan of any amount per day that fits the 256-bit integer of a
// coin, with any funds, any weights and any window; if the chain accepts it, by creation or by editing
// another plan, blocks
// succeed after any time up to 2^62 ns.
func C11_accepted() {
	per := math.NewIntFromBigInt(rt.Big("per day", "0", "2^256-1"))
	funds := math.NewIntFromBigInt(rt.Big("funds", "0", "2^256-1"))
	wp, wo, wu := rt.Uint32("weight", 0, 1<<32-1), rt.Uint32("weight", 0, 1<<32-1), rt.Uint32("weight", 0, 1<<32-1)
	from, to := rt.Int64("start", -1<<50, 1<<62), rt.Int64("end", -1<<50, 1<<62)
	w := base(env.Opts{})
	setAsset(w, dM, math.NewInt(2), 0)
	Target{kService, 1}.setTokens(w, math.NewInt(1000), math.ZeroInt())
	Target{kOperator, 1}.setTokens(w, math.NewInt(1000), math.ZeroInt())
	env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, 1, 1))
	m := plan(1, sdk.Coins{}, svcAdm.String())
	edit := rt.Choice("edit", 2) == 1
	if edit {
		m.EndTime = env.T0.Add(1 << 62)
		_, err := createPlan(w, m)
		rt.Assert(err == nil, "an empty plan is accepted")
	}
	if per.IsPositive() {
		m.Amount = sdk.Coins{coin(dR, per)}
	}
	m.PoolsDistribution = dist(0, true, wp, nil)
	m.OperatorsDistribution = dist(0, false, wo, nil)
	m.UsersDistribution = rewardstypes.NewBasicUsersDistribution(wu)
	m.StartTime, m.EndTime = env.T0.Add(time.Duration(from)), env.T0.Add(time.Duration(to))
	var err error
	if edit {
		e := &rewardstypes.MsgEditRewardsPlan{Sender: m.Sender, ID: 1, Description: m.Description, Amount: m.Amount, StartTime: m.StartTime, EndTime: m.EndTime,
			PoolsDistribution: m.PoolsDistribution, OperatorsDistribution: m.OperatorsDistribution, UsersDistribution: m.UsersDistribution}
		err = do(w, rewardskeeper.NewMsgServer(w.Rewards).EditRewardsPlan, e)
	} else {
		_, err = createPlan(w, m)
	}
	if per.LTE(math.NewInt(1).MulRaw(1<<62).MulRaw(1<<28)) && from < to {
		rt.Assert(err == nil, "an ordinary plan is accepted")
	}
	if err != nil {
		rt.Reach("refused")
		return
	}
	rt.Assert(from < to, "an accepted plan has a window")
	rt.Reach("accepted")
	w.Bank.SetBal(w.Ctx, rewardstypes.GetRewardsPoolAddress(1), dR, funds)
	w.At(0)
	rt.Assert(beginBlock(w) == nil, "the first block succeeds")
	w.At(time.Duration(rt.Int64("step", 0, 1<<62)))
	rt.Assert(beginBlock(w) == nil, "no accepted plan fails a block")
}

// C11_edit: a plan is edited by its administrator at any time around its end with any new
// amounts and window; the edit is refused once the plan is over or when the
// window is empty, otherwise it sets exactly what it names, and the plan's number, service
// and funds stay.
func C11_edit() {
	per, funds := pos("per day"), pos("funds")
	m := plan(1, sdk.Coins{coin(dR, per)}, svcAdm.String())
	to := someTime("end")
	m.EndTime = env.T0.Add(to)
	w, p := planWorld(m, sdk.Coins{coin(dR, funds)})
	other, err := createPlan(w, m)
	rt.Assert(err == nil, "another plan is created")
	was, err := w.Rewards.GetRewardsPlan(w.Ctx, other)
	env.Must(err)
	at := someTime("edit")
	w.At(at)
	nf, nt, np := someTime("new start"), someTime("new end"), pos("new per day")
	kind := rt.Choice("kind", 3)
	weights := []rewardstypes.DistributionWeight{rewardstypes.NewDistributionWeight(uint32(1+rt.Choice("target", 2)), 5)}
	e := &rewardstypes.MsgEditRewardsPlan{Sender: svcAdm.String(), ID: 1, Description: "new", Amount: sdk.Coins{coin(dT, np)}, StartTime: env.T0.Add(nf), EndTime: env.T0.Add(nt),
		PoolsDistribution: dist(kind, true, 3, weights), OperatorsDistribution: dist(0, false, 4, nil), UsersDistribution: rewardstypes.NewBasicUsersDistribution(5)}
	ok := at < to && nf < nt && (kind != 2 || weights[0].DelegationTargetID == 1)
	err = do(w, rewardskeeper.NewMsgServer(w.Rewards).EditRewardsPlan, e)
	rt.Assert((err == nil) == ok, "an edit is accepted exactly when the plan runs and the new one is sound")
	got, err := w.Rewards.GetRewardsPlan(w.Ctx, 1)
	env.Must(err)
	rt.Assert(got.ID == 1, "the number stays")
	rt.Assert(got.ServiceID == 1, "the service stays")
	rt.Assert(got.RewardsPool == p.String(), "the pool stays")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, p, dR), funds), "the funds stay")
	if ok {
		rt.Reach("edited")
		rt.Assert(got.Description == "new", "the description is set")
		rt.Assert(len(got.AmountPerDay) == 1 && got.AmountPerDay[0].Denom == dT, "the denom is set")
		rt.Assert(eq(got.AmountPerDay.AmountOf(dT), np), "the amount is set")
		rt.Assert(got.StartTime.Equal(env.T0.Add(nf)), "the start is set")
		rt.Assert(got.EndTime.Equal(env.T0.Add(nt)), "the end is set")
		rt.Assert(got.PoolsDistribution.Weight == 3, "the pools' weight is set")
		rt.Assert(got.OperatorsDistribution.Weight == 4, "the operators' weight is set")
		rt.Assert(got.UsersDistribution.Weight == 5, "the users' weight is set")
		rt.Assert(got.PoolsDistribution.Type.TypeUrl == e.PoolsDistribution.Type.TypeUrl, "the distribution is set")
	} else {
		rt.Reach("refused")
		rt.Assert(eq(got.AmountPerDay.AmountOf(dR), per), "a refused edit leaves the amount")
		rt.Assert(got.EndTime.Equal(env.T0.Add(to)), "a refused edit leaves the end")
	}
	now, err := w.Rewards.GetRewardsPlan(w.Ctx, other)
	env.Must(err)
	rt.Assert(now.Description == was.Description && now.EndTime.Equal(was.EndTime), "another plan is untouched")
	rt.Assert(eq(now.AmountPerDay.AmountOf(dR), per), "another plan's amount is untouched")
}
