package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

// the denom rewards are paid in
const dR = "urew"

const day = 24 * time.Hour

// setAsset registers a denom and quotes a price in whole dollars.
func setAsset(w *env.World, denom string, price math.Int, exponent uint32) {
	env.Must(w.Assets.SetAsset(w.Ctx, assetstypes.NewAsset(denom, "T"+denom, exponent)))
	w.Oracle.Price["T"+denom] = price
}

// createPlan sends the message that creates a plan.
func createPlan(w *env.World, m *rewardstypes.MsgCreateRewardsPlan) (uint64, error) {
	var id uint64
	err, p := deliver(w, m, func(ctx sdk.Context) error {
		r, err := rewardskeeper.NewMsgServer(w.Rewards).CreateRewardsPlan(ctx, m)
		if err == nil {
			id = r.NewRewardsPlanID
		}
		return err
	})
	if p {
		return 0, errPanicked{}
	}
	return id, err
}

// outstanding is what the target has been allocated and not yet paid.
func (t Target) outstanding(w *env.World, d string) math.LegacyDec {
	dt, err := w.Rewards.GetDelegationTarget(w.Ctx, t.Type(), t.ID)
	env.Must(err)
	o, err := w.Rewards.GetOutstandingRewardsCoins(w.Ctx, dt)
	env.Must(err)
	return o.CoinsAmount().AmountOf(d)
}

// current is what has been allocated to the delegators in this period.
func (t Target) current(w *env.World, d string) math.LegacyDec {
	dt, err := w.Rewards.GetDelegationTarget(w.Ctx, t.Type(), t.ID)
	env.Must(err)
	c, err := dt.CurrentRewards.Get(w.Ctx, t.ID)
	env.Must(err)
	r := math.LegacyZeroDec()
	for _, s := range c.Rewards {
		r = r.Add(s.DecPools.CoinsAmount().AmountOf(d))
	}
	return r
}

func commission(w *env.World, op uint32, d string) math.LegacyDec {
	c, err := w.Rewards.GetOperatorAccumulatedCommission(w.Ctx, op)
	env.Must(err)
	return c.Commissions.CoinsAmount().AmountOf(d)
}

// trust records the shares of the pool whose owners trust a service.
func trust(w *env.World, pool, service uint32, shares math.Int) {
	env.Must(w.Rewards.SetPoolServiceTotalDelegatorShares(w.Ctx, pool, service,
		sdk.NewDecCoins(sdk.NewDecCoinFromDec(Target{kPool, pool}.ShareDenom(dM), dec(shares)))))
}

func dist(kind int, pools bool, weight uint32, weights []rewardstypes.DistributionWeight) rewardstypes.Distribution {
	switch {
	case kind == 0 && pools:
		return rewardstypes.NewBasicPoolsDistribution(weight)
	case kind == 0:
		return rewardstypes.NewBasicOperatorsDistribution(weight)
	case kind == 1 && pools:
		return rewardstypes.NewEgalitarianPoolsDistribution(weight)
	case kind == 1:
		return rewardstypes.NewEgalitarianOperatorsDistribution(weight)
	case pools:
		return rewardstypes.NewWeightedPoolsDistribution(weight, weights)
	default:
		return rewardstypes.NewWeightedOperatorsDistribution(weight, weights)
	}
}

var _ = rt.Reach
