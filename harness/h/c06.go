package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var (
	opAdm2  = env.Addr(19)
	svcAdm2 = env.Addr(18)
	minter  = env.Addr(21)
	burner  = env.Addr(22)
)

// permWorld has two operators and two services with distinct administrators,
// and a minter and a burner.
func permWorld() *env.World {
	w := base(env.Opts{})
	op := operatorstypes.NewOperator(2, operatorstypes.OPERATOR_STATUS_ACTIVE, "op2", "", "", opAdm2.String())
	env.Must(w.Operators.CreateOperator(w.Ctx, op))
	env.Must(w.Operators.SetNextOperatorID(w.Ctx, 3))
	sv := servicestypes.NewService(2, servicestypes.SERVICE_STATUS_ACTIVE, "svc2", "", "", "", svcAdm2.String(), false)
	env.Must(w.Services.CreateService(w.Ctx, sv))
	env.Must(w.Services.SetNextServiceID(w.Ctx, 3))
	env.Must(w.LV.SetParams(w.Ctx, liquidvestingtypes.NewParams(math.LegacyNewDec(2),
		[]string{burner.String()}, []string{minter.String()}, nil, nil)))
	return w
}

// caller is one of the accounts that play a part.
func (w permCast) caller() string {
	l := []string{
		opAdm.String(), opAdm2.String(), svcAdm.String(), svcAdm2.String(),
		w.Authority, minter.String(), burner.String(), mallory.String(), bob.String(),
		operatorstypes.GetOperatorAddress(1).String(), servicestypes.GetServiceAddress(1).String(),
	}
	return l[rt.Choice("caller", len(l))]
}

type permCast struct{ *env.World }

// verdict asserts that exactly the entitled account gets through.
func verdict(err error, caller, entitled, what string) {
	rt.Assert((err == nil) == (caller == entitled), what)
	if err == nil {
		rt.Reach("accepted")
	} else {
		rt.Reach("refused")
	}
}

func plan(service uint32, amount sdk.Coins, sender string) *rewardstypes.MsgCreateRewardsPlan {
	return rewardstypes.NewMsgCreateRewardsPlan(service, "plan", amount, env.T0, env.T0.Add(time.Hour),
		rewardstypes.NewBasicPoolsDistribution(1), rewardstypes.NewBasicOperatorsDistribution(1), rewardstypes.NewBasicUsersDistribution(1), nil, sender)
}

// C06_operator_admin: the operator messages sent by every account that plays a
// part (the administrators of both operators and both services, the authority,
// minter, burner, the target's own account, a stranger), before or after the
// operator was transferred; only the current administrator gets through.
func C06_operator_admin() {
	w := permWorld()
	ms := operatorskeeper.NewMsgServer(w.Operators)
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	adm := opAdm.String()
	if rt.Choice("transferred", 2) == 1 {
		err := do(w, ms.TransferOperatorOwnership, operatorstypes.NewMsgTransferOperatorOwnership(1, bob.String(), adm))
		rt.Assert(err == nil, "the administrator can transfer")
		adm = bob.String()
		rt.Reach("transferred")
	}
	c := permCast{w}.caller()
	t := Target{kOperator, 1}
	var err error
	switch rt.Choice("message", 9) {
	case 0:
		err = do(w, ms.UpdateOperator, operatorstypes.NewMsgUpdateOperator(1, "x", "", "", c))
		verdict(err, c, adm, "edit operator")
	case 1:
		err = do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(1, c))
		verdict(err, c, adm, "deactivate operator")
	case 2:
		t.setStatus(w, int(operatorstypes.OPERATOR_STATUS_INACTIVE))
		err = do(w, ms.ReactivateOperator, operatorstypes.NewMsgReactivateOperator(1, c))
		verdict(err, c, adm, "reactivate operator")
	case 3:
		t.setStatus(w, int(operatorstypes.OPERATOR_STATUS_INACTIVE))
		err = do(w, ms.DeleteOperator, operatorstypes.NewMsgDeleteOperator(1, c))
		verdict(err, c, adm, "delete operator")
	case 4:
		err = do(w, ms.TransferOperatorOwnership, operatorstypes.NewMsgTransferOperatorOwnership(1, carol.String(), c))
		verdict(err, c, adm, "transfer operator")
	case 5:
		err = do(w, ms.SetOperatorParams, operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(1, 1)), c))
		verdict(err, c, adm, "set operator parameters")
	case 6:
		err = do(w, rs.JoinService, restakingtypes.NewMsgJoinService(1, 1, c))
		verdict(err, c, adm, "join service")
	case 7:
		env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, 1, 1))
		err = do(w, rs.LeaveService, restakingtypes.NewMsgLeaveService(1, 1, c))
		verdict(err, c, adm, "leave service")
	default:
		rw := rewardskeeper.NewMsgServer(w.Rewards)
		x := math.NewInt(100)
		p := rewardstypes.DecPools{rewardstypes.NewDecPool(dM, sdk.NewDecCoins(sdk.NewDecCoin(dA, x)))}
		env.Must(w.Rewards.OperatorAccumulatedCommissions.Set(w.Ctx, 1, rewardstypes.AccumulatedCommission{Commissions: p}))
		env.Must(w.Rewards.OperatorOutstandingRewards.Set(w.Ctx, 1, rewardstypes.OutstandingRewards{Rewards: p}))
		w.Bank.SetBal(w.Ctx, rewardsPool(), dA, x)
		err = do(w, rw.WithdrawOperatorCommission, rewardstypes.NewMsgWithdrawOperatorCommission(1, c))
		verdict(err, c, adm, "withdraw commission")
		if err == nil {
			a, _ := sdk.AccAddressFromBech32(adm)
			rt.Assert(eq(w.Bank.Bal(w.Ctx, a, dA), x), "the administrator is paid")
			rt.Reach("commission")
		}
	}
}

// C06_service_admin: the service messages, callers as for operators; only the
// current administrator of the service gets through.
func C06_service_admin() {
	w := permWorld()
	ms := serviceskeeper.NewMsgServer(w.Services)
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	rw := rewardskeeper.NewMsgServer(w.Rewards)
	adm := svcAdm.String()
	if rt.Choice("transferred", 2) == 1 {
		err := do(w, ms.TransferServiceOwnership, servicestypes.NewMsgTransferServiceOwnership(1, bob.String(), adm))
		rt.Assert(err == nil, "the administrator can transfer")
		adm = bob.String()
		rt.Reach("transferred")
	}
	c := permCast{w}.caller()
	t := Target{kService, 1}
	var err error
	switch rt.Choice("message", 12) {
	case 0:
		err = do(w, ms.UpdateService, servicestypes.NewMsgUpdateService(1, "x", "", "", "", c))
		verdict(err, c, adm, "edit service")
	case 1:
		err = do(w, ms.DeactivateService, servicestypes.NewMsgDeactivateService(1, c))
		verdict(err, c, adm, "deactivate service")
	case 2:
		t.setStatus(w, int(servicestypes.SERVICE_STATUS_CREATED))
		err = do(w, ms.ActivateService, servicestypes.NewMsgActivateService(1, c))
		verdict(err, c, adm, "activate service")
	case 3:
		t.setStatus(w, int(servicestypes.SERVICE_STATUS_INACTIVE))
		err = do(w, ms.DeleteService, servicestypes.NewMsgDeleteService(1, c))
		verdict(err, c, adm, "delete service")
	case 4:
		err = do(w, ms.TransferServiceOwnership, servicestypes.NewMsgTransferServiceOwnership(1, carol.String(), c))
		verdict(err, c, adm, "transfer service")
	case 5:
		err = do(w, ms.SetServiceParams, servicestypes.NewMsgSetServiceParams(1, servicestypes.NewServiceParams([]string{dM}), c))
		verdict(err, c, adm, "set service parameters")
	case 6:
		err = do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(1, 1, c))
		verdict(err, c, adm, "allow operator")
	case 7:
		env.Must(w.Restaking.AddOperatorToServiceAllowList(w.Ctx, 1, 1))
		err = do(w, rs.RemoveOperatorFromAllowlist, restakingtypes.NewMsgRemoveOperatorFromAllowList(1, 1, c))
		verdict(err, c, adm, "disallow operator")
	case 8:
		err = do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(1, 1, c))
		verdict(err, c, adm, "borrow pool security")
	case 9:
		env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, 1, 1))
		err = do(w, rs.CeasePoolSecurityBorrow, restakingtypes.NewMsgCeasePoolSecurityBorrow(1, 1, c))
		verdict(err, c, adm, "cease pool security")
	case 10:
		err = do(w, rw.CreateRewardsPlan, plan(1, sdk.NewCoins(sdk.NewInt64Coin(dA, 5)), c))
		verdict(err, c, adm, "create rewards plan")
	default:
		p := plan(1, sdk.NewCoins(sdk.NewInt64Coin(dA, 5)), adm)
		rt.Assert(do(w, rw.CreateRewardsPlan, p) == nil, "plan created")
		e := rewardstypes.NewMsgEditRewardsPlan(1, "new", p.Amount, p.StartTime, p.EndTime, p.PoolsDistribution, p.OperatorsDistribution, p.UsersDistribution, c)
		err = do(w, rw.EditRewardsPlan, e)
		verdict(err, c, adm, "edit rewards plan")
	}
}

// C06_authority: the governance messages of every module, callers as for
// operators; only the authority gets through, and only minters mint, burners burn.
func C06_authority() {
	w := permWorld()
	c := permCast{w}.caller()
	ss := serviceskeeper.NewMsgServer(w.Services)
	as := assetskeeper.NewMsgServer(w.Assets)
	lv := liquidvestingkeeper.NewMsgServer(w.LV)
	g := w.Authority
	one := sdk.NewCoins(sdk.NewInt64Coin(dM, 1))
	switch rt.Choice("message", 11) {
	case 0:
		verdict(do(w, ss.AccreditService, servicestypes.NewMsgAccreditService(2, c)), c, g, "accredit")
	case 1:
		verdict(do(w, ss.RevokeServiceAccreditation, servicestypes.NewMsgRevokeServiceAccreditation(1, c)), c, g, "revoke accreditation")
	case 2:
		verdict(do(w, ss.UpdateParams, servicestypes.NewMsgUpdateParams(servicestypes.NewParams(one), c)), c, g, "services parameters")
	case 3:
		m := operatorstypes.NewMsgUpdateParams(operatorstypes.NewParams(one, time.Hour), c)
		verdict(do(w, operatorskeeper.NewMsgServer(w.Operators).UpdateParams, m), c, g, "operators parameters")
	case 4:
		m := restakingtypes.NewMsgUpdateParams(restakingtypes.NewParams(time.Hour, nil), c)
		verdict(do(w, restakingkeeper.NewMsgServer(w.Restaking).UpdateParams, m), c, g, "restaking parameters")
	case 5:
		m := &rewardstypes.MsgUpdateParams{Authority: c, Params: rewardstypes.NewParams(one)}
		verdict(do(w, rewardskeeper.NewMsgServer(w.Rewards).UpdateParams, m), c, g, "rewards parameters")
	case 6:
		m := liquidvestingtypes.NewMsgUpdateParams(c, liquidvestingtypes.DefaultParams())
		verdict(do(w, lv.UpdateParams, m), c, g, "liquid vesting parameters")
	case 7:
		verdict(do(w, as.RegisterAsset, assetstypes.NewMsgRegisterAsset(c, assetstypes.NewAsset(dM, "MILK", 6))), c, g, "register asset")
	case 8:
		env.Must(w.Assets.SetAsset(w.Ctx, assetstypes.NewAsset(dM, "MILK", 6)))
		verdict(do(w, as.DeregisterAsset, assetstypes.NewMsgDeregisterAsset(c, dM)), c, g, "deregister asset")
	case 9:
		verdict(do(w, lv.MintLockedRepresentation, liquidvestingtypes.NewMsgMintLockedRepresentation(c, alice.String(), one)), c, minter.String(), "mint")
	default:
		env.Must(do(w, lv.MintLockedRepresentation, liquidvestingtypes.NewMsgMintLockedRepresentation(minter.String(), alice.String(), one)))
		locked := sdk.NewCoins(sdk.NewInt64Coin("locked/"+dM, 1))
		verdict(do(w, lv.BurnLockedRepresentation, liquidvestingtypes.NewMsgBurnLockedRepresentation(c, alice.String(), locked)), c, burner.String(), "burn")
	}
}
