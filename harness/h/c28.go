package h

import (
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// twin is a copy of a chain.
func twin(w *env.World) *env.World {
	n := env.NewWorld(env.Opts{})
	n.Ctx = n.Ctx.WithBlockHeader(w.Ctx.BlockHeader())
	*n.Oracle = *w.Oracle
	for _, m := range append([]string{"bank", "meta", "acc"}, modules...) {
		n.CopyStore(w, m)
	}
	return n
}

// C28_spelling: the chain on which most things have happened and any of 26
// messages about any amount, in which one account is spelled in capital letters. It is refused or does
// what it does when the account is spelled as usual.
func C28_spelling() {
	w := rich()
	n := twin(w)
	kind := rt.Choice("message", 26)
	a := math.NewInt(1000)
	k := 0
	switch {
	case kind == 0:
		k = rt.Choice("target", 3)
		a = pos("amount")
		hold(w, alice, dM, a)
		hold(n, alice, dM, a)
	case kind == 1:
		k = rt.Choice("target", 3)
	}
	send := func(w *env.World, spell func(a sdk.AccAddress) string) error {
		al, adm, oadm := spell(alice), spell(svcAdm), spell(opAdm)
		c := sdk.Coins{coin(dM, a)}
		rs, os, ss := restakingkeeper.NewMsgServer(w.Restaking), operatorskeeper.NewMsgServer(w.Operators), serviceskeeper.NewMsgServer(w.Services)
		ws, ls := rewardskeeper.NewMsgServer(w.Rewards), liquidvestingkeeper.NewMsgServer(w.LV)
		switch kind {
		case 0:
			switch k {
			case kPool:
				return do(w, rs.DelegatePool, restakingtypes.NewMsgDelegatePool(c[0], al))
			case kOperator:
				return do(w, rs.DelegateOperator, restakingtypes.NewMsgDelegateOperator(1, c, al))
			default:
				return do(w, rs.DelegateService, restakingtypes.NewMsgDelegateService(1, c, al))
			}
		case 1:
			c = sdk.Coins{coin(lM, a)}
			switch k {
			case kPool:
				return do(w, rs.UndelegatePool, restakingtypes.NewMsgUndelegatePool(c[0], al))
			case kOperator:
				return do(w, rs.UndelegateOperator, restakingtypes.NewMsgUndelegateOperator(1, c, al))
			default:
				return do(w, rs.UndelegateService, restakingtypes.NewMsgUndelegateService(1, c, al))
			}
		case 2:
			return do(w, rs.SetUserPreferences, restakingtypes.NewMsgSetUserPreferences(restakingtypes.NewUserPreferences(true, true, []uint32{1}), al))
		case 3:
			return do(w, ws.SetWithdrawAddress, rewardstypes.NewMsgSetWithdrawAddress(bob.String(), al))
		case 4:
			return do(w, ws.SetWithdrawAddress, rewardstypes.NewMsgSetWithdrawAddress(al, bob.String()))
		case 5:
			return do(w, ws.WithdrawDelegatorReward, rewardstypes.NewMsgWithdrawDelegatorReward(restakingtypes.DELEGATION_TYPE_OPERATOR, 1, al))
		case 6:
			return do(w, ws.WithdrawOperatorCommission, rewardstypes.NewMsgWithdrawOperatorCommission(1, oadm))
		case 7:
			return do(w, ls.WithdrawInsuranceFund, liquidvestingtypes.NewMsgWithdrawInsuranceFund(al, c))
		case 8:
			return do(w, ls.MintLockedRepresentation, liquidvestingtypes.NewMsgMintLockedRepresentation(minter.String(), al, c))
		case 9:
			return do(w, ls.MintLockedRepresentation, liquidvestingtypes.NewMsgMintLockedRepresentation(spell(minter), bob.String(), c))
		case 10:
			return do(w, ls.BurnLockedRepresentation, liquidvestingtypes.NewMsgBurnLockedRepresentation(burner.String(), al, sdk.Coins{coin(lM, a)}))
		case 11:
			return do(w, os.RegisterOperator, operatorstypes.NewMsgRegisterOperator("o", "", "", nil, al))
		case 12:
			return do(w, os.UpdateOperator, operatorstypes.NewMsgUpdateOperator(1, "x", "", "", oadm))
		case 13:
			return do(w, os.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(1, oadm))
		case 14:
			return do(w, os.TransferOperatorOwnership, operatorstypes.NewMsgTransferOperatorOwnership(1, al, opAdm.String()))
		case 15:
			return do(w, os.SetOperatorParams, operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyZeroDec()), oadm))
		case 16:
			return do(w, ss.CreateService, servicestypes.NewMsgCreateService("s", "", "", "", nil, al))
		case 17:
			return do(w, ss.UpdateService, servicestypes.NewMsgUpdateService(1, "x", "", "", "", adm))
		case 18:
			return do(w, ss.DeactivateService, servicestypes.NewMsgDeactivateService(1, adm))
		case 19:
			return do(w, ss.TransferServiceOwnership, servicestypes.NewMsgTransferServiceOwnership(1, al, svcAdm.String()))
		case 20:
			return do(w, rs.JoinService, restakingtypes.NewMsgJoinService(1, 2, oadm))
		case 21:
			return do(w, rs.LeaveService, restakingtypes.NewMsgLeaveService(1, 1, oadm))
		case 22:
			return do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(2, 1, adm))
		case 23:
			return do(w, rs.RemoveOperatorFromAllowlist, restakingtypes.NewMsgRemoveOperatorFromAllowList(1, 1, adm))
		case 24:
			m := plan(1, sdk.Coins{coin(dR, a)}, adm)
			m.StartTime, m.EndTime = w.Ctx.BlockTime(), w.Ctx.BlockTime().Add(day)
			_, err := createPlan(w, m)
			return err
		default:
			env.Must(w.LV.SetParams(w.Ctx, liquidvestingtypes.NewParams(math.LegacyNewDec(2), nil, nil, []string{trusted}, []string{"channel-3"})))
			d := transfertypes.FungibleTokenPacketData{Denom: "uatom", Amount: "1000", Sender: trusted, Receiver: lvAddr.String(),
				Memo: depositMemo([]string{al}, []string{"1000"})}
			if ok, _ := recv(w, packetOf(d, "channel-3"), d, false); !ok {
				return errPanicked{}
			}
			return nil
		}
	}
	usual := send(w, sdk.AccAddress.String)
	loud := send(n, func(a sdk.AccAddress) string { return strings.ToUpper(a.String()) })
	if loud != nil {
		rt.Reach("refused")
		return
	}
	rt.Reach("accepted")
	rt.Assert(usual == nil, "only what is accepted otherwise is accepted")
	same(w, n)
	a1, b1 := w.Dump("bank"), n.Dump("bank")
	rt.Assert(len(a1) == len(b1), "the same balances exist")
	for i := range a1 {
		rt.Assert(i < len(b1) && a1[i].Key == b1[i].Key && rt.SameBytes(a1[i].Val, b1[i].Val), "the balances are the same")
	}
}
