// Package h holds the harnesses: each function states one property of the
// code under test over symbolic inputs.
package h

import (
	"context"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

const (
	dM = "umilk"
	dT = "utia"
)

var (
	alice   = env.Addr(1)
	bob     = env.Addr(2)
	carol   = env.Addr(3)
	svcAdm  = env.Addr(8)
	opAdm   = env.Addr(9)
	mallory = env.Addr(7)
)

// far is an identifier whose encoding takes more than one byte.
const far = 300

// the targets every world has
const (
	kPool = iota
	kOperator
	kService
)

// M is a symbolic amount in [0, 2^90].
func amt(name string) math.Int { return math.NewIntFromBigInt(rt.Big(name, "0", "2^90")) }

// pos is a symbolic amount in [1, 2^90].
func pos(name string) math.Int { return math.NewIntFromBigInt(rt.Big(name, "1", "2^90")) }

func coin(d string, a math.Int) sdk.Coin { return sdk.Coin{Denom: d, Amount: a} }

func eq(a, b math.Int) bool { return a.Equal(b) }

type validator interface{ ValidateBasic() error }

// deliver runs one message the way the application does: stateless checks,
// then the handler on a branch of the state that is kept only on success.
func deliver(w *env.World, msg any, f func(ctx sdk.Context) error) (err error, panicked bool) {
	if v, ok := msg.(validator); ok {
		if err := v.ValidateBasic(); err != nil {
			return err, false
		}
	}
	return w.Try(f)
}

// do is deliver for handlers that must not panic on well-formed input.
func do[T any, R any](w *env.World, h func(context.Context, *T) (R, error), msg *T) error {
	err, p := deliver(w, msg, func(ctx sdk.Context) error {
		_, err := h(ctx, msg)
		return err
	})
	if p {
		rt.Assert(false, "handler panicked")
		return errPanicked{}
	}
	return err
}

type errPanicked struct{}

func (errPanicked) Error() string { return "panicked" }

// Target is a delegation target of one of the three kinds.
type Target struct {
	Kind int
	ID   uint32
}

func (t Target) Addr() sdk.AccAddress {
	switch t.Kind {
	case kPool:
		return poolstypes.GetPoolAddress(t.ID)
	case kOperator:
		return operatorstypes.GetOperatorAddress(t.ID)
	default:
		return servicestypes.GetServiceAddress(t.ID)
	}
}

func (t Target) Type() restakingtypes.DelegationType {
	switch t.Kind {
	case kPool:
		return restakingtypes.DELEGATION_TYPE_POOL
	case kOperator:
		return restakingtypes.DELEGATION_TYPE_OPERATOR
	default:
		return restakingtypes.DELEGATION_TYPE_SERVICE
	}
}

func (t Target) Get(w *env.World) restakingtypes.DelegationTarget {
	switch t.Kind {
	case kPool:
		p, ok, err := w.Pools.GetPool(w.Ctx, t.ID)
		env.Must(err)
		if !ok {
			panic("no pool")
		}
		return p
	case kOperator:
		p, ok, err := w.Operators.GetOperator(w.Ctx, t.ID)
		env.Must(err)
		if !ok {
			panic("no operator")
		}
		return p
	default:
		p, ok, err := w.Services.GetService(w.Ctx, t.ID)
		env.Must(err)
		if !ok {
			panic("no service")
		}
		return p
	}
}

// ShareDenom names the shares of the target.
func (t Target) ShareDenom(d string) string {
	switch t.Kind {
	case kPool:
		return poolstypes.Pool{ID: t.ID}.GetSharesDenom(d)
	case kOperator:
		return operatorstypes.Operator{ID: t.ID}.GetSharesDenom(d)
	default:
		return servicestypes.Service{ID: t.ID}.GetSharesDenom(d)
	}
}

// Tokens is the amount of a denom the target records.
func (t Target) Tokens(w *env.World, d string) math.Int { return t.Get(w).GetTokens().AmountOf(d) }

// Shares is the amount of the target's shares.
func (t Target) Shares(w *env.World, d string) math.LegacyDec {
	return t.Get(w).GetDelegatorShares().AmountOf(t.ShareDenom(d))
}

// DelShares is the amount of shares a user's delegation holds.
func (t Target) DelShares(w *env.World, user sdk.AccAddress, d string) math.LegacyDec {
	del, ok := t.Delegation(w, user)
	if !ok {
		return math.LegacyZeroDec()
	}
	return del.Shares.AmountOf(t.ShareDenom(d))
}

func (t Target) Delegation(w *env.World, user sdk.AccAddress) (restakingtypes.Delegation, bool) {
	var del restakingtypes.Delegation
	var ok bool
	var err error
	switch t.Kind {
	case kPool:
		del, ok, err = w.Restaking.GetPoolDelegation(w.Ctx, t.ID, user.String())
	case kOperator:
		del, ok, err = w.Restaking.GetOperatorDelegation(w.Ctx, t.ID, user.String())
	default:
		del, ok, err = w.Restaking.GetServiceDelegation(w.Ctx, t.ID, user.String())
	}
	env.Must(err)
	return del, ok
}

// Unbonding is the sum of the user's pending unbonding entries.
func (t Target) Unbonding(w *env.World, user sdk.AccAddress, d string) math.Int {
	r := math.ZeroInt()
	ubd, ok, err := w.Restaking.GetUnbondingDelegation(w.Ctx, user.String(), t.Type(), t.ID)
	env.Must(err)
	if !ok {
		return r
	}
	for _, e := range ubd.Entries {
		r = r.Add(e.Balance.AmountOf(d))
	}
	return r
}

// setTotals overwrites the recorded tokens and shares of the target.
func (t Target) setTotals(w *env.World, tokens sdk.Coins, shares sdk.DecCoins) {
	switch t.Kind {
	case kPool:
		p := t.Get(w).(poolstypes.Pool)
		p.Tokens = tokens.AmountOf(p.Denom)
		p.DelegatorShares = shares.AmountOf(t.ShareDenom(p.Denom))
		env.Must(w.Pools.SavePool(w.Ctx, p))
	case kOperator:
		p := t.Get(w).(operatorstypes.Operator)
		p.Tokens, p.DelegatorShares = tokens, shares
		env.Must(w.Operators.SaveOperator(w.Ctx, p))
	default:
		p := t.Get(w).(servicestypes.Service)
		p.Tokens, p.DelegatorShares = tokens, shares
		env.Must(w.Services.SaveService(w.Ctx, p))
	}
}

// setDelegation stores a user's delegation.
func (t Target) setDelegation(w *env.World, user sdk.AccAddress, shares sdk.DecCoins) {
	var d restakingtypes.Delegation
	switch t.Kind {
	case kPool:
		d = restakingtypes.NewPoolDelegation(t.ID, user.String(), shares)
	case kOperator:
		d = restakingtypes.NewOperatorDelegation(t.ID, user.String(), shares)
	default:
		d = restakingtypes.NewServiceDelegation(t.ID, user.String(), shares)
	}
	env.Must(w.Restaking.SetDelegation(w.Ctx, d))
}

// Delegate and Undelegate send the message for the target's kind.
func (t Target) Delegate(w *env.World, user sdk.AccAddress, c sdk.Coins) error {
	ms := restakingkeeper.NewMsgServer(w.Restaking)
	switch t.Kind {
	case kPool:
		return do(w, ms.DelegatePool, restakingtypes.NewMsgDelegatePool(c[0], user.String()))
	case kOperator:
		return do(w, ms.DelegateOperator, restakingtypes.NewMsgDelegateOperator(t.ID, c, user.String()))
	default:
		return do(w, ms.DelegateService, restakingtypes.NewMsgDelegateService(t.ID, c, user.String()))
	}
}

func (t Target) Undelegate(w *env.World, user sdk.AccAddress, c sdk.Coins) error {
	ms := restakingkeeper.NewMsgServer(w.Restaking)
	switch t.Kind {
	case kPool:
		return do(w, ms.UndelegatePool, restakingtypes.NewMsgUndelegatePool(c[0], user.String()))
	case kOperator:
		return do(w, ms.UndelegateOperator, restakingtypes.NewMsgUndelegateOperator(t.ID, c, user.String()))
	default:
		return do(w, ms.UndelegateService, restakingtypes.NewMsgUndelegateService(t.ID, c, user.String()))
	}
}

// endRestaking runs the restaking end blocker.
func endRestaking(w *env.World) error {
	err, p := w.Try(func(ctx sdk.Context) error { return w.End(ctx, "restaking") })
	if p {
		return errPanicked{}
	}
	return err
}

// base creates operator 1, service 1 (both active) and the pool of umilk.
func base(o env.Opts) *env.World {
	w := env.NewWorld(o)
	w.InitDefaults()
	addOperator(w, 1)
	addService(w, 1, servicestypes.SERVICE_STATUS_ACTIVE, true)
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dM)
	env.Must(err)
	return w
}

func addOperator(w *env.World, id uint32) {
	op := operatorstypes.NewOperator(id, operatorstypes.OPERATOR_STATUS_ACTIVE, "op", "", "", opAdm.String())
	env.Must(w.Operators.CreateOperator(w.Ctx, op))
	env.Must(w.Operators.SetNextOperatorID(w.Ctx, id+1))
}

func addService(w *env.World, id uint32, st servicestypes.ServiceStatus, accredited bool) {
	sv := servicestypes.NewService(id, st, "svc", "", "", "", svcAdm.String(), accredited)
	env.Must(w.Services.CreateService(w.Ctx, sv))
	env.Must(w.Services.SetNextServiceID(w.Ctx, id+1))
}

const unbond = restakingtypes.DefaultUnbondingTime

var _ = time.Second
var oneDec = math.LegacyOneDec()

func dec(i math.Int) math.LegacyDec { return math.LegacyNewDecFromInt(i) }

type int64Dur int64

func (d int64Dur) d() time.Duration { return time.Duration(d) }

// beginOperators runs the operators begin blocker.
func beginOperators(w *env.World) error {
	err, p := w.Try(func(ctx sdk.Context) error { return w.Begin(ctx, "operators") })
	if p {
		return errPanicked{}
	}
	return err
}

// rewardsPool is the account the distributed rewards wait in.
func rewardsPool() sdk.AccAddress { return authtypes.NewModuleAddress(rewardstypes.RewardsPoolName) }

// Deactivate and Delete are sent by the administrator.
func (t Target) Deactivate(w *env.World) error {
	if t.Kind == kOperator {
		return do(w, operatorskeeper.NewMsgServer(w.Operators).DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(t.ID, opAdm.String()))
	}
	return do(w, serviceskeeper.NewMsgServer(w.Services).DeactivateService, servicestypes.NewMsgDeactivateService(t.ID, svcAdm.String()))
}

func (t Target) Delete(w *env.World) error {
	if t.Kind == kOperator {
		return do(w, operatorskeeper.NewMsgServer(w.Operators).DeleteOperator, operatorstypes.NewMsgDeleteOperator(t.ID, opAdm.String()))
	}
	return do(w, serviceskeeper.NewMsgServer(w.Services).DeleteService, servicestypes.NewMsgDeleteService(t.ID, svcAdm.String()))
}

// beginBlock and endBlock run the block hooks of the modules in the
// application's order.
func beginBlock(w *env.World) error {
	err, p := w.Try(w.BeginBlock)
	if p {
		return errPanicked{}
	}
	return err
}

func endBlock(w *env.World) error {
	err, p := w.Try(w.EndBlock)
	if p {
		return errPanicked{}
	}
	return err
}
