// Package ha has the harnesses of the transaction checks.
package ha

import (
	"context"
	"errors"
	"math/big"

	"cosmossdk.io/core/address"
	"cosmossdk.io/math"
	txsigning "cosmossdk.io/x/tx/signing"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
	addresscodec "github.com/cosmos/cosmos-sdk/codec/address"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	bankkeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1beta1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	stakingkeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	ibckeeper "github.com/cosmos/ibc-go/v8/modules/core/keeper"
	feemarketkeeper "github.com/skip-mev/feemarket/x/feemarket/keeper"
	protov2 "google.golang.org/protobuf/proto"

	"github.com/milkyway-labs/milkyway/v3/ante"
	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
)

var alice, bob = env.Addr(1), env.Addr(2)

type tx struct{ msgs []sdk.Msg }

func (t tx) GetMsgs() []sdk.Msg                    { return t.msgs }
func (t tx) GetMsgsV2() ([]protov2.Message, error) { return nil, nil }

// staker is the account keeper that the staking keeper wants.
type staker struct{ env.Accounts }

func (staker) IterateAccounts(context.Context, func(sdk.AccountI) bool)    {}
func (staker) GetAccount(context.Context, sdk.AccAddress) sdk.AccountI     { return nil }
func (staker) SetModuleAccount(context.Context, sdk.ModuleAccountI)        {}
func (staker) GetModuleAccount(context.Context, string) sdk.ModuleAccountI { return nil }
func (staker) AddressCodec() address.Codec                                 { return addresscodec.NewBech32Codec("cosmos") }

// checked runs a decorator and says whether it lets the transaction through.
func checked(w *env.World, d sdk.AnteDecorator, msgs []sdk.Msg) bool {
	called := false
	err, p := w.Try(func(ctx sdk.Context) error {
		_, err := d.AnteHandle(ctx, tx{msgs}, false, func(ctx sdk.Context, tx sdk.Tx, simulate bool) (sdk.Context, error) {
			called = true
			return ctx, nil
		})
		return err
	})
	rt.Assert(!p, "the check does not panic")
	rt.Assert(called == (err == nil), "the rest is run exactly if the check passes")
	return called
}

// vote is a vote of a user in one of the four forms.
func vote(kind int, u string) sdk.Msg {
	switch kind {
	case 0:
		return &govv1beta1.MsgVote{ProposalId: 1, Voter: u, Option: govv1beta1.OptionYes}
	case 1:
		return &govv1.MsgVote{ProposalId: 1, Voter: u, Option: govv1.OptionYes}
	case 2:
		return &govv1beta1.MsgVoteWeighted{ProposalId: 1, Voter: u}
	default:
		return &govv1.MsgVoteWeighted{ProposalId: 1, Voter: u}
	}
}

// wrapped puts a message inside executions on behalf of others.
func wrapped(m sdk.Msg, depth int) sdk.Msg {
	for range depth {
		a, err := codectypes.NewAnyWithValue(m)
		env.Must(err)
		o, err := codectypes.NewAnyWithValue(&banktypes.MsgSend{FromAddress: bob.String()})
		env.Must(err)
		m = &authz.MsgExec{Grantee: bob.String(), Msgs: []*codectypes.Any{o, a}}
	}
	return m
}

func newStaking(w *env.World) *stakingkeeper.Keeper {
	return stakingkeeper.NewKeeper(w.Cdc, env.Service{Name: "staking"}, staker{w.Acc}, nil, w.Authority,
		addresscodec.NewBech32Codec("cosmosvaloper"), addresscodec.NewBech32Codec("cosmosvalcons"))
}

// C23_votes: a user with up to three delegations of any size to validators, of which
// some have been slashed, sends a vote in one of the four forms, alone or after another message,
// directly or inside up to two layers of executions on behalf of another. It is let through exactly if the
// tokens delegated are at least the minimum; other messages always are.
func C23_votes() {
	w := env.NewWorld(env.Opts{})
	k := newStaking(w)
	total := math.LegacyZeroDec()
	for i := range rt.Choice("delegations", 4) {
		v := stakingtypes.Validator{OperatorAddress: sdk.ValAddress(env.Addr(byte(10 + i))).String(), MinSelfDelegation: math.OneInt()}
		shares := math.LegacyNewDecFromInt(math.NewIntFromBigInt(rt.Big("shares", "1", "2^60")))
		v.Tokens, v.DelegatorShares = math.NewInt(1000), math.LegacyNewDec(1000)
		rate := math.LegacyOneDec()
		if i == 0 && rt.Bool("slashed") {
			v.Tokens, rate = math.NewInt(950), math.LegacyMustNewDecFromStr("0.95")
		}
		env.Must(k.SetValidator(w.Ctx, v))
		env.Must(k.SetDelegation(w.Ctx, stakingtypes.NewDelegation(alice.String(), v.OperatorAddress, shares)))
		total = total.Add(shares.Mul(rate))
	}
	kind := rt.Choice("form", 5)
	var m sdk.Msg = &banktypes.MsgSend{FromAddress: alice.String()}
	if kind < 4 {
		m = vote(kind, alice.String())
	}
	m = wrapped(m, rt.Choice("depth", 3))
	msgs := []sdk.Msg{m}
	if rt.Bool("second") {
		msgs = []sdk.Msg{&banktypes.MsgSend{FromAddress: bob.String()}, m}
	}
	got := checked(w, ante.NewGovVoteDecorator(w.Cdc, k), msgs)
	rt.Assert(got == (kind == 4 || total.GTE(math.LegacyNewDec(1000000))), "a vote needs the minimum stake, nothing else does")
	if got {
		rt.Reach("passed")
	} else {
		rt.Reach("refused")
	}
}

// action is an action of a proposal: the first two may be decided in a hurry, the others not.
func action(kind int) sdk.Msg {
	switch kind {
	case 0:
		return &upgradetypes.MsgSoftwareUpgrade{Authority: bob.String()}
	case 1:
		return &upgradetypes.MsgCancelUpgrade{Authority: bob.String()}
	case 2:
		return &banktypes.MsgSend{FromAddress: bob.String()}
	default:
		a, err := codectypes.NewAnyWithValue(&govv1beta1.TextProposal{Title: "t", Description: "d"})
		env.Must(err)
		return &govv1.MsgExecLegacyContent{Content: a, Authority: bob.String()}
	}
}

// C23_expedited: a proposal with up to two actions (an upgrade, the cancellation of one,
// a payment or a legacy content), expedited or not, is sent after another message or proposal,
// directly or inside up to two layers of executions on behalf of another. It is let
// through exactly if it is not expedited or its actions are all upgrades or
// cancellations, of which there is at least one.
func C23_expedited() {
	w := env.NewWorld(env.Opts{})
	ok := true
	submit := func(tag string, max int) sdk.Msg {
		p := &govv1.MsgSubmitProposal{Proposer: alice.String(), Expedited: rt.Bool(tag + "expedited")}
		n, good := rt.Choice(tag+"actions", max+1), true
		for range n {
			k := rt.Choice(tag+"action", 4)
			a, err := codectypes.NewAnyWithValue(action(k))
			env.Must(err)
			p.Messages = append(p.Messages, a)
			good = good && k < 2
		}
		ok = ok && (!p.Expedited || n > 0 && good)
		return wrapped(p, rt.Choice(tag+"depth", 3))
	}
	var msgs []sdk.Msg
	switch rt.Choice("before", 3) {
	case 1:
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: bob.String()})
	case 2:
		msgs = append(msgs, submit("first ", 1))
	}
	msgs = append(msgs, submit("", 2))
	got := checked(w, ante.NewGovExpeditedProposalsDecorator(w.Cdc), msgs)
	rt.Assert(got == ok, "expedited proposals have only upgrades and cancellations, others anything")
	if got {
		rt.Reach("passed")
	} else {
		rt.Reach("refused")
	}
}

// The transaction of the whole chain of checks stops at the first check of signatures.
var errSignatures = errors.New("signatures")

func (t tx) GetGas() uint64                                  { return 1000000000 }
func (t tx) GetMemo() string                                 { return "" }
func (t tx) GetTimeoutHeight() uint64                        { return 0 }
func (t tx) GetSigners() ([][]byte, error)                   { return nil, nil }
func (t tx) GetPubKeys() ([]cryptotypes.PubKey, error)       { return nil, errSignatures }
func (t tx) GetSignaturesV2() ([]signing.SignatureV2, error) { return nil, nil }

type banker struct{ bankkeeper.Keeper }

func (staker) SetAccount(context.Context, sdk.AccountI)                           {}
func (staker) NewAccountWithAddress(context.Context, sdk.AccAddress) sdk.AccountI { return nil }
func (staker) GetParams(context.Context) authtypes.Params                         { return authtypes.DefaultParams() }

// C23_chain: the chain of checks of the chain itself, up to the signatures, refuses
// the votes without stake, whether they are new or checked again, and the expedited proposals that
// are not upgrades, and lets the others go on to the check of signatures.
func C23_chain() {
	w := env.NewWorld(env.Opts{})
	k := newStaking(w)
	handler, err := ante.NewAnteHandler(ante.HandlerOptions{
		AccountKeeper: staker{w.Acc}, BankKeeper: banker{}, Codec: w.Cdc, SignModeHandler: &txsigning.HandlerMap{},
		IBCkeeper: &ibckeeper.Keeper{}, FeeMarketKeeper: &feemarketkeeper.Keeper{}, StakingKeeper: k,
		TXCounterStoreService: env.Service{Name: "wasm"}, WasmConfig: &wasmtypes.WasmConfig{},
	})
	env.Must(err)
	stake := rt.Big("stake", "0", "2^60")
	v := stakingtypes.Validator{OperatorAddress: sdk.ValAddress(env.Addr(10)).String(), MinSelfDelegation: math.OneInt(),
		Tokens: math.NewInt(1000), DelegatorShares: math.LegacyNewDec(1000)}
	env.Must(k.SetValidator(w.Ctx, v))
	if stake.Sign() > 0 {
		env.Must(k.SetDelegation(w.Ctx, stakingtypes.NewDelegation(alice.String(), v.OperatorAddress,
			math.LegacyNewDecFromInt(math.NewIntFromBigInt(stake)))))
	}
	enough := stake.Cmp(big.NewInt(1000000)) >= 0
	var m sdk.Msg
	ok := true
	switch kind := rt.Choice("form", 6); kind {
	case 4:
		m = &banktypes.MsgSend{FromAddress: alice.String()}
	case 5:
		k := rt.Choice("action", 4)
		a, err := codectypes.NewAnyWithValue(action(k))
		env.Must(err)
		m = &govv1.MsgSubmitProposal{Proposer: alice.String(), Expedited: true, Messages: []*codectypes.Any{a}}
		ok = k < 2
	default:
		m, ok = vote(kind, alice.String()), enough
	}
	var refusal error
	err, p := w.Try(func(ctx sdk.Context) error {
		ctx = ctx.WithIsCheckTx(rt.Bool("check")).WithBlockHeight(2)
		_, refusal = handler(ctx, tx{[]sdk.Msg{wrapped(m, rt.Choice("depth", 2))}}, false)
		return refusal
	})
	rt.Assert(!p && err != nil, "the check does not panic")
	rt.Assert(errors.Is(refusal, errSignatures) == ok, "the signatures are checked next exactly if the transaction is good")
	if ok {
		rt.Reach("passed")
	} else {
		rt.Reach("refused")
	}
}
