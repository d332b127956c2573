package env

import (
	"context"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolskeeper "github.com/milkyway-labs/milkyway/v3/x/pools/keeper"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// World is the set of keepers wired as the application wires them.
type World struct {
	Ctx    sdk.Context
	Cdc    Codec
	Bank   *Bank
	Acc    Accounts
	CP     CommunityPool
	Oracle *Oracle

	// choices made on this world, and those it repeats
	Said, Heard []any

	// the genesis states it was started from
	Exports [][]byte

	Authority string

	Pools     *poolskeeper.Keeper
	Operators *operatorskeeper.Keeper
	Services  *serviceskeeper.Keeper
	Restaking *restakingkeeper.Keeper
	Assets    *assetskeeper.Keeper
	Rewards   *rewardskeeper.Keeper
	LV        *liquidvestingkeeper.Keeper

	Packet transfertypes.FungibleTokenPacketData // the one being received
}

// Oracle quotes fixed prices per ticker. As in the real one, a market that has not
// been quoted yet has the zero quote, whose price is nil.
type Oracle struct {
	Price    map[string]math.Int
	Decimals uint64
}

func (o *Oracle) GetPriceWithNonceForCurrencyPair(_ sdk.Context, cp connecttypes.CurrencyPair) (oracletypes.QuotePriceWithNonce, error) {
	p, ok := o.Price[cp.Base]
	if !ok {
		return oracletypes.QuotePriceWithNonce{}, collections.ErrNotFound
	}
	return oracletypes.QuotePriceWithNonce{QuotePrice: oracletypes.QuotePrice{Price: p}}, nil
}

func (o *Oracle) GetDecimalsForCurrencyPair(_ sdk.Context, _ connecttypes.CurrencyPair) (uint64, error) {
	return o.Decimals, nil
}

// T0 is the block time every world starts from.
var T0 = time.Unix(1700000000, 0).UTC()

// Opts selects the collaborators a harness needs.
type Opts struct {
	NoHooks        bool // restaking hooks off: the staking core alone
	NoRestrictions bool // no send and restake restrictions
}

func NewWorld(o Opts) *World {
	w := &World{Cdc: Codec{}}
	w.Authority = authtypes.NewModuleAddress("gov").String()
	ms := &MS{}
	ctx := sdk.Context{}.WithMultiStore(ms).
		WithBlockHeader(cmtproto.Header{Height: 10, Time: T0, ChainID: "verif"}).
		WithLogger(log.NewNopLogger()).
		WithEventManager(sdk.NewEventManager()).
		WithContext(context.Background())
	w.Ctx = ctx
	w.Bank = &Bank{MintBurn: map[string]bool{liquidvestingtypes.ModuleName: true}, Blocked: map[string]bool{}}
	for m := range moduleAccounts {
		if m != "gov" && m != liquidvestingtypes.ModuleName {
			w.Bank.Blocked[authtypes.NewModuleAddress(m).String()] = true
		}
	}
	w.CP = CommunityPool{w.Bank}
	w.Oracle = &Oracle{Price: map[string]math.Int{}, Decimals: 0}
	w.Pools = poolskeeper.NewKeeper(w.Cdc, Service{"pools"}, w.Acc)
	w.Operators = operatorskeeper.NewKeeper(w.Cdc, Service{"operators"}, w.Acc, w.CP, w.Authority)
	w.Services = serviceskeeper.NewKeeper(w.Cdc, Service{"services"}, w.Acc, w.CP, w.Authority)
	w.Restaking = restakingkeeper.NewKeeper(w.Cdc, Service{"restaking"}, w.Acc, w.Bank, w.Pools, w.Operators, w.Services, w.Authority)
	w.Assets = assetskeeper.NewKeeper(w.Cdc, Service{"assets"}, w.Authority)
	w.Rewards = rewardskeeper.NewKeeper(w.Cdc, Service{"rewards"}, w.Acc, w.Bank, w.CP, w.Oracle, w.Pools, w.Operators, w.Services, w.Restaking, w.Assets, w.Authority)
	w.LV = liquidvestingkeeper.NewKeeper(w.Cdc, Service{"liquidvesting"}, w.Acc, w.Bank, w.Operators, w.Pools, w.Services, w.Restaking,
		authtypes.NewModuleAddress(liquidvestingtypes.ModuleName).String(), w.Authority)
	if !o.NoRestrictions {
		w.Bank.Restriction = w.LV.SendRestrictionFn
		w.Restaking.SetRestakeRestriction(w.LV.RestakeRestrictionFn)
	}
	if !o.NoHooks {
		w.Pools.SetHooks(w.Rewards.PoolsHooks())
		w.Operators.SetHooks(operatorstypes.NewMultiOperatorsHooks(w.Restaking.OperatorsHooks(), w.Rewards.OperatorsHooks()))
		w.Services.SetHooks(servicestypes.NewMultiServicesHooks(w.Restaking.ServicesHooks(), w.Rewards.ServicesHooks()))
		w.Restaking.SetHooks(w.Rewards.RestakingHooks())
	} else {
		w.Operators.SetHooks(w.Restaking.OperatorsHooks())
		w.Services.SetHooks(w.Restaking.ServicesHooks())
	}
	return w
}

// InitDefaults stores the default parameters and counters of every module.
func (w *World) InitDefaults() {
	must(w.Pools.SetNextPoolID(w.Ctx, 1))
	must(w.Operators.SetNextOperatorID(w.Ctx, 1))
	must(w.Services.SetNextServiceID(w.Ctx, 1))
	must(w.Operators.SetParams(w.Ctx, operatorstypes.DefaultParams()))
	must(w.Services.SetParams(w.Ctx, servicestypes.DefaultParams()))
	must(w.Rewards.Params.Set(w.Ctx, rewardstypes.DefaultParams()))
	must(w.Rewards.NextRewardsPlanID.Set(w.Ctx, 1))
	must(w.LV.SetParams(w.Ctx, liquidvestingtypes.DefaultParams()))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Must panics on an unexpected error of the setup.
func Must(err error) { must(err) }

// Addr is a fixed user address.
func Addr(i byte) sdk.AccAddress {
	b := make([]byte, 20)
	for j := range b {
		b[j] = i
	}
	return b
}

// Try runs one message: an error or a panic leaves the state as it was.
func (w *World) Try(f func(ctx sdk.Context) error) (err error, panicked bool) {
	cc, write := w.Ctx.CacheContext()
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = true
				rt.Print("panic", r)
			}
		}()
		err = f(cc)
	}()
	if err == nil && !panicked {
		write()
	}
	return err, panicked
}

// At moves the block time to T0 + d.
func (w *World) At(d time.Duration) {
	w.Ctx = w.Ctx.WithBlockTime(T0.Add(d)).WithBlockHeight(w.Ctx.BlockHeight() + 1)
}

// Entry is one entry of a store.
type Entry struct {
	Key string
	Val []byte
}

// Dump lists the entries of a store in order.
func (w *World) Dump(store string) []Entry {
	s := msOf(w.Ctx).store(store)
	var r []Entry
	for i, k := range s.keys {
		r = append(r, Entry{k, s.vals[i]})
	}
	return r
}

// CopyStore replaces a store by another world's.
func (w *World) CopyStore(from *World, name string) {
	a, b := msOf(w.Ctx).store(name), msOf(from.Ctx).store(name).clone()
	a.keys, a.vals = b.keys, b.vals
}
