package env

import (
	"context"
	"encoding/json"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/gogoproto/proto"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authkeeper "github.com/cosmos/cosmos-sdk/x/auth/keeper"

	"github.com/milkyway-labs/milkyway/v3/x/assets"
	"github.com/milkyway-labs/milkyway/v3/x/liquidvesting"
	"github.com/milkyway-labs/milkyway/v3/x/operators"
	"github.com/milkyway-labs/milkyway/v3/x/pools"
	"github.com/milkyway-labs/milkyway/v3/x/restaking"
	"github.com/milkyway-labs/milkyway/v3/x/rewards"
	"github.com/milkyway-labs/milkyway/v3/x/services"
)

// MarshalJSON and its like stand for the JSON form of a genesis state: the same
// round trip as the binary one.
func (c Codec) MarshalJSON(o proto.Message) ([]byte, error) { return c.Marshal(o) }
func (c Codec) MustMarshalJSON(o proto.Message) []byte      { return c.MustMarshal(o) }
func (c Codec) UnmarshalJSON(bz []byte, o proto.Message) error {
	return c.Unmarshal(bz, o)
}
func (c Codec) MustUnmarshalJSON(bz []byte, o proto.Message) { c.MustUnmarshal(bz, o) }

// Module is one of the application's modules.
type Module struct {
	Name string
	m    any
}

func (w *World) module(name string) Module {
	var m any
	switch name {
	case "services":
		m = services.NewAppModule(w.Cdc, w.Services, authkeeper.AccountKeeper{}, nil)
	case "operators":
		m = operators.NewAppModule(w.Cdc, w.Operators, authkeeper.AccountKeeper{}, nil, nil)
	case "pools":
		m = pools.NewAppModule(w.Cdc, w.Pools)
	case "restaking":
		m = restaking.NewAppModule(w.Cdc, w.Restaking)
	case "assets":
		m = assets.NewAppModule(w.Cdc, w.Assets)
	case "rewards":
		m = rewards.NewAppModule(w.Cdc, w.Rewards)
	case "liquidvesting":
		m = liquidvesting.NewAppModule(w.Cdc, w.LV)
	}
	return Module{name, m}
}

// GenesisOrder, BeginOrder and EndOrder are the application's.
var (
	GenesisOrder = []string{"services", "operators", "pools", "restaking", "assets", "rewards", "liquidvesting"}
	BeginOrder   = []string{"rewards", "services", "operators", "pools", "restaking"}
	EndOrder     = []string{"services", "operators", "pools", "restaking", "liquidvesting"}
)

// BeginBlock runs the module hooks of the start of a block.
func (w *World) BeginBlock(ctx sdk.Context) error { return w.Begin(ctx, BeginOrder...) }

// Begin runs those of some modules.
func (w *World) Begin(ctx sdk.Context, modules ...string) error {
	for _, n := range modules {
		if b, ok := w.module(n).m.(interface{ BeginBlock(context.Context) error }); ok {
			if err := b.BeginBlock(ctx); err != nil {
				return err
			}
		}
	}
	return nil
}

// EndBlock runs the module hooks of the end of a block.
func (w *World) EndBlock(ctx sdk.Context) error { return w.End(ctx, EndOrder...) }

// End runs those of some modules.
func (w *World) End(ctx sdk.Context, modules ...string) error {
	for _, n := range modules {
		if b, ok := w.module(n).m.(interface{ EndBlock(context.Context) error }); ok {
			if err := b.EndBlock(ctx); err != nil {
				return err
			}
		}
	}
	return nil
}

// Export is the genesis state of a module.
func (w *World) Export(ctx sdk.Context, name string) []byte {
	return w.module(name).m.(interface {
		ExportGenesis(sdk.Context, codec.JSONCodec) json.RawMessage
	}).ExportGenesis(ctx, w.Cdc)
}

// Validate checks an exported genesis state of a module.
func (w *World) Validate(name string, raw []byte) error {
	return w.module(name).m.(interface {
		ValidateGenesis(codec.JSONCodec, client.TxEncodingConfig, json.RawMessage) error
	}).ValidateGenesis(w.Cdc, nil, raw)
}

// Import starts a module from a genesis state.
func (w *World) Import(ctx sdk.Context, name string, raw []byte) {
	switch m := w.module(name).m.(type) {
	case interface {
		InitGenesis(sdk.Context, codec.JSONCodec, json.RawMessage)
	}:
		m.InitGenesis(ctx, w.Cdc, raw)
	case interface {
		InitGenesis(sdk.Context, codec.JSONCodec, json.RawMessage) []abci.ValidatorUpdate
	}:
		m.InitGenesis(ctx, w.Cdc, raw)
	}
}
