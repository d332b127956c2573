package env

import (
	"context"
	"fmt"

	"cosmossdk.io/core/address"
	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	proto "github.com/cosmos/gogoproto/proto"

	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
)

// ---- codec --------------------------------------------------------------------

// Codec encodes messages with their generated code.
type Codec struct{ codec.Codec }

type pmsg interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

func (c Codec) Marshal(o proto.Message) ([]byte, error) { return o.(pmsg).Marshal() }
func (c Codec) MustMarshal(o proto.Message) []byte {
	bz, err := o.(pmsg).Marshal()
	if err != nil {
		panic(err)
	}
	return bz
}

func (c Codec) Unmarshal(bz []byte, ptr proto.Message) error {
	if err := ptr.(pmsg).Unmarshal(bz); err != nil {
		return err
	}
	if u, ok := ptr.(codectypes.UnpackInterfacesMessage); ok {
		return u.UnpackInterfaces(c)
	}
	return nil
}

func (c Codec) MustUnmarshal(bz []byte, ptr proto.Message) {
	if err := c.Unmarshal(bz, ptr); err != nil {
		panic(err)
	}
}

func (c Codec) UnpackAny(any *codectypes.Any, iface interface{}) error {
	if rt.Symbolic() {
		return rt.UnpackAny(any, iface)
	}
	return unpackNative(any, iface)
}

// ---- addresses and accounts ------------------------------------------------------

type AddrCodec struct{}

func (AddrCodec) StringToBytes(text string) ([]byte, error) { return sdk.AccAddressFromBech32(text) }
func (AddrCodec) BytesToString(bz []byte) (string, error)   { return sdk.AccAddress(bz).String(), nil }

type Accounts struct{}

func (Accounts) AddressCodec() address.Codec { return AddrCodec{} }
func (Accounts) NewAccountWithAddress(_ context.Context, addr sdk.AccAddress) sdk.AccountI {
	return authtypes.NewBaseAccountWithAddress(addr)
}
func (Accounts) HasAccount(ctx context.Context, addr sdk.AccAddress) bool {
	ok, _ := msOf(ctx).store("acc").Has(addr)
	return ok
}
func (Accounts) SetAccount(ctx context.Context, acc sdk.AccountI) {
	_ = msOf(ctx).store("acc").Set(acc.GetAddress(), []byte{1})
}

// moduleAccounts are the accounts the application gives module permissions.
var moduleAccounts = map[string]bool{
	"fee_collector": true, "distribution": true, "mint": true, "bonded_tokens_pool": true, "not_bonded_tokens_pool": true,
	"gov": true, "transfer": true, "rewards_pool": true, "liquidvesting": true,
}

func (Accounts) GetModuleAddress(name string) sdk.AccAddress {
	if !moduleAccounts[name] {
		return nil
	}
	return authtypes.NewModuleAddress(name)
}

func moduleAddress(name string) sdk.AccAddress {
	if !moduleAccounts[name] {
		panic("module account " + name + " does not exist")
	}
	return authtypes.NewModuleAddress(name)
}

func (Accounts) GetModuleAccount(_ context.Context, name string) sdk.ModuleAccountI {
	return authtypes.NewEmptyModuleAccount(name)
}
func (Accounts) SetModuleAccount(ctx context.Context, acc sdk.ModuleAccountI) {}

// ---- bank -------------------------------------------------------------------------

// Bank is a ledger of balances kept in the context's multistore.  Balances are
// never negative; every transfer runs the restriction installed.
type Bank struct {
	Restriction banktypes.SendRestrictionFn
	Blocked     map[string]bool
	MintBurn    map[string]bool // modules allowed to mint and burn
}

func bkey(addr sdk.AccAddress, denom string) []byte {
	return append(append([]byte{byte(len(addr))}, addr...), []byte(denom)...)
}

func (b *Bank) Bal(ctx context.Context, addr sdk.AccAddress, denom string) math.Int {
	bz, _ := msOf(ctx).store("bank").Get(bkey(addr, denom))
	if bz == nil {
		return math.ZeroInt()
	}
	var r math.Int
	if err := r.Unmarshal(bz); err != nil {
		panic(err)
	}
	return r
}

func (b *Bank) SetBal(ctx context.Context, addr sdk.AccAddress, denom string, amt math.Int) {
	bz, err := amt.Marshal()
	if err != nil {
		panic(err)
	}
	_ = msOf(ctx).store("bank").Set(bkey(addr, denom), bz)
}

func (b *Bank) SetSupply(ctx context.Context, denom string, amt math.Int) {
	b.SetBal(ctx, sdk.AccAddress("supply"), denom, amt)
}

func (b *Bank) Supply(ctx context.Context, denom string) math.Int {
	return b.Bal(ctx, sdk.AccAddress("supply"), denom)
}

func (b *Bank) GetBalance(ctx context.Context, addr sdk.AccAddress, denom string) sdk.Coin {
	return sdk.Coin{Denom: denom, Amount: b.Bal(ctx, addr, denom)}
}

func (b *Bank) GetAllBalances(ctx context.Context, addr sdk.AccAddress) sdk.Coins {
	pre := append([]byte{byte(len(addr))}, addr...)
	it := msOf(ctx).store("bank").iter(pre, append(append([]byte{}, pre...), 0xff), false)
	res := sdk.Coins{}
	for ; it.Valid(); it.Next() {
		denom := string(it.Key()[len(pre):])
		amt := b.Bal(ctx, addr, denom)
		if amt.IsPositive() {
			res = append(res, sdk.Coin{Denom: denom, Amount: amt})
		}
	}
	return res
}

func (b *Bank) take(ctx context.Context, from sdk.AccAddress, amt sdk.Coins) error {
	for _, c := range amt {
		bal := b.Bal(ctx, from, c.Denom)
		if bal.LT(c.Amount) {
			return fmt.Errorf("%w: spendable balance of %s is too small", sdkerrors.ErrInsufficientFunds, c.Denom)
		}
		b.SetBal(ctx, from, c.Denom, bal.Sub(c.Amount))
	}
	return nil
}

func (b *Bank) give(ctx context.Context, to sdk.AccAddress, amt sdk.Coins) {
	for _, c := range amt {
		b.SetBal(ctx, to, c.Denom, b.Bal(ctx, to, c.Denom).Add(c.Amount))
	}
}

func (b *Bank) SendCoins(ctx context.Context, from, to sdk.AccAddress, amt sdk.Coins) error {
	if !amt.IsValid() {
		return fmt.Errorf("%w: invalid coins", sdkerrors.ErrInvalidCoins)
	}
	if b.Restriction != nil {
		n, err := b.Restriction(ctx, from, to, amt)
		if err != nil {
			return err
		}
		to = n
	}
	if err := b.take(ctx, from, amt); err != nil {
		return err
	}
	b.give(ctx, to, amt)
	return nil
}

func (b *Bank) SendCoinsFromModuleToAccount(ctx context.Context, m string, to sdk.AccAddress, amt sdk.Coins) error {
	from := moduleAddress(m)
	if b.BlockedAddr(to) {
		return fmt.Errorf("%w: blocked recipient", sdkerrors.ErrUnauthorized)
	}
	return b.SendCoins(ctx, from, to, amt)
}

func (b *Bank) SendCoinsFromAccountToModule(ctx context.Context, from sdk.AccAddress, m string, amt sdk.Coins) error {
	return b.SendCoins(ctx, from, moduleAddress(m), amt)
}

func (b *Bank) BlockedAddr(addr sdk.AccAddress) bool { return b.Blocked[addr.String()] }

func (b *Bank) MintCoins(ctx context.Context, m string, amt sdk.Coins) error {
	if !b.MintBurn[m] {
		panic("module account " + m + " does not have permissions to mint tokens")
	}
	if !amt.IsValid() {
		return fmt.Errorf("%w: invalid coins", sdkerrors.ErrInvalidCoins)
	}
	b.give(ctx, moduleAddress(m), amt)
	for _, c := range amt {
		b.SetSupply(ctx, c.Denom, b.Supply(ctx, c.Denom).Add(c.Amount))
	}
	return nil
}

func (b *Bank) BurnCoins(ctx context.Context, m string, amt sdk.Coins) error {
	if !b.MintBurn[m] {
		panic("module account " + m + " does not have permissions to burn tokens")
	}
	if !amt.IsValid() {
		return fmt.Errorf("%w: invalid coins", sdkerrors.ErrInvalidCoins)
	}
	if err := b.take(ctx, moduleAddress(m), amt); err != nil {
		return err
	}
	for _, c := range amt {
		b.SetSupply(ctx, c.Denom, b.Supply(ctx, c.Denom).Sub(c.Amount))
	}
	return nil
}

func (b *Bank) GetDenomMetaData(ctx context.Context, denom string) (banktypes.Metadata, bool) {
	ok, _ := msOf(ctx).store("meta").Has([]byte(denom))
	return banktypes.Metadata{Base: denom}, ok
}
func (b *Bank) SetDenomMetaData(ctx context.Context, m banktypes.Metadata) {
	_ = msOf(ctx).store("meta").Set([]byte(m.Base), []byte{1})
}

// ---- community pool ------------------------------------------------------------------

type CommunityPool struct{ Bank *Bank }

func (c CommunityPool) FundCommunityPool(ctx context.Context, amt sdk.Coins, sender sdk.AccAddress) error {
	return c.Bank.SendCoins(ctx, sender, authtypes.NewModuleAddress("distribution"), amt)
}
