package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
)

// locked representations of umilk and utia
const (
	lM = "locked/umilk"
	lT = "locked/utia"
)

var (
	lvAddr = authtypes.NewModuleAddress(liquidvestingtypes.ModuleName)
)

// lvWorld is base with minters and burners, an insurance percentage, and pool 2 of
// the locked representation of umilk.
func lvWorld(pct math.LegacyDec, o env.Opts) *env.World {
	w := base(o)
	env.Must(w.LV.SetParams(w.Ctx, liquidvestingtypes.NewParams(pct, []string{burner.String()}, []string{minter.String()}, nil, nil)))
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, lM)
	env.Must(err)
	return w
}

// lvTarget is a target that holds lM.
func lvTarget(kind int) Target {
	if kind == kPool {
		return Target{kPool, 2}
	}
	return Target{kind, 1}
}

// grant adds to what a user delegated to the target, one share per token.
func (t Target) grant(w *env.World, u sdk.AccAddress, c sdk.Coins) {
	shares := sdk.NewDecCoins()
	for _, x := range c {
		shares = shares.Add(sdk.NewDecCoinFromDec(t.ShareDenom(x.Denom), dec(x.Amount)))
		w.Bank.SetBal(w.Ctx, t.Addr(), x.Denom, w.Bank.Bal(w.Ctx, t.Addr(), x.Denom).Add(x.Amount))
		w.Bank.SetSupply(w.Ctx, x.Denom, w.Bank.Supply(w.Ctx, x.Denom).Add(x.Amount))
	}
	tg := t.Get(w)
	t.setTotals(w, tg.GetTokens().Add(c...), tg.GetDelegatorShares().Add(shares...))
	old, _ := t.Delegation(w, u)
	t.setDelegation(w, u, old.Shares.Add(shares...))
}

// hold adds to a user's liquid balance.
func hold(w *env.World, u sdk.AccAddress, d string, a math.Int) {
	w.Bank.SetBal(w.Ctx, u, d, w.Bank.Bal(w.Ctx, u, d).Add(a))
	w.Bank.SetSupply(w.Ctx, d, w.Bank.Supply(w.Ctx, d).Add(a))
}

// insure adds to a user's insurance fund coins the module account holds.
func insure(w *env.World, u sdk.AccAddress, d string, a math.Int) {
	if a.IsPositive() {
		hold(w, lvAddr, d, a)
		env.Must(w.LV.AddToUserInsuranceFund(w.Ctx, u.String(), sdk.NewCoins(coin(d, a))))
	}
}

func fund(w *env.World, u sdk.AccAddress, d string) math.Int {
	b, err := w.LV.GetUserInsuranceFundBalance(w.Ctx, u.String())
	env.Must(err)
	return b.AmountOf(d)
}

// active is what a user restaked or is unbonding of a denom.
func active(w *env.World, u sdk.AccAddress, d string) math.Int {
	r := math.ZeroInt()
	for _, t := range []Target{{kPool, 1}, {kPool, 2}, {kOperator, 1}, {kService, 1}} {
		r = r.Add(t.DelShares(w, u, d).TruncateInt()).Add(t.Unbonding(w, u, d))
	}
	return r
}

// covers says whether the fund is at least the percentage of the amount, rounded at
// 18 decimals and then up.
func covers(pct math.LegacyDec, amount, fund math.Int) bool {
	// fund >= ceil(floor(pct*amount/100, 18 decimals))
	scaled := math.NewIntFromBigInt(pct.BigInt()).Mul(amount) // pct*10^18*amount
	e18 := math.NewIntWithDecimal(1, 18)
	return fund.Mul(e18).MulRaw(100).GT(scaled.SubRaw(100))
}

// percentages: those with a finite expansion, the least, thirds, and all.
func percentage(name string) math.LegacyDec {
	n := 2
	if rt.Deep() {
		n = 4
	}
	switch rt.Choice(name, n) {
	case 0:
		return math.LegacyNewDec(2)
	case 1:
		return math.LegacyMustNewDecFromStr("33.333333333333333333")
	case 2:
		return math.LegacyNewDec(100)
	default:
		return math.LegacyMustNewDecFromStr("0.000000000000000001")
	}
}

func withdrawFund(w *env.World, u sdk.AccAddress, c sdk.Coins) error {
	return do(w, liquidvestingkeeper.NewMsgServer(w.LV).WithdrawInsuranceFund, liquidvestingtypes.NewMsgWithdrawInsuranceFund(u.String(), c))
}

func mint(w *env.World, by, to sdk.AccAddress, c sdk.Coins) error {
	return do(w, liquidvestingkeeper.NewMsgServer(w.LV).MintLockedRepresentation, liquidvestingtypes.NewMsgMintLockedRepresentation(by.String(), to.String(), c))
}

func burn(w *env.World, by, from sdk.AccAddress, c sdk.Coins) error {
	return do(w, liquidvestingkeeper.NewMsgServer(w.LV).BurnLockedRepresentation, liquidvestingtypes.NewMsgBurnLockedRepresentation(by.String(), from.String(), c))
}
