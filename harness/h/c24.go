package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
)

func pow10(n int) math.Int { return math.NewIntWithDecimal(1, n) }

// C24_value: any quote up to 2^80 and any amount up to 2^90, every number of decimals that
// a market can have (1 to 36) with some exponents and every exponent up to 36 with some
// decimals; assets that are not registered, markets that do not exist or that have no
// quote yet. The value is the price times the amount up to truncation, and zero
// when it is not known.
func C24_value() {
	w := base(env.Opts{})
	a := amt("amount")
	price := math.NewIntFromBigInt(rt.Big("quote", "0", "2^80"))
	dec, exp := 6, 6
	if rt.Choice("vary", 2) == 0 {
		dec = 1 + rt.Choice("decimals", 36)
		exp = []int{0, 6, 18, 24}[rt.Choice("exponent", 4)]
	} else {
		exp = rt.Choice("exponent", 37)
		dec = []int{1, 8, 18, 36}[rt.Choice("decimals", 4)]
	}
	w.Oracle.Decimals = uint64(dec)
	setAsset(w, dM, price, uint32(exp))
	var v math.LegacyDec
	err, p := w.Try(func(ctx sdk.Context) error {
		x, err := w.Rewards.GetCoinValue(ctx, coin(dM, a))
		v = x
		return err
	})
	rt.Assert(err == nil && !p, "every amount of a registered asset has a value")
	// v ~ a*price/10^(dec+exp)
	exact := a.Mul(price)
	unit := pow10(dec + exp)
	lo := v.MulInt(unit)
	rt.Assert(rt.And(!v.IsNegative(), lo.LTE(math.LegacyNewDecFromInt(exact))), "no more than price times amount")
	// the price is kept with 18 decimals: less than one unit of the amount is lost per 10^-18
	slack := math.LegacySmallestDec().MulInt(unit.Add(a.Mul(pow10(dec))))
	rt.Assert(math.LegacyNewDecFromInt(exact).LTE(lo.Add(slack)), "no less than price times amount, up to truncation")
	rt.Reach("end")
}

// C24_unknown: any amount of a denom that is registered or not, whose market does not exist or has not
// been quoted yet.
func C24_unknown() {
	w := base(env.Opts{})
	w.Oracle.Decimals = 8
	if rt.Choice("registered", 2) == 1 {
		env.Must(w.Assets.SetAsset(w.Ctx, assetstypes.NewAsset(dM, "MILK", 6)))
	}
	switch rt.Choice("market", 3) {
	case 1:
		w.Oracle.Price["MILK"] = math.Int{}
	case 2:
		w.Oracle.Price["MILK"] = math.ZeroInt()
	}
	a := amt("amount")
	var v math.LegacyDec
	err, p := w.Try(func(ctx sdk.Context) error {
		x, err := w.Rewards.GetCoinValue(ctx, coin(dM, a))
		v = x
		return err
	})
	rt.Assert(err == nil && !p, "a denom without a price has a value")
	rt.Assert(v.IsZero(), "a denom without a price is worth nothing")
	rt.Reach("end")
}

// C24_registry: three registrations, changes or removals of two denoms under two
// tickers by the authority or by others, with any exponents; the assets found by denom and by
// ticker are always those that were registered last.
func C24_registry() {
	w := env.NewWorld(env.Opts{})
	w.InitDefaults()
	ms := assetskeeper.NewMsgServer(w.Assets)
	q := assetskeeper.NewQueryServer(w.Assets)
	denoms, tickers := []string{dM, dT}, []string{"MILK", "MILKY"}
	model := map[string]assetstypes.Asset{}
	for i := 0; i < 3; i++ {
		d := denoms[rt.Choice("denom", 2)]
		who, auth := w.Authority, true
		if i == 2 && rt.Choice("sender", 2) == 1 {
			who, auth = mallory.String(), false
		}
		if rt.Choice("message", 2) == 0 {
			a := assetstypes.NewAsset(d, tickers[rt.Choice("ticker", 2)], rt.Uint32("exponent", 0, 30))
			err := do(w, ms.RegisterAsset, assetstypes.NewMsgRegisterAsset(who, a))
			rt.Assert((err == nil) == auth, "the authority registers assets")
			if auth {
				model[d] = a
			}
		} else {
			_, ok := model[d]
			err := do(w, ms.DeregisterAsset, assetstypes.NewMsgDeregisterAsset(who, d))
			rt.Assert((err == nil) == (auth && ok), "the authority removes assets")
			if auth {
				delete(model, d)
			}
		}
	}
	for _, d := range denoms {
		a, err := w.Assets.GetAsset(w.Ctx, d)
		m, ok := model[d]
		rt.Assert((err == nil) == ok, "the registered assets are found")
		if ok {
			rt.Assert(rt.And(a.Denom == d && a.Ticker == m.Ticker, a.Exponent == m.Exponent), "an asset is as it was registered last")
		}
	}
	for _, t := range tickers {
		r, err := q.Assets(w.Ctx, &assetstypes.QueryAssetsRequest{Ticker: t})
		rt.Assert(err == nil, "the assets of a ticker can be queried")
		n := 0
		for _, d := range denoms {
			if m, ok := model[d]; ok && m.Ticker == t {
				n++
			}
		}
		rt.Assert(len(r.Assets) == n, "the assets of a ticker are those registered with it")
		for _, a := range r.Assets {
			rt.Assert(a.Ticker == t && model[a.Denom].Ticker == t, "the assets of a ticker are those registered with it")
		}
	}
	rt.Reach("end")
}
