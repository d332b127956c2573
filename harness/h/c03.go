package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// anyTarget is a target with arbitrary totals, not just one share per token.
func anyTarget(t Target, tokens math.Int, shares math.LegacyDec) restakingtypes.DelegationTarget {
	tk := sdk.NewCoins(sdk.NewCoin(dM, tokens))
	sh := sdk.NewDecCoins(sdk.NewDecCoinFromDec(t.ShareDenom(dM), shares))
	switch t.Kind {
	case kPool:
		return poolstypes.Pool{ID: t.ID, Denom: dM, Tokens: tokens, DelegatorShares: shares}
	case kOperator:
		return operatorstypes.Operator{ID: t.ID, Tokens: tk, DelegatorShares: sh}
	default:
		return servicestypes.Service{ID: t.ID, Tokens: tk, DelegatorShares: sh}
	}
}

func addTokens(t restakingtypes.DelegationTarget, x math.Int) (restakingtypes.DelegationTarget, math.LegacyDec) {
	c := coin(dM, x)
	switch v := t.(type) {
	case poolstypes.Pool:
		n, sh, err := v.AddTokensFromDelegation(c)
		rt.Assert(err == nil, "issuing shares succeeds")
		return n, sh.Amount
	case operatorstypes.Operator:
		n, sh := v.AddTokensFromDelegation(sdk.NewCoins(c))
		return n, sh[0].Amount
	case servicestypes.Service:
		n, sh := v.AddTokensFromDelegation(sdk.NewCoins(c))
		return n, sh[0].Amount
	}
	panic("target")
}

func removeShares(t restakingtypes.DelegationTarget, tg Target, s math.LegacyDec) (restakingtypes.DelegationTarget, math.Int) {
	sh := sdk.NewDecCoins(sdk.NewDecCoinFromDec(tg.ShareDenom(dM), s))
	switch v := t.(type) {
	case poolstypes.Pool:
		n, c, err := v.RemoveDelShares(sh)
		rt.Assert(err == nil, "removing shares succeeds")
		return n, c.AmountOf(dM)
	case operatorstypes.Operator:
		n, c := v.RemoveDelShares(sh)
		return n, c.AmountOf(dM)
	case servicestypes.Service:
		n, c := v.RemoveDelShares(sh)
		return n, c.AmountOf(dM)
	}
	panic("target")
}

func decPos(name, hi string) math.LegacyDec {
	return math.LegacyNewDecFromBigIntWithPrec(rt.Big(name, "1", hi), 18)
}

// rates are shares per token, as fractions; 1 is the only one the chain reaches
// without slashing, the others arise from an imported state.
var rates = [][2]int64{{1, 1}, {10, 3}, {7, 5}, {1000003, 1}}

// rated is an arbitrary amount of tokens and the shares at one of the rates.
func rated() (math.Int, math.LegacyDec) {
	n := len(rates)
	if !rt.Deep() {
		n = 3
	}
	r := rates[rt.Choice("rate", n)]
	u := pos("units")
	return u.MulRaw(r[1]), dec(u.MulRaw(r[0]))
}

// C03_issue: every target kind, any tokens, any amount of shares that is at
// least one per token, any amount up to 2^90; the shares issued are exactly
// shares*amount/tokens rounded down at the last decimal, so nobody else's claim
// is diluted.
func C03_issue() {
	tg := Target{rt.Choice("kind", 3), 1}
	T := pos("tokens")
	S := decPos("shares", "2^150")
	rt.Assume(S.GTE(dec(T)))
	x := pos("amount")
	n, is := addTokens(anyTarget(tg, T, S), x)
	rt.Assert(is.MulInt(T).LTE(S.MulInt(x)), "no more shares than pro rata")
	rt.Assert(S.MulInt(x).LT(is.Add(math.LegacySmallestDec()).MulInt(T)), "no fewer shares than pro rata")
	rt.Assert(eq(n.GetTokens().AmountOf(dM), T.Add(x)), "tokens grow by the amount")
	rt.Assert(n.GetDelegatorShares().AmountOf(tg.ShareDenom(dM)).Equal(S.Add(is)), "shares grow by the issued")
	rt.Reach("issued")
}

// C03_first: every target kind without shares: the first delegation gets one
// share per token.
func C03_first() {
	tg := Target{rt.Choice("kind", 3), 1}
	x := pos("amount")
	n, is := addTokens(anyTarget(tg, math.ZeroInt(), math.LegacyZeroDec()), x)
	rt.Assert(is.Equal(dec(x)), "one share per token")
	rt.Assert(eq(n.GetTokens().AmountOf(dM), x), "tokens are the amount")
	rt.Reach("first")
}

// C03_redeem: every target kind, the listed rates of shares per token, any tokens
// and any part of the shares redeemed: it pays the pro rata tokens rounded down
// (one last decimal up at most), never more than the target has; redeeming all
// of the shares pays everything.
func C03_redeem() {
	tg := Target{rt.Choice("kind", 3), 1}
	T, S := rated()
	s := decPos("redeemed", "2^170")
	rt.Assume(s.LTE(S))
	n, out := removeShares(anyTarget(tg, T, S), tg, s)
	left := n.GetTokens().AmountOf(dM)
	rt.Assert(eq(left.Add(out), T), "tokens are split between payout and target")
	rt.Assert(!left.IsNegative(), "never more than the target has")
	rt.Assert(n.GetDelegatorShares().AmountOf(tg.ShareDenom(dM)).Equal(S.Sub(s)), "shares shrink by the redeemed")
	if rt.Fork(s.Equal(S)) {
		rt.Assert(eq(out, T), "the last shares get everything")
		rt.Reach("all")
		return
	}
	rt.Reach("part")
	up := s.Add(math.LegacySmallestDec()).MulInt(T) // s*T plus a rounding unit
	rt.Assert(S.MulInt(out).LTE(up.Add(S.MulInt64(0)).Add(S.QuoInt64(1000000))), "payout is at most pro rata")
	rt.Assert(s.MulInt(T).LT(S.MulInt(out).Add(S).Add(S.QuoInt64(1000000))), "payout is pro rata less at most one")
}

// C03_round_trip: every target kind, 1, 2 or 1000003 shares per token, any tokens
// and amount; delegating and redeeming the shares received never returns more
// than was delegated, and at most one less.
func C03_round_trip() {
	tg := Target{rt.Choice("kind", 3), 1}
	T := pos("tokens")
	S := dec(T.MulRaw([]int64{1, 2, 1000003}[rt.Choice("rate", 3)]))
	x := pos("amount")
	n, is := addTokens(anyTarget(tg, T, S), x)
	_, out := removeShares(n, tg, is)
	rt.Assert(out.LTE(x), "no gain from delegating and redeeming")
	rt.Assert(x.LTE(out.AddRaw(1)), "no loss beyond one unit from delegating and redeeming")
	rt.Reach("round trip")
}
