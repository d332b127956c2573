package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	porttypes "github.com/cosmos/ibc-go/v8/modules/core/05-port/types"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	"github.com/milkyway-labs/milkyway/v3/x/liquidvesting"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
)

// ics20 stands in for the transfer application: it credits the receiver as ICS-20
// says, releasing coins that return and creating vouchers for the others.
type ics20 struct {
	porttypes.IBCModule
	w     *env.World
	fails bool
	calls *int
}

// received is the denom a packet's coins get on this chain.
func received(p channeltypes.Packet, denom string) string {
	back := p.SourcePort + "/" + p.SourceChannel + "/"
	if len(denom) > len(back) && denom[:len(back)] == back {
		return transfertypes.ParseDenomTrace(denom[len(back):]).IBCDenom()
	}
	return transfertypes.ParseDenomTrace(p.DestinationPort + "/" + p.DestinationChannel + "/" + denom).IBCDenom()
}

func (a ics20) OnRecvPacket(ctx sdk.Context, p channeltypes.Packet, _ sdk.AccAddress) ibcexported.Acknowledgement {
	*a.calls++
	if a.fails {
		return channeltypes.NewErrorAcknowledgement(errPanicked{})
	}
	d := a.w.Packet
	to, err := sdk.AccAddressFromBech32(d.Receiver)
	if err != nil {
		return channeltypes.NewErrorAcknowledgement(err)
	}
	n, ok := math.NewIntFromString(d.Amount)
	rt.Assert(ok, "a number")
	dn := received(p, d.Denom)
	a.w.Bank.SetBal(ctx, to, dn, a.w.Bank.Bal(ctx, to, dn).Add(n))
	return channeltypes.NewResultAcknowledgement([]byte{1})
}

// recv runs the packet the way the IBC core does: the state is kept only if the
// acknowledgement is a success.
func recv(w *env.World, p channeltypes.Packet, d transfertypes.FungibleTokenPacketData, fails bool) (ok bool, calls int) {
	w.Packet = d
	m := liquidvesting.NewIBCMiddleware(ics20{w: w, fails: fails, calls: &calls}, w.LV)
	cc, write := w.Ctx.CacheContext()
	ack := m.OnRecvPacket(cc, p, carol)
	rt.Assert(ack != nil, "every packet is answered")
	ok = ack.Success()
	if ok {
		write()
	}
	return ok, calls
}

const (
	trusted   = "init1wpsqszp9z52wd2ez8h37ql4wwj9r3xcqw6lfz6"
	untrusted = "init1other"
)

func packetOf(d transfertypes.FungibleTokenPacketData, dst string) channeltypes.Packet {
	data := `{"amount":"` + d.Amount + `","denom":"` + d.Denom + `","memo":"` + d.Memo + `","receiver":"` + d.Receiver + `","sender":"` + d.Sender + `"}`
	return channeltypes.Packet{Sequence: 1, SourcePort: "transfer", SourceChannel: "channel-9", DestinationPort: "transfer", DestinationChannel: dst, Data: []byte(data)}
}

func depositMemo(users []string, amounts []string) string {
	s := ""
	for i := range users {
		if i > 0 {
			s += ","
		}
		s += `{\"depositor\":\"` + users[i] + `\",\"amount\":\"` + amounts[i] + `\"}`
	}
	return `{\"liquidvesting\":{\"amounts\":[` + s + `]}}`
}

// C19_deposit: a packet carrying coins of any origin (native there, from elsewhere,
// returning from there) and a deposit of any amounts for up to three depositors (the
// same one twice, possibly), from a trusted or another sender, over an allowed or
// another channel (or nobody is trusted, or no channel allowed), to the module or to someone else, in an application that accepts
// or fails. It is accepted exactly if all is right and the amounts add up; then each
// fund grows by its amount in the coins actually received.
func C19_deposit() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	delegates, channels := []string{alice.String(), trusted}, []string{"channel-1", "channel-3"}
	switch rt.Choice("parameters", 3) {
	case 1:
		delegates = nil
	case 2:
		channels = nil
	}
	env.Must(w.LV.SetParams(w.Ctx, liquidvestingtypes.NewParams(math.LegacyNewDec(2), nil, nil, delegates, channels)))
	ch := []string{"channel-3", "channel-2", "channel-9"}[rt.Choice("channel", 3)]
	sender := []string{trusted, untrusted}[rt.Choice("sender", 2)]
	to := []string{lvAddr.String(), alice.String()}[rt.Choice("receiver", 2)]
	denom := []string{
		"uatom", "transfer/channel-7/uosmo", // not from here
		"transfer/channel-9/" + dM, "transfer/channel-9/transfer/channel-4/ustar", // returning
		"transfer/channel-99/x",
	}[rt.Choice("denom", 5)]
	fails := rt.Choice("application fails", 2) == 1
	total := pos("total")
	n := rt.Choice("deposits", 4)
	sum := math.ZeroInt()
	var us, as []string
	var xs []math.Int
	who := []sdk.AccAddress{alice, bob, alice}
	for i := 0; i < n; i++ {
		x := amt("deposit")
		xs = append(xs, x)
		us = append(us, who[i].String())
		as = append(as, x.String())
		sum = sum.Add(x)
	}
	d := transfertypes.FungibleTokenPacketData{Denom: denom, Amount: total.String(), Sender: sender, Receiver: to, Memo: depositMemo(us, as)}
	p := packetOf(d, ch)
	dn := received(p, denom)
	insure(w, alice, dn, pos("fund"))
	old := map[string]math.Int{}
	for _, u := range []sdk.AccAddress{alice, bob} {
		old[u.String()] = fund(w, u, dn)
	}
	has := w.Bank.Bal(w.Ctx, lvAddr, dn)
	// the memo is unescaped in the decoded data
	ok, calls := recv(w, p, d, fails)
	good := rt.And(delegates != nil && channels != nil && sender == trusted && ch == "channel-3" && to == lvAddr.String() && !fails, eq(sum, total))
	rt.Assert(ok == good, "a deposit is accepted exactly if it is authorised and adds up")
	rt.Assert(calls <= 1, "the application handles the packet once")
	if !ok {
		xs = nil
		rt.Reach("refused")
	} else {
		rt.Reach("deposited")
		has = has.Add(total)
	}
	for i, x := range xs {
		old[who[i].String()] = old[who[i].String()].Add(x)
	}
	for _, u := range []sdk.AccAddress{alice, bob} {
		rt.Assert(eq(fund(w, u, dn), old[u.String()]), "each fund grows by its deposit in the coins received")
	}
	rt.Assert(eq(w.Bank.Bal(w.Ctx, lvAddr, dn), has), "the module receives the coins")
	rt.Assert(eq(w.Bank.Bal(w.Ctx, lvAddr, dn), fund(w, alice, dn).Add(fund(w, bob, dn))), "the module account holds exactly the users' funds")
}

// C19_malformed: packets whose memo is not a deposit go to the application untouched
// and credit nothing; deposits that are malformed (a missing, negative or textual
// amount, a bad depositor, another shape), and packets that are not transfers, are
// answered with an error and credit nothing.
func C19_malformed() {
	w := lvWorld(math.LegacyNewDec(2), env.Opts{NoHooks: true})
	env.Must(w.LV.SetParams(w.Ctx, liquidvestingtypes.NewParams(math.LegacyNewDec(2), nil, nil, []string{trusted}, []string{"channel-3"})))
	total := pos("total")
	a := alice.String()
	memos := []struct {
		memo string
		pass bool
	}{
		{"", true},
		{"hello", true},
		{`{}`, true},
		{`{\"other\":{\"amounts\":1}}`, true},
		{`[\"liquidvesting\"]`, true},
		{`\"liquidvesting\"`, true},
		{`{\"liquidvesting\":1}`, false},
		{`{\"liquidvesting\":null}`, false},
		{`{\"liquidvesting\":{\"amounts\":{}}}`, false},
		{`{\"liquidvesting\":{\"amounts\":[{\"depositor\":\"` + a + `\"}]}}`, false},
		{`{\"liquidvesting\":{\"amounts\":[{\"depositor\":\"` + a + `\",\"amount\":\"x\"}]}}`, false},
		{`{\"liquidvesting\":{\"amounts\":[{\"depositor\":\"` + a + `\",\"amount\":-1}]}}`, false},
		{`{\"liquidvesting\":{\"amounts\":[{\"depositor\":\"nobody\",\"amount\":\"` + total.String() + `\"}]}}`, false},
		{`{\"liquidvesting\":{\"amounts\":[{\"depositor\":\"` + a + `\",\"amount\":\"` + total.AddRaw(1).String() + `\"},{\"depositor\":\"` + bob.String() + `\",\"amount\":\"-1\"}]}}`, false},
	}
	m := memos[rt.Choice("memo", len(memos))]
	d := transfertypes.FungibleTokenPacketData{Denom: "uatom", Amount: total.String(), Sender: trusted, Receiver: lvAddr.String(), Memo: m.memo}
	p := packetOf(d, "channel-3")
	if rt.Choice("not a transfer", 2) == 1 {
		p.Data = []byte(`{"denom":"uatom","amount":"1","sender":"` + trusted + `","receiver":"` + lvAddr.String() + `","unknown":1}`)
		m.pass = false
	}
	var ok bool
	var calls int
	_, panicked := w.Try(func(sdk.Context) error { ok, calls = recv(w, p, d, false); return nil })
	rt.Assert(!panicked, "a malformed deposit is answered, not a failure of the chain")
	rt.Assert(ok == m.pass, "passed on or refused")
	if m.pass {
		rt.Assert(calls == 1, "the application handles the packet once")
		rt.Reach("passed on")
	} else {
		rt.Reach("refused")
	}
	for _, u := range []sdk.AccAddress{alice, bob} {
		b, err := w.LV.GetUserInsuranceFundBalance(w.Ctx, u.String())
		env.Must(err)
		rt.Assert(b.Empty(), "nothing is credited")
	}
}
