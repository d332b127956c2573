package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// fields of an operator or service that an administrative change may touch
type record struct {
	id, status                int64
	name, desc, web, pic, adm string
	addr                      string
	accredited                bool
	tokens                    sdk.Coins
	shares                    sdk.DecCoins
}

func (t Target) record(w *env.World) record {
	if t.Kind == kOperator {
		o := t.Get(w).(operatorstypes.Operator)
		return record{int64(o.ID), int64(o.Status), o.Moniker, "", o.Website, o.PictureURL, o.Admin, o.Address, false, o.Tokens, o.DelegatorShares}
	}
	s := t.Get(w).(servicestypes.Service)
	return record{int64(s.ID), int64(s.Status), s.Name, s.Description, s.Website, s.PictureURL, s.Admin, s.Address, s.Accredited, s.Tokens, s.DelegatorShares}
}

// same asserts that two records agree in everything.
func (a record) same(b record, what string) {
	rt.Assert(a.id == b.id, what+": identifier")
	rt.Assert(a.status == b.status, what+": status")
	rt.Assert(a.name == b.name && a.desc == b.desc && a.web == b.web && a.pic == b.pic, what+": description")
	rt.Assert(a.adm == b.adm, what+": administrator")
	rt.Assert(a.addr == b.addr, what+": address")
	rt.Assert(a.accredited == b.accredited, what+": accreditation")
	for _, d := range []string{dM, dT} {
		rt.Assert(eq(a.tokens.AmountOf(d), b.tokens.AmountOf(d)), what+": tokens")
	}
	rt.Assert(a.tokens.Len() == b.tokens.Len(), what+": token denoms")
	rt.Assert(a.shares.Equal(b.shares), what+": shares")
}

// C07_administration: an operator or service in any status, accredited or not,
// with any delegations in two denoms; each administrative message on it
// (editing any subset of the description fields, to texts that differ or agree, transferring it, activating,
// deactivating, accrediting, revoking, setting parameters) changes only what it
// names: identifier, address, recorded tokens, shares and other targets stay.
func C07_administration() {
	w := base(env.Opts{NoHooks: true, NoRestrictions: true})
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, false)
	t := Target{1 + rt.Choice("kind", 2), 1}
	t.put(w, anyHolding("alice", t), anyHolding("bob", t))
	o2, s2 := Target{kOperator, 2}, Target{kService, 2}
	z := math.ZeroInt()
	o2.put(w, holding{pos("other operator"), z}, holding{z, z})
	s2.put(w, holding{pos("other service"), z}, holding{z, z})
	st := 1 + rt.Choice("status", 3)
	t.setStatus(w, st)
	other := map[int]record{0: o2.record(w), 1: s2.record(w)}
	op := rt.Choice("message", 6)
	want := t.record(w)
	var err error
	same := op == 0 && rt.Choice("same texts", 2) == 1
	txt := func(name, old string) (string, string) {
		if rt.Choice(name, 2) == 0 {
			return "[do-not-modify]", old
		} else if same {
			return "https://example.com/same", "https://example.com/same"
		}
		return "new " + name, "new " + name
	}
	if t.Kind == kOperator {
		ms := operatorskeeper.NewMsgServer(w.Operators)
		switch op {
		case 0:
			m := &operatorstypes.MsgUpdateOperator{OperatorID: 1, Sender: opAdm.String()}
			m.Moniker, want.name = txt("name", want.name)
			m.Website, want.web = txt("website", want.web)
			m.PictureURL, want.pic = txt("picture", want.pic)
			err = do(w, ms.UpdateOperator, m)
			rt.Assert(err == nil, "the administrator can edit")
			rt.Reach("operator edited")
		case 1:
			err = do(w, ms.TransferOperatorOwnership, operatorstypes.NewMsgTransferOperatorOwnership(1, bob.String(), opAdm.String()))
			rt.Assert(err == nil, "the administrator can transfer")
			want.adm = bob.String()
		case 2:
			err = do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(1, opAdm.String()))
			want.status = int64(operatorstypes.OPERATOR_STATUS_INACTIVATING)
		case 3:
			err = do(w, ms.ReactivateOperator, operatorstypes.NewMsgReactivateOperator(1, opAdm.String()))
			want.status = int64(operatorstypes.OPERATOR_STATUS_ACTIVE)
		default:
			err = do(w, ms.SetOperatorParams, operatorstypes.NewMsgSetOperatorParams(1, operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(1, 1)), opAdm.String()))
			rt.Assert(err == nil, "the administrator can set parameters")
		}
	} else {
		s := t.Get(w).(servicestypes.Service)
		s.Accredited = rt.Choice("accredited", 2) == 1
		env.Must(w.Services.SaveService(w.Ctx, s))
		want = t.record(w)
		ms := serviceskeeper.NewMsgServer(w.Services)
		switch op {
		case 0:
			m := &servicestypes.MsgUpdateService{ServiceID: 1, Sender: svcAdm.String()}
			m.Name, want.name = txt("name", want.name)
			m.Description, want.desc = txt("description", want.desc)
			m.Website, want.web = txt("website", want.web)
			m.PictureURL, want.pic = txt("picture", want.pic)
			err = do(w, ms.UpdateService, m)
			rt.Assert(err == nil, "the administrator can edit")
			rt.Reach("service edited")
		case 1:
			err = do(w, ms.TransferServiceOwnership, servicestypes.NewMsgTransferServiceOwnership(1, bob.String(), svcAdm.String()))
			rt.Assert(err == nil, "the administrator can transfer")
			want.adm = bob.String()
		case 2:
			err = do(w, ms.DeactivateService, servicestypes.NewMsgDeactivateService(1, svcAdm.String()))
			want.status = int64(servicestypes.SERVICE_STATUS_INACTIVE)
		case 3:
			err = do(w, ms.ActivateService, servicestypes.NewMsgActivateService(1, svcAdm.String()))
			want.status = int64(servicestypes.SERVICE_STATUS_ACTIVE)
		case 4:
			to := rt.Choice("accredit", 2) == 1
			if to {
				err = do(w, ms.AccreditService, servicestypes.NewMsgAccreditService(1, w.Authority))
			} else {
				err = do(w, ms.RevokeServiceAccreditation, servicestypes.NewMsgRevokeServiceAccreditation(1, w.Authority))
			}
			rt.Assert(err == nil, "the authority can accredit and revoke")
			want.accredited = to
		default:
			err = do(w, ms.SetServiceParams, servicestypes.NewMsgSetServiceParams(1, servicestypes.NewServiceParams([]string{dM}), svcAdm.String()))
			rt.Assert(err == nil, "the administrator can set parameters")
		}
	}
	if err != nil {
		rt.Reach("refused")
		return
	}
	t.record(w).same(want, "after the message")
	o2.record(w).same(other[0], "another operator")
	s2.record(w).same(other[1], "another service")
	t.consistent(w)
	rt.Reach("changed")
}
