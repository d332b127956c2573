package h

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

func opStatus(w *env.World, id uint32) operatorstypes.OperatorStatus {
	o, ok, err := w.Operators.GetOperator(w.Ctx, id)
	env.Must(err)
	if !ok {
		return operatorstypes.OPERATOR_STATUS_UNSPECIFIED
	}
	return o.Status
}

func setDeactivation(w *env.World, name string) int64Dur {
	d := rt.Int64(name, 1, 1<<50)
	p := operatorstypes.NewParams(nil, time.Duration(d))
	err := do(w, operatorskeeper.NewMsgServer(w.Operators).UpdateParams, operatorstypes.NewMsgUpdateParams(p, w.Authority))
	rt.Assert(err == nil, "a positive deactivation time is accepted")
	return int64Dur(d)
}

// C08_inactivation: two operators start deactivating in either order, at
// arbitrary times in [0,2^50] ns under deactivation times in [1,2^50] that may
// change in between; two blocks follow at arbitrary times.  At each block an
// operator is inactive exactly when its own deactivation time has passed, its
// parameters are reset then and not before, and the block never fails.
func C08_inactivation() {
	w := base(env.Opts{NoHooks: true})
	addOperator(w, 2)
	ps := operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(1, 1))
	env.Must(w.Operators.SaveOperatorParams(w.Ctx, 1, ps))
	env.Must(w.Operators.SaveOperatorParams(w.Ctx, 2, ps))
	ms := operatorskeeper.NewMsgServer(w.Operators)
	first := uint32(1 + rt.Choice("first", 2))
	d := setDeactivation(w, "time 1")
	rt.Assert(do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(first, opAdm.String())) == nil, "deactivate")
	due := map[uint32]int64{first: int64(d)}
	if rt.Choice("change", 2) == 1 {
		d = setDeactivation(w, "time 2")
	}
	t := rt.Int64("t1", 0, 1<<50)
	w.At(time.Duration(t))
	both := rt.Choice("both", 2) == 1
	if both {
		rt.Assert(do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(3-first, opAdm.String())) == nil, "deactivate")
		due[3-first] = t + int64(d)
	}
	for i := 0; i < 2; i++ {
		t += rt.Int64("block", 0, 1<<51)
		w.At(time.Duration(t))
		rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
		for id := uint32(1); id <= 2; id++ {
			st := opStatus(w, id)
			at, started := due[id]
			want := operatorstypes.OPERATOR_STATUS_ACTIVE
			if started {
				want = operatorstypes.OPERATOR_STATUS_INACTIVATING
			}
			over := started && at <= t
			if over {
				want = operatorstypes.OPERATOR_STATUS_INACTIVE
				rt.Reach("inactive")
			}
			rt.Assert(st == want, "an operator is inactive exactly when its time has passed")
			p, err := w.Operators.GetOperatorParams(w.Ctx, id)
			env.Must(err)
			if over {
				rt.Assert(p.CommissionRate.IsZero(), "parameters are reset on inactivation")
			} else {
				rt.Assert(p.CommissionRate.Equal(ps.CommissionRate), "parameters are kept until inactivation")
			}
		}
		q, err := w.Operators.GetInactivatingOperators(w.Ctx)
		env.Must(err)
		n := 0
		for id := uint32(1); id <= 2; id++ {
			if opStatus(w, id) == operatorstypes.OPERATOR_STATUS_INACTIVATING {
				n++
				rt.Reach("pending")
			}
		}
		rt.Assert(len(q) == n, "the pending list holds exactly the inactivating operators")
	}
}

// C08_reactivation: an operator is deactivated, completes, is reactivated,
// deactivated again at any time and under any deactivation time; blocks at
// arbitrary times; the first deactivation never cuts the second one short.
func C08_reactivation() {
	w := base(env.Opts{NoHooks: true})
	ms := operatorskeeper.NewMsgServer(w.Operators)
	d1 := setDeactivation(w, "time 1")
	off := func() error {
		return do(w, ms.DeactivateOperator, operatorstypes.NewMsgDeactivateOperator(1, opAdm.String()))
	}
	on := func() error {
		return do(w, ms.ReactivateOperator, operatorstypes.NewMsgReactivateOperator(1, opAdm.String()))
	}
	rt.Assert(on() != nil, "an active operator is not reactivated")
	rt.Assert(off() == nil, "deactivate")
	rt.Assert(off() != nil, "an inactivating operator is not deactivated again")
	t := rt.Int64("early", 0, 1<<51)
	w.At(time.Duration(t))
	rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
	r := on()
	rt.Assert((r == nil) == (int64(d1) <= t), "only a completed inactivation can be reverted")
	if r != nil {
		rt.Reach("too early")
		t = int64(d1)
		w.At(time.Duration(t))
		rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
		rt.Assert(on() == nil, "reactivate")
	}
	rt.Assert(opStatus(w, 1) == operatorstypes.OPERATOR_STATUS_ACTIVE, "active again")
	d2 := setDeactivation(w, "time 2")
	t += rt.Int64("gap", 0, 1<<50)
	w.At(time.Duration(t))
	rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
	rt.Assert(opStatus(w, 1) == operatorstypes.OPERATOR_STATUS_ACTIVE, "an active operator stays active")
	rt.Assert(off() == nil, "deactivate again")
	u := t + rt.Int64("later", 0, 1<<51)
	w.At(time.Duration(u))
	rt.Assert(beginOperators(w) == nil, "begin of block succeeds")
	if t+int64(d2) <= u {
		rt.Assert(opStatus(w, 1) == operatorstypes.OPERATOR_STATUS_INACTIVE, "inactive once due")
		rt.Reach("inactive")
	} else {
		rt.Assert(opStatus(w, 1) == operatorstypes.OPERATOR_STATUS_INACTIVATING, "pending until due")
		rt.Reach("pending")
	}
}

// C08_deletion: an operator in any status, joined to either of two services
// (in any status) and listed by either of them, alone or with another operator; it can be deleted
// exactly when inactive, then nothing refers to it, and a service whose list
// emptied is not left open to every operator.
func C08_deletion() {
	w := base(env.Opts{})
	addOperator(w, far)
	st2 := servicestypes.SERVICE_STATUS_ACTIVE
	addService(w, far, st2, true)
	st2 = servicestypes.ServiceStatus(1 + rt.Choice("service 2 status", 3))
	st1 := servicestypes.SERVICE_STATUS_ACTIVE
	if st2 == servicestypes.SERVICE_STATUS_ACTIVE {
		st1 = servicestypes.ServiceStatus(1 + rt.Choice("service 1 status", 3))
	}
	for id, st := range map[uint32]servicestypes.ServiceStatus{1: st1, far: st2} {
		s := Target{kService, id}.Get(w).(servicestypes.Service)
		s.Status = st
		env.Must(w.Services.SaveService(w.Ctx, s))
	}
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	type link struct{ joined, listed, other bool }
	l := map[uint32]link{}
	for _, id := range []uint32{1, far} {
		l[id] = link{rt.Choice("joined", 2) == 1, rt.Choice("listed", 2) == 1, rt.Choice("other listed", 2) == 1}
		if l[id].joined {
			env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, 1, id))
		}
		env.Must(w.Restaking.AddServiceToOperatorJoinedServices(w.Ctx, far, id))
		if l[id].listed {
			rt.Assert(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(id, 1, svcAdm.String())) == nil, "list")
		}
		if l[id].other {
			rt.Assert(do(w, rs.AddOperatorToAllowList, restakingtypes.NewMsgAddOperatorToAllowList(id, far, svcAdm.String())) == nil, "list")
		}
	}
	t := Target{kOperator, 1}
	st := 1 + rt.Choice("status", 3)
	t.setStatus(w, st)
	addr := t.Addr().String()
	err := t.Delete(w)
	rt.Assert((err == nil) == (st == int(operatorstypes.OPERATOR_STATUS_INACTIVE)), "deletable exactly when inactive")
	if err != nil {
		rt.Reach("refused")
		rt.Assert(opStatus(w, 1) == operatorstypes.OperatorStatus(st), "a refused deletion changes nothing")
		return
	}
	rt.Reach("deleted")
	rt.Assert(opStatus(w, 1) == operatorstypes.OPERATOR_STATUS_UNSPECIFIED, "the operator is gone")
	ok, e := w.Operators.IsOperatorAddress(w.Ctx, addr)
	env.Must(e)
	rt.Assert(!ok, "its account is no longer an operator's")
	rt.Assert(opStatus(w, far) == operatorstypes.OPERATOR_STATUS_ACTIVE, "the other operator stays")
	ok, e = w.Operators.IsOperatorAddress(w.Ctx, Target{kOperator, far}.Addr().String())
	env.Must(e)
	rt.Assert(ok, "the other operator's account stays")
	for _, id := range []uint32{1, far} {
		j, e := w.Restaking.HasOperatorJoinedService(w.Ctx, 1, id)
		env.Must(e)
		rt.Assert(!j, "no service is joined by a deleted operator")
		j, e = w.Restaking.HasOperatorJoinedService(w.Ctx, far, id)
		env.Must(e)
		rt.Assert(j, "the other operator's services stay")
		a, e := w.Restaking.IsOperatorInServiceAllowList(w.Ctx, id, 1)
		env.Must(e)
		rt.Assert(!a, "no list names a deleted operator")
		a, e = w.Restaking.IsOperatorInServiceAllowList(w.Ctx, id, far)
		env.Must(e)
		rt.Assert(a == l[id].other, "the other operator stays listed")
		s := Target{kService, id}.Get(w).(servicestypes.Service)
		was := st1
		if id == far {
			was = st2
		}
		if l[id].listed && !l[id].other && was == servicestypes.SERVICE_STATUS_ACTIVE {
			rt.Assert(s.Status == servicestypes.SERVICE_STATUS_INACTIVE, "a service whose list emptied is deactivated")
			rt.Reach("emptied list")
		} else {
			rt.Assert(s.Status == was, "other services keep their status")
		}
	}
	// a new operator never inherits the deleted identifier
	m := operatorstypes.NewMsgRegisterOperator("new", "", "", nil, bob.String())
	env.Must(w.Operators.SetParams(w.Ctx, operatorstypes.NewParams(nil, time.Hour)))
	err, _ = deliver(w, m, func(ctx sdk.Context) error {
		r, err := operatorskeeper.NewMsgServer(w.Operators).RegisterOperator(ctx, m)
		if err == nil {
			rt.Assert(r.NewOperatorID == far+1, "identifiers are not reused")
		}
		return err
	})
	rt.Assert(err == nil, "registration succeeds")
}
