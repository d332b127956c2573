package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var pool1 = Target{kPool, 1}

func setPrefs(w *env.World, u sdk.AccAddress, p restakingtypes.UserPreferences) error {
	return do(w, restakingkeeper.NewMsgServer(w.Restaking).SetUserPreferences, restakingtypes.NewMsgSetUserPreferences(p, u.String()))
}

func accredit(w *env.World, service uint32, yes bool) error {
	ms := serviceskeeper.NewMsgServer(w.Services)
	if yes {
		return do(w, ms.AccreditService, servicestypes.NewMsgAccreditService(service, w.Authority))
	}
	return do(w, ms.RevokeServiceAccreditation, servicestypes.NewMsgRevokeServiceAccreditation(service, w.Authority))
}

// prefs picks one of the kinds of preferences a user may have.
func prefs(name string, ids ...uint32) restakingtypes.UserPreferences {
	switch rt.Choice(name, 6) {
	case 0:
		return restakingtypes.DefaultUserPreferences()
	case 1:
		return restakingtypes.NewUserPreferences(true, false, nil)
	case 2:
		return restakingtypes.NewUserPreferences(false, false, nil)
	case 3:
		return restakingtypes.NewUserPreferences(false, false, ids[:1])
	case 4:
		return restakingtypes.NewUserPreferences(false, true, append([]uint32{ids[len(ids)-1]}, ids...))
	default:
		return restakingtypes.NewUserPreferences(true, true, ids)
	}
}

// counted says that the shares recorded for each pair of pool and service are
// those of the delegators who trust the service.
func counted(w *env.World, users []sdk.AccAddress, services ...uint32) {
	for _, s := range services {
		sv, ok, err := w.Services.GetService(w.Ctx, s)
		env.Must(err)
		sum := math.LegacyZeroDec()
		for _, u := range users {
			p, err := w.Restaking.GetUserPreferences(w.Ctx, u.String())
			env.Must(err)
			trusted := ok && (sv.Accredited && p.TrustAccreditedServices || !sv.Accredited && p.TrustNonAccreditedServices)
			for _, id := range p.TrustedServicesIDs {
				trusted = trusted || ok && id == s
			}
			if trusted {
				sum = sum.Add(pool1.DelShares(w, u, dM))
			}
		}
		got, err := w.Rewards.GetPoolServiceTotalDelegatorShares(w.Ctx, 1, s)
		env.Must(err)
		rt.Assert(got.AmountOf(pool1.ShareDenom(dM)).Equal(sum), "the shares counted for a service are those of the delegators who trust it")
	}
}

// trustWorld has an accredited service 1 and a service 2 that is not, each of which
// borrows from every pool, from this one or from another, and two users with any preferences who delegated any amounts.
func trustWorld(rich bool) (*env.World, []sdk.AccAddress, [2]math.Int) {
	w := base(env.Opts{})
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, false)
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	for _, s := range []uint32{1, 2} {
		// 0: every pool, since it names none; 1: this pool; 2: another one
		n := 3
		if rich && !rt.Deep() {
			n = 1
			if s == 1 {
				n = 2
			}
		}
		if p := rt.Choice("borrows from", n); p > 0 {
			if n == 2 {
				p = 2
			}
			env.Must(w.Restaking.AddPoolToServiceSecuringPools(w.Ctx, s, uint32(p)))
		}
	}
	users := []sdk.AccAddress{alice, bob}
	var x [2]math.Int
	for i, u := range users {
		x[i] = pos("delegated")
		w.Bank.SetBal(w.Ctx, u, dM, x[i].MulRaw(2))
		if i == 0 || rich {
			rt.Assert(setPrefs(w, u, prefs("preferences", 1, 2)) == nil, "preferences are set")
		}
		rt.Assert(pool1.Delegate(w, u, sdk.Coins{coin(dM, x[i])}) == nil, "delegate")
	}
	w.At(0)
	counted(w, users, 1, 2)
	return w, users, x
}

// exits undelegates everything.
func exits(w *env.World, users []sdk.AccAddress, held []math.Int) {
	for i, u := range users {
		if held[i].IsPositive() {
			rt.Assert(pool1.Undelegate(w, u, sdk.Coins{coin(dM, held[i])}) == nil, "a delegator can always leave the pool")
		}
	}
	for _, s := range []uint32{1, 2, 3} {
		got, err := w.Rewards.GetPoolServiceTotalDelegatorShares(w.Ctx, 1, s)
		env.Must(err)
		rt.Assert(got.IsZero(), "nothing is counted when everyone has left")
	}
}

// C13_preferences: two users with any of six kinds of preferences and any delegations to a
// pool up to 2^90, each service borrowing from every pool, this one or another; one changes to any
// other preferences.  The counted shares stay right and both can leave.
func C13_preferences() {
	w, users, x := trustWorld(false)
	rt.Assert(setPrefs(w, alice, prefs("new", 2, 1)) == nil, "preferences can always be changed")
	counted(w, users, 1, 2)
	rt.Reach("changed")
	exits(w, users, x[:])
}

// C13_accreditation: same users; a service gains or loses accreditation, with or without delegations of its own.
func C13_accreditation() {
	w, users, x := trustWorld(true)
	s := uint32(1 + rt.Choice("service", 2))
	if rt.Choice("delegations of its own", 2) == 1 {
		c := pos("own")
		w.Bank.SetBal(w.Ctx, carol, dM, c)
		rt.Assert(Target{kService, s}.Delegate(w, carol, sdk.Coins{coin(dM, c)}) == nil, "delegate")
	}
	rt.Assert(accredit(w, s, s == 2) == nil, "accreditation can always be changed")
	counted(w, users, 1, 2)
	rt.Assert(accredit(w, s, s == 2) == nil, "setting the same accreditation is accepted")
	counted(w, users, 1, 2)
	rt.Reach("changed")
	exits(w, users, x[:])
}

// C13_services: same users; a service is created, or one is deleted.
func C13_services() {
	w, users, x := trustWorld(true)
	if rt.Choice("create", 2) == 1 {
		addService(w, 3, servicestypes.SERVICE_STATUS_CREATED, rt.Choice("accredited", 2) == 1)
		counted(w, users, 1, 2, 3)
		rt.Reach("created")
	} else {
		t := Target{kService, uint32(1 + rt.Choice("service", 2))}
		rt.Assert(t.Deactivate(w) == nil, "deactivate")
		rt.Assert(t.Delete(w) == nil, "delete")
		counted(w, users, 1, 2)
		rt.Reach("deleted")
	}
	exits(w, users, x[:])
}

// C13_delegations: same users; one delegates more, undelegates a part or all, and
// borrowing starts and stops.
func C13_delegations() {
	w, users, x := trustWorld(true)
	rs := restakingkeeper.NewMsgServer(w.Restaking)
	switch rt.Choice("event", 4) {
	case 0:
		y := pos("more")
		rt.Assume(y.LTE(x[0]))
		rt.Assert(pool1.Delegate(w, alice, sdk.Coins{coin(dM, y)}) == nil, "delegate")
		x[0] = x[0].Add(y)
		rt.Reach("more")
	case 1:
		y := pos("less")
		rt.Assume(y.LTE(x[0]))
		rt.Assert(pool1.Undelegate(w, alice, sdk.Coins{coin(dM, y)}) == nil, "undelegate")
		x[0] = x[0].Sub(y)
		rt.Reach("less")
	case 2:
		_ = do(w, rs.BorrowPoolSecurity, restakingtypes.NewMsgBorrowPoolSecurity(1, 1, svcAdm.String()))
		rt.Reach("borrow")
	default:
		_ = do(w, rs.CeasePoolSecurityBorrow, restakingtypes.NewMsgCeasePoolSecurityBorrow(1, 1, svcAdm.String()))
		rt.Reach("cease")
	}
	counted(w, users, 1, 2)
	exits(w, users, x[:])
}
