package h

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	"github.com/milkyway-labs/milkyway/v3/verifh/env"
	"github.com/milkyway-labs/milkyway/v3/verifh/rt"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type pageRequest = query.PageRequest
type pageResponse = query.PageResponse

// pages reads all the pages of a listing, some at a time.
func pages[T any](limit uint64, f func(*pageRequest) ([]T, *pageResponse, error)) (r []T) {
	var key []byte
	for range 20 {
		items, res, err := f(&pageRequest{Key: key, Limit: limit})
		if err != nil {
			rt.Print(err)
		}
		rt.Assert(err == nil, "the listing succeeds")
		if err != nil {
			return nil
		}
		rt.Assert(uint64(len(items)) <= limit, "a page is not longer than asked")
		r = append(r, items...)
		if res == nil || len(res.NextKey) == 0 {
			return r
		}
		key = res.NextKey
	}
	rt.Assert(false, "the listing ends")
	return nil
}

// delegationsOf and unbondingsOf list what a target has.
func (t Target) delegationsOf(w *env.World, limit uint64) []restakingtypes.DelegationResponse {
	q := restakingkeeper.NewQuerier(w.Restaking)
	return pages(limit, func(p *pageRequest) ([]restakingtypes.DelegationResponse, *pageResponse, error) {
		switch t.Kind {
		case kPool:
			r, err := q.PoolDelegations(w.Ctx, &restakingtypes.QueryPoolDelegationsRequest{PoolId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		case kOperator:
			r, err := q.OperatorDelegations(w.Ctx, &restakingtypes.QueryOperatorDelegationsRequest{OperatorId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		default:
			r, err := q.ServiceDelegations(w.Ctx, &restakingtypes.QueryServiceDelegationsRequest{ServiceId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		}
	})
}

func (t Target) unbondingsOf(w *env.World, limit uint64) []restakingtypes.UnbondingDelegation {
	q := restakingkeeper.NewQuerier(w.Restaking)
	return pages(limit, func(p *pageRequest) ([]restakingtypes.UnbondingDelegation, *pageResponse, error) {
		switch t.Kind {
		case kPool:
			r, err := q.PoolUnbondingDelegations(w.Ctx, &restakingtypes.QueryPoolUnbondingDelegationsRequest{PoolId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		case kOperator:
			r, err := q.OperatorUnbondingDelegations(w.Ctx, &restakingtypes.QueryOperatorUnbondingDelegationsRequest{OperatorId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		default:
			r, err := q.ServiceUnbondingDelegations(w.Ctx, &restakingtypes.QueryServiceUnbondingDelegationsRequest{ServiceId: t.ID, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		}
	})
}

// delegationOf and unbondingOf look up what one user has with a target.
func (t Target) delegationOf(w *env.World, user string) (restakingtypes.DelegationResponse, error) {
	q := restakingkeeper.NewQuerier(w.Restaking)
	switch t.Kind {
	case kPool:
		r, err := q.PoolDelegation(w.Ctx, &restakingtypes.QueryPoolDelegationRequest{PoolId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.DelegationResponse{}, err
		}
		return r.Delegation, nil
	case kOperator:
		r, err := q.OperatorDelegation(w.Ctx, &restakingtypes.QueryOperatorDelegationRequest{OperatorId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.DelegationResponse{}, err
		}
		return r.Delegation, nil
	default:
		r, err := q.ServiceDelegation(w.Ctx, &restakingtypes.QueryServiceDelegationRequest{ServiceId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.DelegationResponse{}, err
		}
		return r.Delegation, nil
	}
}

func (t Target) unbondingOf(w *env.World, user string) (restakingtypes.UnbondingDelegation, error) {
	q := restakingkeeper.NewQuerier(w.Restaking)
	switch t.Kind {
	case kPool:
		r, err := q.PoolUnbondingDelegation(w.Ctx, &restakingtypes.QueryPoolUnbondingDelegationRequest{PoolId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.UnbondingDelegation{}, err
		}
		return r.UnbondingDelegation, nil
	case kOperator:
		r, err := q.OperatorUnbondingDelegation(w.Ctx, &restakingtypes.QueryOperatorUnbondingDelegationRequest{OperatorId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.UnbondingDelegation{}, err
		}
		return r.UnbondingDelegation, nil
	default:
		r, err := q.ServiceUnbondingDelegation(w.Ctx, &restakingtypes.QueryServiceUnbondingDelegationRequest{ServiceId: t.ID, DelegatorAddress: user})
		if err != nil {
			return restakingtypes.UnbondingDelegation{}, err
		}
		return r.UnbondingDelegation, nil
	}
}

// ofUser lists what one user has with the targets of a kind: delegations, unbonding
// delegations and the targets themselves.
func ofUser(w *env.World, kind int, user string, limit uint64) (ds []restakingtypes.DelegationResponse, us []restakingtypes.UnbondingDelegation, ts []uint32) {
	q := restakingkeeper.NewQuerier(w.Restaking)
	switch kind {
	case kPool:
		ds = pages(limit, func(p *pageRequest) ([]restakingtypes.DelegationResponse, *pageResponse, error) {
			r, err := q.DelegatorPoolDelegations(w.Ctx, &restakingtypes.QueryDelegatorPoolDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		})
		us = pages(limit, func(p *pageRequest) ([]restakingtypes.UnbondingDelegation, *pageResponse, error) {
			r, err := q.DelegatorPoolUnbondingDelegations(w.Ctx, &restakingtypes.QueryDelegatorPoolUnbondingDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		})
		for _, t := range pages(limit, func(p *pageRequest) ([]poolstypes.Pool, *pageResponse, error) {
			r, err := q.DelegatorPools(w.Ctx, &restakingtypes.QueryDelegatorPoolsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Pools, r.Pagination, nil
		}) {
			ts = append(ts, t.ID)
			stored := Target{kind, t.ID}.Get(w).(poolstypes.Pool)
			rt.Assert(rt.SameMsg(&t, &stored), "the pool listed is the pool")
		}
	case kOperator:
		ds = pages(limit, func(p *pageRequest) ([]restakingtypes.DelegationResponse, *pageResponse, error) {
			r, err := q.DelegatorOperatorDelegations(w.Ctx, &restakingtypes.QueryDelegatorOperatorDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		})
		us = pages(limit, func(p *pageRequest) ([]restakingtypes.UnbondingDelegation, *pageResponse, error) {
			r, err := q.DelegatorOperatorUnbondingDelegations(w.Ctx, &restakingtypes.QueryDelegatorOperatorUnbondingDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		})
		for _, t := range pages(limit, func(p *pageRequest) ([]operatorstypes.Operator, *pageResponse, error) {
			r, err := q.DelegatorOperators(w.Ctx, &restakingtypes.QueryDelegatorOperatorsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Operators, r.Pagination, nil
		}) {
			ts = append(ts, t.ID)
			stored := Target{kind, t.ID}.Get(w).(operatorstypes.Operator)
			rt.Assert(rt.SameMsg(&t, &stored), "the operator listed is the operator")
		}
	default:
		ds = pages(limit, func(p *pageRequest) ([]restakingtypes.DelegationResponse, *pageResponse, error) {
			r, err := q.DelegatorServiceDelegations(w.Ctx, &restakingtypes.QueryDelegatorServiceDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Delegations, r.Pagination, nil
		})
		us = pages(limit, func(p *pageRequest) ([]restakingtypes.UnbondingDelegation, *pageResponse, error) {
			r, err := q.DelegatorServiceUnbondingDelegations(w.Ctx, &restakingtypes.QueryDelegatorServiceUnbondingDelegationsRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.UnbondingDelegations, r.Pagination, nil
		})
		for _, t := range pages(limit, func(p *pageRequest) ([]servicestypes.Service, *pageResponse, error) {
			r, err := q.DelegatorServices(w.Ctx, &restakingtypes.QueryDelegatorServicesRequest{DelegatorAddress: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Services, r.Pagination, nil
		}) {
			ts = append(ts, t.ID)
			stored := Target{kind, t.ID}.Get(w).(servicestypes.Service)
			rt.Assert(rt.SameMsg(&t, &stored), "the service listed is the service")
		}
	}
	return ds, us, ts
}

// oneOf looks up the target of a user's delegation.
func oneOf(w *env.World, t Target, user string) (uint32, error) {
	q := restakingkeeper.NewQuerier(w.Restaking)
	switch t.Kind {
	case kPool:
		r, err := q.DelegatorPool(w.Ctx, &restakingtypes.QueryDelegatorPoolRequest{PoolId: t.ID, DelegatorAddress: user})
		if err != nil {
			return 0, err
		}
		return r.Pool.ID, nil
	case kOperator:
		r, err := q.DelegatorOperator(w.Ctx, &restakingtypes.QueryDelegatorOperatorRequest{OperatorId: t.ID, DelegatorAddress: user})
		if err != nil {
			return 0, err
		}
		return r.Operator.ID, nil
	default:
		r, err := q.DelegatorService(w.Ctx, &restakingtypes.QueryDelegatorServiceRequest{ServiceId: t.ID, DelegatorAddress: user})
		if err != nil {
			return 0, err
		}
		return r.Service.ID, nil
	}
}

// stakes is a chain with two targets of each kind, and what two users have with those of
// one kind: nothing, a delegation of any amount, or one of which any part is unbonding.
type stakes struct {
	w         *env.World
	kind      int
	denom     [3]string
	del, left map[string]math.Int // by user and target
}

func (s *stakes) key(u sdk.AccAddress, id uint32) string { return u.String() + string(rune('0'+id)) }

var stakers = []sdk.AccAddress{alice, bob}

func stakesWorld() *stakes {
	w := base(env.Opts{NoHooks: true})
	env.Must(w.Restaking.SetParams(w.Ctx, restakingtypes.DefaultParams()))
	addOperator(w, 2)
	addService(w, 2, servicestypes.SERVICE_STATUS_ACTIVE, true)
	_, err := w.Pools.CreateOrGetPoolByDenom(w.Ctx, dT)
	env.Must(err)
	s := &stakes{w: w, kind: rt.Choice("kind", 3), denom: [3]string{"", dM, dT}, del: map[string]math.Int{}, left: map[string]math.Int{}}
	for _, u := range stakers {
		for id := uint32(1); id <= 2; id++ {
			t, k, d := Target{s.kind, id}, s.key(u, id), s.denom[id]
			any := u.Equals(alice) && id == 1
			n := 3
			if any || rt.Deep() {
				n = 4
			}
			what := []int{0, 1, 3, 2}[rt.Choice("stake", n)]
			if what == 0 {
				continue
			}
			x := math.NewInt(100 * int64(10*len(s.del)+len(s.left)+1))
			if any {
				x = pos("delegated")
			}
			hold(w, u, d, x)
			env.Must(t.Delegate(w, u, sdk.Coins{coin(d, x)}))
			if what >= 2 {
				y := x
				if what == 3 {
					y = math.NewInt(int64(len(s.del) + 1))
					if any {
						y = pos("undelegated")
						rt.Assume(y.LT(x))
					}
				}
				env.Must(t.Undelegate(w, u, sdk.Coins{coin(d, y)}))
				s.left[k] = y
				x = x.Sub(y)
			}
			if what != 2 {
				s.del[k] = x
			}
		}
	}
	return s
}

// checkDelegation and checkUnbonding say that what is answered is what the user has.
func (s *stakes) checkDelegation(d restakingtypes.DelegationResponse) string {
	id := d.Delegation.TargetID
	k := d.Delegation.UserAddress + string(rune('0'+id))
	x, ok := s.del[k]
	rt.Assert(ok && d.Delegation.Type == Target{s.kind, id}.Type(), "a delegation listed exists")
	if ok {
		rt.Assert(len(d.Balance) == 1 && eq(d.Balance.AmountOf(s.denom[id]), x), "the balance of a delegation is what was delegated")
		rt.Assert(d.Delegation.Shares.AmountOf(Target{s.kind, id}.ShareDenom(s.denom[id])).Equal(dec(x)), "the shares of a delegation are its own")
	}
	return k
}

func (s *stakes) checkUnbonding(d restakingtypes.UnbondingDelegation) string {
	k := d.DelegatorAddress + string(rune('0'+d.TargetID))
	x, ok := s.left[k]
	rt.Assert(ok && d.Type == Target{s.kind, d.TargetID}.Type(), "an unbonding delegation listed exists")
	if ok {
		rt.Assert(len(d.Entries) == 1 && eq(d.Entries[0].Balance.AmountOf(s.denom[d.TargetID]), x), "what is unbonding is what was undelegated")
	}
	return k
}

// exactly says that the keys seen are exactly those of the records selected.
func exactly(seen []string, of map[string]math.Int, sel func(k string) bool, label string) {
	n := map[string]int{}
	for _, k := range seen {
		n[k]++
	}
	want := 0
	for k := range of {
		if sel(k) {
			want++
			rt.Assert(n[k] == 1, label)
		}
	}
	rt.Assert(len(seen) == want, label)
}

// pageSize is one, two, or in the thorough tier more than there is.
func pageSize() uint64 {
	n := 2
	if rt.Deep() {
		n = 3
	}
	return []uint64{1, 2, 100}[rt.Choice("page", n)]
}

// C27_targets: two users who have nothing, any delegation, or any partial or whole
// unbonding with each of two targets of a kind. The listings of a target's delegations
// and unbonding delegations hold exactly that target's, in pages of one, two or more,
// and the lookups of a single one agree.
func C27_targets() {
	s := stakesWorld()
	w := s.w
	limit := pageSize()
	for id := uint32(1); id <= 3; id++ {
		t := Target{s.kind, id}
		mine := func(k string) bool { return k[len(k)-1] == byte('0'+id) }
		var seen []string
		for _, d := range t.delegationsOf(w, limit) {
			seen = append(seen, s.checkDelegation(d))
		}
		exactly(seen, s.del, mine, "the delegations of a target are listed, once each, and no others")
		seen = nil
		for _, d := range t.unbondingsOf(w, limit) {
			seen = append(seen, s.checkUnbonding(d))
		}
		exactly(seen, s.left, mine, "the unbonding delegations of a target are listed, once each, and no others")
		if limit != 1 {
			continue
		}
		for _, u := range stakers {
			k := s.key(u, id)
			d, err := t.delegationOf(w, u.String())
			_, ok := s.del[k]
			rt.Assert((err == nil) == ok, "a delegation is found exactly if it exists")
			if err == nil {
				rt.Assert(s.checkDelegation(d) == k, "the delegation found is the one asked for")
			}
			b, err := t.unbondingOf(w, u.String())
			_, ok = s.left[k]
			rt.Assert((err == nil) == ok, "an unbonding delegation is found exactly if it exists")
			if err == nil {
				rt.Assert(s.checkUnbonding(b) == k, "the unbonding delegation found is the one asked for")
			}
		}
	}
	rt.Reach("end")
}

// C27_users: the same state. The listings of a user's delegations, unbonding delegations
// and targets hold exactly that user's, and the lookup of a single target agrees.
func C27_users() {
	s := stakesWorld()
	w := s.w
	limit := pageSize()
	for _, u := range []sdk.AccAddress{alice, bob, carol} {
		mine := func(k string) bool { return k[:len(k)-1] == u.String() }
		ds, us, ts := ofUser(w, s.kind, u.String(), limit)
		var seen []string
		for _, d := range ds {
			seen = append(seen, s.checkDelegation(d))
		}
		exactly(seen, s.del, mine, "the delegations of a user are listed, once each, and no others")
		seen = nil
		for _, d := range us {
			seen = append(seen, s.checkUnbonding(d))
		}
		exactly(seen, s.left, mine, "the unbonding delegations of a user are listed, once each, and no others")
		seen = nil
		for _, id := range ts {
			seen = append(seen, s.key(u, id))
		}
		exactly(seen, s.del, mine, "the targets a user delegated to are listed, once each, and no others")
		if limit == 1 {
			for id := uint32(1); id <= 2; id++ {
				got, err := oneOf(w, Target{s.kind, id}, u.String())
				_, ok := s.del[s.key(u, id)]
				rt.Assert((err == nil) == ok && (!ok || got == id), "the target of a delegation is found exactly if that exists")
			}
		}
	}
	rt.Reach("end")
}
