From 18bb01d21fd49ce1f514256c5a0d03c73e5ab308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 01/30] fix: do not halt when several unbondings of a
 delegation mature together

---
 x/restaking/keeper/end_blocker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..3aa844c 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"errors"
 	"fmt"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -20,6 +21,11 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 
 		balances, err := k.CompleteUnbonding(ctx, data)
 		if err != nil {
+			// Completing an unbonding delegation completes all of its mature entries, so when more than one
+			// of them matures in the same block the following ones might have nothing left to complete
+			if errors.Is(err, types.ErrNoUnbondingDelegation) {
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From f58164e5a974af3fc71a6046731e7e68add40e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 02/30] fix: complete unbondings whose operator or service was
 deleted

---
 x/restaking/keeper/alias_functions.go | 33 ++++++---------------------
 x/restaking/keeper/unbond.go          |  8 +------
 2 files changed, 8 insertions(+), 33 deletions(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..7de67e0 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -673,38 +673,19 @@ func (k *Keeper) PerformDelegation(ctx context.Context, data types.DelegationDat
 // --- Unbonding operations
 // --------------------------------------------------------------------------------------------------------------------
 
-// getUnbondingDelegationTarget returns the target of the given unbonding delegation
-func (k *Keeper) getUnbondingDelegationTarget(ctx context.Context, ubd types.UnbondingDelegation) (types.DelegationTarget, error) {
+// getUnbondingDelegationTargetAddress returns the address of the account that holds the coins of the
+// given unbonding delegation. It does not require the target to exist anymore, since operators and
+// services can be deleted before the unbonding is completed.
+func (k *Keeper) getUnbondingDelegationTargetAddress(ubd types.UnbondingDelegation) (sdk.AccAddress, error) {
 	switch ubd.Type {
 	case types.DELEGATION_TYPE_POOL:
-		pool, found, err := k.poolsKeeper.GetPool(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, poolstypes.ErrPoolNotFound
-		}
-		return pool, nil
+		return poolstypes.GetPoolAddress(ubd.TargetID), nil
 
 	case types.DELEGATION_TYPE_OPERATOR:
-		operator, found, err := k.operatorsKeeper.GetOperator(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, operatorstypes.ErrOperatorNotFound
-		}
-		return operator, nil
+		return operatorstypes.GetOperatorAddress(ubd.TargetID), nil
 
 	case types.DELEGATION_TYPE_SERVICE:
-		service, found, err := k.servicesKeeper.GetService(ctx, ubd.TargetID)
-		if err != nil {
-			return nil, err
-		}
-		if !found {
-			return nil, servicestypes.ErrServiceNotFound
-		}
-		return service, nil
+		return servicestypes.GetServiceAddress(ubd.TargetID), nil
 
 	default:
 		return nil, errors.Wrapf(types.ErrInvalidDelegationType, "invalid delegation type %v", ubd.Type)
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 7a29241..87f1a50 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -248,14 +248,8 @@ func (k *Keeper) CompleteUnbonding(ctx context.Context, data types.DTData) (sdk.
 		return nil, types.ErrNoUnbondingDelegation
 	}
 
-	// Get the target of the unbonding delegation
-	target, err := k.getUnbondingDelegationTarget(ctx, ubd)
-	if err != nil {
-		return nil, err
-	}
-
 	// Get the address of the target
-	targetAddress, err := sdk.AccAddressFromBech32(target.GetAddress())
+	targetAddress, err := k.getUnbondingDelegationTargetAddress(ubd)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b9910b56576b7a5e52714dcdac694b70ae5a20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 03/30] fix: keep the recorded delegations when an operator or
 service is edited

---
 x/operators/types/models.go | 13 +++++--------
 x/services/types/models.go  | 16 ++++++----------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..c349a68 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,14 +220,11 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
-		o.ID,
-		o.Status,
-		update.Moniker,
-		update.Website,
-		update.PictureURL,
-		o.Admin,
-	)
+	updated := *o
+	updated.Moniker = update.Moniker
+	updated.Website = update.Website
+	updated.PictureURL = update.PictureURL
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..3bddc4f 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,16 +241,12 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
-		s.ID,
-		s.Status,
-		update.Name,
-		update.Description,
-		update.Website,
-		update.PictureURL,
-		s.Admin,
-		s.Accredited,
-	)
+	updated := *s
+	updated.Name = update.Name
+	updated.Description = update.Description
+	updated.Website = update.Website
+	updated.PictureURL = update.PictureURL
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From a8c69480339bf5c50d768e3e070d89d346d7ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 04/30] fix: refuse to delete an operator or service that still
 has delegations

---
 x/operators/keeper/operators.go |  6 ++++++
 x/operators/types/errors.go     |  1 +
 x/services/keeper/services.go   |  6 ++++++
 x/services/types/errors.go      | 13 +++++++------
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..8324cd8 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -124,6 +124,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return types.ErrOperatorNotInactive
 	}
 
+	// Make sure there are no delegations left, otherwise the delegators would
+	// not be able to undelegate their tokens
+	if !operator.Tokens.IsZero() {
+		return types.ErrOperatorHasDelegations
+	}
+
 	// Call the hook
 	err := k.BeforeOperatorDeleted(ctx, operator.ID)
 	if err != nil {
diff --git a/x/operators/types/errors.go b/x/operators/types/errors.go
index f945fde..9bbb7c6 100644
--- a/x/operators/types/errors.go
+++ b/x/operators/types/errors.go
@@ -13,4 +13,5 @@ var (
 	ErrOperatorNotActive       = errors.Register(ModuleName, 4, "operator not active")
 	ErrInvalidOperatorParams   = errors.Register(ModuleName, 5, "invalid operator params")
 	ErrOperatorNotInactive     = errors.Register(ModuleName, 6, "operator not inactive")
+	ErrOperatorHasDelegations  = errors.Register(ModuleName, 7, "operator has delegations")
 )
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..1cc6a97 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -135,6 +135,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return types.ErrServiceIsActive
 	}
 
+	// Make sure there are no delegations left, otherwise the delegators would
+	// not be able to undelegate their tokens
+	if !service.Tokens.IsZero() {
+		return types.ErrServiceHasDelegations
+	}
+
 	// Call the hook
 	err = k.BeforeServiceDeleted(ctx, service.ID)
 	if err != nil {
diff --git a/x/services/types/errors.go b/x/services/types/errors.go
index 2ae514c..f0e42a1 100644
--- a/x/services/types/errors.go
+++ b/x/services/types/errors.go
@@ -6,10 +6,11 @@ import (
 )
 
 var (
-	ErrServiceNotFound      = errors.Wrap(sdkerrors.ErrNotFound, "service not found")
-	ErrInvalidGenesis       = errors.Register(ModuleName, 1, "invalid genesis state")
-	ErrInsufficientShares   = errors.Register(ModuleName, 2, "insufficient delegation shares")
-	ErrServiceAlreadyActive = errors.Register(ModuleName, 3, "service is already active")
-	ErrServiceNotActive     = errors.Register(ModuleName, 4, "service is not active")
-	ErrServiceIsActive      = errors.Register(ModuleName, 5, "service is active")
+	ErrServiceNotFound       = errors.Wrap(sdkerrors.ErrNotFound, "service not found")
+	ErrInvalidGenesis        = errors.Register(ModuleName, 1, "invalid genesis state")
+	ErrInsufficientShares    = errors.Register(ModuleName, 2, "insufficient delegation shares")
+	ErrServiceAlreadyActive  = errors.Register(ModuleName, 3, "service is already active")
+	ErrServiceNotActive      = errors.Register(ModuleName, 4, "service is not active")
+	ErrServiceIsActive       = errors.Register(ModuleName, 5, "service is active")
+	ErrServiceHasDelegations = errors.Register(ModuleName, 6, "service has delegations")
 )
-- 
2.43.0


From 58b96604e9c733f87eaaf077f5c75de4adfb0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 05/30] fix: end the rewards plans of a service when it is
 deleted

---
 x/rewards/keeper/rewards_plan.go   | 24 ++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go |  7 +++++++
 2 files changed, 31 insertions(+)

diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..b06cea5 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -169,6 +169,30 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 	return nil
 }
 
+// terminateServiceRewardsPlans terminates all the rewards plans of the given
+// service, transferring the remaining rewards to the service's address.
+func (k *Keeper) terminateServiceRewardsPlans(ctx context.Context, serviceID uint32) error {
+	var plans []types.RewardsPlan
+	err := k.RewardsPlans.Walk(ctx, nil, func(_ uint64, plan types.RewardsPlan) (stop bool, err error) {
+		if plan.ServiceID == serviceID {
+			plans = append(plans, plan)
+		}
+		return false, nil
+	})
+	if err != nil {
+		return err
+	}
+
+	for _, plan := range plans {
+		err = k.terminateRewardsPlan(ctx, plan)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 // TerminateEndedRewardsPlans terminates all rewards plans that have ended.
 func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	// Get the current block time
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..9015361 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -34,6 +34,13 @@ func (h ServicesHooks) AfterServiceDeactivated(context.Context, uint32) error {
 
 // BeforeServiceDeleted implements servicestypes.ServicesHooks
 func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Rewards plans can't outlive their service, otherwise allocating or
+	// terminating them would fail at the beginning of each following block
+	err := h.k.terminateServiceRewardsPlans(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From 43af1e460c9e5978952315534159df921766501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 06/30] fix: do not overflow the sum of a rewards plan's
 weights

---
 x/rewards/keeper/allocation.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..002ad6c 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -248,15 +248,16 @@ func (k *Keeper) AllocateRewardsByPlan(
 	}
 
 	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	// Each weight can be up to the maximum uint32, so use uint64 not to overflow.
+	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
-- 
2.43.0


From 29edbe2478dbaae4ec4eef18a51db2220b92a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 07/30] fix: allocate rewards only to the denoms eligible for
 them

---
 x/rewards/keeper/allocation.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 002ad6c..e687b3d 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -21,10 +21,11 @@ import (
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
-// DistributionInfo stores information about a delegation target and its
-// delegation value.
+// DistributionInfo stores information about a delegation target, the tokens
+// delegated to it that are eligible for rewards and their value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
+	Tokens           sdk.Coins
 	DelegationsValue math.LegacyDec
 }
 
@@ -296,6 +297,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -417,6 +419,7 @@ func (k *Keeper) getDistrInfos(
 
 		distrInfos = append(distrInfos, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           targetTokens,
 			DelegationsValue: delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
@@ -538,6 +541,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	tokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -554,6 +558,7 @@ func (k *Keeper) allocateRewardsToUsers(
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           tokens,
 			DelegationsValue: totalDelValues,
 		}, rewards)
 	default:
@@ -565,7 +570,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.Tokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From 36610c64c9dd8337cbcc1678f95abcad54f1406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 08/30] fix: allocate rewards to globally allowed denoms only
 when the service has no list

---
 x/rewards/keeper/allocation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index e687b3d..219369c 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -147,6 +147,9 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 				)
 				return false, nil
 			}
+		} else {
+			// The service does not restrict the denoms: use the global ones
+			serviceRestakableDenoms = restakableDenoms
 		}
 
 		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
-- 
2.43.0


From 53b91edb4b0ade63a6cf0bb388dbcbcc3e5259ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 09/30] fix: refuse rewards plans whose amount could overflow
 the allocation

---
 x/rewards/types/models.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/rewards/types/models.go b/x/rewards/types/models.go
index cfb43cf..fad3c2f 100644
--- a/x/rewards/types/models.go
+++ b/x/rewards/types/models.go
@@ -18,6 +18,11 @@ import (
 // MaxRewardsPlanDescriptionLength is the maximum length of a rewards plan description.
 const MaxRewardsPlanDescriptionLength = 1000
 
+// MaxRewardsPlanAmountBitLen is the maximum bit length of each amount per day of
+// a rewards plan. Larger amounts could overflow the decimals used to allocate
+// the rewards at the beginning of each block.
+const MaxRewardsPlanAmountBitLen = 128
+
 var (
 	_ DistributionType      = (*DistributionTypeBasic)(nil)
 	_ DistributionType      = (*DistributionTypeWeighted)(nil)
@@ -92,6 +97,12 @@ func (plan RewardsPlan) Validate(unpacker codectypes.AnyUnpacker) error {
 		return fmt.Errorf("invalid amount per day: %w", err)
 	}
 
+	for _, coin := range plan.AmountPerDay {
+		if coin.Amount.BigInt().BitLen() > MaxRewardsPlanAmountBitLen {
+			return fmt.Errorf("too large amount per day: %s", coin)
+		}
+	}
+
 	if !plan.EndTime.After(plan.StartTime) {
 		return fmt.Errorf(
 			"end time must be after start time: %s <= %s",
-- 
2.43.0


From 8eb540f0a18bf04faefa5d96e95323cddb0ad506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 10/30] fix: count trusted shares of pools that do not secure
 the service

---
 x/rewards/keeper/pool_service_shares.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..f0e963f 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -21,15 +21,8 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	}
 
 	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
+		// The shares are updated even if the pool does not secure the service at the
+		// moment, consistently with what is done when a delegation is modified
 		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
 		if err != nil {
 			return true, err
-- 
2.43.0


From 400fc623430affbc821a57bbe51fd48837b5e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 11/30] fix: update the pool delegations when the accreditation
 of a service changes

---
 x/rewards/keeper/hooks.go               | 21 ++++----
 x/rewards/keeper/pool_service_shares.go | 71 ++++++++++++++-----------
 x/services/keeper/services.go           | 11 ++--
 x/services/types/hooks.go               |  2 +-
 4 files changed, 55 insertions(+), 50 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..c800444 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -142,31 +142,28 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
 		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
 		if err != nil {
 			return true, err
 		}
 
-		// Clone the service and invert the accreditation status to get the
-		// previous state
-		serviceBefore := service
-		serviceBefore.Accredited = !serviceBefore.Accredited
+		// The service is stored after this hook, so that the rewards accrued so far
+		// are computed using its current accreditation. Clone the service and invert
+		// the accreditation status to get the next state
+		serviceAfter := service
+		serviceAfter.Accredited = !serviceAfter.Accredited
 
-		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
-		trustedAfter := preferences.IsServiceTrusted(service)
+		trustedBefore := preferences.IsServiceTrusted(service)
+		trustedAfter := preferences.IsServiceTrusted(serviceAfter)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.updatePoolDelegationTrustedService(ctx, del, service.ID, trustedAfter)
 			if err != nil {
 				return true, err
 			}
 		}
 		return false, nil
 	})
-	if err != nil {
-		return err
-	}
-	return nil
 }
 
 // AfterUserPreferencesModified is called after a user's trust in a service is
diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index f0e963f..d5bff74 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -15,40 +15,47 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	serviceID uint32,
 	trusted bool,
 ) error {
-	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(userAddress)
+	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
+		err = k.updatePoolDelegationTrustedService(ctx, del, serviceID, trusted)
+		return err != nil, err
+	})
+}
+
+// updatePoolDelegationTrustedService settles the rewards of the given pool
+// delegation, and then adds its shares to (or removes them from) the total
+// delegator shares of the service.
+func (k *Keeper) updatePoolDelegationTrustedService(
+	ctx context.Context,
+	del restakingtypes.Delegation,
+	serviceID uint32,
+	trusted bool,
+) error {
+	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(del.UserAddress)
 	if err != nil {
 		return err
 	}
 
-	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		// The shares are updated even if the pool does not secure the service at the
-		// moment, consistently with what is done when a delegation is modified
-		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		// Calling these two methods has same effect as calling
-		// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
-		_, err = k.withdrawDelegationRewards(ctx, pool, del)
-		if err != nil {
-			return true, err
-		}
-
-		err = k.initializeDelegation(ctx, pool, delAddr)
-		if err != nil {
-			return true, err
-		}
-
-		if trusted {
-			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		} else {
-			err = k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		}
-		if err != nil {
-			return true, err
-		}
-
-		return false, nil
-	})
+	pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
+	if err != nil {
+		return err
+	}
+
+	// Calling these two methods has same effect as calling
+	// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
+	_, err = k.withdrawDelegationRewards(ctx, pool, del)
+	if err != nil {
+		return err
+	}
+
+	err = k.initializeDelegation(ctx, pool, delAddr)
+	if err != nil {
+		return err
+	}
+
+	// The shares are updated even if the pool does not secure the service at the
+	// moment, consistently with what is done when a delegation is modified
+	if trusted {
+		return k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+	}
+	return k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
 }
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1cc6a97..b5b673e 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -173,15 +173,16 @@ func (k *Keeper) SetServiceAccredited(ctx context.Context, serviceID uint32, acc
 		return nil
 	}
 
-	// Update the service accreditation status
-	service.Accredited = accredited
-	err = k.SaveService(ctx, service)
+	// Call the hook before storing the service, so that the rewards accrued so far
+	// can still be computed using the current accreditation status
+	err = k.AfterServiceAccreditationModified(ctx, service.ID)
 	if err != nil {
 		return err
 	}
 
-	// Call the hook
-	return k.AfterServiceAccreditationModified(ctx, service.ID)
+	// Update the service accreditation status
+	service.Accredited = accredited
+	return k.SaveService(ctx, service)
 }
 
 // HasService checks if a Service with the given ID exists in the KVStore
diff --git a/x/services/types/hooks.go b/x/services/types/hooks.go
index 33c5069..9531149 100644
--- a/x/services/types/hooks.go
+++ b/x/services/types/hooks.go
@@ -17,7 +17,7 @@ type ServicesHooks interface {
 	AfterServiceCreated(ctx context.Context, serviceID uint32) error               // Must be called after a service is created
 	AfterServiceActivated(ctx context.Context, serviceID uint32) error             // Must be called after a service is registered
 	AfterServiceDeactivated(ctx context.Context, serviceID uint32) error           // Must be called after a service is deregistered
-	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called after a service accreditation is changed
+	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called right before a new service accreditation is stored
 	BeforeServiceDeleted(ctx context.Context, serviceID uint32) error              // Must be called before a service is deleted
 }
 
-- 
2.43.0


From 28bb862f606d2c5c9f3d62a3d59463bb403e2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 12/30] fix: count the pool delegations that already trust a
 new service

---
 x/rewards/keeper/pool_service_shares.go | 29 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  8 ++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index d5bff74..c8b449a 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -4,8 +4,37 @@ import (
 	"context"
 
 	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
+	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
+// initializePoolServiceTotalDelegatorShares adds to the total delegator shares of
+// a new service the pool delegations of the users that trust it because of their
+// general preferences. There are no rewards to settle since the service is new.
+func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if !preferences.IsServiceTrusted(service) {
+			return false, nil
+		}
+
+		err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+		return err != nil, err
+	})
+}
+
 // AfterUserTrustedServiceUpdated is called after a user's trust in a service is
 // updated. AfterUserTrustedServiceUpdated updates the total delegator shares for
 // the service in all pools where the user has a delegation.
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index 9015361..809c0a3 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,13 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	// Count the existing pool delegations of the users that already trust the service
+	return h.k.initializePoolServiceTotalDelegatorShares(ctx, serviceID)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
-- 
2.43.0


From f8fb3d45d1e672846cab5cf0eb757794884e07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 13/30] fix: pay the commission of a deleted operator from the
 rewards pool

---
 x/rewards/keeper/target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From bfa4e7cb6631f6cd0324e40395d950f985683a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 14/30] fix: send the commission of a deleted operator to the
 admin's withdraw address

---
 x/rewards/keeper/alias_functions.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..2eca862 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,30 +69,16 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address to which the commission of an operator is sent: the
+// withdraw address of the operator's admin if set, otherwise the admin address is returned. The
+// operator's own address is never used, because nobody can spend from it.
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
-	// Try getting a custom withdraw address
-	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
+	adminAddr, err := k.accountKeeper.AddressCodec().StringToBytes(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
-	}
-
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
-	}
-
-	// By default, use the operator admin address as the withdraw address
-	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
-	if err != nil {
-		return nil, err
-	}
-
-	return adminAddress, nil
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddr)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
-- 
2.43.0


From 33c1d8c1e4a25b4ff71838bdb3a759b6a467384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 15/30] fix: settle the rewards of pool delegations before
 deleting a service

---
 x/rewards/keeper/pool_service_shares.go | 29 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index c8b449a..dc49eda 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -50,6 +50,35 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	})
 }
 
+// settlePoolDelegationsTrustingService settles the rewards of all the pool
+// delegations of the users that trust the given service. It has to be called
+// before the service is deleted, since the rewards that a pool has received from
+// it can't be attributed to its delegators anymore after that.
+func (k *Keeper) settlePoolDelegationsTrustingService(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if !preferences.IsServiceTrusted(service) {
+			return false, nil
+		}
+
+		err = k.updatePoolDelegationTrustedService(ctx, del, serviceID, false)
+		return err != nil, err
+	})
+}
+
 // updatePoolDelegationTrustedService settles the rewards of the given pool
 // delegation, and then adds its shares to (or removes them from) the total
 // delegator shares of the service.
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index 809c0a3..3075e44 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -47,6 +47,11 @@ func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint3
 		return err
 	}
 
+	err = h.k.settlePoolDelegationsTrustingService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From 4b267259ffa0d1703ace982c9bcd00d6b9a0001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 16/30] fix: treat a currency pair that has not been quoted yet
 as having no price

---
 x/rewards/keeper/oracle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 388a7c6..3c08235 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -35,6 +35,11 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 		return asset, math.LegacyDec{}, err
 	}
 
+	// If the currency pair has not been quoted yet return 0 as well.
+	if qpn.Price.IsNil() {
+		return asset, math.LegacyZeroDec(), nil
+	}
+
 	decimals, err := k.oracleKeeper.GetDecimalsForCurrencyPair(sdkCtx, cp)
 	if err != nil {
 		return asset, math.LegacyDec{}, err
-- 
2.43.0


From f6b44e4a979e0acdd25928c735a5228961a61d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 17/30] fix: support the markets that have more than 18
 decimals

---
 x/rewards/keeper/oracle.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 3c08235..45841de 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -46,8 +46,9 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 	}
 
 	// Divide returned quote price by 10^{decimals} gives us the real price in
-	// decimal number.
-	return asset, math.LegacyNewDecFromIntWithPrec(qpn.Price, int64(decimals)), nil
+	// decimal number. Markets can have more decimals than the ones of a LegacyDec.
+	price := math.LegacyNewDecFromInt(qpn.Price).QuoInt(math.NewIntWithDecimal(1, int(decimals)))
+	return asset, price, nil
 }
 
 func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDec, error) {
-- 
2.43.0


From 2ad9c53a8881c8ea4daa1de9df5e14d4f2d2206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 18/30] fix: compute the value of assets with more than 18
 decimals

---
 x/assets/types/models.go   | 8 ++++++++
 x/rewards/keeper/oracle.go | 3 +--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/x/assets/types/models.go b/x/assets/types/models.go
index a8eb6e6..5790436 100644
--- a/x/assets/types/models.go
+++ b/x/assets/types/models.go
@@ -6,6 +6,10 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
+// MaxExponent is the maximum exponent of an asset: the highest power of ten that
+// an Int can hold.
+const MaxExponent = 77
+
 // NewAsset returns a new Asset instance
 func NewAsset(denom, ticker string, exponent uint32) Asset {
 	return Asset{
@@ -27,5 +31,9 @@ func (asset *Asset) Validate() error {
 		return fmt.Errorf("invalid ticker: %w", err)
 	}
 
+	if asset.Exponent > MaxExponent {
+		return fmt.Errorf("invalid exponent: %d is higher than %d", asset.Exponent, MaxExponent)
+	}
+
 	return nil
 }
diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 45841de..b2f185c 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	stdmath "math"
 
 	"cosmossdk.io/collections"
 	"cosmossdk.io/errors"
@@ -61,7 +60,7 @@ func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDe
 		return math.LegacyZeroDec(), nil
 	}
 
-	return price.MulInt(coin.Amount).QuoInt64(int64(stdmath.Pow10(int(asset.Exponent)))), nil
+	return price.MulInt(coin.Amount).QuoInt(math.NewIntWithDecimal(1, int(asset.Exponent))), nil
 }
 
 func (k *Keeper) GetCoinsValue(ctx context.Context, coins sdk.Coins) (math.LegacyDec, error) {
-- 
2.43.0


From ab42ad3259e7a5b313d6725110986caf734aaf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 19/30] fix: forget the previous ticker of an asset that is
 registered again

---
 x/assets/keeper/assets.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..7d337a4 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -4,12 +4,26 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
 // SetAsset stores an asset in the store
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// If the asset is already registered its ticker can change, in which case it must
+	// not be found by the previous one anymore
+	previous, err := k.GetAsset(ctx, asset.Denom)
+	if err != nil && !errors.IsOf(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil && previous.Ticker != asset.Ticker {
+		err = k.TickerIndexes.Remove(ctx, collections.Join(previous.Ticker, asset.Denom))
+		if err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 06c394065575f9b641151d46be3cf428073be30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 20/30] fix: unbond restaked assets of users who also delegate
 other coins to pools

---
 x/restaking/keeper/alias_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index 7de67e0..7da34f1 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -831,9 +831,14 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 			return false, nil
 		}
 
+		// Only consider the tokens that are part of this delegation, since the target
+		// might not be able to convert the other ones into shares
+		delegatedTokens := target.TokensFromShares(delegation.Shares)
+		involvedTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, delegatedTokens)
+
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		involvedShares, err := target.SharesFromDecCoins(involvedTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 52c22e95c67a79c283e5534fbc62912295efa121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 21/30] fix: credit the insurance deposits in the coins that
 return from another chain

---
 x/liquidvesting/keeper/ibc.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..b02c4cf 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -63,14 +63,25 @@ func (k *Keeper) OnRecvPacket(
 		return fmt.Errorf("amount received is not equal to the amounts to deposit in the users' insurance fund")
 	}
 
-	// Deposit the amounts into the users' insurance fund
-	for _, deposit := range msgDepositInsurance.Amounts {
+	// Get the denom that the received coins have on this chain
+	var denomTrace transfertypes.DenomTrace
+	if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), data.Denom) {
+		// The coins are returning to this chain, so the prefix that was added
+		// by the counterparty chain is removed
+		// NOTE: voucherPrefix contains the trailing "/"
+		voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+		denomTrace = transfertypes.ParseDenomTrace(data.Denom[len(voucherPrefix):])
+	} else {
 		// Convert the coin denom to its IBC representation
 		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
 		// NOTE: sourcePrefix contains the trailing "/"
 		prefixedDenom := sourcePrefix + data.Denom
 		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
+		denomTrace = transfertypes.ParseDenomTrace(prefixedDenom)
+	}
+
+	// Deposit the amounts into the users' insurance fund
+	for _, deposit := range msgDepositInsurance.Amounts {
 		// Convert the insurance deposit to its IBC representation
 		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
 
-- 
2.43.0


From 87380a0bc6d06101ff02eac654cb7a24b761a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 22/30] fix: refuse the insurance deposits that have no amount

---
 x/liquidvesting/types/ibc_hooks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/liquidvesting/types/ibc_hooks.go b/x/liquidvesting/types/ibc_hooks.go
index f5ab1b5..480b172 100644
--- a/x/liquidvesting/types/ibc_hooks.go
+++ b/x/liquidvesting/types/ibc_hooks.go
@@ -20,6 +20,10 @@ func (i *InsuranceDeposit) ValidateBasic() error {
 		return fmt.Errorf("invalid depositor address: %s", err)
 	}
 
+	if i.Amount.IsNil() {
+		return fmt.Errorf("amount cannot be empty")
+	}
+
 	if i.Amount.IsNegative() {
 		return fmt.Errorf("amount cannot be negative")
 	}
-- 
2.43.0


From 0a18450bba43cc251999dc228480dc770e196f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 23/30] fix: import the user preferences before the rewards
 state exists

---
 x/restaking/keeper/genesis.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..db138a9 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -109,9 +109,15 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
-	// Store the user preferences
+	// Store the user preferences. The hooks are not called because they settle the
+	// rewards of the delegations, whose state is imported later as it was exported
 	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		err := entry.Preferences.Validate()
+		if err != nil {
+			return err
+		}
+
+		err = k.usersPreferences.Set(ctx, entry.UserAddress, entry.Preferences)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 24ee822f324c49d0565b4335ce561acda6ab77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 24/30] fix: do not import the initial rewards records of
 targets that have newer ones

---
 x/rewards/keeper/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..7295379 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,15 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Remove the historical rewards that were set when the targets were imported. Their
+	// references must only be the ones of the records below
+	for _, current := range records.CurrentRewards {
+		err = historicalRewardsCollection.Clear(ctx, collections.NewPrefixedPairRange[uint32, uint64](current.DelegationTargetID))
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From 2fcf98695d507fcdc82e0ac5bf1cd21da37c8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 25/30] fix: import the insurance funds when the module holds
 other coins too

---
 x/liquidvesting/keeper/genesis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..0efd5e5 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -72,13 +72,13 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
-	// sum of the users' insurance fund
+	// Ensure that the liquid vesting module has the coins of the users' insurance
+	// funds. It can have more, since anyone can send coins to it
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0


From 3b2ab5b55502311888e630e51a5a5218b36a2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 26/30] fix: remove the params of deleted operators

---
 x/operators/keeper/operators.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 8324cd8..c5b7c4e 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -142,6 +142,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Remove the params, that might have been set while the operator was inactive
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
-- 
2.43.0


From 1ad53d1a89ecb2d47a30e20a2c7d884b468e88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 27/30] fix: list the unbonding delegations of the requested
 target only

---
 x/restaking/keeper/grpc_query.go | 58 +++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..dd15cc4 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -253,19 +253,23 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.PoolUnbondingDelegationPrefix)
 
 	// Query the pool unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.PoolId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryPoolUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -391,20 +395,24 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 	store := k.storeService.OpenKVStore(ctx)
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.OperatorUnbondingDelegationPrefix)
 
-	// Query the operator unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	// Query the operator unbonding delegations for the given operator id
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.OperatorId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryOperatorUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -530,20 +538,24 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 	store := k.storeService.OpenKVStore(ctx)
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.ServiceUnbondingDelegationPrefix)
 
-	// Query the service unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	// Query the service unbonding delegations for the given service id
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.ServiceId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryServiceUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
-- 
2.43.0


From 2a3fe9c9e71f3bf83d0c05708b9c9c4d8e4592eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 28/30] fix: list the operators that may validate the service

---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index dd15cc4..6aa8179 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From 33f42f8c65c888656ada5254a37721c18d82b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 29/30] fix: apply the governance ante checks to weighted votes
 and nested messages

Weighted votes were not subject to the minimum stake, executions inside of
executions escaped both checks and so did expedited proposals submitted
through an execution.
---
 ante/gov_expedited_ante.go | 32 ++++++++++++++++++++++++--------
 ante/gov_vote_ante.go      | 20 +++++++++++++++++++-
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..ce252ca 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -40,20 +41,35 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
 		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
-				continue
-			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
-				}
+			if err := g.validateMsg(msg); err != nil {
+				return ctx, err
 			}
 		}
 	}
 	return next(ctx, tx, simulate)
 }
 
+// validateMsg checks the given message, as well as the ones it executes on behalf of others
+func (g GovExpeditedProposalsDecorator) validateMsg(msg sdk.Msg) error {
+	switch msg := msg.(type) {
+	case *govv1.MsgSubmitProposal:
+		if msg.Expedited {
+			return g.validateExpeditedGovProp(msg)
+		}
+	case *authz.MsgExec:
+		for _, v := range msg.Msgs {
+			var innerMsg sdk.Msg
+			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
+				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
+			}
+			if err := g.validateMsg(innerMsg); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
 	_, ok := expeditedPropsWhitelist[msgType]
 	return ok
diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..172e099 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -67,11 +67,21 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		case *govv1.MsgVote:
 			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
 			if err != nil {
 				return err
 			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
@@ -114,12 +124,20 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 		return nil
 	}
 
-	validAuthz := func(execMsg *authz.MsgExec) error {
+	var validAuthz func(execMsg *authz.MsgExec) error
+	validAuthz = func(execMsg *authz.MsgExec) error {
 		for _, v := range execMsg.Msgs {
 			var innerMsg sdk.Msg
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
+			// an execution can itself contain other executions
+			if innerExec, ok := innerMsg.(*authz.MsgExec); ok {
+				if err := validAuthz(innerExec); err != nil {
+					return err
+				}
+				continue
+			}
 			if err := validMsg(innerMsg); err != nil {
 				return err
 			}
-- 
2.43.0


From 2a73f4cc2cf6fbe20efbd4f0952e46e270e121dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 30/30] fix: refuse account addresses that are not in their
 canonical form

Bech32 addresses can be written in upper case too. Delegations, preferences,
administrators and insurance funds are stored under the address string while
rewards are tracked by account, so delegating under both spellings overwrote
the starting info of the first delegation and lost its rewards.
---
 utils/addresses.go                 | 22 ++++++++++++++++++++++
 x/liquidvesting/types/ibc_hooks.go |  5 +++--
 x/operators/types/messages.go      |  6 ++++--
 x/restaking/types/messages.go      | 10 ++++++----
 x/services/types/messages.go       |  6 ++++--
 5 files changed, 39 insertions(+), 10 deletions(-)
 create mode 100644 utils/addresses.go

diff --git a/utils/addresses.go b/utils/addresses.go
new file mode 100644
index 0000000..1e39f6e
--- /dev/null
+++ b/utils/addresses.go
@@ -0,0 +1,22 @@
+package utils
+
+import (
+	"fmt"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+)
+
+// ValidateAccAddress checks that the given string is a valid account address in
+// its canonical form. Bech32 also allows addresses to be written in upper case:
+// accepting them where the string identifies the account inside the store would
+// let the same account own two different records.
+func ValidateAccAddress(address string) error {
+	addr, err := sdk.AccAddressFromBech32(address)
+	if err != nil {
+		return err
+	}
+	if addr.String() != address {
+		return fmt.Errorf("address %s is not in its canonical form", address)
+	}
+	return nil
+}
diff --git a/x/liquidvesting/types/ibc_hooks.go b/x/liquidvesting/types/ibc_hooks.go
index 480b172..a048b26 100644
--- a/x/liquidvesting/types/ibc_hooks.go
+++ b/x/liquidvesting/types/ibc_hooks.go
@@ -4,7 +4,8 @@ import (
 	"fmt"
 
 	"cosmossdk.io/math"
-	sdk "github.com/cosmos/cosmos-sdk/types"
+
+	"github.com/milkyway-labs/milkyway/v3/utils"
 )
 
 // InsuranceDeposit defines an individual deposit into the insurance fund.
@@ -16,7 +17,7 @@ type InsuranceDeposit struct {
 }
 
 func (i *InsuranceDeposit) ValidateBasic() error {
-	if _, err := sdk.AccAddressFromBech32(i.Depositor); err != nil {
+	if err := utils.ValidateAccAddress(i.Depositor); err != nil {
 		return fmt.Errorf("invalid depositor address: %s", err)
 	}
 
diff --git a/x/operators/types/messages.go b/x/operators/types/messages.go
index c0a2809..6a40b32 100644
--- a/x/operators/types/messages.go
+++ b/x/operators/types/messages.go
@@ -7,6 +7,8 @@ import (
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
+
+	"github.com/milkyway-labs/milkyway/v3/utils"
 )
 
 // NewMsgRegisterOperator creates a new MsgRegisterOperator instance
@@ -44,7 +46,7 @@ func (msg *MsgRegisterOperator) ValidateBasic() error {
 		return errors.Wrapf(sdkerrors.ErrInvalidRequest, "invalid fee amount: %s", err)
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.Sender)
+	err := utils.ValidateAccAddress(msg.Sender)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid sender address")
 	}
@@ -201,7 +203,7 @@ func (msg *MsgTransferOperatorOwnership) ValidateBasic() error {
 		return errors.Wrapf(sdkerrors.ErrInvalidRequest, "invalid operator ID: %d", msg.OperatorID)
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.NewAdmin)
+	err := utils.ValidateAccAddress(msg.NewAdmin)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid new admin address")
 	}
diff --git a/x/restaking/types/messages.go b/x/restaking/types/messages.go
index d3d459c..4b05bff 100644
--- a/x/restaking/types/messages.go
+++ b/x/restaking/types/messages.go
@@ -4,6 +4,8 @@ import (
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
+
+	"github.com/milkyway-labs/milkyway/v3/utils"
 )
 
 // NewMsgJoinService creates a new MsgJoinService instance
@@ -194,7 +196,7 @@ func (msg *MsgDelegatePool) ValidateBasic() error {
 		return errors.Wrap(sdkerrors.ErrInvalidRequest, "invalid amount")
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.Delegator)
+	err := utils.ValidateAccAddress(msg.Delegator)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid delegator address")
 	}
@@ -234,7 +236,7 @@ func (msg *MsgDelegateOperator) ValidateBasic() error {
 		return errors.Wrap(sdkerrors.ErrInvalidRequest, "invalid amount")
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.Delegator)
+	err := utils.ValidateAccAddress(msg.Delegator)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid delegator address")
 	}
@@ -274,7 +276,7 @@ func (msg *MsgDelegateService) ValidateBasic() error {
 		return errors.Wrap(sdkerrors.ErrInvalidRequest, "invalid amount")
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.Delegator)
+	err := utils.ValidateAccAddress(msg.Delegator)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid delegator address")
 	}
@@ -461,7 +463,7 @@ func (msg *MsgSetUserPreferences) ValidateBasic() error {
 		return err
 	}
 
-	_, err = sdk.AccAddressFromBech32(msg.User)
+	err = utils.ValidateAccAddress(msg.User)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid user address")
 	}
diff --git a/x/services/types/messages.go b/x/services/types/messages.go
index 6a6d71e..01a41b6 100644
--- a/x/services/types/messages.go
+++ b/x/services/types/messages.go
@@ -6,6 +6,8 @@ import (
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
+
+	"github.com/milkyway-labs/milkyway/v3/utils"
 )
 
 var (
@@ -54,7 +56,7 @@ func (msg *MsgCreateService) ValidateBasic() error {
 		return err
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.Sender)
+	err := utils.ValidateAccAddress(msg.Sender)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid sender address")
 	}
@@ -199,7 +201,7 @@ func (msg *MsgTransferServiceOwnership) ValidateBasic() error {
 		return errors.Wrapf(sdkerrors.ErrInvalidRequest, "invalid service ID: %d", msg.ServiceID)
 	}
 
-	_, err := sdk.AccAddressFromBech32(msg.NewAdmin)
+	err := utils.ValidateAccAddress(msg.NewAdmin)
 	if err != nil {
 		return errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid new admin address")
 	}
-- 
2.43.0

