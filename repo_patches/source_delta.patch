From dc83cca98441ab3caf820f4e00d7475ed94c1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 01/25] fix: pay the inflation remainder to the first active
 pool only

The condition selecting the pool that gets the rounding remainder of the protocol
inflation was inverted: every pool that can not run received it, once per pool.
---
 x/bundles/abci.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/bundles/abci.go b/x/bundles/abci.go
index 0dbf318..f7ed1b3 100644
--- a/x/bundles/abci.go
+++ b/x/bundles/abci.go
@@ -80,11 +80,12 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 	if remainder > 0 {
 		// find an active pool
 		for _, pool := range pk.GetAllPools(ctx) {
-			if err := k.AssertPoolCanRun(ctx, pool.Id); err != nil {
+			if err := k.AssertPoolCanRun(ctx, pool.Id); err == nil {
 				// add remainder to first active pool we find
 				if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), remainder); err != nil {
 					util.PanicHalt(uk, ctx, err.Error())
 				}
+				break
 			}
 		}
 	}
-- 
2.43.0


From 50b3f3e3821b37576744b9205d700a4426637424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 02/25] fix: storage costs of bundles with a data size above
 MaxInt64

The data size is an arbitrary uint64 given by the uploader. Converting it to int64
made the storage cost negative, so that creating the coin panicked; if the bundle
was tallied by the upload timeout this happened in the end block and halted the chain.
---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..a11a01b 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -280,7 +280,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From ded76fb90ca0c9d7ad5ddccdfd654d6ee8f40d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 03/25] fix: never pick an excluded validator in the uploader
 round robin

---
 x/bundles/keeper/logic_round_robin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..406ea69 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -246,10 +246,11 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	// An excluded validator must not be picked, even if it has the highest progress
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From f20785d3b9ad9f42a28011d9c22827d7c36b478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 04/25] fix: do not punish stakers for not voting when an
 uploader skips without a proposal

---
 x/bundles/keeper/msg_server_skip_uploader_role.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/msg_server_skip_uploader_role.go b/x/bundles/keeper/msg_server_skip_uploader_role.go
index bc5d41e..bc60db6 100644
--- a/x/bundles/keeper/msg_server_skip_uploader_role.go
+++ b/x/bundles/keeper/msg_server_skip_uploader_role.go
@@ -20,10 +20,15 @@ func (k msgServer) SkipUploaderRole(goCtx context.Context, msg *types.MsgSkipUpl
 	// reset points of uploader as node has proven to be active
 	k.resetPoints(ctx, msg.PoolId, msg.Staker)
 
-	// Previous round contains a bundle which needs to be validated now
-	result, err := k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
-	if err != nil {
-		return nil, err
+	// Without a submitted bundle there is nothing to evaluate and nobody had anything to vote on
+	result := types.TallyResult{Status: types.TallyResultNoQuorum}
+	if bundleProposal.StorageId != "" {
+		// Previous round contains a bundle which needs to be validated now
+		var err error
+		result, err = k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Get next uploader, except the one who skipped
-- 
2.43.0


From 7809b29f3cef17751abf026d9dfb661313cd5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 05/25] fix: a funder who already has a slot evicts nobody when
 adding funds

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..4da6393 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for _, activeFunding := range activeFundings {
+		if activeFunding.FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 9dac5865cc73914ad9daa4ee2d6418deb41e2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 06/25] fix: a funding without funds must not become active

---
 x/funders/keeper/msg_server_fund_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/funders/keeper/msg_server_fund_pool.go b/x/funders/keeper/msg_server_fund_pool.go
index 7fcf087..0cdad94 100644
--- a/x/funders/keeper/msg_server_fund_pool.go
+++ b/x/funders/keeper/msg_server_fund_pool.go
@@ -64,6 +64,11 @@ func (k msgServer) FundPool(goCtx context.Context, msg *types.MsgFundPool) (*typ
 		return nil, err
 	}
 
+	// A funding without any funds must not take a funding slot
+	if funding.Amounts.IsZero() {
+		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrFundingIsUsedUp.Error(), msg.PoolId, msg.Creator)
+	}
+
 	// Kicks out lowest funder if all slots are taken and new funder is about to fund more.
 	// Otherwise, an error is thrown
 	// funding and fundingState are not written to the KV-Store. Everything else is handled safely.
-- 
2.43.0


From 8d41fba2ad5969d92255a9cd92ee8dad1d6613cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 07/25] fix: drop the leave request of a staker who is removed
 from the pool

---
 x/stakers/keeper/exported_functions.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..64ae050 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -22,6 +22,16 @@ import (
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
+	// A pending leave request belongs to the membership which just ended. It must not
+	// remove the staker again after a later rejoin.
+	if k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+			if entry.Staker == staker && entry.PoolId == poolId {
+				k.RemoveLeavePoolEntry(ctx, &entry)
+			}
+		}
+	}
+
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
 		PoolId: poolId,
 		Staker: staker,
-- 
2.43.0


From e56ee3fdb73ea44053697eb7c50d0300d92a84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 08/25] fix: round delegation rewards down so that they never
 exceed the paid in amount

---
 x/delegation/keeper/logic_f1distribution.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 053b78e..c7b760b 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -42,7 +42,7 @@ func (k Keeper) f1StartNewPeriod(ctx sdk.Context, staker string, delegationData
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	// Add previous entry to current one
@@ -317,7 +317,7 @@ func (k Keeper) f1GetOutstandingRewards(ctx sdk.Context, stakerAddress string, d
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	ongoingPeriodReward := safeMulDec(currentPeriodValue, latestBalance)
@@ -354,5 +354,5 @@ func safeMulDec(coins sdk.DecCoins, scalar math.LegacyDec) sdk.DecCoins {
 	if scalar.IsZero() {
 		return sdk.NewDecCoins()
 	}
-	return coins.MulDec(scalar)
+	return coins.MulDecTruncate(scalar)
 }
-- 
2.43.0


From 2db0c38f6876c7d49ffcaf440a2de7efb0504635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 09/25] fix: a staker without delegators has no delegation

---
 x/delegation/keeper/logic_f1distribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index c7b760b..1f1914c 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -140,6 +140,9 @@ func (k Keeper) f1RemoveDelegator(ctx sdk.Context, stakerAddress string, delegat
 
 	// Final cleanup
 	if delegationData.DelegatorCount == 0 {
+		// Slashing rounds the total down less often than the individual delegations,
+		// what is left of it does not belong to anybody
+		delegationData.TotalDelegation = 0
 		k.RemoveDelegationEntry(ctx, stakerAddress, delegationData.LatestIndexK)
 	}
 	k.SetDelegationData(ctx, delegationData)
-- 
2.43.0


From c7242c03b78e4b678005f13c8f471588aa1d35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 10/25] fix: validate the merged params before storing them

---
 x/bundles/keeper/msg_server_update_params.go    | 4 ++++
 x/delegation/keeper/msg_server_update_params.go | 4 ++++
 x/funders/keeper/msg_server_update_params.go    | 4 ++++
 x/global/keeper/msg_server_update_params.go     | 4 ++++
 x/pool/keeper/msg_server_update_params.go       | 4 ++++
 x/stakers/keeper/msg_server_update_params.go    | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 9e67e99..92f487e 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -7,6 +7,7 @@ import (
 	"cosmossdk.io/errors"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Bundles
 	"github.com/KYVENetwork/chain/x/bundles/types"
@@ -24,6 +25,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/delegation/keeper/msg_server_update_params.go b/x/delegation/keeper/msg_server_update_params.go
index 712e584..75d218d 100644
--- a/x/delegation/keeper/msg_server_update_params.go
+++ b/x/delegation/keeper/msg_server_update_params.go
@@ -6,6 +6,7 @@ import (
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Delegation
 	"github.com/KYVENetwork/chain/x/delegation/types"
@@ -23,6 +24,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..f6bba77 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -6,6 +6,7 @@ import (
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Delegation
 	"github.com/KYVENetwork/chain/x/funders/types"
@@ -23,6 +24,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 4189a23..7954688 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -6,6 +6,7 @@ import (
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Global
 	"github.com/KYVENetwork/chain/x/global/types"
@@ -23,6 +24,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/pool/keeper/msg_server_update_params.go b/x/pool/keeper/msg_server_update_params.go
index 9209b96..89a2880 100644
--- a/x/pool/keeper/msg_server_update_params.go
+++ b/x/pool/keeper/msg_server_update_params.go
@@ -6,6 +6,7 @@ import (
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Gov
 	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
@@ -23,6 +24,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/stakers/keeper/msg_server_update_params.go b/x/stakers/keeper/msg_server_update_params.go
index 0e5e6a6..5cd2d83 100644
--- a/x/stakers/keeper/msg_server_update_params.go
+++ b/x/stakers/keeper/msg_server_update_params.go
@@ -6,6 +6,7 @@ import (
 
 	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
 	// Gov
 	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
@@ -23,6 +24,9 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
-- 
2.43.0


From 68909faf523bd2007c33e3b71d5f8fa5c303c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 11/25] fix: overflow in the check of the available team
 allocation

---
 x/team/keeper/msg_server_create_team_vesting_account.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..e2975c6 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,8 +21,12 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
-		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
+	available := uint64(0)
+	if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+		available = types.TEAM_ALLOCATION - issued
+	}
+	if msg.TotalAllocation > available {
+		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, msg.TotalAllocation)
 	}
 
 	id := k.AppendTeamVestingAccount(ctx, types.TeamVestingAccount{
-- 
2.43.0


From 200e4b43cccd5d9e954c8c626064ffe1396116d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 12/25] fix: a revised clawback must not exceed the team
 allocation

---
 x/team/keeper/msg_server_clawback.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..c5073ae 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -31,7 +31,20 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrInvalidClawbackDate.Error())
 	}
 
+	previousMax := getVestingMaxAmount(account)
 	account.Clawback = msg.Clawback
+
+	// a later (or no) clawback gives allocation back to the account, which can be in use by now
+	if newMax := getVestingMaxAmount(account); newMax > previousMax {
+		available := uint64(0)
+		if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+			available = types.TEAM_ALLOCATION - issued
+		}
+		if newMax-previousMax > available {
+			return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, newMax-previousMax)
+		}
+	}
+
 	k.SetTeamVestingAccount(ctx, account)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventClawback{
-- 
2.43.0


From a5c6558b67b1a73d337d8712b4dcc18205351dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 13/25] fix: charge a fee allowance only once per refunded
 transaction

---
 x/global/post.go  |  5 +----
 x/global/utils.go | 16 ++++------------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..c324f05 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,10 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
+	account := GetFeeAccount(feeTx)
 	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
 	if err != nil {
 		return ctx, err
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..28632b5 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,22 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
-	account := feePayer
+	// The allowance of the granter got already charged by the ante handler
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+		return feeGranter
 	}
 
-	return account, nil
+	return feePayer
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From ff78e253e0aa74d29fddf8e3c7b33269a12f97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 14/25] Revert "fix: pay the inflation remainder to the first
 active pool only"

This reverts commit dc83cca98441ab3caf820f4e00d7475ed94c1cf3.
---
 x/bundles/abci.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x/bundles/abci.go b/x/bundles/abci.go
index f7ed1b3..0dbf318 100644
--- a/x/bundles/abci.go
+++ b/x/bundles/abci.go
@@ -80,12 +80,11 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 	if remainder > 0 {
 		// find an active pool
 		for _, pool := range pk.GetAllPools(ctx) {
-			if err := k.AssertPoolCanRun(ctx, pool.Id); err == nil {
+			if err := k.AssertPoolCanRun(ctx, pool.Id); err != nil {
 				// add remainder to first active pool we find
 				if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), remainder); err != nil {
 					util.PanicHalt(uk, ctx, err.Error())
 				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From 00d2d54408dfc07412eb96e3aa5a4524bf655083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 15/25] fix: page number of the stakers-by-pool-count query
 starts at one

---
 x/delegation/keeper/getters_index_stakers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..e42d85c 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -28,11 +28,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
+	// the first page has number one
+	start := util.MinInt((page-1)*limit, len(slice))
+	resultLength := util.MinInt(limit, len(slice)-start)
 	result := make([]string, resultLength)
 
 	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+		result[i] = slice[start+i]
 	}
 
 	pageRes := &query.PageResponse{
-- 
2.43.0


From 3252e75ff13052f18734aae7667e9bf6b04284ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 16/25] fix: reverse pagination of finalized bundles with an
 offset beyond the total

---
 x/bundles/keeper/getters_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..73364ce 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,7 +244,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
-			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
+			pagination.Key = util.GetByteKey(pageResponse.Total - min(offset, pageResponse.Total))
 		} else {
 			pagination.Key = util.GetByteKey(offset)
 		}
-- 
2.43.0


From 11966a2678495f5ef7b0ee6e7f1d82a757f7d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 17/25] fix: underflow of the available redelegation slots

---
 x/query/keeper/grpc_account_redelegation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..abcb1ec 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,11 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// the limit can be lowered below the number of slots in use
+	maxAmount := k.delegationKeeper.GetRedelegationMaxAmount(ctx)
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              maxAmount - min(usedSlots, maxAmount),
 	}, nil
 }
-- 
2.43.0


From 86c9c311311c29fb66eb98ee896341af8d02443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 18/25] fix: list stakers without delegations after a node
 restart

---
 x/delegation/genesis.go                | 3 ++-
 x/delegation/keeper/keeper.go          | 5 +++--
 x/delegation/types/expected_keepers.go | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..0b0f99f 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,8 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// The mem-store is built in the first begin-block, as the stakers
+	// are not initialized yet.
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..c735a70 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -75,8 +75,9 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 
 		// Update mem index
 		noGasCtx := gasCtx.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
-		for _, entry := range k.GetAllDelegationData(noGasCtx) {
-			k.SetStakerIndex(noGasCtx, entry.Staker)
+		// (a staker without any delegation yet does not have delegation data)
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
 		}
 
 		memStoreInitialized = true
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..f8c557f 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -31,4 +31,5 @@ type StakersKeeper interface {
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
 	GetActiveStakers(ctx sdk.Context) []string
+	GetAllStakers(ctx sdk.Context) (list []stakerstypes.Staker)
 }
-- 
2.43.0


From cd9a067a8e107ebd70cddf997e86a6a741f40d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 19/25] fix: announce what a displaced funder gets back

---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 4da6393..adcfdaf 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -224,6 +224,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	refunded := lowestFunding.Amounts
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -233,7 +234,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: refunded.String(),
 	})
 
 	return nil
-- 
2.43.0


From 8c7ac90ab65fddb3de7b0a16fe65cb1c0fdaa7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 20/25] fix: announce the effective time of a runtime upgrade

---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0


From cc37cd23f6d76459f95faf857c5f1b92b714e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 21/25] fix: a staker who left a pool already does not leave it
 again

---
 x/stakers/keeper/exported_functions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index 64ae050..4dc74bb 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -20,6 +20,11 @@ import (
 // The staker is no longer able to participate in the given pool.
 // All points the staker had in that pool are deleted.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	// the staker might have left the pool already
+	if !k.DoesValaccountExist(ctx, poolId, staker) {
+		return
+	}
+
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
 	// A pending leave request belongs to the membership which just ended. It must not
-- 
2.43.0


From c949421023f3d3193bd0b289a7568bc90c00a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 22/25] fix: announce the old params unchanged

---
 x/bundles/keeper/msg_server_update_params.go | 3 ++-
 x/funders/keeper/msg_server_update_params.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 92f487e..66d43b2 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -23,7 +23,8 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	// read the params again, because a copy would share its lists with the old ones
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	if err := newParams.Validate(); err != nil {
 		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index f6bba77..c7a71ea 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -22,7 +22,8 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	// read the params again, because a copy would share its lists with the old ones
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	if err := newParams.Validate(); err != nil {
 		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
-- 
2.43.0


From e86724e55810f0aa0d1401a07892699aae514cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 23/25] fix: an undelegation of nothing does not add its target
 to the staker index

---
 x/delegation/keeper/getters_index_stakers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index e42d85c..bee33e8 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -78,6 +78,11 @@ func arrayPaginationAccumulator(slice []string, pagination *query.PageRequest, a
 // SetStakerIndex sets and Index-entry which sorts all stakers (active and passive)
 // by its total delegation
 func (k Keeper) SetStakerIndex(ctx sdk.Context, staker string) {
+	// an undelegation of nothing does not make its target a staker
+	if !k.stakersKeeper.DoesStakerExist(ctx, staker) {
+		return
+	}
+
 	amount := k.GetDelegationAmount(ctx, staker)
 	storeAdapter := runtime.KVStoreAdapter(k.memService.OpenMemoryStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
-- 
2.43.0


From 0d09cd325cbd4e2cb3b0714933f09a9bbb8b0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 24/25] fix: announce the old global params unchanged

---
 x/global/keeper/msg_server_update_params.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 7954688..f2af348 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -22,7 +22,8 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	// read the params again, because a copy would share its lists with the old ones
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	if err := newParams.Validate(); err != nil {
 		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, "invalid params: %s", err)
-- 
2.43.0


From dd2312c39fea0f52737fcf476aa5f7d2831a5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 25/25] fix: refuse a genesis with two records for one key

The validation of the funders genesis never filled the maps it looks for
duplicates in; stakers, pending leaves and round-robin progress were not
checked at all.
---
 x/bundles/types/genesis.go | 11 +++++++++++
 x/funders/types/genesis.go |  4 ++++
 x/stakers/types/genesis.go | 17 +++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/x/bundles/types/genesis.go b/x/bundles/types/genesis.go
index 499f26e..b7ddd68 100644
--- a/x/bundles/types/genesis.go
+++ b/x/bundles/types/genesis.go
@@ -48,5 +48,16 @@ func (gs GenesisState) Validate() error {
 		}
 	}
 
+	// Round-robin progress
+	roundRobinKey := make(map[string]struct{})
+
+	for _, elem := range gs.RoundRobinProgressList {
+		index := string(RoundRobinProgressKey(elem.PoolId))
+		if _, ok := roundRobinKey[index]; ok {
+			return fmt.Errorf("duplicated pool-id for round-robin progress %v", elem)
+		}
+		roundRobinKey[index] = struct{}{}
+	}
+
 	return gs.Params.Validate()
 }
diff --git a/x/funders/types/genesis.go b/x/funders/types/genesis.go
index 9529939..d243269 100644
--- a/x/funders/types/genesis.go
+++ b/x/funders/types/genesis.go
@@ -20,6 +20,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundersIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funder id for %v", funder)
 		}
+		fundersIndexMap[string(index)] = struct{}{}
 	}
 
 	fundingByFunderIndexMap := make(map[string]struct{})
@@ -29,10 +30,12 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingByFunderIndexMap[string(byFunderIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByFunderIndexMap[string(byFunderIndex)] = struct{}{}
 		byPoolIndex := FundingKeyByPool(funding.FunderAddress, funding.PoolId)
 		if _, ok := fundingByPoolIndexMap[string(byPoolIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByPoolIndexMap[string(byPoolIndex)] = struct{}{}
 	}
 
 	fundingStateIndexMap := make(map[string]struct{})
@@ -41,6 +44,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingStateIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funding state id for %v", fundingState)
 		}
+		fundingStateIndexMap[string(index)] = struct{}{}
 	}
 	return gs.Params.Validate()
 }
diff --git a/x/stakers/types/genesis.go b/x/stakers/types/genesis.go
index dc1f54b..244d436 100644
--- a/x/stakers/types/genesis.go
+++ b/x/stakers/types/genesis.go
@@ -14,6 +14,15 @@ func DefaultGenesis() *GenesisState {
 // Validate performs basic genesis state validation returning an error upon any failure.
 func (gs GenesisState) Validate() error {
 	// Staker
+	stakerMap := make(map[string]struct{})
+	for _, elem := range gs.StakerList {
+		index := string(StakerKey(elem.Address))
+		if _, ok := stakerMap[index]; ok {
+			return fmt.Errorf("duplicated index for staker %v", elem)
+		}
+		stakerMap[index] = struct{}{}
+	}
+
 	stakerLeaving := make(map[string]bool)
 
 	// Valaccounts
@@ -46,7 +55,15 @@ func (gs GenesisState) Validate() error {
 	}
 
 	// Leave Pool
+	leavePoolMap := make(map[string]struct{})
+
 	for _, elem := range gs.LeavePoolEntries {
+		index := string(LeavePoolEntryKey(elem.Index))
+		if _, ok := leavePoolMap[index]; ok {
+			return fmt.Errorf("duplicated index for leave pool entry %v", elem)
+		}
+		leavePoolMap[index] = struct{}{}
+
 		if elem.Index > gs.QueueStateLeave.HighIndex {
 			return fmt.Errorf("unbonding stake entry index too high: %v", elem)
 		}
-- 
2.43.0

