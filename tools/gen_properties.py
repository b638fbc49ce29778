#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

H = ["histories", "inputs"]
B = "x/bundles/keeper/"; S = "x/stakers/keeper/"; D = "x/delegation/keeper/"; F = "x/funders/keeper/"; O = "x/pool/keeper/"; T = "x/team/"; G = "x/global/"

prop("C01", "Finalized bundles form one gapless, immutable chain per pool",
 "In every pool the finalized bundles are numbered 0,1,2,... without gaps, and each one starts at exactly the data index where its predecessor ended and spans exactly the size, keys, hash, summary, uploader and storage/compression identifiers of the proposal it finalizes. Once finalized a bundle never changes or disappears, and no message, governance action or block boundary other than a valid verdict ever adds one. The pool's current index, current key, current summary and bundle counter always equal those of its last finalized bundle.",
 H, "all message/block histories over several pools, including drops, skips, timeouts, upgrades, disabling and slashing between two finalizations",
 "The tests inspect the one bundle they just produced in a fixed short script; continuity and immutability are statements about all later histories of a pool.",
 [B+"logic_bundles.go", B+"getters_bundles.go", B+"msg_server_submit_bundle_proposal.go", B+"msg_server_skip_uploader_role.go", B+"logic_end_block_handle_upload_timeout.go", O+"logic_pool.go"],
 [("finalizeCurrentBundleProposal", B+"logic_bundles.go"), ("IncrementBundleInformation", O+"logic_pool.go"), ("AssertCanPropose fromIndex check", B+"logic_bundles.go")],
 ["finalized bundle list and pool list after every message and block"])

prop("C02", "A bundle is finalized only with a stake majority of valid votes",
 "A pending bundle proposal is finalized only if, at the moment it is evaluated, participants holding strictly more than half of the pool's total stake have voted valid (the uploader counts as valid); it is rejected as invalid only if at least half of the stake voted invalid; otherwise it is neither finalized nor rejected for invalidity. Only stake of accounts that are participants of the pool at that moment counts, with the weight their stake has at that moment. The stake security stored with a finalized bundle is exactly that valid and total stake.",
 H, "all vote/stake/membership histories between submission and evaluation, including stake ties, zero stake, delegations and leavers after voting",
 "Tests evaluate a handful of hand-picked stake distributions; the guarantee concerns every interleaving of votes with delegation, slashing and leaving.",
 [B+"logic_bundles.go", B+"logic_bundles.go"],
 [("GetVoteDistribution / tallyBundleProposal", B+"logic_bundles.go")],
 ["bundle proposals, finalized bundles, delegation totals before and after every evaluating step"])

prop("C03", "Only authorised participants vote, once, on the current proposal",
 "A vote on a bundle is accepted exactly when the pool can run, it is cast by the worker address a current participant of that pool registered, it names the storage id of the pending non-empty proposal, its kind is valid, invalid or abstain, and that participant has not already voted valid or invalid; an abstain vote may be changed once into a valid or invalid vote but not repeated. An accepted vote moves that participant into exactly the chosen voter group, changes no other participant's vote, and a rejected vote changes nothing.",
 H, "all senders, staker/pool combinations, storage ids, vote kinds and histories (including votes after leaving, re-joining, drop and re-submission)",
 "Tests cover individual rejections from one fixed state; they cannot cover every order of votes, re-votes and membership changes.",
 [B+"msg_server_vote_bundle_proposal.go", B+"logic_bundles.go", B+"logic_bundles.go", S+"exported_functions.go"],
 [("AssertCanVote", B+"logic_bundles.go"), ("AssertValaccountAuthorized", S+"exported_functions.go")],
 ["result and voter lists after every vote message"])

prop("C04", "Submitting, skipping and claiming obey the uploader protocol",
 "A bundle may be submitted, or the role skipped, only by the registered worker address of the pool's designated next uploader, only after the upload interval has passed since the pool's last uploader change, and only with the start index that directly continues the finalized data plus the pending proposal; a submission must carry a storage id, non-empty keys and between one and the pool's maximum number of data items. The role can be claimed only while nobody is designated, by a participant's registered worker address. A successful submission resolves the previous proposal (finalize or drop) and stores the new one with exactly the submitted content and the uploader as its only voter; a round without verdict can not be replaced by a submission.",
 H, "all senders, times relative to the interval, index/size/key combinations and proposal states",
 "Tests exercise single violations at fixed times; boundary times and combinations with pending/dropped/skipped proposals are not enumerated.",
 [B+"msg_server_submit_bundle_proposal.go", B+"msg_server_skip_uploader_role.go", B+"msg_server_claim_uploader_role.go", B+"logic_bundles.go", B+"logic_bundles.go", "x/bundles/types/message_submit_bundle_proposal.go"],
 [("AssertCanPropose", B+"logic_bundles.go"), ("validateSubmitBundleArgs", B+"logic_bundles.go"), ("registerBundleProposalFromUploader", B+"logic_bundles.go")],
 ["result, proposal and pool after each submit/skip/claim message"])

prop("C05", "Next uploaders rotate by stake among the eligible participants",
 "Whenever the chain designates a next uploader it designates a current participant of that pool with stake, nobody if there is none; after a valid round it is one of those who voted valid, and after a skip it is someone else than the skipper, whenever another eligible participant exists. The choice is the deterministic stake-weighted round robin: every selection credits each eligible participant with its stake and charges the selected one, so that with constant stakes and no exclusions everyone's share of selections follows its share of stake. Progress of participants that stay is carried over from selection to selection, and participants that leave stop influencing it.",
 H, "all stake distributions, joins/leaves, exclusions and selection sequences",
 "Tests check a few fixed sequences of the selection in isolation; not arbitrary interleavings with joins, exclusions and stake changes on a live pool.",
 [B+"logic_round_robin.go", B+"logic_bundles.go", B+"msg_server_skip_uploader_role.go", B+"logic_end_block_handle_upload_timeout.go"],
 [("RoundRobinValidatorSet.NextProposer", B+"logic_round_robin.go"), ("chooseNextUploader*", B+"logic_bundles.go")],
 ["designated next uploader and stored round-robin progress after each step"])

prop("C06", "Upload timeouts are resolved at every block boundary",
 "At the end of each block, a pool that cannot run has no designated uploader (a disabled pool also loses its pending proposal); a pending proposal that reached no verdict when the upload interval has elapsed is dropped and a new uploader is chosen; and an uploader who has not acted within upload interval plus upload timeout loses the role, gets one inactivity point, and a pending proposal with a valid verdict is finalized while any other is dropped. Before those deadlines a block boundary changes neither proposal nor designated uploader, and one pool's timeout never affects another pool.",
 ["histories", "inputs", "schedules"], "all block times relative to each pool's interval and timeout, all proposal/voting states, several pools in one block",
 "Tests advance time by chosen amounts on one pool; the boundaries and the cross product with proposal states and pool conditions are not explored.",
 [B+"logic_end_block_handle_upload_timeout.go", "x/bundles/abci.go", "x/bundles/module.go"],
 [("HandleUploadTimeout", B+"logic_end_block_handle_upload_timeout.go")],
 ["proposals, points and bundles before/after every end of block"])

prop("C07", "Inactivity points: counted per missed round, reset by activity, bounded",
 "A participant collects exactly one point for each evaluated proposal it did not vote on and for each upload timeout it caused, and any accepted protocol action of it in that pool (vote, submission, skip, claim excluded) resets the points it had in that pool to zero. A participant whose points reach the configured maximum is slashed by the timeout fraction and removed from the pool, never earlier, and points in one pool never influence another pool.",
 H, "all histories of votes, evaluations, timeouts and parameter changes",
 "Tests run one participant to the limit in a loop; mixed activity/inactivity over several pools and parameter changes is not covered.",
 [B+"logic_bundles.go", B+"logic_end_block_handle_upload_timeout.go", S+"exported_functions.go"],
 [("addPoint / handleNonVoters / resetPoints", B+"logic_bundles.go")],
 ["participant points and membership after every step"])

prop("C08", "Only culprits are slashed, by exactly the configured fraction",
 "When a bundle is judged valid exactly the participants who voted invalid are slashed (vote fraction); when it is judged invalid exactly its uploader (upload fraction) and those who voted valid (vote fraction) are; in addition only participants reaching the inactivity limit are (timeout fraction). A slash removes exactly the truncated fraction of the staker's total delegation, shared proportionally by all its current delegators and by nobody else, sends precisely the removed amount to the treasury, and removes the staker from that pool. No other event reduces anybody's stake except that delegator's own undelegation or redelegation.",
 H, "all vote outcomes, delegator sets, repeated slashes, and parameter values",
 "Tests slash one or two fixed delegators once; exactness over repeated slashes, many delegators and mixed culprits is a statement over histories.",
 [B+"logic_bundles.go", D+"exported_functions.go", D+"logic_f1distribution.go"],
 [("slashDelegatorsAndRemoveStaker", B+"logic_bundles.go"), ("SlashDelegators / f1Slash", D+"logic_f1distribution.go")],
 ["delegation totals, each delegator's stake, module balances before/after each step"])

prop("C09", "Every bundle reward is split exactly and fully accounted for",
 "For a finalized bundle, the reward (funders' payments plus the pool's inflation payout) is distributed completely: the treasury gets the truncated network fee, the uploader gets the storage reimbursement for the data size at the provider's configured price (never more than what remains), the uploader's commission is the truncated commission share of the rest, and the uploader's delegators get the remainder (which goes to the uploader if it has no stake). No coin is created or lost: what leaves the funders and the pool equals what treasury, uploader and delegators receive. If no bundle is finalized nothing is paid.",
 H, "all funding sets, coin whitelists/weights, prices, data sizes, commissions, fees and storage providers",
 "Tests check some fixed payouts with round numbers; conservation and exact truncation for all coin mixes is not settled.",
 [B+"logic_bundles.go", F+"logic_funders.go", O+"logic_pool.go", S+"exported_functions.go", D+"exported_functions.go"],
 [("calculatePayouts / payoutRewards", B+"logic_bundles.go"), ("ChargeInflationPool", O+"logic_pool.go")],
 ["balances of all modules, treasury, commission rewards and outstanding rewards before/after each finalization"])

prop("C10", "Funders pay exactly their per-bundle amount for each valid bundle",
 "For each finalized bundle every active funder of that pool is charged, per whitelisted coin, exactly the smaller of its declared amount per bundle and its remaining funds; non-whitelisted coins, inactive fundings, other pools and rounds that end without a valid bundle are never charged. The recorded total funded grows by exactly what was charged, a funding that becomes empty becomes inactive, and a funding with remaining funds stays active.",
 H, "all sets of funders, coins, amounts, amounts per bundle and whitelist changes",
 "Tests charge a few fixed fundings; interplay of multi-coin depletion, whitelist changes and several pools is not enumerated.",
 [F+"logic_funders.go", F+"logic_funders.go", "x/funders/types/funders.go"],
 [("ChargeFundersOfPool", F+"logic_funders.go"), ("Funding.ChargeOneBundle", "x/funders/types/types.go")],
 ["fundings and active funder sets after each finalization"])

prop("C11", "Funders' money is safe: fully backed and withdrawable",
 "The funders account always holds exactly the sum of all recorded fundings of all pools and coins. A defund pays back at most the requested and at most the recorded remaining amounts, exactly to that funder, and reduces the record by precisely what is paid; a full defund always succeeds while funds remain. A funding belongs to the active set of its pool exactly if some of its funds remain.",
 H, "all histories of funding, defunding, evictions, charges and parameter changes by several funders and pools",
 "The test suite's solvency check runs at the end of fixed scenarios only.",
 [F+"msg_server_fund_pool.go", F+"msg_server_defund_pool.go", F+"logic_funders.go", F+"getters_funding.go"],
 [("DefundPool", F+"msg_server_defund_pool.go"), ("SetActive/SetInactive", "x/funders/types/types.go")],
 ["funders module balance, funder balances, fundings after every step"])

prop("C12", "Fundings satisfy whitelist, minimum and slot rules on admission",
 "A funding is accepted only from a registered funder for an existing pool, only in whitelisted coins, only if after it each funded coin meets the coin's minimum funding amount, its minimum amount per bundle, and covers the minimum number of bundles. At most fifty funders are active per pool; when all slots are taken a new funder is admitted only if its funding is worth at least as much as the lowest-valued active one, which is then fully refunded and deactivated. A partial defund that would leave a funding below the minimums is refused, and refused requests move no money.",
 H, "all amounts around the minimums, coin mixes, parameter changes and full-slot situations",
 "Tests check chosen rejects; boundary values per coin and the full-slot competition over all valuations are not covered.",
 [F+"msg_server_fund_pool.go", F+"msg_server_defund_pool.go", F+"logic_funders.go", "x/funders/types/msgs.go"],
 [("ensureParamsCompatibility / ensureFreeSlot", F+"logic_funders.go")],
 ["result and fundings after each fund/defund/create-funder/update-funder message"])

prop("C13", "Delegation rewards are shared pro rata, paid once, and fully backed",
 "Each reward paid to a staker's delegators accrues to those who were delegating at that moment, in proportion to their stake at that moment, per coin, up to rounding that never favours the delegators as a whole; joining, leaving, slashing or withdrawing by one delegator never changes what another one has accrued. Withdrawing (explicitly, or automatically when the stake changes) pays exactly the accrued amount once and resets it to zero, and every delegator can withdraw at any time. The delegation account always holds at least all stakes plus all outstanding rewards.",
 H, "all interleavings of payouts, delegations, undelegations, redelegations, slashes and withdrawals of many delegators",
 "Tests check rounded results of specific sequences; fairness and solvency of the accumulated distribution is a property over all histories.",
 [D+"logic_f1distribution.go", D+"exported_functions.go", D+"msg_server_withdraw_rewards.go", D+"logic_delegation.go"],
 [("f1StartNewPeriod / f1WithdrawRewards / f1RemoveDelegator", D+"logic_f1distribution.go")],
 ["outstanding rewards per delegator (query), delegation data and balances after every step"])

prop("C14", "Stake bookkeeping: totals match delegators, moves are exact",
 "A delegation transfers exactly the given amount from the delegator and increases exactly that delegator's stake with that staker by it; delegating requires an existing staker and enough balance. A staker's total delegation never differs from the sum of its delegators' stakes by more than the rounding dust of slashes, a pool's total stake is the sum over its participants, and the per-delegator and per-staker indexes list exactly the existing delegations. Delegator counts equal the number of delegators with stake.",
 H, "all delegation histories with many stakers and delegators, incl. slashing to dust",
 "End-of-test checks compare totals only for the scenarios written by hand.",
 [D+"logic_delegation.go", D+"msg_server_delegate.go", D+"logic_f1distribution.go", D+"getters_delegation_data.go", D+"getters_delegator.go", D+"getters_index_stakers.go"],
 [("performDelegation / performUndelegation", D+"logic_delegation.go")],
 ["delegation state and balances after every step"])

prop("C15", "Undelegations unbond in order, after the full delay, and stay slashable",
 "An undelegation of at most the current stake is only queued: nothing is paid out until the unbonding time configured at maturity has fully elapsed since it was requested, and meanwhile the stake keeps its voting power, rewards and exposure to slashing. Entries mature in the order they were created at the first block at or after their due time, each exactly once; then the delegator receives exactly the smaller of the requested amount and its remaining stake plus its accrued rewards, and the stake shrinks by the same amount.",
 ["histories", "inputs", "schedules"], "all block-time schedules, queue contents, slashes in between, parameter changes",
 "Tests undelegate in a few scripts with exact block spacing.",
 [D+"logic_unbonding.go", D+"msg_server_undelegate.go", D+"getters_undelegation.go", "x/delegation/module.go"],
 [("ProcessDelegatorUnbondingQueue", D+"logic_unbonding.go"), ("StartUnbondingDelegator", D+"logic_unbonding.go")],
 ["queue, stakes and balances after every block"])

prop("C16", "Redelegation moves stake at once, to active stakers, within spells",
 "A redelegation moves exactly the requested stake (at most the current one) immediately from one staker to another without touching the delegator's liquid balance except for paying its accrued rewards; the target must exist and participate in some pool. Each redelegation consumes one of the delegator's limited spells, at most one per block time, and a spell returns only after the cooldown has fully passed; with no spell left the request is refused without effect.",
 ["histories", "inputs", "schedules"], "all times relative to the cooldown, number of spells, parameter changes, targets",
 "Tests consume spells in one fixed rhythm.",
 [D+"msg_server_redelegate.go", D+"logic_redelegation.go", D+"getters_redelegation.go"],
 [("consumeRedelegationSpell", D+"logic_redelegation.go")],
 ["stakes, cooldown list and result after every redelegation"])

prop("C17", "Pool membership: slots, unique workers, delayed leave",
 "Only an existing staker can join an existing enabled pool it has not joined, with a worker address different from its own that no participant of the pool and none of its own other memberships uses; at most fifty participate in a pool, and when it is full a candidate gets in only if its stake exceeds that of the lowest one, which is then removed. A leave request keeps the participant in the pool, with all duties, until the leave time has fully elapsed, then removes precisely that membership; a second request meanwhile is refused. Membership counts per pool and staker always equal the actual memberships, and removal by slashing, competition or pool disabling takes effect at once and leaves no stale request behind that could remove a later membership early.",
 ["histories", "inputs", "schedules"], "all join/leave/kick/rejoin histories and schedules over several pools and up to more than fifty stakers",
 "Tests join and leave in isolated scripts; leave queues crossing kicks, re-joins and parameter changes are not covered.",
 [S+"msg_server_join_pool.go", S+"msg_server_leave_pool.go", S+"logic_stakers.go", S+"logic_leave.go", S+"exported_functions.go", S+"getters_valaccount.go"],
 [("JoinPool", S+"msg_server_join_pool.go"), ("ensureFreeSlot", S+"logic_stakers.go"), ("ProcessLeavePoolQueue", S+"logic_leave.go")],
 ["memberships, leave queue and counts after every step"])

prop("C18", "Commission changes are delayed; commission rewards are exact and backed",
 "A commission change takes effect exactly at the first block at or after the full commission-change delay since the latest request, with the latest requested value; a newer request replaces the older one and restarts the delay, and commission is never changed otherwise. A staker can claim at most its accrued commission rewards, receives precisely the claimed amounts, and the stakers account always holds exactly the sum of all unclaimed commission rewards. Staker creation stores the given commission in [0,1] and cannot be repeated.",
 ["histories", "inputs", "schedules"], "all request histories, block-time schedules and parameter changes",
 "Tests change the commission in a few fixed rhythms.",
 [S+"msg_server_update_commission.go", S+"logic_commission.go", S+"msg_server_claim_commission_rewards.go", S+"msg_server_create_staker.go", S+"exported_functions.go"],
 [("ProcessCommissionChangeQueue", S+"logic_commission.go"), ("IncreaseStakerCommissionRewards", S+"exported_functions.go")],
 ["stakers, commission queue and balances after every step"])

prop("C19", "Bundles are processed only while a pool can run",
 "A pool accepts votes, submissions, skips and role claims only if it exists, is not disabled, is not in a runtime upgrade, has not reached its end key, has at least its minimum total stake, and no participant holds more than the allowed maximum share of that stake; otherwise each of these messages is refused without effect and the reported pool status names the first failing condition. The same condition decides which pools receive inflation and timeouts.",
 H, "all combinations of upgrade plans, disabling, end keys, stakes and parameters",
 "Tests toggle one condition at a time.",
 [B+"logic_bundles.go", B+"logic_bundles.go", O+"logic_pool.go", "x/query/keeper/helper.go"],
 [("AssertPoolCanRun", B+"logic_bundles.go")],
 ["message results, pool status query, SplitInflation at block begin"])

prop("C20", "Pool administration and runtime upgrades follow their lifecycle",
 "Pools are numbered consecutively at creation and keep their identity; a scheduled runtime upgrade switches precisely the pools of that runtime without a pending plan to the new version and binaries at the first block at or after the scheduled time (past times mean now), keeps the pool stopped from the scheduled time for the whole duration, then ends; cancelling removes exactly the pending plans of that runtime. Disabling a pool removes every participant and sends its whole balance of the native coin to the treasury, enabling lets it run again; an update changes exactly the given fields. No other pool or field changes.",
 ["histories", "inputs", "schedules"], "all histories of create/update/disable/enable/schedule/cancel over several runtimes and block times",
 "Tests run single plans on one or two pools.",
 [O+"msg_server_create_pool.go", O+"msg_server_update_pool.go", O+"msg_server_disable_pool.go", O+"msg_server_enable_pool.go", O+"msg_server_schedule_runtime_upgrade.go", O+"msg_server_cancel_runtime_upgrade.go", O+"logic_end_block_handle_pool_upgrades.go"],
 [("HandlePoolUpgrades", O+"logic_end_block_handle_pool_upgrades.go"), ("ScheduleRuntimeUpgrade", O+"msg_server_schedule_runtime_upgrade.go")],
 ["pool list, balances, memberships after every step"])

prop("C21", "Only governance administers pools and parameters, within valid ranges",
 "Pool creation, update, enabling, disabling, runtime upgrades and every module parameter change are accepted only from the governance authority. A parameter change alters exactly the given fields of that module and is refused if any resulting value is malformed or out of range (shares and fractions within [0,1], amounts not negative, an upload timeout and point limit, the native coin always whitelisted), so that stored parameters are valid at all times; refused requests change nothing.",
 H, "all senders and parameter payloads (missing, null, negative, >1, duplicate, malformed)",
 "Tests send fixed payloads one by one.",
 ["x/bundles/keeper/msg_server_update_params.go", "x/delegation/keeper/msg_server_update_params.go", "x/stakers/keeper/msg_server_update_params.go", "x/pool/keeper/msg_server_update_params.go", "x/funders/keeper/msg_server_update_params.go", "x/global/keeper/msg_server_update_params.go", "x/bundles/types/params.go", "x/delegation/types/params.go", "x/stakers/types/params.go", "x/pool/types/params.go", "x/funders/types/params.go", "x/global/types/params.go", "util/validate.go"],
 [("authority check in each UpdateParams", "x/*/keeper/msg_server_update_params.go"), ("Params.Validate", "x/*/types/params.go")],
 ["result and parameters after every administrative message"])

prop("C22", "Block inflation is split completely between chain, team and pools",
 "In each block the newly minted coins are split exactly: the team share by its vesting proportion of supply, of the rest the truncated protocol share goes to the pools, and everything else to the chain's usual fee distribution. The protocol share is divided over the pools that can run in proportion to their inflation weight, with the rounding remainder going to one of those pools; pools that cannot run receive nothing, and if there is none everything stays with the chain. A pool pays out of its balance only the configured truncated share per valid bundle, or its whole native balance to the treasury when disabled.",
 H, "all pool sets, weights, shares, provisions and run conditions",
 "Tests use one to three equal pools and round shares.",
 ["x/bundles/abci.go", O+"logic_pool.go", T+"abci.go", "x/bundles/module.go", "x/pool/types/pool.go"],
 [("SplitInflation", "x/bundles/abci.go"), ("DistributeTeamInflation", T+"abci.go")],
 ["module and pool balances before/after every block begin"])

prop("C23", "Team vesting releases follow the schedule and are never overdrawn",
 "At any time a team account can claim at most what has vested, unlocked and not yet been claimed according to its commencement, clawback and the fixed cliff/vesting/unlock periods; nothing is claimable before the cliff or for a tenure shorter than the cliff, and vested and unlocked amounts never decrease with time and never exceed the allocation. Inflation rewards are credited per account in proportion to its vested but not yet claimed part of the team allocation and the rest to the authority; claims pay at most what was credited. Only the authorised addresses may create accounts, claw back or claim, the sum of allocations never exceeds the fixed team allocation, and the team account always covers all outstanding obligations.",
 ["histories", "inputs", "schedules"], "all commencement/clawback/claim times and amounts",
 "Tests check tables of chosen dates.",
 [T+"keeper/logic_team.go", T+"keeper/msg_server_create_team_vesting_account.go", T+"keeper/msg_server_claim_unlocked.go", T+"keeper/msg_server_claim_account_rewards.go", T+"keeper/msg_server_claim_authority_rewards.go", T+"keeper/msg_server_clawback.go", T+"abci.go"],
 [("GetVestingStatus and schedule functions", T+"keeper/logic_team.go"), ("DistributeTeamInflation", T+"abci.go")],
 ["team accounts, authority, recipient balances, vesting queries"])

prop("C24", "Transaction fees: minimum price, burn and refund are exact",
 "A transaction is only accepted if its fee covers the configured minimum gas price for its gas limit, whatever the node's own settings. At the end of each block exactly the truncated burn share of the collected fees is destroyed; a successful single-message transaction of a configured type gets exactly the truncated refund share of its fee back to whoever paid it; a transaction containing configured message types is charged their extra gas. Refunds and burns never exceed the fees collected and never touch other accounts.",
 ["inputs", "histories", "configurations"], "all fees, gas limits, message mixes, fee payers/granters and parameters",
 "Tests run single transactions through isolated decorators.",
 [G+"ante.go", G+"post.go", G+"abci.go", G+"utils.go", "app/ante.go", "app/app.go"],
 [("BuildTxFeeChecker / DeductFeeDecorator / GasAdjustmentDecorator", G+"ante.go"), ("RefundFeeDecorator", G+"post.go"), ("EndBlocker burn", G+"abci.go")],
 ["balances, supply, tx codes and gas of real signed transactions in full blocks"])

prop("C25", "Money is conserved and refused requests leave no trace",
 "Every message and block boundary conserves coins: total supply changes only by the block inflation minted and the fees burned, and every other movement debits and credits the same amount among user accounts, module accounts, pools and treasury. A message that is refused, for whatever reason, changes no balance and no state of any module; a message changes only the state its documented effect covers. Users cannot pay into the accounts in which the modules keep what they owe, other than through the modules' own messages.",
 H, "all messages, valid or not, in all reachable states",
 "Tests rarely compare the whole state around a refused or accepted message.",
 ["x/bundles/keeper", "x/delegation/keeper", "x/funders/keeper", "x/pool/keeper", "x/stakers/keeper", "x/team/keeper", "util/logic_bank.go"],
 [("Transfer helpers", "util/logic_bank.go"), ("message handlers return errors before/with rollback", "x/*/keeper/msg_server_*.go")],
 ["complete exported state and all balances around every message"])

prop("C26", "Exported state re-imports to the identical chain",
 "After any history, the exported state of every module passes validation, importing it into an empty chain reproduces the identical state (including everything derived such as indexes, queues, counters and totals), and every further message and block has the same outcome on the imported chain as on the original one.",
 ["histories"], "all reachable states: pending queues, cooldowns, slashes, open proposals, round-robin progress, partially paid fundings",
 "Tests round-trip only the final state of each scripted scenario and never continue on the imported chain.",
 ["x/bundles/genesis.go", "x/delegation/genesis.go", "x/stakers/genesis.go", "x/pool/genesis.go", "x/funders/genesis.go", "x/team/genesis.go", "x/global/genesis.go", "x/bundles/types/genesis.go", "x/delegation/types/genesis.go", "x/stakers/types/genesis.go", "x/funders/types/genesis.go"],
 [("ExportGenesis / InitGenesis / Validate", "x/*/genesis.go, x/*/types/genesis.go")],
 ["exported state, validation result, and the continued history on the imported chain"])

prop("C27", "Queries report the actual state",
 "Every query of the chain (pools and their status, stakers and their memberships, delegators, outstanding rewards, unbondings, funders and fundings, finalized bundles by id, index or page, may-vote/may-propose/may-validate checks, team vesting status) answers according to the state at that moment: listings contain each matching item exactly once across their pages with the requested filter and order, and the may-checks answer yes exactly if the corresponding message would be accepted.",
 H, "all reachable states, filters, page sizes, offsets and directions",
 "Tests query a handful of fixed states with default pagination.",
 ["x/query/keeper", D+"getters_index_stakers.go", B+"getters_bundles.go"],
 [("grpc_query_* and account_* handlers", "x/query/keeper")],
 ["query responses against the exported state"])

prop("C28", "Blocks never halt the chain and all replicas agree",
 "In every reachable state the begin- and end-of-block processing completes without failing and without panicking, whatever the order, timing and content of preceding messages. Two replicas executing the same history reach the identical state after every block, and a node that is stopped and restarted at any height continues with the identical state and, from its next block on, gives the identical answers.",
 ["histories", "schedules", "crash_points"], "all histories and all restart points at block boundaries",
 "Tests never run the same history twice or restart a node; block processing is exercised only in scripted situations.",
 ["x/bundles/module.go", "x/delegation/module.go", "x/stakers/module.go", "x/pool/module.go", "x/team/module.go", "x/global/module.go", B+"logic_bundles.go", "app/app.go"],
 [("BeginBlock/EndBlock of each module", "x/*/module.go"), ("InitMemStore", "x/bundles/keeper, x/delegation/keeper")],
 ["block results, state hashes of replicas, answers after restart"])

prop("C29", "Protocol stake counts exactly once in governance",
 "The voting power the chain's governance sees from protocol nodes is exactly the current stake: a staker counts if and only if it currently works in at least one pool, with its total delegation (once, however many pools it is in), the total is the sum over those stakers, and a delegator's own weight behind each of them is exactly its current delegation after slashing and pending undelegations are accounted the way delegation bookkeeping accounts them. Joining, leaving, being kicked or slashed, delegating, undelegating and redelegating take effect in it at once.",
 H, "all histories of memberships, delegations, slashes and removals from pools",
 "Tests compare the total after a few scripted joins and delegations; agreement must hold for every reachable membership and stake distribution, including counters of pools per staker that only drift after kicks and delayed leaves.",
 [S+"exported_functions.go", S+"getters_staker.go", S+"getters_valaccount.go", D+"exported_functions.go"],
 [("TotalBondedTokens / GetActiveValidators / GetDelegations", S+"exported_functions.go"), ("active staker index", S+"getters_staker.go")],
 ["the staker keeper's governance interface after every message and block against the exported state"])


prop("C30", "Announced events are exactly what happened",
 "The events of a block tell its effects completely and truthfully, so that an observer who only follows them can keep books: every joining and leaving of a pool is announced once and nothing else is, every finalized, dropped or rejected bundle is announced once with the vote, payout and reward amounts that were really applied, every delegation, undelegation, redelegation and slash carries the amount by which the stake moved, every fund, refund (also of a funder displaced from its slot) and commission, reward, team and parameter change carries the values before and after it as they are in the state, and scheduled times are the effective ones. A message that is refused announces nothing.",
 H, "all histories: also changes a message causes for others (slashed, removed, displaced or out of funds) and effects of block processing",
 "Tests hardly look at events at all.",
 [B+"logic_bundles.go", B+"logic_end_block_handle_upload_timeout.go", S+"exported_functions.go", F+"logic_funders.go", D+"exported_functions.go", D+"logic_unbonding.go", O+"msg_server_schedule_runtime_upgrade.go", "x/bundles/keeper/msg_server_update_params.go", "x/funders/keeper/msg_server_update_params.go"],
 [("EmitTypedEvent in every keeper", "x/*/keeper")],
 ["typed events of every message and block against the state before and after it"])

prop("C31", "The software upgrade keeps everything the chain owes and counts",
 "When the chain is upgraded from the version before (v1.4, which knew a single coin and stored amounts as integers) to this one, nothing of value changes, whatever the state is: every funding keeps its amounts, amount per bundle and total, every staker its commission and commission rewards, every delegator its stake, entries, outstanding rewards, unbondings and cooldowns, every pool its keys, counters, protocol version and running upgrade plan, and no account balance moves. Only what the upgrade announces changes: the coin whitelist (with the old minima for the native coin), the storage costs, the largest voting power of a pool, an equal inflation weight for every pool, an upgrade plan for the pools of the named runtimes that have none, and the expedited governance parameters. A governance proposal that waits keeps every field and message, and pool creations in it keep every parameter in the new format.",
 ["inputs", "histories"], "all states the version before can be in, including waiting proposals with any messages",
 "No test runs the upgrade.",
 ["app/upgrades/v1_5/upgrade.go", "app/upgrades/v1_5/store.go"],
 [("CreateUpgradeHandler and its migrate functions", "app/upgrades/v1_5/upgrade.go")],
 ["exported state, events and stored proposals before and after the upgrade plan is applied"])

prop("C32", "A genesis that contradicts itself is refused",
 "The validation of a genesis document accepts everything a chain can export and refuses a document that no chain can start from faithfully: a record that occurs twice under one key (staker, membership, funder, funding, funding state, pool, bundle proposal, finalized bundle, round-robin progress, delegator, delegation entry, delegation data, slash, unbonding, cooldown, pending commission change, pending leave, team account), a pool or team account whose id is not below the counter of its kind, a gap in the finalized bundles of a pool, two delegators of a staker that start from the same period record, a slash whose period record is missing, a pending unbonding, commission change or leave whose index lies outside the bounds of its queue, a member marked as leaving without exactly one pending leave or a pending leave of somebody not marked, more team rewards claimed than there are, or parameters that no governance proposal could set. The order of the records makes no difference.",
 ["inputs", "histories"], "exports of all reachable states, with any record left out, doubled, moved, reordered or shifted and any counter or parameter changed",
 "Tests validate only default and well-formed states.",
 ["x/bundles/types/genesis.go", "x/delegation/types/genesis.go", "x/stakers/types/genesis.go", "x/pool/types/genesis.go", "x/funders/types/genesis.go", "x/team/types/genesis.go", "x/global/types/genesis.go"],
 [("GenesisState.Validate", "x/*/types/genesis.go")],
 ["ValidateGenesis of every module on altered exports"])

prop("C33", "A transaction acts only for those who signed it, and once",
 "A transaction has any effect (its messages, its fee, a used fee allowance) only if everybody in whose name one of its messages acts, and the payer of its fee, signed exactly these bytes with the key of their account, for this chain and account and with the account's next sequence number; every such number is used once, so that no transaction takes effect twice, however often and in whatever order it is delivered. A transaction with a missing, additional, exchanged or foreign signature, with altered or shortened bytes, delivered after its timeout height, or with a memo longer than allowed leaves no trace at all. One whose messages fail still pays its fee and uses up its numbers.",
 ["inputs", "schedules", "histories"], "signed transactions with every kind of wrong signature, tampered bytes, repeated and reordered deliveries within and across blocks",
 "Tests call the message servers and single decorators directly, no test sends signed transactions through the chain.",
 ["app/ante.go", "app/app.go", "x/global/ante.go", "x/global/post.go"],
 [("NewAnteHandler", "app/ante.go")],
 ["FinalizeBlock with signed transactions, account sequences"])

for p in P:
    p['anchors']['files'] = list(dict.fromkeys(p['anchors']['files']))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
