package main

import (
	"fmt"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// listen takes down what a step announced
func (c *Chain) listen(es []abci.Event) {
	for _, e := range es {
		if strings.HasPrefix(e.Type, "kyve.") {
			c.ev = append(c.ev, c.event(e))
		}
	}
}

func coinsS(s string) M {
	cs, err := sdk.ParseCoinsNormalized(s)
	if err != nil {
		return M{"unreadable": s}
	}
	return coinsJ(cs)
}

var statusName = map[bundlestypes.BundleStatus]string{
	bundlestypes.BUNDLE_STATUS_VALID: "VALID", bundlestypes.BUNDLE_STATUS_INVALID: "INVALID",
	bundlestypes.BUNDLE_STATUS_NO_QUORUM: "NOQUORUM", bundlestypes.BUNDLE_STATUS_DISABLED: "DISABLED",
}

func name(prefix string, x fmt.Stringer) string { return strings.TrimPrefix(x.String(), prefix) }

func seq(xs []uint64) []uint64 { return append([]uint64{}, xs...) }

func (c *Chain) event(e abci.Event) M {
	// what BaseApp adds to the events of a message
	as := e.Attributes[:0:0]
	for _, a := range e.Attributes {
		if a.Key != "mode" && a.Key != "msg_index" {
			as = append(as, a)
		}
	}
	e.Attributes = as
	m, err := sdk.ParseTypedEvent(e)
	if err != nil {
		return M{"t": "unreadable", "type": e.Type, "err": err.Error()}
	}
	r := c.rank
	pr := func(module string, old, new M) M {
		return M{"t": "Params", "m": module, "old": old[module], "new": new[module]}
	}
	var B bundlestypes.Params
	var D delegationtypes.Params
	var S stakerstypes.Params
	var P pooltypes.Params
	var F funderstypes.Params
	var G globaltypes.Params
	switch x := m.(type) {
	case *bundlestypes.EventUpdateParams:
		return pr("bundles", paramsOf(x.OldParams, D, S, P, F, G), paramsOf(x.NewParams, D, S, P, F, G))
	case *delegationtypes.EventUpdateParams:
		return pr("delegation", paramsOf(B, x.OldParams, S, P, F, G), paramsOf(B, x.NewParams, S, P, F, G))
	case *stakerstypes.EventUpdateParams:
		return pr("stakers", paramsOf(B, D, x.OldParams, P, F, G), paramsOf(B, D, x.NewParams, P, F, G))
	case *pooltypes.EventUpdateParams:
		return pr("pool", paramsOf(B, D, S, x.OldParams, F, G), paramsOf(B, D, S, x.NewParams, F, G))
	case *funderstypes.EventUpdateParams:
		return pr("funders", paramsOf(B, D, S, P, x.OldParams, G), paramsOf(B, D, S, P, x.NewParams, G))
	case *globaltypes.EventUpdateParams:
		return pr("global", paramsOf(B, D, S, P, F, x.OldParams), paramsOf(B, D, S, P, F, x.NewParams))

	case *bundlestypes.EventBundleVote:
		return M{"t": "Vote", "p": x.PoolId, "v": r(x.Staker), "sid": x.StorageId, "w": name("VOTE_TYPE_", x.Vote)}
	case *bundlestypes.EventBundleProposed:
		return M{"t": "Proposed", "p": x.PoolId, "id": x.Id, "sid": x.StorageId, "v": r(x.Uploader), "dsize": u(x.DataSize), "from": x.FromIndex,
			"bsize": x.BundleSize, "fk": x.FromKey, "tk": x.ToKey, "sum": x.BundleSummary, "hash": x.DataHash, "at": x.ProposedAt,
			"sp": x.StorageProviderId, "comp": x.CompressionId}
	case *bundlestypes.EventBundleFinalized:
		st, ok := statusName[x.Status]
		if !ok {
			st = x.Status.String()
		}
		return M{"t": "Finalized", "p": x.PoolId, "id": x.Id, "valid": u(x.Valid), "invalid": u(x.Invalid), "abstain": u(x.Abstain), "total": u(x.Total),
			"st": st, "fpay": coinsS(x.FundersPayout), "ipay": u(x.InflationPayout), "tre": coinsS(x.RewardTreasury), "upr": coinsS(x.RewardUploader),
			"del": coinsS(x.RewardDelegation), "tot": coinsS(x.RewardTotal), "cost": coinsS(x.RewardUploaderStorageCost),
			"com": coinsS(x.RewardUploaderCommission), "at": x.FinalizedAt, "upl": r(x.Uploader), "next": r(x.NextUploader)}
	case *bundlestypes.EventClaimedUploaderRole:
		return M{"t": "Claimed", "p": x.PoolId, "id": x.Id, "v": r(x.NewUploader)}
	case *bundlestypes.EventSkippedUploaderRole:
		return M{"t": "Skipped", "p": x.PoolId, "id": x.Id, "v": r(x.PreviousUploader), "w": r(x.NewUploader)}
	case *bundlestypes.EventPointIncreased:
		return M{"t": "Point", "p": x.PoolId, "v": r(x.Staker), "n": x.CurrentPoints}
	case *bundlestypes.EventPointsReset:
		return M{"t": "PointsReset", "p": x.PoolId, "v": r(x.Staker)}

	case *delegationtypes.EventDelegate:
		return M{"t": "Delegate", "d": r(x.Address), "v": r(x.Staker), "n": u(x.Amount)}
	case *delegationtypes.EventStartUndelegation:
		return M{"t": "StartUndelegation", "d": r(x.Address), "v": r(x.Staker), "n": u(x.Amount), "at": x.EstimatedUndelegationDate}
	case *delegationtypes.EventUndelegate:
		return M{"t": "Undelegate", "d": r(x.Address), "v": r(x.Staker), "n": u(x.Amount)}
	case *delegationtypes.EventRedelegate:
		return M{"t": "Redelegate", "d": r(x.Address), "v": r(x.FromStaker), "w": r(x.ToStaker), "n": u(x.Amount)}
	case *delegationtypes.EventWithdrawRewards:
		return M{"t": "Withdraw", "d": r(x.Address), "v": r(x.Staker), "c": coinsS(x.Amounts)}
	case *delegationtypes.EventSlash:
		return M{"t": "Slash", "p": x.PoolId, "v": r(x.Staker), "n": u(x.Amount), "kind": name("SLASH_TYPE_", x.SlashType)}

	case *stakerstypes.EventCreateStaker:
		return M{"t": "CreateStaker", "v": r(x.Staker), "n": u(x.Amount), "com": rawDec(x.Commission)}
	case *stakerstypes.EventUpdateMetadata:
		return M{"t": "Metadata", "v": r(x.Staker), "meta": M{"moniker": x.Moniker, "website": x.Website, "identity": x.Identity,
			"contact": x.SecurityContact, "details": x.Details}}
	case *stakerstypes.EventUpdateCommission:
		return M{"t": "Commission", "v": r(x.Staker), "com": rawDec(x.Commission)}
	case *stakerstypes.EventClaimCommissionRewards:
		return M{"t": "ClaimCommission", "v": r(x.Staker), "c": coinsS(x.Amounts)}
	case *stakerstypes.EventJoinPool:
		return M{"t": "Join", "p": x.PoolId, "v": r(x.Staker), "val": r(x.Valaddress), "n": u(x.Amount)}
	case *stakerstypes.EventLeavePool:
		return M{"t": "Leave", "p": x.PoolId, "v": r(x.Staker)}

	case *funderstypes.EventCreateFunder:
		return M{"t": "CreateFunder", "f": r(x.Address), "meta": M{"moniker": x.Moniker, "identity": x.Identity, "website": x.Website,
			"contact": x.Contact, "description": x.Description}}
	case *funderstypes.EventUpdateFunder:
		return M{"t": "UpdateFunder", "f": r(x.Address), "meta": M{"moniker": x.Moniker, "identity": x.Identity, "website": x.Website,
			"contact": x.Contact, "description": x.Description}}
	case *funderstypes.EventFundPool:
		return M{"t": "Fund", "p": x.PoolId, "f": r(x.Address), "c": coinsS(x.Amounts), "per": coinsS(x.AmountsPerBundle)}
	case *funderstypes.EventDefundPool:
		return M{"t": "Defund", "p": x.PoolId, "f": r(x.Address), "c": coinsS(x.Amounts)}
	case *funderstypes.EventPoolOutOfFunds:
		return M{"t": "OutOfFunds", "p": x.PoolId}

	case *pooltypes.EventCreatePool:
		return M{"t": "CreatePool", "p": x.Id, "name": x.Name, "runtime": x.Runtime, "logo": x.Logo, "config": x.Config, "startKey": x.StartKey,
			"endKey": x.EndKey, "interval": x.UploadInterval, "weight": rawDec(x.InflationShareWeight), "minDel": u(x.MinDelegation),
			"maxSize": x.MaxBundleSize, "version": x.Version, "binaries": x.Binaries, "sp": x.StorageProviderId, "comp": x.CompressionId}
	case *pooltypes.EventPoolUpdated:
		return M{"t": "PoolUpdated", "p": x.Id, "name": x.Name, "runtime": x.Runtime, "logo": x.Logo, "config": x.Config,
			"interval": x.UploadInterval, "weight": rawDec(x.InflationShareWeight), "minDel": u(x.MinDelegation),
			"maxSize": x.MaxBundleSize, "sp": x.StorageProviderId, "comp": x.CompressionId}
	case *pooltypes.EventPoolEnabled:
		return M{"t": "PoolEnabled", "p": x.Id}
	case *pooltypes.EventPoolDisabled:
		return M{"t": "PoolDisabled", "p": x.Id}
	case *pooltypes.EventRuntimeUpgradeScheduled:
		return M{"t": "UpgradeScheduled", "runtime": x.Runtime, "version": x.Version, "at": x.ScheduledAt, "dur": x.Duration, "binaries": x.Binaries,
			"pools": seq(x.AffectedPools)}
	case *pooltypes.EventRuntimeUpgradeCancelled:
		return M{"t": "UpgradeCancelled", "runtime": x.Runtime, "pools": seq(x.AffectedPools)}

	case *teamtypes.EventCreateTeamVestingAccount:
		return M{"t": "CreateTeamAccount", "from": r(x.Authority), "id": x.Id, "alloc": u(x.TotalAllocation), "comm": x.Commencement}
	case *teamtypes.EventClawback:
		return M{"t": "Clawback", "from": r(x.Authority), "id": x.Id, "at": x.Clawback, "n": u(x.Amount)}
	case *teamtypes.EventClaimedUnlocked:
		return M{"t": "ClaimUnlocked", "from": r(x.Authority), "id": x.Id, "n": u(x.Amount), "to": r(x.Recipient)}
	case *teamtypes.EventClaimInflationRewards:
		return M{"t": "ClaimRewards", "from": r(x.Authority), "id": x.Id, "n": u(x.Amount), "to": r(x.Recipient)}
	case *teamtypes.EventClaimAuthorityRewards:
		return M{"t": "ClaimAuthority", "from": r(x.Authority), "n": u(x.Amount), "to": r(x.Recipient)}
	}
	return M{"t": "unknown", "type": e.Type}
}
