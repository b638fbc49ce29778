package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// ---- queries ------------------------------------------------------------------
// A query is a step {kind: "Query", q: name, ...} whose outcome is the projected
// response.  It goes through the gRPC router of the application, like a client's.

func (c *Chain) conn() *baseapp.QueryServiceTestHelper {
	cc, _ := c.ctx.CacheContext()
	return &baseapp.QueryServiceTestHelper{GRPCQueryRouter: c.app.GRPCQueryRouter(), Ctx: cc}
}

var notFound = M{"found": false}

func found(m M) M { m["found"] = true; return m }

var poolStatus = map[pooltypes.PoolStatus]string{
	pooltypes.POOL_STATUS_ACTIVE: "ok", pooltypes.POOL_STATUS_UPGRADING: "upgrading", pooltypes.POOL_STATUS_DISABLED: "disabled",
	pooltypes.POOL_STATUS_END_KEY_REACHED: "endkey", pooltypes.POOL_STATUS_NOT_ENOUGH_DELEGATION: "mindelegation",
	pooltypes.POOL_STATUS_VOTING_POWER_TOO_HIGH: "votingpower", pooltypes.POOL_STATUS_NO_FUNDS: "nofunds",
}

func statusJ(s pooltypes.PoolStatus) string {
	if x, ok := poolStatus[s]; ok {
		return x
	}
	return s.String()
}

func (c *Chain) basicPoolJ(p *querytypes.BasicPool) M {
	return M{"id": p.Id, "name": p.Name, "runtime": p.Runtime, "logo": p.Logo, "weight": rawDec(p.InflationShareWeight),
		"interval": p.UploadInterval, "funds": coinsJ(p.TotalFunds), "del": u(p.TotalDelegation), "status": statusJ(p.Status)}
}

func (c *Chain) fullJ(f *querytypes.FullStaker) M {
	m := f.Metadata
	pend := M{"com": "0", "at": 0}
	if x := m.PendingCommissionChange; x != nil {
		pend = M{"com": rawDec(x.Commission), "at": x.CreationDate}
	}
	ps := []interface{}{}
	for _, p := range f.Pools {
		ps = append(ps, M{"pool": c.basicPoolJ(p.Pool), "pts": p.Points, "leaving": p.IsLeaving, "val": c.rank(p.Valaddress), "bal": u(p.Balance)})
	}
	return M{"addr": c.rank(f.Address), "com": rawDec(m.Commission), "rew": coinsJ(m.CommissionRewards), "pending": pend,
		"meta": M{"moniker": m.Moniker, "website": m.Website, "identity": m.Identity, "contact": m.SecurityContact, "details": m.Details},
		"self": u(f.SelfDelegation), "selfUnb": u(f.SelfDelegationUnbonding), "total": u(f.TotalDelegation), "n": f.DelegatorCount, "pools": ps}
}

func funderMetaJ(x *querytypes.Funder) M {
	return M{"moniker": x.Moniker, "identity": x.Identity, "website": x.Website, "contact": x.Contact, "description": x.Description}
}

func (c *Chain) funderQJ(x *querytypes.Funder) M {
	s := x.Stats
	return M{"addr": c.rank(x.Address), "meta": funderMetaJ(x), "used": coinsJ(s.TotalUsedFunds), "alloc": coinsJ(s.TotalAllocatedFunds),
		"per": coinsJ(s.TotalAmountPerBundle), "pools": idsJ(s.PoolsFunded), "score": u(s.Score)}
}

func idsJ(q []uint64) []interface{} {
	r := []interface{}{}
	for _, x := range q {
		r = append(r, x)
	}
	return r
}

func (c *Chain) fundingQJ(x querytypes.Funding) M {
	return M{"funder": c.rank(x.FunderAddress), "pool": x.PoolId, "amts": coinsJ(x.Amounts), "per": coinsJ(x.AmountsPerBundle),
		"total": coinsJ(x.TotalFunded), "score": u(x.Score)}
}

func (c *Chain) poolQJ(r querytypes.PoolResponse) M {
	data := M{}
	if r.Data != nil {
		data = poolJ(*r.Data)
	}
	pp := bundlestypes.BundleProposal{}
	if r.BundleProposal != nil {
		pp = *r.BundleProposal
	}
	fs := M{}
	for _, x := range r.Fundings {
		fs[c.rk(x.FunderAddress)] = M{"amts": coinsJ(x.Amounts), "per": coinsJ(x.AmountsPerBundle), "total": coinsJ(x.TotalFunded)}
	}
	acc := -1
	if p, ok := poolAcc[r.Account]; ok {
		acc = p
	}
	return M{"id": r.Id, "data": data, "prop": c.propJ(pp), "stakers": c.ranks(r.Stakers, false), "selfDel": u(r.TotalSelfDelegation),
		"del": u(r.TotalDelegation), "status": statusJ(r.Status), "account": acc, "bal": u(r.AccountBalance), "fundings": fs}
}

func unixOf(s string) int64 {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return -1
	}
	return t.Unix()
}

// the team queries print times the way time.Time.String does
func unixOfString(s string) int64 {
	t, err := time.Parse("2006-01-02 15:04:05 -0700 MST", s)
	if err != nil {
		return -1
	}
	return t.Unix()
}

func mathJ(x *math.Int) string {
	if x == nil || x.IsNil() {
		return "none"
	}
	return x.String()
}

func (c *Chain) finQJ(b querytypes.FinalizedBundle) M {
	return M{"pool": b.PoolId, "id": b.Id, "sid": b.StorageId, "upl": c.rank(b.Uploader), "from": b.FromIndex, "to": b.ToIndex, "fk": b.FromKey,
		"tk": b.ToKey, "sum": b.BundleSummary, "hash": b.DataHash, "sp": b.StorageProviderId, "comp": b.CompressionId,
		"fh": int64Of(b.FinalizedAt.Height), "ft": unixOf(b.FinalizedAt.Timestamp), "valid": mathJ(b.StakeSecurity.ValidVotePower), "total": mathJ(b.StakeSecurity.TotalVotePower)}
}

func int64Of(x *math.Int) int64 {
	if x == nil || x.IsNil() {
		return -1
	}
	return x.Int64()
}

func vestingJ(p *teamtypes.QueryVestingPlan, s *teamtypes.QueryVestingStatus, date string) M {
	return M{"date": unixOfString(date),
		"plan": M{"comm": unixOfString(p.Commencement), "vstart": unixOfString(p.TokenVestingStart), "vend": unixOfString(p.TokenVestingFinished),
			"ustart": unixOfString(p.TokenUnlockStart), "uend": unixOfString(p.TokenUnlockFinished), "clawback": p.Clawback,
			"camt": u(p.ClawbackAmount), "max": u(p.MaximumVestingAmount)},
		"status": M{"vested": u(s.TotalVestedAmount), "unlocked": u(s.TotalUnlockedAmount), "claimable": u(s.CurrentClaimableAmount),
			"locked": u(s.LockedVestedAmount), "unvested": u(s.RemainingUnvestedAmount), "claimed": u(s.ClaimedAmount),
			"trew": u(s.TotalRewards), "rclaim": u(s.ClaimedRewards), "arew": u(s.AvailableRewards)}}
}

// pages walks through a paginated list the way a client does and yields the collected
// items and the total (offset mode only; 0 otherwise)
func pages(pg M, f func(*query.PageRequest) ([]interface{}, *query.PageResponse, error)) (M, error) {
	items := []interface{}{}
	total := uint64(0)
	mode, limit, rev := nS(pg, "mode"), uint64(nI(pg, "limit")), nS(pg, "dir") == "down"
	switch mode {
	case "none":
		var req *query.PageRequest
		if rev {
			req = &query.PageRequest{Reverse: true}
		}
		xs, _, err := f(req)
		if err != nil {
			return nil, err
		}
		items = append(items, xs...)
	case "key":
		req := &query.PageRequest{Limit: limit, Reverse: rev}
		for i := 0; ; i++ {
			xs, res, err := f(req)
			if err != nil {
				return nil, err
			}
			items = append(items, xs...)
			if uint64(len(xs)) > limit || res == nil || len(res.NextKey) == 0 || i > 400 {
				break
			}
			req = &query.PageRequest{Key: append([]byte{}, res.NextKey...), Limit: limit, Reverse: rev}
		}
	case "offset":
		for off := uint64(0); ; off += limit {
			xs, res, err := f(&query.PageRequest{Offset: off, Limit: limit, Reverse: rev, CountTotal: true})
			if err != nil {
				return nil, err
			}
			if off == 0 {
				total = res.Total
			} else if res.Total != total {
				total = 999999
			}
			items = append(items, xs...)
			if len(xs) == 0 || off > 400 {
				break
			}
		}
	}
	return M{"items": items, "total": total}, nil
}

// sorts items that rank equal by address, so that the order among equals does not matter
func ties(items []interface{}, eq func(a, b M) bool) {
	for i := 0; i < len(items); {
		j := i + 1
		for j < len(items) && eq(items[i].(M), items[j].(M)) {
			j++
		}
		part := items[i:j]
		sort.SliceStable(part, func(x, y int) bool { return part[x].(M)["addr"].(int) < part[y].(M)["addr"].(int) })
		i = j
	}
}

var stakerStatus = map[string]querytypes.StakerStatus{"all": querytypes.STAKER_STATUS_UNSPECIFIED, "active": querytypes.STAKER_STATUS_ACTIVE,
	"inactive": querytypes.STAKER_STATUS_INACTIVE}
var fundingStatus = map[string]querytypes.FundingStatus{"all": querytypes.FUNDING_STATUS_UNSPECIFIED, "active": querytypes.FUNDING_STATUS_ACTIVE,
	"inactive": querytypes.FUNDING_STATUS_INACTIVE}

// query performs the query and returns the projection of its response
func (c *Chain) query(a Act) (out interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = M{"panic": fmt.Sprint(r)}
		}
	}()
	r, err := c.query1(a)
	if err != nil {
		s := err.Error()
		if strings.Contains(s, "not found") {
			return notFound
		}
		return M{"error": s}
	}
	return r
}

func (c *Chain) query1(a Act) (interface{}, error) {
	ctx := context.Background()
	cc := c.conn()
	acc, pl, bu := querytypes.NewQueryAccountClient(cc), querytypes.NewQueryPoolClient(cc), querytypes.NewQueryBundlesClient(cc)
	de, fu, st := querytypes.NewQueryDelegationClient(cc), querytypes.NewQueryFundersClient(cc), querytypes.NewQueryStakersClient(cc)
	te := teamtypes.NewQueryClient(cc)
	addr, staker := "", ""
	if has(a, "addr") {
		addr = c.addr(nI(a, "addr"))
	}
	if has(a, "staker") {
		staker = c.addr(nI(a, "staker"))
	}
	pool := nU(a, "pool")
	pg := mm(a, "page")
	switch nS(a, "q") {
	case "genesis":
		return c.validGenesis(nS(a, "module")), nil
	case "accountAssets":
		r, err := acc.AccountAssets(ctx, &querytypes.QueryAccountAssetsRequest{Address: addr})
		if err != nil {
			return nil, err
		}
		return M{"bal": u(r.Balance), "self": u(r.ProtocolSelfDelegation), "selfUnb": u(r.ProtocolSelfDelegationUnbonding),
			"del": u(r.ProtocolDelegation), "delUnb": u(r.ProtocolDelegationUnbonding), "rew": coinsJ(r.ProtocolRewards), "fund": coinsJ(r.ProtocolFunding)}, nil
	case "unbondings":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := acc.AccountDelegationUnbondings(ctx, &querytypes.QueryAccountDelegationUnbondingsRequest{Address: addr, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Unbondings {
				q = append(q, M{"amt": u(x.Amount), "at": x.CreationTime, "staker": c.fullJ(x.Staker)})
			}
			return q, r.Pagination, nil
		})
	case "funded":
		r, err := acc.AccountFundedList(ctx, &querytypes.QueryAccountFundedListRequest{Address: addr})
		if err != nil {
			return nil, err
		}
		q := []interface{}{}
		for _, x := range r.Funded {
			q = append(q, M{"amts": coinsJ(x.Amounts), "pool": c.basicPoolJ(x.Pool)})
		}
		return q, nil
	case "redelegation":
		r, err := acc.AccountRedelegation(ctx, &querytypes.QueryAccountRedelegationRequest{Address: addr})
		if err != nil {
			return nil, err
		}
		q := []interface{}{}
		for _, x := range r.RedelegationCooldownEntries {
			q = append(q, M{"at": x.CreationDate, "end": x.FinishDate})
		}
		return M{"entries": q, "avail": u(r.AvailableSlots)}, nil
	case "voteStatus":
		r, err := bu.CurrentVoteStatus(ctx, &querytypes.QueryCurrentVoteStatusRequest{PoolId: pool})
		if err != nil {
			return nil, err
		}
		return found(M{"valid": u(r.Valid), "invalid": u(r.Invalid), "abstain": u(r.Abstain), "total": u(r.Total)}), nil
	case "canValidate":
		r, err := bu.CanValidate(ctx, &querytypes.QueryCanValidateRequest{PoolId: pool, Valaddress: addr})
		if err != nil {
			return nil, err
		}
		k := 0
		if r.Possible {
			k = c.rank(r.Reason)
		}
		return M{"possible": r.Possible, "staker": k}, nil
	case "canPropose":
		r, err := bu.CanPropose(ctx, &querytypes.QueryCanProposeRequest{PoolId: pool, Staker: staker, Proposer: addr, FromIndex: nU(a, "idx")})
		if err != nil {
			return nil, err
		}
		return M{"possible": r.Possible}, nil
	case "canVote":
		r, err := bu.CanVote(ctx, &querytypes.QueryCanVoteRequest{PoolId: pool, Staker: staker, Voter: addr, StorageId: nS(a, "sid")})
		if err != nil {
			return nil, err
		}
		return M{"possible": r.Possible, "noAbstain": r.Possible && r.Reason == "KYVE_VOTE_NO_ABSTAIN_ALLOWED"}, nil
	case "bundles":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := bu.FinalizedBundlesQuery(ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: pool, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.FinalizedBundles {
				q = append(q, c.finQJ(x))
			}
			return q, r.Pagination, nil
		})
	case "bundleAt":
		r, err := bu.FinalizedBundlesQuery(ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: pool, Index: num(a, "idx")})
		if err != nil {
			return nil, err
		}
		q := []interface{}{}
		for _, x := range r.FinalizedBundles {
			q = append(q, c.finQJ(x))
		}
		return q, nil
	case "bundle":
		r, err := bu.FinalizedBundleQuery(ctx, &querytypes.QueryFinalizedBundleRequest{PoolId: pool, Id: nU(a, "id")})
		if err != nil {
			return nil, err
		}
		return found(M{"b": c.finQJ(querytypes.FinalizedBundle{PoolId: r.PoolId, Id: r.Id, StorageId: r.StorageId, Uploader: r.Uploader,
			FromIndex: r.FromIndex, ToIndex: r.ToIndex, FromKey: r.FromKey, ToKey: r.ToKey, BundleSummary: r.BundleSummary, DataHash: r.DataHash,
			FinalizedAt: r.FinalizedAt, StorageProviderId: r.StorageProviderId, CompressionId: r.CompressionId, StakeSecurity: r.StakeSecurity})}), nil
	case "delegator":
		r, err := de.Delegator(ctx, &querytypes.QueryDelegatorRequest{Staker: staker, Delegator: addr})
		if err != nil {
			return nil, err
		}
		return c.sdJ(*r.Delegator), nil
	case "delegatorsByStaker":
		tot, cnt := uint64(0), uint64(0)
		m, err := pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := de.DelegatorsByStaker(ctx, &querytypes.QueryDelegatorsByStakerRequest{Staker: staker, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Delegators {
				q = append(q, c.sdJ(x))
			}
			tot, cnt = r.TotalDelegation, r.TotalDelegatorCount
			return q, r.Pagination, nil
		})
		if err == nil {
			m["stake"], m["n"] = u(tot), cnt
		}
		return m, err
	case "stakersByDelegator":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := de.StakersByDelegator(ctx, &querytypes.QueryStakersByDelegatorRequest{Delegator: addr, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Stakers {
				q = append(q, M{"staker": c.fullJ(x.Staker), "rew": coinsJ(x.CurrentRewards), "amt": u(x.DelegationAmount)})
			}
			return q, r.Pagination, nil
		})
	case "funders":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := fu.Funders(ctx, &querytypes.QueryFundersRequest{Search: nS(a, "search"), Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range r.Funders {
				q = append(q, c.funderQJ(&r.Funders[i]))
			}
			return q, r.Pagination, nil
		})
	case "funder":
		r, err := fu.Funder(ctx, &querytypes.QueryFunderRequest{Address: addr, Status: fundingStatus[nS(a, "status")]})
		if err != nil {
			return nil, err
		}
		q := []interface{}{}
		for _, x := range r.Fundings {
			q = append(q, c.fundingQJ(x))
		}
		return found(M{"funder": c.funderQJ(r.Funder), "fundings": q}), nil
	case "fundingsByFunder":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := fu.FundingsByFunder(ctx, &querytypes.QueryFundingsByFunderRequest{Address: addr, Status: fundingStatus[nS(a, "status")], Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Fundings {
				q = append(q, c.fundingQJ(x))
			}
			return q, r.Pagination, nil
		})
	case "fundingsByPool":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := fu.FundingsByPool(ctx, &querytypes.QueryFundingsByPoolRequest{PoolId: pool, Status: fundingStatus[nS(a, "status")], Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Fundings {
				q = append(q, c.fundingQJ(x))
			}
			return q, r.Pagination, nil
		})
	case "pool":
		r, err := pl.Pool(ctx, &querytypes.QueryPoolRequest{Id: pool})
		if err != nil {
			return nil, err
		}
		return found(M{"pool": c.poolQJ(r.Pool)}), nil
	case "pools":
		return pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := pl.Pools(ctx, &querytypes.QueryPoolsRequest{Search: nS(a, "search"), Runtime: nS(a, "runtime"), Disabled: a["disabled"].(bool),
				StorageProviderId: uint32(nI(a, "sp")), Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range r.Pools {
				q = append(q, c.poolQJ(x))
			}
			return q, r.Pagination, nil
		})
	case "staker":
		r, err := st.Staker(ctx, &querytypes.QueryStakerRequest{Address: staker})
		if err != nil {
			return nil, err
		}
		return found(M{"staker": c.fullJ(&r.Staker)}), nil
	case "stakers":
		m, err := pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := st.Stakers(ctx, &querytypes.QueryStakersRequest{Search: nS(a, "search"), Status: stakerStatus[nS(a, "status")], Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range r.Stakers {
				q = append(q, c.fullJ(&r.Stakers[i]))
			}
			return q, r.Pagination, nil
		})
		if err == nil {
			ties(m["items"].([]interface{}), func(x, y M) bool { return x["total"] == y["total"] })
		}
		return m, err
	case "stakersByPool":
		r, err := st.StakersByPool(ctx, &querytypes.QueryStakersByPoolRequest{PoolId: pool})
		if err != nil {
			return nil, err
		}
		q := []interface{}{}
		for _, x := range r.Stakers {
			q = append(q, M{"staker": c.fullJ(x.Staker), "pool": x.Valaccount.PoolId,
				"m": M{"val": c.rank(x.Valaccount.Valaddress), "pts": x.Valaccount.Points, "leaving": x.Valaccount.IsLeaving}})
		}
		return found(M{"items": q}), nil
	case "stakersByPoolCount":
		m, err := pages(pg, func(p *query.PageRequest) (q []interface{}, _ *query.PageResponse, _ error) {
			r, err := st.StakersByPoolCount(ctx, &querytypes.QueryStakersByPoolCountRequest{Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range r.Stakers {
				q = append(q, c.fullJ(&r.Stakers[i]))
			}
			return q, r.Pagination, nil
		})
		if err == nil {
			ties(m["items"].([]interface{}), func(x, y M) bool {
				return x["total"] == y["total"] && len(x["pools"].([]interface{})) == len(y["pools"].([]interface{}))
			})
		}
		return m, err
	case "govProposals":
		return c.govProposals(cc.Ctx, a), nil
	case "params":
		r, err := querytypes.NewQueryParamsClient(cc).Params(ctx, &querytypes.QueryParamsRequest{})
		if err != nil {
			return nil, err
		}
		return paramsOf(*r.BundlesParams, *r.DelegationParams, *r.StakersParams, *r.PoolParams, *r.FundersParams, *r.GlobalParams), nil
	case "moduleParams":
		b, e1 := bundlestypes.NewQueryClient(cc).Params(ctx, &bundlestypes.QueryParamsRequest{})
		d, e2 := delegationtypes.NewQueryClient(cc).Params(ctx, &delegationtypes.QueryParamsRequest{})
		s, e3 := stakerstypes.NewQueryClient(cc).Params(ctx, &stakerstypes.QueryParamsRequest{})
		p, e4 := pooltypes.NewQueryClient(cc).Params(ctx, &pooltypes.QueryParamsRequest{})
		g, e5 := globaltypes.NewQueryClient(cc).Params(ctx, &globaltypes.QueryParamsRequest{})
		f, e6 := funderstypes.NewQueryClient(cc).Params(ctx, &funderstypes.QueryParamsRequest{})
		for _, e := range []error{e1, e2, e3, e4, e5, e6} {
			if e != nil {
				return nil, e
			}
		}
		return paramsOf(b.Params, d.Params, s.Params, p.Params, f.Params, g.Params), nil
	case "teamInfo":
		r, err := te.TeamInfo(ctx, &teamtypes.QueryTeamInfoRequest{})
		if err != nil {
			return nil, err
		}
		return M{"foundation": c.rank(r.FoundationAuthority), "bcp": c.rank(r.BcpAuthority), "allocation": u(r.TotalTeamAllocation),
			"issued": u(r.IssuedTeamAllocation), "available": u(r.AvailableTeamAllocation), "total": u(r.TotalAuthorityRewards),
			"claimed": u(r.ClaimedAuthorityRewards), "avail": u(r.AvailableAuthorityRewards), "atotal": u(r.TotalAccountRewards),
			"aclaimed": u(r.ClaimedAccountRewards), "aavail": u(r.AvailableAccountRewards), "required": u(r.RequiredModuleBalance),
			"balance": u(r.TeamModuleBalance)}, nil
	case "teamAccounts":
		r, err := te.TeamVestingAccounts(ctx, &teamtypes.QueryTeamVestingAccountsRequest{})
		if err != nil {
			return nil, err
		}
		m := M{}
		for _, x := range r.Accounts {
			m[ku(x.Id)] = teamAccJ(x)
		}
		return m, nil
	case "teamAccount":
		r, err := te.TeamVestingAccount(ctx, &teamtypes.QueryTeamVestingAccountRequest{Id: nU(a, "id")})
		if err != nil {
			return nil, err
		}
		return found(M{"id": r.Account.Id, "account": teamAccJ(r.Account)}), nil
	case "teamStatus":
		r, err := te.TeamVestingStatus(ctx, &teamtypes.QueryTeamVestingStatusRequest{Id: nU(a, "id")})
		if err != nil {
			return nil, err
		}
		return found(vestingJ(r.Plan, r.Status, r.RequestDate)), nil
	case "teamStatusAt":
		r, err := te.TeamVestingStatusByTime(ctx, &teamtypes.QueryTeamVestingStatusByTimeRequest{Id: nU(a, "id"), Time: nU(a, "at")})
		if err != nil {
			return nil, err
		}
		return found(vestingJ(r.Plan, r.Status, r.RequestDate)), nil
	case "govWeights":
		// the interface the governance module uses to count protocol stake
		kc := c.app.StakersKeeper
		vs := M{}
		for _, v := range kc.GetActiveValidators(cc.Ctx) {
			x := v.(govv1.ValidatorGovInfo)
			vs[c.rk(sdk.AccAddress(x.Address).String())] = M{"tokens": x.BondedTokens.String(), "shares": rawDec(x.DelegatorShares), "deductions": rawDec(x.DelegatorDeductions)}
		}
		return M{"total": kc.TotalBondedTokens(cc.Ctx).String(), "vals": vs}, nil
	case "slots":
		// the counter by which a pool is full or not
		m := M{}
		for _, p := range c.app.PoolKeeper.GetAllPools(cc.Ctx) {
			m[key(int(p.Id))] = int(c.app.StakersKeeper.GetStakerCountOfPool(cc.Ctx, p.Id))
		}
		return m, nil
	case "govDelegations":
		vs, amts := c.app.StakersKeeper.GetDelegations(cc.Ctx, addr)
		m := M{}
		for i, v := range vs {
			if _, dup := m[c.rk(v)]; dup {
				return M{"dup": c.rank(v)}, nil
			}
			m[c.rk(v)] = rawDec(amts[i])
		}
		return m, nil
	}
	panic("unknown query " + nS(a, "q"))
}

func (c *Chain) sdJ(x querytypes.StakerDelegatorResponse) M {
	return M{"staker": c.rank(x.Staker), "del": c.rank(x.Delegator), "rew": coinsJ(x.CurrentRewards), "amt": u(x.DelegationAmount)}
}

// ---- generation ------------------------------------------------------------------

func (g *Gen) page(keys bool) M {
	mode := pick(g.r, []string{"none", "offset", "key"})
	if !keys && mode == "key" {
		mode = "offset"
	}
	dir := "up"
	if keys && g.p(40) {
		dir = "down"
	}
	return M{"mode": mode, "limit": pick(g.r, []int{1, 2, 3, 5, 7}), "dir": dir}
}

func (g *Gen) search(names []string) string {
	switch g.r.Intn(4) {
	case 0:
		return ""
	case 1:
		return pick(g.r, []string{"zzz", "e", "O", "1"})
	}
	if len(names) == 0 {
		return ""
	}
	n := pick(g.r, names)
	if len(n) > 1 && g.p(70) {
		i := g.r.Intn(len(n))
		n = n[i : i+g.n(1, len(n)-i)]
	}
	if g.p(50) {
		n = strings.ToUpper(n)
	}
	return n
}

var queryNames = []string{"accountAssets", "unbondings", "funded", "redelegation", "voteStatus", "canValidate", "canPropose", "canVote", "bundles",
	"bundleAt", "bundle", "delegator", "delegatorsByStaker", "stakersByDelegator", "funders", "funder", "fundingsByFunder", "fundingsByPool", "pool",
	"pools", "staker", "stakers", "stakersByPool", "stakersByPoolCount", "params", "moduleParams", "teamInfo", "teamAccounts", "teamAccount",
	"teamStatus", "teamStatusAt", "govWeights", "govDelegations"}

// matches: the specification does not model substrings; the generator tells which of the
// present names match
func matching(search string, names map[int]string) M {
	q := []int{}
	for k, n := range names {
		if strings.Contains(strings.ToLower(n), strings.ToLower(search)) {
			q = append(q, k)
		}
	}
	sort.Ints(q)
	return M{"$set": q}
}

func (g *Gen) queryAct() Act {
	q := pick(g.r, queryNames)
	if g.prof.queries != nil {
		q = pick(g.r, g.prof.queries)
	}
	a := Act{"kind": "Query", "q": q}
	pool := func() {
		a["pool"] = g.anyPool()
		if g.p(4) {
			a["pool"] = len(g.s.Pool.PoolList) + g.n(0, 1)
		}
	}
	user := func() {
		if g.p(70) && len(g.s.Delegation.DelegatorList) > 0 {
			a["addr"] = g.c.rank(pick(g.r, g.s.Delegation.DelegatorList).Delegator)
		} else {
			a["addr"] = g.n(1, len(g.c.users))
		}
	}
	staker := func() {
		if ss := g.stakers(); g.p(85) && len(ss) > 0 {
			a["staker"] = pick(g.r, ss)
		} else {
			a["staker"] = g.n(1, len(g.c.users))
		}
	}
	funder := func() {
		if g.p(85) && len(g.s.Funders.FunderList) > 0 {
			a["addr"] = g.c.rank(pick(g.r, g.s.Funders.FunderList).Address)
		} else {
			a["addr"] = g.n(1, len(g.c.users))
		}
		a["status"] = pick(g.r, []string{"all", "active", "inactive"})
	}
	switch q {
	case "genesis":
		g.genesis(a)
	case "accountAssets", "redelegation", "govDelegations":
		user()
		if g.p(25) {
			funder()
			delete(a, "status")
		}
		if l := g.s.Delegation.RedelegationCooldownList; q == "redelegation" && len(l) > 0 && g.p(75) {
			a["addr"] = g.c.rank(pick(g.r, l).Address)
		}
		if l := g.s.Delegation.UndelegationQueueEntryList; q == "accountAssets" && len(l) > 0 && g.p(30) {
			a["addr"] = g.c.rank(pick(g.r, l).Delegator)
		}
	case "funded":
		funder()
		delete(a, "status")
	case "unbondings":
		user()
		if l := g.s.Delegation.UndelegationQueueEntryList; len(l) > 0 && g.p(70) {
			a["addr"] = g.c.rank(pick(g.r, l).Delegator)
		}
		a["page"] = g.page(true)
	case "voteStatus", "pool", "stakersByPool":
		pool()
	case "canValidate":
		pool()
		a["addr"] = g.n(1, len(g.c.users))
		if ms := g.members(nI(a, "pool")); len(ms) > 0 && g.p(75) {
			a["addr"] = g.c.rank(pick(g.r, ms).Valaddress)
		}
	case "canPropose", "canVote":
		k := map[string]string{"canPropose": "SubmitBundle", "canVote": "VoteBundle"}[q]
		b := g.act(k)
		if b == nil {
			return nil
		}
		a["pool"], a["staker"], a["addr"] = b["pool"], b["staker"], b["from"]
		if q == "canPropose" {
			a["idx"] = b["idx"]
		} else {
			a["sid"] = b["sid"]
			// somebody who voted already
			pr := g.prop(nI(b, "pool"))
			vs := append(append(append([]string{}, pr.VotersAbstain...), pr.VotersAbstain...), append(pr.VotersValid, pr.VotersInvalid...)...)
			if len(vs) > 0 && g.p(35) {
				v := pick(g.r, vs)
				a["staker"] = g.c.rank(v)
				for _, m := range g.members(nI(b, "pool")) {
					if m.Staker == v {
						a["addr"] = g.c.rank(m.Valaddress)
					}
				}
			}
		}
	case "bundles":
		pool()
		a["page"] = g.page(true)
	case "bundleAt", "bundle":
		pool()
		n, top := 0, 0
		for _, b := range g.s.Bundles.FinalizedBundleList {
			if int(b.PoolId) == nI(a, "pool") {
				n++
				if int(b.ToIndex) > top {
					top = int(b.ToIndex)
				}
			}
		}
		if q == "bundle" {
			a["id"] = g.n(0, n)
		} else {
			a["idx"] = g.n(0, top+1)
		}
	case "delegator":
		staker()
		user()
		if l := g.s.Delegation.DelegatorList; len(l) > 0 && g.p(70) {
			x := pick(g.r, l)
			a["staker"], a["addr"] = g.c.rank(x.Staker), g.c.rank(x.Delegator)
		}
	case "delegatorsByStaker":
		staker()
		a["page"] = g.page(true)
	case "stakersByDelegator":
		user()
		a["page"] = g.page(true)
	case "funders":
		names := map[int]string{}
		var ns []string
		for _, f := range g.s.Funders.FunderList {
			names[g.c.rank(f.Address)] = f.Moniker
			ns = append(ns, f.Moniker)
		}
		a["search"] = g.search(ns)
		a["match"] = matching(nS(a, "search"), names)
		a["page"] = g.page(true)
	case "funder":
		funder()
	case "fundingsByFunder":
		funder()
		a["page"] = g.page(true)
	case "fundingsByPool":
		pool()
		a["status"] = pick(g.r, []string{"all", "active", "inactive"})
		a["page"] = g.page(true)
	case "pools":
		names := map[int]string{}
		var ns []string
		a["runtime"], a["sp"], a["disabled"] = "", 0, g.p(25)
		for _, p := range g.pools() {
			names[int(p.Id)] = p.Name
			ns = append(ns, p.Name)
			if g.p(20) {
				a["runtime"] = p.Runtime
			}
			if g.p(20) {
				a["sp"] = int(p.CurrentStorageProviderId)
			}
		}
		a["search"] = g.search(ns)
		a["match"] = matching(nS(a, "search"), names)
		a["page"] = g.page(true)
	case "staker":
		staker()
	case "stakers":
		names := map[int]string{}
		var ns []string
		for _, x := range g.s.Stakers.StakerList {
			names[g.c.rank(x.Address)] = x.Moniker + "\n" + x.Address
			ns = append(ns, x.Moniker)
			ns = append(ns, x.Address)
		}
		a["search"] = ""
		if g.p(35) {
			a["search"] = g.search(ns)
		}
		a["match"] = matching(nS(a, "search"), names)
		a["status"] = pick(g.r, []string{"all", "active", "inactive"})
		a["page"] = g.page(a["status"] != "active")
		if mm(a, "page")["dir"] == "down" {
			a["page"] = g.page(false)
		}
	case "stakersByPoolCount":
		a["page"] = g.page(false)
	case "teamAccount", "teamStatus":
		a["id"] = g.teamID()
	case "teamStatusAt":
		a["id"] = g.teamID()
		a["at"] = g.n(1_670_000_000, 1_850_000_000)
		if t := g.teamAcc(nI(a, "id")); t != nil && g.p(70) {
			y := int(t.Commencement)
			a["at"] = pick(g.r, []int{y, y + 1, y - 1, y + 31536000, y + 31535999, y + 31536000*3, y + 31536000*3 - 1, int(t.Clawback) + 1, g.n(y, y+31536000*4)})
		}
		if nI(a, "at") < 1 {
			a["at"] = 1
		}
	}
	return a
}

// listings asks for everything the node finds through what it keeps in memory
func (g *Gen) listings(s *Snap) (as []Act) {
	names := map[int]string{}
	for _, x := range s.Stakers.StakerList {
		names[g.c.rank(x.Address)] = x.Moniker
	}
	for _, st := range []string{"all", "active", "inactive"} {
		as = append(as, Act{"kind": "Query", "q": "stakers", "search": "", "match": matching("", names), "status": st, "page": M{"mode": "none", "dir": "up", "limit": 1}})
	}
	for _, b := range s.Bundles.FinalizedBundleList {
		if b.FinalizedAt != nil && (b.Id+b.PoolId)%3 == uint64(g.n(0, 2)) {
			as = append(as, Act{"kind": "Query", "q": "bundleAt", "pool": int(b.PoolId), "idx": g.n(int(b.FromIndex), int(b.ToIndex)-1)})
		}
	}
	if len(as) > 12 {
		as = as[:12]
	}
	return
}
