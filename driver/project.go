package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/KYVENetwork/chain/x/bundles"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	"github.com/KYVENetwork/chain/x/delegation"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	"github.com/KYVENetwork/chain/x/funders"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	"github.com/KYVENetwork/chain/x/global"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	"github.com/KYVENetwork/chain/x/pool"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	"github.com/KYVENetwork/chain/x/stakers"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	"github.com/KYVENetwork/chain/x/team"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

type M = map[string]interface{}

// Snap is the whole observable state of the chain, as its modules export it.
type Snap struct {
	Bundles    *bundlestypes.GenesisState
	Delegation *delegationtypes.GenesisState
	Stakers    *stakerstypes.GenesisState
	Pool       *pooltypes.GenesisState
	Funders    *funderstypes.GenesisState
	Team       *teamtypes.GenesisState
	Global     *globaltypes.GenesisState
	Bal        map[int]sdk.Coins
	Mod        map[string]sdk.Coins
	PBal       map[int]sdk.Coins
	Oth        map[string]sdk.Coins
	Supply     sdk.Coins
	Grants     map[int]map[int]sdk.Coins
	Unlimited  map[int]map[int]bool
	Seq        map[int]uint64
	Halt       string
}

var poolAcc = map[string]int{}

func initPools() {
	for i := 0; i < 64; i++ {
		poolAcc[authtypes.NewModuleAddress(fmt.Sprintf("%s/%d", pooltypes.ModuleName, i)).String()] = i
	}
}

func (c *Chain) snap() *Snap {
	ctx := c.ctx
	s := &Snap{
		Bundles:    bundles.ExportGenesis(ctx, c.app.BundlesKeeper),
		Delegation: delegation.ExportGenesis(ctx, c.app.DelegationKeeper),
		Stakers:    stakers.ExportGenesis(ctx, c.app.StakersKeeper),
		Pool:       pool.ExportGenesis(ctx, c.app.PoolKeeper),
		Funders:    funders.ExportGenesis(ctx, c.app.FundersKeeper),
		Team:       team.ExportGenesis(ctx, c.app.TeamKeeper),
		Global:     global.ExportGenesis(ctx, c.app.GlobalKeeper),
		Bal:        map[int]sdk.Coins{}, Mod: map[string]sdk.Coins{}, PBal: map[int]sdk.Coins{}, Oth: map[string]sdk.Coins{},
		Grants: map[int]map[int]sdk.Coins{}, Unlimited: map[int]map[int]bool{}, Seq: map[int]uint64{},
	}
	c.app.BankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, coin sdk.Coin) bool {
		addr := a.String()
		if m, ok := modAddr[addr]; ok {
			s.Mod[m] = s.Mod[m].Add(coin)
		} else if p, ok := poolAcc[addr]; ok {
			s.PBal[p] = s.PBal[p].Add(coin)
		} else if r, ok := c.byAddr[addr]; ok {
			s.Bal[r] = s.Bal[r].Add(coin)
		} else {
			s.Oth[addr] = s.Oth[addr].Add(coin)
		}
		return false
	})
	c.app.BankKeeper.IterateTotalSupply(ctx, func(coin sdk.Coin) bool { s.Supply = s.Supply.Add(coin); return false })
	_ = c.app.FeeGrantKeeper.IterateAllFeeAllowances(ctx, func(g feegrant.Grant) bool {
		gr, ge := c.byAddr[g.Granter], c.byAddr[g.Grantee]
		al, err := g.GetGrant()
		if err != nil {
			return false
		}
		if b, ok := al.(*feegrant.BasicAllowance); ok {
			if s.Grants[gr] == nil {
				s.Grants[gr] = map[int]sdk.Coins{}
				s.Unlimited[gr] = map[int]bool{}
			}
			s.Grants[gr][ge] = b.SpendLimit
			s.Unlimited[gr][ge] = b.SpendLimit == nil
		}
		return false
	})
	if c.signed {
		for _, x := range c.users {
			if a := c.app.AccountKeeper.GetAccount(ctx, x.Acc); a != nil && a.GetSequence() > 0 {
				s.Seq[x.Rank] = a.GetSequence()
			}
		}
	}
	if p, err := c.app.UpgradeKeeper.GetUpgradePlan(ctx); err == nil {
		s.Halt = p.Name
		if s.Halt == "" {
			s.Halt = "plan"
		}
	}
	return s
}

// ---- encoding -------------------------------------------------------------

func coinsJ(cs sdk.Coins) M {
	m := M{}
	for _, c := range cs {
		m[c.Denom] = c.Amount.String()
	}
	return m
}

func rawDec(d math.LegacyDec) string {
	if d.IsNil() {
		return "0"
	}
	return d.BigInt().String()
}

func decCoinsJ(cs sdk.DecCoins) M {
	m := M{}
	for _, c := range cs {
		m[c.Denom] = rawDec(c.Amount)
	}
	return m
}

func intJ(i math.Int) string {
	if i.IsNil() {
		return "0"
	}
	return i.String()
}

func u(x uint64) string { return strconv.FormatUint(x, 10) }
func key(i int) string  { return strconv.Itoa(i) }
func ku(i uint64) string {
	return strconv.FormatUint(i, 10)
}

func (c *Chain) rank(a string) int {
	if a == "" {
		return 0
	}
	if r, ok := c.byAddr[a]; ok {
		return r
	}
	return 100000 + len(a)
}
func (c *Chain) rk(a string) string { return key(c.rank(a)) }

func (c *Chain) ranks(as []string, sorted bool) []int {
	r := []int{}
	for _, a := range as {
		r = append(r, c.rank(a))
	}
	if sorted {
		sort.Ints(r)
	}
	return r
}

func sub(m M, k string) M {
	x, ok := m[k].(M)
	if !ok {
		x = M{}
		m[k] = x
	}
	return x
}

func globalJ(g globaltypes.Params) M {
	adj, ref := []interface{}{}, []interface{}{}
	for _, x := range g.GasAdjustments {
		adj = append(adj, M{"type": x.Type, "amount": x.Amount})
	}
	for _, x := range g.GasRefunds {
		ref = append(ref, M{"type": x.Type, "fraction": rawDec(x.Fraction)})
	}
	return M{"min_gas_price": rawDec(g.MinGasPrice), "burn_ratio": rawDec(g.BurnRatio), "gas_adjustments": adj, "gas_refunds": ref}
}

func paramsJ(s *Snap) M {
	return paramsOf(s.Bundles.Params, s.Delegation.Params, s.Stakers.Params, s.Pool.Params, s.Funders.Params, s.Global.Params)
}

func paramsOf(b bundlestypes.Params, d delegationtypes.Params, st stakerstypes.Params, p pooltypes.Params, f funderstypes.Params, g globaltypes.Params) M {
	costs := []interface{}{}
	for _, x := range b.StorageCosts {
		costs = append(costs, M{"storage_provider_id": x.StorageProviderId, "cost": rawDec(x.Cost)})
	}
	wl := []interface{}{}
	for _, x := range f.CoinWhitelist {
		wl = append(wl, M{"coin_denom": x.CoinDenom, "coin_decimals": x.CoinDecimals, "min_funding_amount": intJ(x.MinFundingAmount),
			"min_funding_amount_per_bundle": intJ(x.MinFundingAmountPerBundle), "coin_weight": rawDec(x.CoinWeight)})
	}
	return M{
		"bundles": M{"upload_timeout": b.UploadTimeout, "storage_costs": costs, "network_fee": rawDec(b.NetworkFee), "max_points": b.MaxPoints},
		"delegation": M{"unbonding_delegation_time": d.UnbondingDelegationTime, "redelegation_cooldown": d.RedelegationCooldown,
			"redelegation_max_amount": d.RedelegationMaxAmount, "vote_slash": rawDec(d.VoteSlash), "upload_slash": rawDec(d.UploadSlash), "timeout_slash": rawDec(d.TimeoutSlash)},
		"stakers": M{"commission_change_time": st.CommissionChangeTime, "leave_pool_time": st.LeavePoolTime},
		"pool": M{"protocol_inflation_share": rawDec(p.ProtocolInflationShare), "pool_inflation_payout_rate": rawDec(p.PoolInflationPayoutRate),
			"max_voting_power_per_pool": rawDec(p.MaxVotingPowerPerPool)},
		"funders": M{"coin_whitelist": wl, "min_funding_multiple": f.MinFundingMultiple},
		"global":  globalJ(g),
	}
}

func poolJ(p pooltypes.Pool) M {
	pr, up := p.Protocol, p.UpgradePlan
	if pr == nil {
		pr = &pooltypes.Protocol{}
	}
	if up == nil {
		up = &pooltypes.UpgradePlan{}
	}
	return M{"id": p.Id, "name": p.Name, "runtime": p.Runtime, "logo": p.Logo, "config": p.Config,
		"startKey": p.StartKey, "curKey": p.CurrentKey, "curSummary": p.CurrentSummary, "curIndex": p.CurrentIndex,
		"total": p.TotalBundles, "interval": p.UploadInterval, "weight": rawDec(p.InflationShareWeight), "minDel": u(p.MinDelegation),
		"maxSize": p.MaxBundleSize, "disabled": p.Disabled, "pver": pr.Version, "pbin": pr.Binaries, "plast": pr.LastUpgrade,
		"uver": up.Version, "ubin": up.Binaries, "uat": up.ScheduledAt, "udur": up.Duration,
		"sp": p.CurrentStorageProviderId, "comp": p.CurrentCompressionId, "endKey": p.EndKey}
}

func (c *Chain) propJ(p bundlestypes.BundleProposal) M {
	return M{"upl": c.rank(p.Uploader), "next": c.rank(p.NextUploader), "sid": p.StorageId, "dsize": u(p.DataSize),
		"bsize": p.BundleSize, "at": p.UpdatedAt, "vv": c.ranks(p.VotersValid, true), "vi": c.ranks(p.VotersInvalid, true),
		"va": c.ranks(p.VotersAbstain, true), "from": p.FromKey, "to": p.ToKey, "sum": p.BundleSummary, "hash": p.DataHash,
		"sp": p.StorageProviderId, "comp": p.CompressionId}
}

func teamAccJ(x teamtypes.TeamVestingAccount) M {
	return M{"alloc": u(x.TotalAllocation), "comm": x.Commencement, "clawback": x.Clawback, "ucl": u(x.UnlockedClaimed),
		"lct": x.LastClaimedTime, "trew": u(x.TotalRewards), "rclaim": u(x.RewardsClaimed)}
}

// project encodes the state as the components of the specification's state record.
func (c *Chain) project(s *Snap) map[string]interface{} {
	o := map[string]interface{}{}
	o["h"], o["now"] = c.h, c.now
	bal, mod, pbal, oth := M{}, M{}, M{}, M{}
	for r, cs := range s.Bal {
		bal[key(r)] = coinsJ(cs)
	}
	for m, cs := range s.Mod {
		mod[m] = coinsJ(cs)
	}
	for p, cs := range s.PBal {
		pbal[key(p)] = coinsJ(cs)
	}
	for a, cs := range s.Oth {
		oth[a] = coinsJ(cs)
	}
	o["bal"], o["mod"], o["pbal"], o["oth"], o["sup"] = bal, mod, pbal, oth, coinsJ(s.Supply)
	o["pr"] = paramsJ(s)
	o["k"] = M{"gov": c.kgov, "foundation": c.kfound, "bcp": c.kbcp}
	pools := M{}
	for _, p := range s.Pool.PoolList {
		pools[ku(p.Id)] = poolJ(p)
	}
	o["pools"] = pools
	prop := M{}
	for _, p := range s.Bundles.BundleProposalList {
		prop[ku(p.PoolId)] = c.propJ(p)
	}
	o["prop"] = prop
	fin := map[string][]interface{}{}
	fb := append([]bundlestypes.FinalizedBundle{}, s.Bundles.FinalizedBundleList...)
	sort.SliceStable(fb, func(i, j int) bool {
		return fb[i].PoolId < fb[j].PoolId || (fb[i].PoolId == fb[j].PoolId && fb[i].Id < fb[j].Id)
	})
	for _, b := range fb {
		var fh, ft, va, to uint64
		if b.FinalizedAt != nil {
			fh, ft = b.FinalizedAt.Height, b.FinalizedAt.Timestamp
		}
		if b.StakeSecurity != nil {
			va, to = b.StakeSecurity.ValidVotePower, b.StakeSecurity.TotalVotePower
		}
		fin[ku(b.PoolId)] = append(fin[ku(b.PoolId)], M{"id": b.Id, "sid": b.StorageId, "upl": c.rank(b.Uploader), "from": b.FromIndex,
			"to": b.ToIndex, "fk": b.FromKey, "tk": b.ToKey, "sum": b.BundleSummary, "hash": b.DataHash, "sp": b.StorageProviderId,
			"comp": b.CompressionId, "fh": fh, "ft": ft, "valid": u(va), "total": u(to)})
	}
	o["fin"] = fin
	rr := M{}
	for _, p := range s.Bundles.RoundRobinProgressList {
		m := M{}
		for _, e := range p.ProgressList {
			m[c.rk(e.Address)] = strconv.FormatInt(e.Progress, 10)
		}
		rr[ku(p.PoolId)] = m
	}
	o["rr"] = rr
	stk := M{}
	for _, x := range s.Stakers.StakerList {
		stk[c.rk(x.Address)] = M{"com": rawDec(x.Commission), "rew": coinsJ(x.CommissionRewards),
			"meta": M{"moniker": x.Moniker, "website": x.Website, "identity": x.Identity, "contact": x.SecurityContact, "details": x.Details}}
	}
	o["stk"] = stk
	val := M{}
	for _, v := range s.Stakers.ValaccountList {
		sub(val, ku(v.PoolId))[c.rk(v.Staker)] = M{"val": c.rank(v.Valaddress), "pts": v.Points, "leaving": v.IsLeaving}
	}
	o["val"] = val
	cq, lq, uq := M{}, M{}, M{}
	for _, e := range s.Stakers.CommissionChangeEntries {
		cq[ku(e.Index)] = M{"staker": c.rank(e.Staker), "com": rawDec(e.Commission), "at": e.CreationDate}
	}
	for _, e := range s.Stakers.LeavePoolEntries {
		lq[ku(e.Index)] = M{"staker": c.rank(e.Staker), "pool": e.PoolId, "at": e.CreationDate}
	}
	for _, e := range s.Delegation.UndelegationQueueEntryList {
		uq[ku(e.Index)] = M{"staker": c.rank(e.Staker), "del": c.rank(e.Delegator), "amt": u(e.Amount), "at": e.CreationTime}
	}
	o["cq"] = M{"lo": s.Stakers.QueueStateCommission.LowIndex, "hi": s.Stakers.QueueStateCommission.HighIndex, "q": cq}
	o["lq"] = M{"lo": s.Stakers.QueueStateLeave.LowIndex, "hi": s.Stakers.QueueStateLeave.HighIndex, "q": lq}
	o["uq"] = M{"lo": s.Delegation.QueueStateUndelegation.LowIndex, "hi": s.Delegation.QueueStateUndelegation.HighIndex, "q": uq}
	dd, de, ds, dl, rc := M{}, M{}, M{}, M{}, M{}
	for _, x := range s.Delegation.DelegationDataList {
		dd[c.rk(x.Staker)] = M{"rew": coinsJ(x.CurrentRewards), "total": u(x.TotalDelegation), "k": x.LatestIndexK, "n": x.DelegatorCount, "und": x.LatestIndexWasUndelegation}
	}
	for _, x := range s.Delegation.DelegationEntryList {
		sub(de, c.rk(x.Staker))[ku(x.KIndex)] = decCoinsJ(x.Value)
	}
	for _, x := range s.Delegation.DelegationSlashList {
		sub(ds, c.rk(x.Staker))[ku(x.KIndex)] = rawDec(x.Fraction)
	}
	for _, x := range s.Delegation.DelegatorList {
		sub(dl, c.rk(x.Staker))[c.rk(x.Delegator)] = M{"k": x.KIndex, "amt": u(x.InitialAmount)}
	}
	for _, x := range s.Delegation.RedelegationCooldownList {
		k := c.rk(x.Address)
		m, ok := rc[k].(map[string][]uint64)
		if !ok {
			m = map[string][]uint64{}
			rc[k] = m
		}
		m["$set"] = append(m["$set"], x.CreationDate)
	}
	o["dd"], o["de"], o["ds"], o["dl"], o["rc"] = dd, de, ds, dl, rc
	fus, fings, fst := M{}, M{}, M{}
	for _, x := range s.Funders.FunderList {
		fus[c.rk(x.Address)] = M{"moniker": x.Moniker, "identity": x.Identity, "website": x.Website, "contact": x.Contact, "description": x.Description}
	}
	for _, x := range s.Funders.FundingList {
		sub(fings, ku(x.PoolId))[c.rk(x.FunderAddress)] = M{"amts": coinsJ(x.Amounts), "per": coinsJ(x.AmountsPerBundle), "total": coinsJ(x.TotalFunded)}
	}
	for _, x := range s.Funders.FundingStateList {
		fst[ku(x.PoolId)] = c.ranks(x.ActiveFunderAddresses, false)
	}
	o["funders"], o["fundings"], o["fstate"] = fus, fings, fst
	ac := M{}
	for _, x := range s.Team.AccountList {
		ac[ku(x.Id)] = teamAccJ(x)
	}
	o["team"] = M{"total": u(s.Team.Authority.TotalRewards), "claimed": u(s.Team.Authority.RewardsClaimed), "accts": ac}
	fg := M{}
	for g, m := range s.Grants {
		for e, l := range m {
			sub(fg, key(g))[key(e)] = M{"unlimited": s.Unlimited[g][e], "lim": coinsJ(l)}
		}
	}
	o["fg"] = fg
	seq := M{}
	for r, n := range s.Seq {
		seq[key(r)] = n
	}
	o["seq"] = seq
	o["halt"] = s.Halt
	o["ev"] = []int{}
	return o
}

// encode turns the components into JSON texts for comparison and output.
func encode(o map[string]interface{}) map[string]json.RawMessage {
	r := map[string]json.RawMessage{}
	for k, v := range o {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		r[k] = b
	}
	return r
}
