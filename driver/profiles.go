package main

import (
	"math/rand"
	"sort"
	"strconv"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// Profile selects what kind of histories are generated.
type Profile struct {
	name     string
	weights  map[string]int
	stake    int64 // order of magnitude of stakes
	users    int
	nStk     int
	nPools   int
	nFund    int
	interval func(g *Gen) int
	far      func(g *Gen) []int64
	tweak    func(cfg *Cfg, r *rand.Rand)
	setup    func(g *Gen) []Act
	queries  []string
	fields   []string // of a pool, those that governance adjusts
	crowd    bool     // everybody delegates
	allOfIt  int      // percentage of undelegations that take everything
	huge     bool     // bundles of millions of data items
	lazy     bool     // some rounds with few votes
	forge    int      // percentage of transactions that are not signed as they should be
	real     bool     // most blocks are real ones with signed transactions
	params   func(g *Gen, a Act)
	total    int
	kinds    []string
}

func (p *Profile) choose(r *rand.Rand) string {
	if p.kinds == nil {
		for k := range p.weights {
			p.kinds = append(p.kinds, k)
		}
		sort.Strings(p.kinds)
		for _, k := range p.kinds {
			p.total += p.weights[k]
		}
	}
	x := r.Intn(p.total)
	for _, k := range p.kinds {
		x -= p.weights[k]
		if x < 0 {
			return k
		}
	}
	return "Block"
}

func shortInterval(g *Gen) int { return pick(g.r, []int{30, 60, 60, 90}) }

func randCfg(r *rand.Rand, p *Profile) *Cfg {
	cfg := defaultCfg(p.users)
	cfg.Time = 1_690_000_000 + int64(r.Intn(10_000_000))
	us := makeUsers(p.users)
	cfg.Balances = map[int]sdk.Coins{}
	for _, u := range us {
		if u.Key == nil {
			continue
		}
		b := p.stake * int64(1+r.Intn(40))
		cs := sdk.NewCoins(sdk.NewInt64Coin("tkyve", b))
		for _, d := range []string{"acoin", "bcoin", "ccoin"} {
			if r.Intn(3) > 0 {
				cs = cs.Add(sdk.NewInt64Coin(d, 1+r.Int63n(p.stake*20)))
			}
		}
		cfg.Balances[u.Rank] = cs
	}
	// most of the supply is in the hands of somebody else, as on the real chain
	cfg.Whale = int64(1+r.Intn(20)) * 50_000_000_000_000_000
	frac := func(xs ...string) math.LegacyDec { return math.LegacyMustNewDecFromStr(xs[r.Intn(len(xs))]) }
	cfg.BlocksPerYr = []uint64{6311520, 6311520, 100000, 5_000_000_000}[r.Intn(4)]
	cfg.Bundles = bundlestypes.Params{
		UploadTimeout: uint64(20 + r.Intn(120)),
		StorageCosts: []bundlestypes.StorageCost{
			{StorageProviderId: 0, Cost: frac("0", "0.00001", "0.000001")},
			{StorageProviderId: 1, Cost: frac("0.025", "0.000003", "0.5")},
			{StorageProviderId: 2, Cost: frac("0.00000001", "1", "0.0001")},
		},
		NetworkFee: frac("0.01", "0", "0.05", "0.333333333333333333", "1"), MaxPoints: uint64(1 + r.Intn(5)),
	}
	cfg.Delegation = delegationtypes.Params{
		UnbondingDelegationTime: uint64(50 + r.Intn(300)), RedelegationCooldown: uint64(30 + r.Intn(200)), RedelegationMaxAmount: uint64(1 + r.Intn(4)),
		VoteSlash:    frac("0.1", "0.333333333333333333", "0.01", "1", "0.5", "0.123456789123456789"),
		UploadSlash:  frac("0.2", "0.666666666666666667", "0.05", "0.9999"),
		TimeoutSlash: frac("0.02", "0.1", "0", "0.777777777777777777"),
	}
	cfg.Stakers.CommissionChangeTime, cfg.Stakers.LeavePoolTime = uint64(30+r.Intn(300)), uint64(30+r.Intn(300))
	if r.Intn(6) == 0 {
		cfg.Stakers.LeavePoolTime = uint64(r.Intn(2))
	}
	if r.Intn(6) == 0 {
		cfg.Stakers.CommissionChangeTime = uint64(r.Intn(2))
	}
	cfg.Pool.ProtocolInflationShare = frac("0", "0.04", "0.5", "0.1", "1", "0.077777777777777777")
	cfg.Pool.PoolInflationPayoutRate = frac("0.05", "0", "1", "0.333333333333333333", "0.1")
	cfg.Pool.MaxVotingPowerPerPool = frac("1", "1", "0.5", "0.4", "0.66", "1")
	minBundle, minFactor := []int64{1, 10, 1000}[r.Intn(3)], []int64{100, 100, 20, 3, 1}[r.Intn(5)]
	e := func(d string, dec uint32, w string, k int64) *funderstypes.WhitelistCoinEntry {
		return &funderstypes.WhitelistCoinEntry{CoinDenom: d, CoinDecimals: dec, MinFundingAmount: math.NewInt(minFactor * minBundle * k),
			MinFundingAmountPerBundle: math.NewInt(minBundle * k), CoinWeight: math.LegacyMustNewDecFromStr(w)}
	}
	multiple := uint64(1 + r.Intn(20))
	if r.Intn(2) == 0 {
		multiple = uint64(r.Intn(4))
	}
	cfg.Funders = funderstypes.Params{MinFundingMultiple: multiple, CoinWhitelist: []*funderstypes.WhitelistCoinEntry{e("tkyve", 6, "1", 1)}}
	if r.Intn(4) > 0 {
		cfg.Funders.CoinWhitelist = append(cfg.Funders.CoinWhitelist, e("acoin", 3, []string{"2", "0.5", "7.25"}[r.Intn(3)], 3))
	}
	if r.Intn(3) > 0 {
		cfg.Funders.CoinWhitelist = append(cfg.Funders.CoinWhitelist, e("bcoin", 9, []string{"3", "0.01", "11.1"}[r.Intn(3)], 2))
	}
	if r.Intn(4) == 0 {
		cfg.Funders.CoinWhitelist = append(cfg.Funders.CoinWhitelist, e("ccoin", 6, "0", 1))
	}
	cfg.Global.MinGasPrice = math.LegacyZeroDec()
	cfg.Global.BurnRatio = frac("0", "0.1", "0.5", "1", "0.333333333333333333")
	cfg.Global.GasAdjustments, cfg.Global.GasRefunds = []globaltypes.GasAdjustment{}, []globaltypes.GasRefund{}
	for i := range cfg.Age {
		cfg.Age[i] = pick(r, []uint64{0, 0, 0, 240, 250, 254, 255, 65530})
	}
	if p.tweak != nil {
		p.tweak(cfg, r)
	}
	return cfg
}

// roles assigns what the users of the history do
func (g *Gen) roles() {
	var plain []int
	for _, u := range g.c.users {
		if u.Key != nil {
			plain = append(plain, u.Rank)
		}
	}
	g.r.Shuffle(len(plain), func(i, j int) { plain[i], plain[j] = plain[j], plain[i] })
	g.stk = plain[:g.prof.nStk]
	nv := g.prof.nStk + 2
	if nv > len(plain)-g.prof.nStk {
		nv = len(plain) - g.prof.nStk
	}
	g.vals = plain[g.prof.nStk : g.prof.nStk+nv]
	g.dels = plain
	if len(plain) > 14 && !g.prof.crowd {
		g.dels = append(append([]int{}, g.stk...), plain[len(plain)-6:]...)
	}
	g.funds = plain[len(plain)-g.prof.nFund:]
}

// startup: pools, stakers, memberships and fundings a history begins with
func startup(g *Gen) []Act {
	var q []Act
	pct := func() string { return g.pct() }
	most := 100
	if g.prof.huge {
		most = 8_000_000
	}
	for i := 0; i < g.prof.nPools; i++ {
		q = append(q, Act{"kind": "CreatePool", "from": g.c.kgov, "json": true, "p": M{"name": g.id("pool"), "runtime": g.runtime(),
			"logo": "l", "config": "c", "startKey": "0", "endKey": "", "interval": g.prof.interval(g), "weight": g.dec(3), "minDel": "0", "maxSize": g.n(1, most),
			"version": "1.0.0", "binaries": "{}", "sp": g.n(0, 3), "comp": g.n(0, 2)}})
	}
	vi := 0
	base := g.below(math.NewInt(g.prof.stake), 1)
	equal := g.p(25)
	for _, s := range g.stk {
		if g.p(10) {
			continue
		}
		am := g.below(math.NewInt(g.prof.stake), int64(g.n(1, 3)))
		if equal {
			am = base
		}
		q = append(q, Act{"kind": "CreateStaker", "from": s, "amt": am.String(), "com": pct()})
		for p := 0; p < g.prof.nPools; p++ {
			if g.p(75) {
				q = append(q, Act{"kind": "JoinPool", "from": s, "pool": p, "val": g.vals[vi%len(g.vals)], "amt": "1000"})
				vi++
			}
		}
	}
	g.s = g.c.snap()
	for _, f := range g.funds {
		q = append(q, Act{"kind": "CreateFunder", "from": f, "meta": M{"moniker": g.id("F"), "identity": "", "website": "", "contact": "", "description": ""}})
	}
	for p := 0; p < g.prof.nPools; p++ {
		q = append(q, Act{"kind": "gen:FundPool", "pool": p}, Act{"kind": "gen:FundPool", "pool": p}, Act{"kind": "gen:SendPool", "pool": p})
		if ms := len(g.stk); ms > 0 {
			q = append(q, Act{"kind": "gen:ClaimUploader"})
		}
	}
	for i := 0; i < g.prof.nStk; i++ {
		q = append(q, Act{"kind": "gen:Delegate"})
	}
	return q
}

func weights(base map[string]int, over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var baseWeights = map[string]int{
	"Block": 22, "CreateStaker": 1, "UpdateMetadata": 1, "UpdateCommission": 1, "ClaimCommission": 1, "JoinPool": 3, "LeavePool": 1,
	"Delegate": 3, "WithdrawRewards": 2, "Undelegate": 2, "Redelegate": 2, "CreateFunder": 1, "UpdateFunder": 1, "FundPool": 3, "DefundPool": 1,
	"SubmitBundle": 14, "VoteBundle": 40, "SkipUploader": 2, "ClaimUploader": 4, "Send": 1, "SendPool": 1, "SendMod": 1,
}

var profiles = map[string]*Profile{}

func addProfile(p *Profile) {
	if p.users == 0 {
		p.users = 18
	}
	if p.stake == 0 {
		p.stake = 1_000_000_000
	}
	if p.interval == nil {
		p.interval = shortInterval
	}
	if p.setup == nil {
		p.setup = startup
	}
	if p.allOfIt == 0 {
		p.allOfIt = 5
	}
	profiles[p.name] = p
}

func initProfiles() {
	addProfile(&Profile{name: "bundles", nStk: 5, nPools: 2, nFund: 4, weights: baseWeights})
	addProfile(&Profile{name: "tiny", nStk: 4, nPools: 1, nFund: 3, stake: 60, weights: weights(baseWeights, map[string]int{"Delegate": 8, "Undelegate": 6, "Redelegate": 4, "WithdrawRewards": 6}),
		tweak: func(c *Cfg, r *rand.Rand) {
			for _, w := range c.Funders.CoinWhitelist {
				w.MinFundingAmount, w.MinFundingAmountPerBundle = math.NewInt(2), math.NewInt(1)
			}
			c.BlocksPerYr = 5_000_000_000
		}})
	// stakes that are equal more often than not
	addProfile(&Profile{name: "ties", lazy: true, nStk: 6, nPools: 2, nFund: 2, stake: 9, weights: weights(baseWeights, map[string]int{"Delegate": 2, "Undelegate": 2, "Redelegate": 1, "JoinPool": 10, "VoteBundle": 110,
		"LeavePool": 1, "Block": 10}),
		tweak: func(c *Cfg, r *rand.Rand) {
			profiles["tiny"].tweak(c, r)
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
			c.Bundles.MaxPoints = uint64(5 + r.Intn(20))
		}, setup: func(g *Gen) []Act {
			as := startup(g)
			x := strconv.Itoa(g.n(1, 4))
			for _, a := range as {
				if nS(a, "kind") == "CreateStaker" && !g.p(20) {
					a["amt"] = x
				}
			}
			return as
		}})
	addProfile(&Profile{name: "stake", nStk: 4, nPools: 1, nFund: 2, weights: weights(baseWeights, map[string]int{
		"Delegate": 16, "WithdrawRewards": 8, "Undelegate": 10, "Redelegate": 10, "JoinPool": 5, "LeavePool": 2, "UpdateCommission": 3, "ClaimCommission": 3,
		"SubmitBundle": 14, "VoteBundle": 36, "FundPool": 3, "Block": 22})})
	addProfile(&Profile{name: "members", nStk: 6, nPools: 3, nFund: 1, weights: weights(baseWeights, map[string]int{
		"JoinPool": 16, "LeavePool": 12, "UpdateCommission": 6, "ClaimCommission": 3, "CreateStaker": 3, "UpdateMetadata": 4, "SubmitBundle": 10, "VoteBundle": 20,
		"DisablePool": 1, "EnablePool": 2, "FundPool": 1})})
	addProfile(&Profile{name: "funders", nStk: 3, nPools: 2, nFund: 9, weights: weights(baseWeights, map[string]int{
		"FundPool": 34, "DefundPool": 16, "CreateFunder": 4, "UpdateFunder": 3, "JoinPool": 2, "LeavePool": 0, "SubmitBundle": 14, "VoteBundle": 24, "Delegate": 1,
		"Undelegate": 0, "Redelegate": 0}),
		tweak: func(c *Cfg, r *rand.Rand) { c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec() }})
	// fundings that are used up
	addProfile(&Profile{name: "charges", nStk: 3, nPools: 2, nFund: 6, weights: weights(baseWeights, map[string]int{
		"FundPool": 12, "DefundPool": 3, "SubmitBundle": 20, "VoteBundle": 40, "Block": 30, "JoinPool": 4, "LeavePool": 0, "Undelegate": 0, "UpdateParams": 1}),
		params: func(g *Gen, a Act) { g.params(a, "funders") },
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
			c.Funders.MinFundingMultiple = uint64(r.Intn(3))
			for _, w := range c.Funders.CoinWhitelist {
				w.MinFundingAmount = w.MinFundingAmountPerBundle.MulRaw(int64(1 + r.Intn(3)))
			}
		}})
	// long histories of one staker and one pool: hundreds of bundles and of changes of the delegation
	addProfile(&Profile{name: "long", nStk: 1, nPools: 1, nFund: 2, weights: map[string]int{"Block": 60, "SubmitBundle": 60, "VoteBundle": 1, "ClaimUploader": 4, "SkipUploader": 1,
		"Delegate": 12, "Undelegate": 10, "WithdrawRewards": 8, "ClaimCommission": 3, "UpdateCommission": 3, "FundPool": 3, "DefundPool": 1, "JoinPool": 2, "SendPool": 1},
		interval: func(g *Gen) int { return 5 },
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Bundles.UploadTimeout = 100000
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
		}})
	// stakers that take back all they staked while they have a part in a round
	addProfile(&Profile{name: "drain", allOfIt: 60, nStk: 4, nPools: 1, nFund: 2, weights: weights(baseWeights, map[string]int{
		"Undelegate": 12, "Delegate": 6, "Redelegate": 6, "ClaimUploader": 8, "SubmitBundle": 20, "VoteBundle": 30, "Block": 24, "FundPool": 4, "LeavePool": 1}),
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Delegation.UnbondingDelegationTime, c.Delegation.RedelegationCooldown = uint64(r.Intn(20)), uint64(r.Intn(5))
			c.Bundles.UploadTimeout = uint64(100 + r.Intn(400))
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
		}})
	addProfile(&Profile{name: "pools", nStk: 5, nPools: 3, nFund: 2, weights: weights(baseWeights, map[string]int{
		"Batch": 2, "CreatePool": 2, "UpdatePool": 8, "DisablePool": 3, "EnablePool": 6, "ScheduleUpgrade": 4, "CancelUpgrade": 2, "JoinPool": 12, "SendPool": 3, "UpdateParams": 2,
		"SubmitBundle": 12, "VoteBundle": 24, "Block": 30}),
		tweak: func(c *Cfg, r *rand.Rand) {
			if r.Intn(3) > 0 {
				c.Pool.ProtocolInflationShare = math.LegacyMustNewDecFromStr("0.314159265358979323")
			}
		}})
	addProfile(&Profile{name: "qpools", nStk: 5, nPools: 3, nFund: 2, weights: weights(profiles["pools"].weights, map[string]int{"Query": 40}), tweak: profiles["pools"].tweak,
		queries: []string{"pool", "pool", "pools", "canVote", "canPropose", "canValidate", "voteStatus"}})
	addProfile(&Profile{name: "params", nStk: 5, nPools: 2, nFund: 3, weights: weights(baseWeights, map[string]int{"Batch": 5, "UpdateParams": 24, "JoinPool": 6, "EnablePool": 1})})
	addProfile(&Profile{name: "team", nStk: 2, nPools: 1, nFund: 1, weights: map[string]int{"CreateTeamAccount": 8, "Clawback": 8, "ClaimUnlocked": 14, "ClaimAccountRewards": 10,
		"ClaimAuthorityRewards": 5, "Block": 30, "Send": 1, "SendMod": 2},
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Time = 1675247655 + int64(r.Intn(5*31536000)) - 31536000
			c.BlocksPerYr = []uint64{6311520, 1000, 50_000_000}[r.Intn(3)]
		},
		setup: func(g *Gen) []Act { return nil },
		far: func(g *Gen) []int64 {
			var t []int64
			for _, a := range g.s.Team.AccountList {
				for _, x := range []int64{1, 2, 3, 4, 5} {
					t = append(t, int64(a.Commencement)+x*31536000)
				}
				t = append(t, int64(teamtypes.TGE)+31536000)
			}
			return append(t, g.c.now+int64(g.n(1, 40))*86400)
		}})
	addProfile(feesProfile)
	addProfile(&Profile{name: "queries", nStk: 6, nPools: 3, nFund: 5, weights: weights(baseWeights, map[string]int{
		"Query": 90, "SubmitBundle": 24, "VoteBundle": 50, "UpdateParams": 1, "UpdatePool": 1, "DisablePool": 1, "EnablePool": 2, "ScheduleUpgrade": 1, "DefundPool": 3, "LeavePool": 2,
		"Delegate": 6, "Undelegate": 6, "Redelegate": 6, "JoinPool": 6, "UpdateCommission": 2, "FundPool": 6})})
	addProfile(&Profile{name: "qlists", nStk: 5, nPools: 1, nFund: 3, weights: weights(baseWeights, map[string]int{
		"Query": 26, "Undelegate": 5, "Redelegate": 8, "Delegate": 6, "UpdateParams": 4}),
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Delegation.RedelegationMaxAmount, c.Delegation.RedelegationCooldown = uint64(2+r.Intn(6)), uint64(500+r.Intn(2000))
		},
		params: func(g *Gen, a Act) {
			if g.p(30) {
				g.params(a)
				return
			}
			a["from"], a["json"], a["module"] = g.gov(), true, "delegation"
			a["p"] = M{"redelegation_max_amount": g.n(0, 4)}
		},
		queries: []string{"bundles", "bundles", "bundles", "bundleAt", "bundleAt", "bundle", "unbondings", "redelegation", "redelegation", "delegatorsByStaker", "stakersByDelegator", "canVote", "canPropose", "voteStatus", "stakers"}})
	addProfile(&Profile{name: "govs", nStk: 6, nPools: 3, nFund: 2, weights: weights(profiles["members"].weights, map[string]int{
		"Query": 30, "Delegate": 8, "Undelegate": 5, "Redelegate": 5}),
		tweak: profiles["members"].tweak, setup: profiles["members"].setup, interval: profiles["members"].interval,
		queries: []string{"govWeights", "govDelegations", "govDelegations"}})
	addProfile(&Profile{name: "qteam", nStk: 2, nPools: 1, nFund: 1, weights: weights(profiles["team"].weights, map[string]int{"Query": 60}),
		queries: []string{"teamInfo", "teamAccounts", "teamAccount", "teamStatus", "teamStatusAt", "teamStatusAt", "accountAssets", "params"},
		tweak:   profiles["team"].tweak, setup: profiles["team"].setup, far: profiles["team"].far})
	addProfile(&Profile{name: "mixed", nStk: 5, nPools: 2, nFund: 4, weights: weights(baseWeights, map[string]int{
		"Batch": 2, "UpdateParams": 1, "UpdatePool": 1, "DisablePool": 1, "EnablePool": 2, "ScheduleUpgrade": 1, "CancelUpgrade": 1, "CreatePool": 1,
		"CreateTeamAccount": 1, "Clawback": 1, "ClaimUnlocked": 1, "ClaimAccountRewards": 1, "ClaimAuthorityRewards": 1, "DefundPool": 3, "LeavePool": 2,
		"Delegate": 6, "Undelegate": 4, "Redelegate": 4, "JoinPool": 6})})
	// the software upgrade
	addProfile(&Profile{name: "upgrade", nStk: 5, nPools: 3, nFund: 4, weights: weights(baseWeights, map[string]int{
		"Upgrade": 1, "Undelegate": 4, "Delegate": 6, "Redelegate": 4, "FundPool": 8, "DefundPool": 3, "LeavePool": 2, "UpdateCommission": 2, "DisablePool": 1, "EnablePool": 1,
		"UpdatePool": 2, "ScheduleUpgrade": 2, "CancelUpgrade": 1}),
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Funders.CoinWhitelist = c.Funders.CoinWhitelist[:1]
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
		}})
	// large stakes, and a coin whose amounts need more than 64 bits
	addProfile(&Profile{name: "whales", nStk: 4, nPools: 2, nFund: 4, stake: 5_000_000_000_000, weights: weights(baseWeights, map[string]int{
		"FundPool": 8, "DefundPool": 4, "Delegate": 5, "Undelegate": 4, "Redelegate": 3, "WithdrawRewards": 4, "ClaimCommission": 4, "SubmitBundle": 16, "VoteBundle": 32}),
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
			big := math.NewInt(1_000_000_000_000)
			for i, cs := range c.Balances {
				if x := cs.AmountOf("acoin"); x.IsPositive() {
					c.Balances[i] = cs.Add(sdk.NewCoin("acoin", x.Mul(big)))
				}
			}
			for _, w := range c.Funders.CoinWhitelist {
				if w.CoinDenom == "acoin" {
					w.CoinDecimals, w.MinFundingAmount, w.MinFundingAmountPerBundle = 18, w.MinFundingAmount.Mul(big), w.MinFundingAmountPerBundle.Mul(big)
				}
			}
		}})
	// bundles while governance adjusts the pools and the parameters
	addProfile(&Profile{name: "tuned", nStk: 4, nPools: 2, nFund: 3, weights: weights(baseWeights, map[string]int{"UpdatePool": 7, "UpdateParams": 2, "SubmitBundle": 20, "VoteBundle": 36, "Delegate": 4, "FundPool": 4}),
		fields: []string{"name", "config", "interval", "weight", "maxSize", "sp", "comp"},
		params: func(g *Gen, a Act) { g.params(a, "bundles", "bundles", "delegation") }})
	// the same areas while governance changes their parameters
	// many participants, voters, funders and delegators; many requests in a block, so that many fall due in one
	more := func(g *Gen) []Act {
		q := startup(g)
		for i := 0; i < 12; i++ {
			q = append(q, Act{"kind": "gen:FundPool", "pool": 0}, Act{"kind": "gen:Delegate"}, Act{"kind": "gen:Delegate"})
		}
		return q
	}
	addProfile(&Profile{name: "crowd", nStk: 16, nPools: 1, nFund: 18, users: 60, crowd: true, setup: more, weights: weights(baseWeights, map[string]int{
		"Block": 12, "SubmitBundle": 14, "VoteBundle": 110, "Delegate": 14, "Undelegate": 16, "Redelegate": 8, "WithdrawRewards": 4, "UpdateCommission": 6, "LeavePool": 3,
		"JoinPool": 10, "FundPool": 10, "DefundPool": 2, "Send": 0, "UpdateMetadata": 0, "UpdateFunder": 0})})
	// pools with many members, of whom sometimes most and sometimes few take part in a round
	addProfile(&Profile{name: "assembly", lazy: true, nStk: 26, nPools: 1, nFund: 2, users: 80, weights: weights(baseWeights, map[string]int{
		"Block": 5, "SubmitBundle": 6, "VoteBundle": 130, "SkipUploader": 1, "ClaimUploader": 6, "JoinPool": 12, "Delegate": 4, "Undelegate": 1, "Redelegate": 1, "LeavePool": 1, "UpdateCommission": 0,
		"Send": 0, "UpdateMetadata": 0, "UpdateFunder": 0, "FundPool": 1, "DefundPool": 0, "CreateStaker": 2}),
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
			c.Bundles.MaxPoints = uint64(2 + r.Intn(20))
			c.Bundles.UploadTimeout = uint64(50 + r.Intn(1000))
		}})
	// indexes that do not fit three bytes
	addProfile(&Profile{name: "huge", huge: true, nStk: 3, nPools: 1, nFund: 2, weights: weights(baseWeights, map[string]int{"SubmitBundle": 40, "VoteBundle": 60, "Block": 30, "Query": 12,
		"ClaimUploader": 10}), tweak: profiles["long"].tweak, interval: profiles["long"].interval, queries: []string{"bundles", "bundleAt", "bundle", "pool"}})
	// delegators that move their stake time and again
	addProfile(&Profile{name: "spells", nStk: 4, nPools: 1, nFund: 1, weights: weights(baseWeights, map[string]int{"Redelegate": 60, "Delegate": 6, "Undelegate": 2, "WithdrawRewards": 1,
		"Block": 40, "SubmitBundle": 4, "VoteBundle": 8, "LeavePool": 0, "JoinPool": 8}), tweak: func(c *Cfg, r *rand.Rand) {
		c.Delegation.RedelegationMaxAmount, c.Delegation.RedelegationCooldown = uint64(3+r.Intn(7)), uint64(500+r.Intn(8000))
		c.Bundles.UploadTimeout = 100000
		c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
	}})
	// stakes that are slashed time and again
	addProfile(&Profile{name: "slashed", nStk: 4, nPools: 2, nFund: 2, weights: weights(baseWeights, map[string]int{"JoinPool": 70, "ClaimUploader": 16, "Block": 30, "SubmitBundle": 16, "VoteBundle": 30,
		"Delegate": 2, "Undelegate": 2, "Redelegate": 1, "WithdrawRewards": 1, "LeavePool": 0}), tweak: func(c *Cfg, r *rand.Rand) {
		c.Delegation.TimeoutSlash = math.LegacyMustNewDecFromStr([]string{"0.01", "0.05", "0.1", "0.000000000000000001"}[r.Intn(4)])
		c.Delegation.VoteSlash, c.Delegation.UploadSlash = math.LegacyMustNewDecFromStr("0.033333333333333333"), math.LegacyMustNewDecFromStr("0.07")
		c.Bundles.UploadTimeout, c.Bundles.MaxPoints = uint64(20+r.Intn(60)), 1
		c.Pool.MaxVotingPowerPerPool = math.LegacyOneDec()
	}})
	// the counter behind the participant limit
	addProfile(&Profile{name: "vacant", nStk: 5, nPools: 3, nFund: 1, weights: weights(profiles["members"].weights, map[string]int{"Query": 12}), queries: []string{"slots"}})
	// more pools than fit one digit
	addProfile(&Profile{name: "manypools", nStk: 4, nPools: 13, nFund: 4, weights: weights(profiles["pools"].weights, map[string]int{"Query": 12, "SubmitBundle": 24, "ClaimUploader": 10,
		"DisablePool": 1, "FundPool": 6}), tweak: profiles["pools"].tweak,
		queries: []string{"pool", "pools", "canVote", "canPropose", "staker", "stakersByPool", "fundingsByFunder", "stakersByPoolCount", "funder"}})
	// the queries of long lists
	addProfile(&Profile{name: "qcrowd", nStk: 16, nPools: 2, nFund: 18, users: 60, crowd: true, setup: more, weights: weights(baseWeights, map[string]int{"Query": 90,
		"Block": 12, "SubmitBundle": 14, "VoteBundle": 60, "Delegate": 14, "Undelegate": 16, "Redelegate": 8, "JoinPool": 10, "FundPool": 10})})
	addProfile(&Profile{name: "qlong", nStk: 1, nPools: 1, nFund: 2, weights: weights(profiles["long"].weights, map[string]int{"Query": 16}), tweak: profiles["long"].tweak,
		setup: profiles["long"].setup, interval: profiles["long"].interval, queries: []string{"bundles", "bundles", "bundleAt", "bundle"}})
	addProfile(&Profile{name: "points", nStk: 5, nPools: 2, nFund: 3, weights: weights(baseWeights, map[string]int{"UpdateParams": 4, "JoinPool": 6, "Delegate": 4}),
		params: func(g *Gen, a Act) { g.params(a, "bundles", "bundles", "delegation") }})
	addProfile(&Profile{name: "times", nStk: 5, nPools: 2, nFund: 2, weights: weights(profiles["stake"].weights, map[string]int{"UpdateParams": 4, "LeavePool": 5, "JoinPool": 7, "UpdateCommission": 6, "Undelegate": 12}),
		params: func(g *Gen, a Act) { g.params(a, "delegation", "stakers") }})
	addProfile(&Profile{name: "whitelist", nStk: 3, nPools: 2, nFund: 7, weights: weights(profiles["funders"].weights, map[string]int{"UpdateParams": 6}),
		tweak: profiles["funders"].tweak, params: func(g *Gen, a Act) { g.params(a, "funders", "funders", "funders", "pool") }})
	addProfile(&Profile{name: "restart", nStk: 5, nPools: 2, nFund: 4, weights: weights(profiles["mixed"].weights, map[string]int{
		"Query": 40, "Restart": 3, "LeavePool": 3, "UpdateCommission": 3}),
		queries: []string{"stakers", "stakers", "stakers", "stakersByPool", "bundles", "bundles", "bundleAt", "stakersByPoolCount", "delegatorsByStaker", "stakersByDelegator", "govWeights", "pools", "funders", "accountAssets"}})
	addProfile(&Profile{name: "reimport", nStk: 5, nPools: 2, nFund: 4, weights: weights(profiles["mixed"].weights, map[string]int{
		"Query": 30, "Reimport": 3, "LeavePool": 3, "UpdateCommission": 3}),
		queries: []string{"stakers", "stakers", "stakersByPool", "bundles", "bundleAt", "stakersByPoolCount", "delegatorsByStaker", "stakersByDelegator", "govWeights", "pools", "funders", "accountAssets"}})
	addProfile(&Profile{name: "relong", nStk: 1, nPools: 1, nFund: 2, weights: weights(profiles["long"].weights, map[string]int{"Query": 10, "Reimport": 1, "CreateTeamAccount": 2}), tweak: profiles["long"].tweak,
		setup: profiles["long"].setup, interval: profiles["long"].interval, queries: []string{"bundles", "bundles", "bundleAt", "bundle", "stakers"}})
	addProfile(&Profile{name: "genesis", nStk: 5, nPools: 2, nFund: 4, weights: weights(profiles["mixed"].weights, map[string]int{
		"Query": 120, "LeavePool": 6, "UpdateCommission": 6, "Undelegate": 8, "Redelegate": 6, "CreateTeamAccount": 2}), queries: []string{"genesis"}})
	addProfile(&Profile{name: "recrowd", nStk: 12, nPools: 11, nFund: 14, users: 60, crowd: true, setup: more, weights: weights(profiles["crowd"].weights, map[string]int{
		"Query": 30, "Reimport": 3, "ScheduleUpgrade": 2, "DisablePool": 1, "EnablePool": 1, "CreateTeamAccount": 4, "SubmitBundle": 24, "ClaimUploader": 10}), queries: profiles["reimport"].queries})
	for _, n := range []string{"restart", "reimport"} {
		p := profiles[n]
		setup := p.setup
		p.setup = func(g *Gen) []Act {
			as := setup(g)
			for i, a := range as {
				if nS(a, "kind") == "CreateStaker" && g.p(15) {
					as[i]["amt"] = "0"
				}
			}
			return as
		}
	}
}

func init() {
	feeTypes := append([]string{"/cosmos.feegrant.v1beta1.MsgGrantAllowance"}, msgTypes...)
	feeParams := func(g *Gen) globaltypes.Params {
		p := globaltypes.Params{MinGasPrice: math.LegacyMustNewDecFromStr(pick(g.r, []string{"0", "0.02", "0.000001", "0.013333333333333333", "0.1"})),
			BurnRatio:      math.LegacyMustNewDecFromStr(pick(g.r, []string{"0", "0.1", "0.5", "1", "0.333333333333333333"})),
			GasAdjustments: []globaltypes.GasAdjustment{}, GasRefunds: []globaltypes.GasRefund{}}
		for i := g.n(0, 3); i > 0; i-- {
			p.GasAdjustments = append(p.GasAdjustments, globaltypes.GasAdjustment{Type: pick(g.r, feeTypes), Amount: uint64(g.n(0, 9_000_000))})
		}
		for i := g.n(0, 3); i > 0; i-- {
			p.GasRefunds = append(p.GasRefunds, globaltypes.GasRefund{Type: pick(g.r, feeTypes), Fraction: math.LegacyMustNewDecFromStr(pick(g.r, []string{"0.5", "1", "0.333333333333333333", "0.01", "0.999999999999999999"}))})
		}
		return p
	}
	feesProfile = &Profile{name: "fees", nStk: 4, nPools: 1, nFund: 2, stake: 100_000_000, real: true, weights: map[string]int{"Send": 18, "SendMod": 3, "Delegate": 20, "VoteBundle": 12, "SubmitBundle": 6,
		"CreateStaker": 2, "GrantFee": 12, "RevokeFee": 2, "UpdateParams": 12, "Block": 40, "FundPool": 2, "WithdrawRewards": 3, "Undelegate": 2, "ClaimUploader": 2},
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Global = feeParams(&Gen{r: r})
			c.NodeGas = []string{"", "0.5tkyve", "3tkyve"}[r.Intn(3)]
		},
		params: func(g *Gen, a Act) {
			if g.p(20) {
				g.params(a)
				return
			}
			x := feeParams(g)
			a["from"], a["json"], a["module"] = g.gov(), true, "global"
			a["p"] = globalJ(x)
		}}
	// everybody's messages in transactions, a good part of which is not signed as it should be
	addProfile(&Profile{name: "signed", nStk: 5, nPools: 2, nFund: 2, stake: 100_000_000, real: true, forge: 25, weights: map[string]int{"Send": 10, "Delegate": 10, "Undelegate": 4, "Redelegate": 3,
		"WithdrawRewards": 3, "VoteBundle": 12, "SubmitBundle": 8, "SkipUploader": 2, "ClaimUploader": 4, "CreateStaker": 4, "UpdateMetadata": 2, "UpdateCommission": 2, "ClaimCommission": 2,
		"JoinPool": 4, "LeavePool": 1, "CreateFunder": 2, "UpdateFunder": 1, "FundPool": 4, "DefundPool": 3, "GrantFee": 8, "RevokeFee": 1, "UpdateParams": 3, "CreatePool": 1, "DisablePool": 1, "UpdatePool": 1,
		"CreateTeamAccount": 2, "Clawback": 1, "ClaimUnlocked": 1, "ClaimAuthorityRewards": 1, "Block": 60},
		tweak: func(c *Cfg, r *rand.Rand) {
			c.Global = feeParams(&Gen{r: r})
			c.NodeGas = []string{"", "0.5tkyve"}[r.Intn(2)]
		}})
}

var feesProfile *Profile

func (g *Gen) teamAcc(id int) *teamtypes.TeamVestingAccount {
	for i := range g.s.Team.AccountList {
		if int(g.s.Team.AccountList[i].Id) == id {
			return &g.s.Team.AccountList[i]
		}
	}
	return nil
}

func (g *Gen) claimable(a *teamtypes.TeamVestingAccount) math.Int {
	if g.p(15) {
		return uint64Int(a.TotalAllocation)
	}
	st := teamkeeper.GetVestingStatus(*a, uint64(g.c.now))
	x, _ := strconv.ParseInt(strconv.FormatUint(st.CurrentClaimableAmount, 10), 10, 64)
	return math.NewInt(x)
}
