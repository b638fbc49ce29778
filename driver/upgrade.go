package main

import (
	"encoding/hex"
	"fmt"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	"github.com/cosmos/gogoproto/proto"

	"cosmossdk.io/store/prefix"

	v1_5 "github.com/KYVENetwork/chain/app/upgrades/v1_5"
	oldbundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	olddelegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	oldfunders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	oldgov "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/gov"
	oldpool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	oldstakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// The software upgrade to v1.5: the state is written the way the version before wrote it
// (which knew one coin only), then the chain is upgraded.

const createPoolURL = "/kyve.pool.v1beta1.MsgCreatePool"

// oneCoin tells whether the version before could have been in this state
func (s *Snap) oneCoin() bool {
	small := func(x math.Int) bool { return x.IsInt64() && !x.IsNegative() }
	ok := true
	cs := func(c sdk.Coins) {
		for _, x := range c {
			ok = ok && x.Denom == globaltypes.Denom && small(x.Amount)
		}
	}
	for _, f := range s.Funders.FundingList {
		cs(f.Amounts)
		cs(f.AmountsPerBundle)
		cs(f.TotalFunded)
	}
	for _, d := range s.Delegation.DelegationEntryList {
		for _, x := range d.Value {
			ok = ok && x.Denom == globaltypes.Denom
		}
	}
	for _, d := range s.Delegation.DelegationDataList {
		cs(d.CurrentRewards)
	}
	for _, x := range s.Stakers.StakerList {
		cs(x.CommissionRewards)
	}
	found := false
	for _, w := range s.Funders.Params.CoinWhitelist {
		if w.CoinDenom == globaltypes.Denom {
			found = true
			ok = ok && small(w.MinFundingAmount) && small(w.MinFundingAmountPerBundle)
		}
	}
	return ok && found
}

func (c *Chain) upgradeTo15(a Act) Outcome {
	cc, write := c.ctx.CacheContext()
	cc = cc.WithEventManager(sdk.NewEventManager())
	c.downgrade(cc, c.snap(), a)
	o := guard(func() error {
		if err := c.app.UpgradeKeeper.ApplyUpgrade(cc, upgradetypes.Plan{Name: v1_5.UpgradeName, Height: c.h}); err != nil {
			return err
		}
		c.listen(cc.EventManager().ABCIEvents())
		write()
		return nil
	})
	o.Fatal = !o.Ok
	return o
}

func (c *Chain) store(cc sdk.Context, name string, pre []byte) prefix.Store {
	k := storetypes.StoreKey(c.app.GetKey(name))
	return prefix.NewStore(cc.KVStore(k), pre)
}

func (c *Chain) downgrade(cc sdk.Context, s *Snap, a Act) {
	cdc := c.app.AppCodec()
	one := func(cs sdk.Coins) uint64 { return cs.AmountOf(globaltypes.Denom).Uint64() }
	var w *funderstypes.WhitelistCoinEntry
	for _, x := range s.Funders.Params.CoinWhitelist {
		if x.CoinDenom == globaltypes.Denom {
			w = x
		}
	}
	st := c.store(cc, funderstypes.StoreKey, nil)
	st.Set(funderstypes.ParamsKey, cdc.MustMarshal(&oldfunders.Params{MinFundingAmount: w.MinFundingAmount.Uint64(),
		MinFundingAmountPerBundle: w.MinFundingAmountPerBundle.Uint64(), MinFundingMultiple: s.Funders.Params.MinFundingMultiple}))
	byFunder, byPool := c.store(cc, funderstypes.StoreKey, funderstypes.FundingKeyPrefixByFunder), c.store(cc, funderstypes.StoreKey, funderstypes.FundingKeyPrefixByPool)
	for _, f := range s.Funders.FundingList {
		b := cdc.MustMarshal(&oldfunders.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amount: one(f.Amounts),
			AmountPerBundle: one(f.AmountsPerBundle), TotalFunded: one(f.TotalFunded)})
		byFunder.Set(funderstypes.FundingKeyByFunder(f.FunderAddress, f.PoolId), b)
		byPool.Set(funderstypes.FundingKeyByPool(f.FunderAddress, f.PoolId), b)
	}
	st = c.store(cc, delegationtypes.StoreKey, delegationtypes.DelegationEntriesKeyPrefix)
	for _, d := range s.Delegation.DelegationEntryList {
		st.Set(delegationtypes.DelegationEntriesKey(d.Staker, d.KIndex), cdc.MustMarshal(&olddelegation.DelegationEntry{Staker: d.Staker, KIndex: d.KIndex,
			Value: d.Value.AmountOf(globaltypes.Denom)}))
	}
	st = c.store(cc, delegationtypes.StoreKey, delegationtypes.DelegationDataKeyPrefix)
	for _, d := range s.Delegation.DelegationDataList {
		st.Set(delegationtypes.DelegationDataKey(d.Staker), cdc.MustMarshal(&olddelegation.DelegationData{Staker: d.Staker, CurrentRewards: one(d.CurrentRewards),
			TotalDelegation: d.TotalDelegation, LatestIndexK: d.LatestIndexK, DelegatorCount: d.DelegatorCount, LatestIndexWasUndelegation: d.LatestIndexWasUndelegation}))
	}
	st = c.store(cc, stakerstypes.StoreKey, stakerstypes.StakerKeyPrefix)
	for _, x := range s.Stakers.StakerList {
		st.Set(stakerstypes.StakerKey(x.Address), cdc.MustMarshal(&oldstakers.Staker{Address: x.Address, Commission: x.Commission, Moniker: x.Moniker,
			Website: x.Website, Identity: x.Identity, SecurityContact: x.SecurityContact, Details: x.Details, CommissionRewards: one(x.CommissionRewards)}))
	}
	cost := math.LegacyMustNewDecFromStr("0.025")
	c.store(cc, bundlestypes.StoreKey, nil).Set(bundlestypes.ParamsPrefix, cdc.MustMarshal(&oldbundles.Params{UploadTimeout: s.Bundles.Params.UploadTimeout,
		StorageCost: cost, NetworkFee: s.Bundles.Params.NetworkFee, MaxPoints: s.Bundles.Params.MaxPoints}))
	st = c.store(cc, pooltypes.StoreKey, pooltypes.PoolKey)
	for _, p := range s.Pool.PoolList {
		o := &oldpool.Pool{Id: p.Id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, StartKey: p.StartKey, CurrentKey: p.CurrentKey,
			CurrentSummary: p.CurrentSummary, CurrentIndex: p.CurrentIndex, TotalBundles: p.TotalBundles, UploadInterval: p.UploadInterval,
			InflationShareWeight: 1_000_000, MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize, Disabled: p.Disabled,
			CurrentStorageProviderId: p.CurrentStorageProviderId, CurrentCompressionId: p.CurrentCompressionId, EndKey: p.EndKey}
		if x := p.Protocol; x != nil {
			o.Protocol = &oldpool.Protocol{Version: x.Version, Binaries: x.Binaries, LastUpgrade: x.LastUpgrade}
		}
		if x := p.UpgradePlan; x != nil {
			o.UpgradePlan = &oldpool.UpgradePlan{Version: x.Version, Binaries: x.Binaries, ScheduledAt: x.ScheduledAt, Duration: x.Duration}
		}
		st.Set(pooltypes.PoolKeyPrefix(p.Id), cdc.MustMarshal(o))
	}
	st = c.store(cc, govtypes.StoreKey, govtypes.ProposalsKeyPrefix)
	for _, x := range list(a["proposals"]) {
		m := x.(M)
		p := &oldgov.Proposal{Id: uint64(nI(m, "id")), Title: nS(m, "title"), Summary: nS(m, "summary"), Proposer: c.addr(nI(m, "proposer")), Metadata: nS(m, "meta"),
			Status: oldgov.ProposalStatus(nI(m, "status")), TotalDeposit: sdk.NewCoins(sdk.NewInt64Coin(globaltypes.Denom, int64(nI(m, "deposit"))))}
		p.SubmitTime, p.DepositEndTime, p.VotingStartTime, p.VotingEndTime = at(m, 0), at(m, 1), at(m, 2), at(m, 3)
		if y := list(m["tally"]); len(y) == 4 {
			p.FinalTallyResult = &oldgov.TallyResult{YesCount: y[0].(string), AbstainCount: y[1].(string), NoCount: y[2].(string), NoWithVetoCount: y[3].(string)}
		}
		for _, y := range list(m["msgs"]) {
			p.Messages = append(p.Messages, c.oldMsg(y.(M)))
		}
		b, err := p.Marshal()
		if err != nil {
			panic(err)
		}
		st.Set(sdk.Uint64ToBigEndian(p.Id), b)
	}
}

// one of the times of a proposal; 0: none
func at(m M, i int) *time.Time {
	n := nI(M{"t": list(m["times"])[i]}, "t")
	if n == 0 {
		return nil
	}
	r := time.Unix(int64(n), 0).UTC()
	return &r
}

func list(x interface{}) []interface{} { l, _ := x.([]interface{}); return l }

func (c *Chain) oldMsg(m M) *codectypes.Any {
	var x proto.Message
	url := createPoolURL
	if nS(m, "t") == "CreatePool" {
		x = &oldpool.MsgCreatePool{Authority: c.addr(nI(m, "from")), Name: nS(m, "name"), Runtime: nS(m, "runtime"), Logo: nS(m, "logo"), Config: nS(m, "config"),
			StartKey: nS(m, "startKey"), UploadInterval: uint64(nI(m, "interval")), InflationShareWeight: nU(m, "weight"), MinDelegation: nU(m, "minDel"),
			MaxBundleSize: uint64(nI(m, "maxSize")), Version: nS(m, "version"), Binaries: nS(m, "binaries"), StorageProviderId: uint32(nI(m, "sp")), CompressionId: uint32(nI(m, "comp"))}
	} else {
		x = &banktypes.MsgSend{FromAddress: c.addr(nI(m, "from")), ToAddress: c.addr(nI(m, "to")), Amount: coinsOf(mm(m, "coins"))}
		url = "/cosmos.bank.v1beta1.MsgSend"
	}
	b, err := proto.Marshal(x)
	if err != nil {
		panic(err)
	}
	return &codectypes.Any{TypeUrl: url, Value: b}
}

// govProposals reads the proposals of the governance module as the present version does
func (c *Chain) govProposals(cc sdk.Context, a Act) interface{} {
	r := []interface{}{}
	for _, x := range list(a["before"]) {
		id := uint64(nI(x.(M), "id"))
		p, err := c.app.GovKeeper.Proposals.Get(cc, id)
		if err != nil {
			r = append(r, M{"id": id, "error": err.Error()})
			continue
		}
		msgs := []interface{}{}
		for _, y := range p.Messages {
			switch m := y.GetCachedValue().(type) {
			case *pooltypes.MsgCreatePool:
				msgs = append(msgs, M{"t": "CreatePool", "from": c.rank(m.Authority), "name": m.Name, "runtime": m.Runtime, "logo": m.Logo, "config": m.Config,
					"startKey": m.StartKey, "endKey": m.EndKey, "interval": m.UploadInterval, "weight": rawDec(m.InflationShareWeight), "minDel": u(m.MinDelegation),
					"maxSize": m.MaxBundleSize, "version": m.Version, "binaries": m.Binaries, "sp": m.StorageProviderId, "comp": m.CompressionId})
			case *banktypes.MsgSend:
				msgs = append(msgs, M{"t": "Send", "from": c.rank(m.FromAddress), "to": c.rank(m.ToAddress), "coins": coinsJ(m.Amount)})
			default:
				msgs = append(msgs, M{"t": fmt.Sprintf("%T", m), "raw": hex.EncodeToString(y.Value)})
			}
		}
		dep := int64(0)
		if !sdk.Coins(p.TotalDeposit).IsZero() {
			dep = sdk.Coins(p.TotalDeposit).AmountOf(globaltypes.Denom).Int64()
		}
		times := []interface{}{}
		for _, y := range []*time.Time{p.SubmitTime, p.DepositEndTime, p.VotingStartTime, p.VotingEndTime} {
			if y == nil {
				times = append(times, 0)
			} else {
				times = append(times, y.Unix())
			}
		}
		tally := []interface{}{}
		if y := p.FinalTallyResult; y != nil {
			tally = []interface{}{y.YesCount, y.AbstainCount, y.NoCount, y.NoWithVetoCount}
		}
		r = append(r, M{"times": times, "tally": tally, "id": id, "title": p.Title, "summary": p.Summary, "proposer": c.rank(p.Proposer), "meta": p.Metadata, "status": int(p.Status), "deposit": dep, "msgs": msgs})
	}
	pr, err := c.app.GovKeeper.Params.Get(cc)
	if err != nil {
		panic(err)
	}
	return M{"list": r, "deposit": coinsJ(pr.ExpeditedMinDeposit), "period": int64(pr.ExpeditedVotingPeriod.Seconds())}
}

// upgrade makes up the upgrade action; nil if the version before could not have been here
func (g *Gen) upgrade(a Act) Act {
	if !g.s.oneCoin() || g.s.Halt != "" {
		return nil
	}
	ps := []interface{}{}
	for i := g.n(0, 3); i > 0; i-- {
		msgs := []interface{}{}
		for j := g.n(0, 3); j > 0; j-- {
			if g.p(30) {
				msgs = append(msgs, M{"t": "Send", "from": g.c.kgov, "to": g.user(), "coins": M{"tkyve": g.below(math.NewInt(1000), 1).String()}})
				continue
			}
			msgs = append(msgs, M{"t": "CreatePool", "from": g.c.kgov, "name": g.id("pool"), "runtime": pick(g.r, runtimes15), "logo": g.id("logo"), "config": g.id("cfg"),
				"startKey": fmt.Sprint(g.n(0, 9)), "interval": g.n(1, 1000), "weight": pick(g.r, []string{"0", "1", "1000000", "7", "9000000000"}), "minDel": g.amt(math.NewInt(g.prof.stake)),
				"maxSize": g.n(1, 100), "version": g.id("v"), "binaries": "{}", "sp": g.n(0, 3), "comp": g.n(0, 2)})
		}
		times, tally := []interface{}{}, []interface{}{}
		for j := 0; j < 4; j++ {
			times = append(times, pick(g.r, []int{0, int(g.c.now) + g.n(-1000, 1000)}))
		}
		if g.p(50) {
			for j := 0; j < 4; j++ {
				tally = append(tally, fmt.Sprint(g.n(0, 1000)))
			}
		}
		ps = append(ps, M{"id": 1000 + 10*i + g.n(0, 9), "title": g.id("title"), "summary": g.id("sum"), "proposer": g.user(), "meta": g.id("meta"), "status": g.n(1, 5),
			"deposit": g.n(1, 1_000_000), "msgs": msgs, "times": times, "tally": tally})
	}
	a["proposals"] = ps
	g.queue = append(g.queue, Act{"kind": "Query", "q": "govProposals", "before": ps})
	return a
}

var runtimes15 = []string{"@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync", "@kyve/test"}
