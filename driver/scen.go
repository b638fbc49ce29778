package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"cosmossdk.io/core/header"
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
)

// A Scenario leads the real chain into a fixed small situation from which TLC explores
// every behaviour of the specification (spec/MC.tla); the explored graph is then replayed
// on the real chain (graph below).
type Scenario struct {
	users  int
	tweak  func(c *Cfg)
	prefix func(u []int, c *Chain) []Act
	meta   func(u []int, c *Chain) M
}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }
func raw(s string) string         { return dec(s).BigInt().String() }
func kyves(n int64) M             { return M{"tkyve": fmt.Sprint(n)} }

func scenCfg(s *Scenario) *Cfg {
	c := defaultCfg(s.users)
	c.BlocksPerYr = 1 << 62 // nothing is minted
	c.Balances = map[int]sdk.Coins{}
	for _, u := range makeUsers(s.users) {
		if u.Key != nil {
			c.Balances[u.Rank] = sdk.NewCoins(sdk.NewInt64Coin("tkyve", 1000), sdk.NewInt64Coin("acoin", 1000))
		}
	}
	c.Bundles = bundlestypes.Params{UploadTimeout: 60, NetworkFee: dec("0.1"), MaxPoints: 2,
		StorageCosts: []bundlestypes.StorageCost{{StorageProviderId: 0, Cost: dec("0.000000000001")}}}
	c.Delegation.UnbondingDelegationTime, c.Delegation.RedelegationCooldown, c.Delegation.RedelegationMaxAmount = 100, 100, 2
	c.Delegation.VoteSlash, c.Delegation.UploadSlash, c.Delegation.TimeoutSlash = dec("0.1"), dec("0.2"), dec("0.05")
	c.Stakers.CommissionChangeTime, c.Stakers.LeavePoolTime = 100, 100
	c.Pool.ProtocolInflationShare, c.Pool.PoolInflationPayoutRate, c.Pool.MaxVotingPowerPerPool = dec("0"), dec("0.1"), dec("1")
	c.Funders = funderstypes.Params{MinFundingMultiple: 2, CoinWhitelist: []*funderstypes.WhitelistCoinEntry{
		{CoinDenom: "tkyve", CoinDecimals: 0, MinFundingAmount: math.NewInt(20), MinFundingAmountPerBundle: math.NewInt(5), CoinWeight: dec("1")},
		{CoinDenom: "acoin", CoinDecimals: 0, MinFundingAmount: math.NewInt(10), MinFundingAmountPerBundle: math.NewInt(2), CoinWeight: dec("3")}}}
	c.Global.MinGasPrice, c.Global.BurnRatio = dec("0"), dec("0.5")
	c.Global.GasAdjustments, c.Global.GasRefunds = []globaltypes.GasAdjustment{}, []globaltypes.GasRefund{}
	if s.tweak != nil {
		s.tweak(c)
	}
	return c
}

func aPool(gov int, min string) Act {
	return Act{"kind": "CreatePool", "from": gov, "json": true, "p": M{"name": "p", "runtime": "@kyve/test", "logo": "l", "config": "c", "startKey": "0", "endKey": "",
		"interval": 60, "weight": raw("1"), "minDel": min, "maxSize": 100, "version": "1.0.0", "binaries": "{}", "sp": 0, "comp": 0}}
}
func aFunder(f int) Act {
	return Act{"kind": "CreateFunder", "from": f, "meta": M{"moniker": fmt.Sprint("F", f), "identity": "", "website": "", "contact": "", "description": ""}}
}
func aFund(f, p int, coins, per M) Act {
	return Act{"kind": "FundPool", "from": f, "pool": p, "coins": coins, "per": per, "valid": true}
}
func aStaker(v int, amt int, com string) Act {
	return Act{"kind": "CreateStaker", "from": v, "amt": fmt.Sprint(amt), "com": raw(com)}
}
func aJoin(v, p, val int) Act {
	return Act{"kind": "JoinPool", "from": v, "pool": p, "val": val, "amt": "1"}
}
func aDelegate(d, v, amt int) Act {
	return Act{"kind": "Delegate", "from": d, "staker": v, "amt": fmt.Sprint(amt)}
}
func aSubmit(v, val, p, n, idx int) Act {
	return Act{"kind": "SubmitBundle", "from": val, "staker": v, "pool": p, "sid": fmt.Sprint("sid", p, "-", n), "dsize": "100", "hash": fmt.Sprint("h", n), "idx": idx, "bsize": 10,
		"fk": fmt.Sprint(idx), "tk": fmt.Sprint(idx + 9), "sum": fmt.Sprint("s", n)}
}
func aVote(v, val, p int, sid, vote string) Act {
	return Act{"kind": "VoteBundle", "from": val, "staker": v, "pool": p, "sid": sid, "vote": vote}
}
func aClaim(v, val, p int) Act {
	return Act{"kind": "ClaimUploader", "from": val, "staker": v, "pool": p}
}
func tick(dt int) []Act {
	return []Act{{"kind": "EndBlock"}, {"kind": "BeginBlock", "dt": dt}}
}

func cat(xs ...[]Act) []Act {
	var r []Act
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// three stakers (stake 100, 60, 40) in one pool, a bundle proposed by the first is open
func votesPrefix(u []int, c *Chain) []Act {
	return cat(
		[]Act{aPool(c.kgov, "0"), aStaker(u[0], 100, "0.1"), aStaker(u[1], 50, "0.3"), aStaker(u[2], 40, "0"), aDelegate(u[6], u[1], 10),
			aJoin(u[0], 0, u[3]), aJoin(u[1], 0, u[4]), aJoin(u[2], 0, u[5]), aFunder(u[7]),
			aFund(u[7], 0, M{"tkyve": "50", "acoin": "10"}, M{"tkyve": "20", "acoin": "5"}), {"kind": "SendPool", "from": u[8], "pool": 0, "coins": kyves(100)}, aClaim(u[0], u[3], 0)},
		tick(60), []Act{aSubmit(u[0], u[3], 0, 1, 0)})
}

func votesMeta(u []int, c *Chain) M {
	return M{"stk": u[:3], "val": u[3:6], "dels": u[6:7], "funders": u[7:8], "gov": c.kgov}
}

var scenarios = map[string]*Scenario{
	"votes": {users: 9, prefix: votesPrefix, meta: votesMeta},
	// one of two stakers proposes, the other agreed: rewards and slashes are near
	"stake": {users: 9, tweak: func(c *Cfg) { c.Bundles.MaxPoints = 1 }, meta: func(u []int, c *Chain) M {
		return M{"stk": u[:2], "val": u[3:5], "dels": u[6:8], "funders": u[7:8], "gov": c.kgov}
	}, prefix: func(u []int, c *Chain) []Act {
		return cat([]Act{aPool(c.kgov, "0"), aStaker(u[0], 100, "0.1"), aStaker(u[1], 33, "0.25"), aDelegate(u[6], u[0], 17), aDelegate(u[7], u[1], 11), aDelegate(u[7], u[0], 3),
			aJoin(u[0], 0, u[3]), aJoin(u[1], 0, u[4]), aFunder(u[7]), aFund(u[7], 0, M{"tkyve": "200", "acoin": "70"}, M{"tkyve": "41", "acoin": "13"}), aClaim(u[0], u[3], 0)},
			tick(60), []Act{aSubmit(u[0], u[3], 0, 1, 0)}, tick(60))
	}},
	// stakers come and go in two pools, commission changes are pending
	"members": {users: 9, tweak: func(c *Cfg) { c.Pool.MaxVotingPowerPerPool = dec("0.6") }, meta: func(u []int, c *Chain) M {
		return M{"stk": u[:3], "val": u[3:6], "dels": u[6:7], "funders": u[7:8], "gov": c.kgov}
	}, prefix: func(u []int, c *Chain) []Act {
		return cat([]Act{aPool(c.kgov, "0"), aPool(c.kgov, "100"), aStaker(u[0], 100, "0.1"), aStaker(u[1], 60, "0.3"), aStaker(u[2], 40, "0"),
			aJoin(u[0], 0, u[3]), aJoin(u[1], 0, u[4]), aJoin(u[2], 0, u[5]), aJoin(u[0], 1, u[6]), aFunder(u[7]),
			aFund(u[7], 0, M{"tkyve": "50"}, M{"tkyve": "20"}), aClaim(u[0], u[3], 0)},
			tick(60), []Act{aSubmit(u[0], u[3], 0, 1, 0)}, tick(1))
	}},
	// three funders of one pool, a single staker whose bundles are valid at once
	"funders": {users: 8, meta: func(u []int, c *Chain) M {
		return M{"stk": u[:1], "val": u[1:2], "dels": u[2:3], "funders": u[3:6], "gov": c.kgov}
	}, prefix: func(u []int, c *Chain) []Act {
		return cat([]Act{aPool(c.kgov, "0"), aStaker(u[0], 100, "0.1"), aJoin(u[0], 0, u[1]), aFunder(u[3]), aFunder(u[4]), aFunder(u[5]),
			aFund(u[3], 0, M{"tkyve": "25", "acoin": "11"}, M{"tkyve": "10", "acoin": "5"}), aFund(u[4], 0, M{"acoin": "20"}, M{"acoin": "9"}), aClaim(u[0], u[1], 0)},
			tick(60), []Act{aSubmit(u[0], u[1], 0, 1, 0)}, tick(60))
	}},
	// all 50 places of funders are taken
	"slots": {users: 55, tweak: func(c *Cfg) { c.Funders.CoinWhitelist[1].CoinWeight = dec("1.3") }, meta: func(u []int, c *Chain) M {
		return M{"stk": u[:1], "val": u[1:2], "dels": u[2:3], "funders": []int{u[2], u[3], u[27], u[52], u[53]}, "gov": c.kgov}
	}, prefix: func(u []int, c *Chain) []Act {
		as := []Act{aPool(c.kgov, "0"), aStaker(u[0], 100, "0.1"), aJoin(u[0], 0, u[1])}
		for i := 2; i < 54; i++ {
			as = append(as, aFunder(u[i]))
		}
		for i := 2; i < 52; i++ {
			n := 30 + (i*7)%50
			if i == 27 || i == 3 {
				n = 25
			}
			as = append(as, aFund(u[i], 0, kyves(int64(n)), kyves(6)))
		}
		return cat(as, []Act{aClaim(u[0], u[1], 0)}, tick(60), []Act{aSubmit(u[0], u[1], 0, 1, 0)}, tick(60))
	}},
	// all 50 places of a pool are taken
	"places": {users: 60, meta: func(u []int, c *Chain) M {
		return M{"stk": []int{u[0], u[1], u[24], u[50], u[51]}, "val": []int{u[52], u[53], u[54], u[55], u[56]}, "dels": []int{u[57]}, "funders": u[58:59], "gov": c.kgov}
	}, prefix: func(u []int, c *Chain) []Act {
		as := []Act{aPool(c.kgov, "0")}
		for i := 0; i < 52; i++ {
			n := 30 + (i*7)%50
			if i == 24 || i == 1 {
				n = 25
			} else if i == 50 {
				n = 26
			} else if i == 51 {
				n = 25
			}
			as = append(as, aStaker(u[i], n, "0.1"))
			if i < 50 {
				v := u[(i+1)%50] // another staker's account may be the one that signs
				switch i {
				case 0:
					v = u[52]
				case 1:
					v = u[53]
				case 24:
					v = u[54]
				}
				as = append(as, aJoin(u[i], 0, v))
			}
		}
		return cat(as, []Act{aClaim(u[0], u[52], 0)}, tick(60), []Act{aSubmit(u[0], u[52], 0, 1, 0)})
	}},
	// governance decides about pools while bundles are produced
	"pools": {users: 9, meta: votesMeta, prefix: func(u []int, c *Chain) []Act {
		p1 := aPool(c.kgov, "150")
		p1["p"].(M)["runtime"], p1["p"].(M)["endKey"] = "@kyve/other", "9"
		return cat([]Act{aPool(c.kgov, "100"), p1, aStaker(u[0], 100, "0.1"), aStaker(u[1], 60, "0.3"), aStaker(u[2], 40, "0"), aJoin(u[0], 0, u[3]), aJoin(u[1], 0, u[4]),
			aJoin(u[0], 1, u[5]), aJoin(u[1], 1, u[6]), {"kind": "SendPool", "from": u[8], "pool": 0, "coins": kyves(100)}, aClaim(u[0], u[3], 0), aClaim(u[0], u[5], 1)},
			tick(60), []Act{aSubmit(u[0], u[3], 0, 1, 0)})
	}},
	// what is minted is split among pools, of which some can not run
	"inflation": {users: 9, tweak: func(c *Cfg) {
		c.BlocksPerYr, c.FixedInflation, c.Whale, c.Pool.ProtocolInflationShare = 1_000_003, true, 835000000000000000, dec("0.314159265358979323")
	}, meta: func(u []int, c *Chain) M {
		m := votesMeta(u, c)
		m["inflation"], m["bpy"] = raw("0.13"), 1_000_003
		return m
	}, prefix: func(u []int, c *Chain) []Act {
		p1, p2 := aPool(c.kgov, "0"), aPool(c.kgov, "50")
		p1["p"].(M)["weight"], p2["p"].(M)["weight"] = raw("2"), raw("0.7")
		return cat([]Act{aPool(c.kgov, "0"), p1, p2, aStaker(u[0], 100, "0.1"), aStaker(u[1], 60, "0.3"), aJoin(u[0], 0, u[3]), aJoin(u[0], 1, u[4]), aJoin(u[1], 2, u[5]),
			aClaim(u[0], u[3], 0)}, tick(60), []Act{aSubmit(u[0], u[3], 0, 1, 0)})
	}},
	"params": {users: 9, prefix: votesPrefix, meta: votesMeta},
	"team": {users: 4, tweak: func(c *Cfg) { c.BlocksPerYr, c.FixedInflation, c.Whale = 1000, true, 835000000000000000 }, meta: func(u []int, c *Chain) M {
		return M{"stk": []int{}, "val": []int{}, "dels": u[:1], "funders": u[1:2], "gov": c.kgov, "foundation": c.kfound, "bcp": c.kbcp, "inflation": raw("0.13"), "bpy": 1000}
	}, prefix: func(u []int, c *Chain) []Act {
		return []Act{{"kind": "CreateTeamAccount", "from": c.kfound, "alloc": "1000000000000", "comm": 1660000000}}
	}},
}

func plain(c *Chain) []int {
	var r []int
	for _, u := range c.users {
		if u.Key != nil {
			r = append(r, u.Rank)
		}
	}
	return r
}

// scenario plays the prefix of a scenario
func (u *run) scenario(name string) *Chain {
	sc := scenarios[name]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario")
		os.Exit(3)
	}
	c := newChain(scenCfg(sc), nil)
	us := plain(c)
	meta := sc.meta(us, c)
	meta["scenario"] = name
	u.rec.begin(c, c.snap(), meta)
	as := append([]Act{{"kind": "BeginBlock", "dt": 1}}, sc.prefix(us, c)...)
	for _, a := range as {
		if has(a, "dt") {
			a["now"] = int(c.now) + nI(a, "dt")
			delete(a, "dt")
		}
		o := c.apply(a)
		u.rec.step(c, a, o, c.snap())
	}
	return c
}

type edge struct {
	F, T int
	New  bool
	A    json.RawMessage
}

func intify(v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		return int(x)
	case map[string]interface{}:
		for k, e := range x {
			x[k] = intify(e)
		}
	case []interface{}:
		for i, e := range x {
			x[i] = intify(e)
		}
	}
	return v
}

// graph replays part number part of parts of an explored graph on the real chain
func (u *run) graph(name, file string, part, parts int) {
	c := u.scenario(name)
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	out := map[int][]edge{}
	dec := json.NewDecoder(bufio.NewReader(f))
	for dec.More() {
		var e edge
		if err := dec.Decode(&e); err != nil {
			panic(err)
		}
		out[e.F] = append(out[e.F], e)
	}
	// the nodes in preorder; size of the subtree of each
	pre, size, n := map[int]int{}, map[int]int{}, 0
	var number func(int) int
	number = func(v int) int {
		pre[v] = n
		n++
		k := 1
		for _, e := range out[v] {
			if e.New {
				k += number(e.T)
			}
		}
		size[v] = k
		return k
	}
	number(0)
	// by edges rather than by nodes
	total, weight := 0, make([]int, n)
	for v, i := range pre {
		weight[i] = 1 + len(out[v])
		total += weight[i]
	}
	cum := make([]int, n+1)
	for i := 0; i < n; i++ {
		cum[i+1] = cum[i] + weight[i]
	}
	mine := func(i int) bool { return cum[i]*parts/total == part }
	lo, hi := n, 0
	for i := 0; i < n; i++ {
		if mine(i) {
			if i < lo {
				lo = i
			}
			if i+1 > hi {
				hi = i + 1
			}
		}
	}
	c.branch = true
	var walk func(v int, line int, last map[string]json.RawMessage)
	walk = func(v int, line int, last map[string]json.RawMessage) {
		own := pre[v] >= lo && pre[v] < hi
		for _, e := range out[v] {
			into := e.New && pre[e.T] < hi && pre[e.T]+size[e.T] > lo
			if !own && !into {
				continue
			}
			ctx, h, now := c.ctx, c.h, c.now
			c.ctx, _ = c.ctx.CacheContext()
			var a Act
			if err := json.Unmarshal(e.A, &a); err != nil {
				panic(err)
			}
			intify(a)
			u.rec.last, u.rec.from = last, line
			if nS(a, "kind") == "Query" {
				u.rec.query(a, c.query(a))
			} else {
				o := c.apply(a)
				u.rec.step(c, a, o, c.snap())
				if into && !o.Fatal {
					walk(e.T, u.rec.ln, u.rec.last)
				}
			}
			c.ctx, c.h, c.now = ctx, h, now
		}
	}
	walk(0, u.rec.ln, u.rec.last)
}

// nextCtx is the context of the next block on a branch of the history
func (c *Chain) nextCtx() sdk.Context {
	h := c.header()
	return c.ctx.WithBlockHeader(h).WithHeaderInfo(header.Info{ChainID: chainID, Height: h.Height, Time: h.Time})
}
