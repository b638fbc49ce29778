package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// Gen proposes the next action from the state the chain is in.
type Gen struct {
	seqs  map[int]int // transactions of an account that are foreseen to pass in this block
	old   []M         // the last transactions
	c     *Chain
	r     *rand.Rand
	s     *Snap
	prof  *Profile
	stk   []int // ranks that act as stakers
	dels  []int // ranks that act as delegators
	funds []int // ranks that act as funders
	vals  []int // ranks used as worker addresses
	seq   int
	queue []Act // scripted actions to be done next
	prev  Act   // the last message
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
func (g *Gen) p(pct int) bool            { return g.r.Intn(100) < pct }
func (g *Gen) n(lo, hi int) int          { return lo + g.r.Intn(hi-lo+1) }

func (g *Gen) user() int {
	for {
		x := g.n(1, len(g.c.users))
		if g.c.isPlain(x) {
			return x
		}
	}
}

// amount in 0..max with emphasis on the boundaries
func (g *Gen) amt(max math.Int) string {
	if max.IsNil() || !max.IsPositive() {
		return strconv.Itoa(g.r.Intn(3))
	}
	switch g.r.Intn(12) {
	case 0:
		return "1"
	case 1:
		return max.String()
	case 2:
		return max.SubRaw(1).String()
	case 3:
		if g.p(30) {
			return max.AddRaw(1).String()
		}
		return max.QuoRaw(2).String()
	case 4:
		return g.below(max, 2).String()
	case 5, 6:
		return g.below(max, 10).String()
	case 7:
		return g.below(max, 1000).String()
	case 8:
		return strconv.Itoa(g.n(1, 20))
	case 9:
		if g.p(10) {
			return "0"
		}
		return g.below(max, 7).String()
	default:
		return g.below(max, int64(g.n(1, 50))).String()
	}
}

// part of a delegation, or as much of it as there is left
func (g *Gen) part(d delegationtypes.Delegator) string {
	if g.p(g.prof.allOfIt) {
		return strconv.FormatUint(g.c.app.DelegationKeeper.GetDelegationAmountOfDelegator(g.c.ctx, d.Staker, d.Delegator), 10)
	}
	return g.amt(uint64Int(d.InitialAmount))
}

func (g *Gen) runtime() string {
	if g.prof.name == "upgrade" {
		return pick(g.r, runtimes15)
	}
	return pick(g.r, []string{"@kyve/test", "@kyve/other"})
}

// uniform in 1..max/div
func (g *Gen) below(max math.Int, div int64) math.Int {
	m := max.QuoRaw(div)
	if !m.IsPositive() {
		return math.OneInt()
	}
	x := new(big.Int).Rand(g.r, m.BigInt())
	return math.NewIntFromBigInt(x).AddRaw(1)
}

func (g *Gen) bal(u int, d string) math.Int { return g.s.Bal[u].AmountOf(d) }

func uint64Int(x uint64) math.Int { return math.NewIntFromUint64(x) }

// decimals (raw, scaled by 10^18)
func (g *Gen) pct() string {
	switch g.r.Intn(9) {
	case 0:
		return "0"
	case 1:
		return "1000000000000000000"
	case 2:
		return "500000000000000000"
	case 3:
		return "333333333333333333"
	case 4:
		return "100000000000000000"
	case 5:
		return strconv.Itoa(g.n(1, 9)) + "0000000000000000"
	default:
		return new(big.Int).Rand(g.r, big.NewInt(1_000_000_000_000_000_000)).String()
	}
}
func (g *Gen) pctMaybeBad() string {
	if g.p(12) {
		return pick(g.r, []string{"1000000000000000001", "-1", "2000000000000000000", "-500000000000000000"})
	}
	return g.pct()
}
func (g *Gen) dec(max int64) string { // 0 .. max with fraction
	x := new(big.Int).Rand(g.r, new(big.Int).Mul(big.NewInt(max), big.NewInt(1_000_000_000_000_000_000)))
	if g.p(40) {
		x.Div(x, big.NewInt(1_000_000_000_000_000_000))
		x.Mul(x, big.NewInt(1_000_000_000_000_000_000))
	}
	return x.String()
}

// ---- views of the state -----------------------------------------------------

func (g *Gen) pools() []pooltypes.Pool { return g.s.Pool.PoolList }
func (g *Gen) poolOf(id int) *pooltypes.Pool {
	for i := range g.s.Pool.PoolList {
		if int(g.s.Pool.PoolList[i].Id) == id {
			return &g.s.Pool.PoolList[i]
		}
	}
	return nil
}
func (g *Gen) anyPool() int {
	n := len(g.s.Pool.PoolList)
	if n == 0 || g.p(2) {
		return g.n(0, 7)
	}
	return int(g.s.Pool.PoolList[g.r.Intn(n)].Id)
}
func (g *Gen) members(p int) []*stakerstypes.Valaccount {
	var r []*stakerstypes.Valaccount
	for i := range g.s.Stakers.ValaccountList {
		v := &g.s.Stakers.ValaccountList[i]
		if int(v.PoolId) == p {
			r = append(r, v)
		}
	}
	return r
}
func (g *Gen) prop(p int) *bundlestypes.BundleProposal {
	for i := range g.s.Bundles.BundleProposalList {
		if int(g.s.Bundles.BundleProposalList[i].PoolId) == p {
			return &g.s.Bundles.BundleProposalList[i]
		}
	}
	return &bundlestypes.BundleProposal{}
}
func (g *Gen) stakers() []int {
	var r []int
	for _, s := range g.s.Stakers.StakerList {
		r = append(r, g.c.rank(s.Address))
	}
	return r
}
func (g *Gen) total(staker int) uint64 {
	for _, d := range g.s.Delegation.DelegationDataList {
		if g.c.rank(d.Staker) == staker {
			return d.TotalDelegation
		}
	}
	return 0
}
func (g *Gen) aStaker() int {
	if st := g.stakers(); len(st) > 0 && !g.p(3) {
		return pick(g.r, st)
	}
	return g.user()
}
func (g *Gen) delegator() (d delegationtypes.Delegator, ok bool) {
	l := g.s.Delegation.DelegatorList
	if len(l) == 0 {
		return
	}
	return pick(g.r, l), true
}
func (g *Gen) fundingsOf(p int) []funderstypes.Funding {
	var r []funderstypes.Funding
	for _, f := range g.s.Funders.FundingList {
		if int(f.PoolId) == p {
			r = append(r, f)
		}
	}
	return r
}

func (g *Gen) id(prefix string) string { g.seq++; return fmt.Sprintf("%s%d", prefix, g.seq) }

var denoms = []string{"tkyve", "acoin", "bcoin", "ccoin"}

// ---- one generator per kind; nil: not possible now ---------------------------

func (g *Gen) act(kind string) Act {
	a := Act{"kind": kind}
	c := g.c
	switch kind {
	case "Upgrade":
		return g.upgrade(a)
	case "Query":
		return g.queryAct()
	case "Batch":
		return g.batch(a)
	case "CreateStaker":
		a["from"] = pick(g.r, g.stk)
		a["amt"] = g.amt(g.bal(nI(a, "from"), "tkyve").QuoRaw(3))
		if g.p(12) {
			a["amt"] = "0"
		}
		a["com"] = g.pctMaybeBad()
	case "UpdateMetadata":
		a["from"] = g.aStaker()
		long := ""
		for i := 0; i < 256; i++ {
			long += "x"
		}
		m := M{"moniker": g.id("m"), "website": g.id("w"), "identity": "", "contact": g.id("c"), "details": g.id("d")}
		a["valid"] = true
		switch g.r.Intn(8) {
		case 0:
			m[pick(g.r, []string{"moniker", "website", "contact", "details"})] = long
			a["valid"] = false
		case 1:
			m["identity"] = "0123456789abcdef"
		case 2:
			m["identity"] = pick(g.r, []string{"zz", "0123", "0123456789abcdef00"})
			a["valid"] = false
		case 3:
			m[pick(g.r, []string{"moniker", "website", "contact", "details"})] = long[:255]
		}
		a["meta"] = m
	case "UpdateCommission":
		a["from"], a["com"] = g.aStaker(), g.pctMaybeBad()
	case "ClaimCommission":
		var st []*stakerstypes.Staker
		for i := range g.s.Stakers.StakerList {
			x := g.s.Stakers.StakerList[i]
			if !x.CommissionRewards.IsZero() {
				st = append(st, &x)
			}
		}
		a["valid"] = true
		if len(st) == 0 {
			if g.p(80) {
				return nil
			}
			a["from"], a["coins"] = g.aStaker(), M{"tkyve": "1"}
			break
		}
		x := pick(g.r, st)
		m := M{}
		for _, co := range x.CommissionRewards {
			if g.p(70) {
				m[co.Denom] = g.amt(co.Amount)
			}
		}
		if g.p(4) {
			m[pick(g.r, denoms)] = "3"
		}
		for d, v := range m {
			if v == "0" {
				delete(m, d)
			}
		}
		a["from"], a["coins"] = c.rank(x.Address), m
	case "JoinPool":
		a["from"], a["pool"] = g.aStaker(), g.anyPool()
		a["val"] = pick(g.r, g.vals)
		if g.p(4) {
			a["val"] = a["from"]
		} else if g.p(5) {
			a["val"] = g.user()
		}
		a["amt"] = pick(g.r, []string{"0", "100", "1000000", g.amt(g.bal(nI(a, "from"), "tkyve").QuoRaw(50))})
	case "LeavePool":
		a["pool"] = g.anyPool()
		ms := g.members(nI(a, "pool"))
		if len(ms) == 0 || g.p(5) {
			a["from"] = g.aStaker()
		} else {
			a["from"] = c.rank(pick(g.r, ms).Staker)
		}
	case "Delegate":
		a["from"], a["staker"] = pick(g.r, g.dels), g.aStaker()
		if g.p(25) {
			a["from"] = a["staker"]
		}
		a["amt"] = g.amt(g.bal(nI(a, "from"), "tkyve").QuoRaw(4))
		if g.p(10) {
			a["amt"] = strconv.Itoa(g.n(1, 5))
		}
		if g.p(2) {
			a["amt"] = g.bal(nI(a, "from"), "tkyve").AddRaw(1).String()
		}
	case "WithdrawRewards":
		if d, ok := g.delegator(); ok && !g.p(5) {
			a["from"], a["staker"] = c.rank(d.Delegator), c.rank(d.Staker)
		} else {
			a["from"], a["staker"] = g.user(), g.aStaker()
		}
	case "Undelegate":
		if d, ok := g.delegator(); ok && !g.p(5) {
			a["from"], a["staker"], a["amt"] = c.rank(d.Delegator), c.rank(d.Staker), g.part(d)
		} else {
			a["from"], a["staker"], a["amt"] = g.user(), g.aStaker(), strconv.Itoa(g.n(0, 10))
		}
	case "Redelegate":
		if d, ok := g.delegator(); ok && !g.p(4) {
			a["from"], a["staker"], a["amt"] = c.rank(d.Delegator), c.rank(d.Staker), g.part(d)
		} else {
			a["from"], a["staker"], a["amt"] = g.user(), g.aStaker(), strconv.Itoa(g.n(0, 10))
		}
		a["to"] = g.aStaker()
	case "CreateFunder", "UpdateFunder":
		a["from"] = pick(g.r, g.funds)
		m := M{"moniker": g.id("F"), "identity": g.id("i"), "website": g.id("w"), "contact": g.id("c"), "description": g.id("d")}
		if g.p(6) {
			m["moniker"] = ""
		}
		a["meta"] = m
	case "FundPool":
		g.fund(a)
	case "DefundPool":
		a["pool"] = g.anyPool()
		a["valid"] = true
		fs := g.fundingsOf(nI(a, "pool"))
		if len(fs) == 0 || g.p(3) {
			a["from"], a["coins"] = pick(g.r, g.funds), M{"tkyve": "5"}
			break
		}
		f := pick(g.r, fs)
		m := M{}
		full := g.p(35)
		for _, co := range f.Amounts {
			if full {
				m[co.Denom] = co.Amount.String()
			} else if g.p(60) {
				m[co.Denom] = g.amt(co.Amount)
			}
			if m[co.Denom] == "0" {
				delete(m, co.Denom)
			}
		}
		if g.p(5) {
			m[pick(g.r, denoms)] = "1000"
		}
		a["from"], a["coins"] = c.rank(f.FunderAddress), m
		if g.p(3) {
			a["bad"], a["valid"] = pick(g.r, []string{"dup", "zero", "neg"}), false
		}
	case "SubmitBundle", "SkipUploader":
		return g.submit(a, kind == "SkipUploader")
	case "ClaimUploader":
		a["pool"] = g.anyPool()
		var free []int
		for _, p := range g.pools() {
			if g.prop(int(p.Id)).NextUploader == "" {
				free = append(free, int(p.Id))
			}
		}
		if len(free) > 0 && !g.p(15) {
			a["pool"] = pick(g.r, free)
		} else if !g.p(10) {
			return nil
		}
		ms := g.members(nI(a, "pool"))
		if len(ms) == 0 {
			a["staker"], a["from"] = g.aStaker(), pick(g.r, g.vals)
			break
		}
		m := pick(g.r, ms)
		a["staker"], a["from"] = c.rank(m.Staker), c.rank(m.Valaddress)
		g.misuse(a)
	case "VoteBundle":
		return g.vote(a)
	case "CreatePool":
		a["from"] = g.gov()
		a["json"] = true
		p := M{"name": g.id("pool"), "runtime": g.runtime(), "logo": g.id("logo"), "config": g.id("cfg"),
			"startKey": strconv.Itoa(g.n(0, 5)), "endKey": "", "interval": g.prof.interval(g), "weight": g.dec(3), "minDel": "0", "maxSize": g.n(1, 100),
			"version": "1.0.0", "binaries": "{}", "sp": g.n(0, 3), "comp": g.n(0, 2)}
		if g.p(30) {
			p["minDel"] = g.amt(math.NewInt(g.prof.stake))
		}
		if g.p(10) {
			p["endKey"] = strconv.Itoa(g.n(1, 9))
		}
		if g.p(10) {
			switch g.r.Intn(4) {
			case 0:
				p["interval"] = 0
			case 1:
				p["weight"] = "-1"
			case 2:
				p["maxSize"] = 0
			case 3:
				p["binaries"], a["json"] = pick(g.r, []string{"", "{", "nojson"}), false
			}
		}
		a["p"] = p
	case "UpdatePool":
		a["from"], a["pool"], a["json"] = g.gov(), g.anyPool(), true
		p := M{}
		fields := g.prof.fields
		if fields == nil {
			fields = []string{"name", "runtime", "logo", "config", "endKey", "interval", "weight", "minDel", "maxSize", "sp", "comp"}
		}
		for _, f := range fields {
			if !g.p(22) {
				continue
			}
			switch f {
			case "name", "logo", "config":
				p[f] = g.id(f)
			case "runtime":
				p[f] = g.runtime()
			case "endKey":
				p[f] = pick(g.r, []string{"", "", "3", g.id("e")})
				if pl := g.poolOf(nI(a, "pool")); pl != nil && g.p(30) {
					p[f] = pl.CurrentKey
				}
			case "interval":
				p[f] = g.prof.interval(g)
				if g.p(10) {
					p[f] = 0
				}
			case "weight":
				p[f] = g.dec(3)
				if g.p(10) {
					p[f] = "-1"
				}
				if g.p(10) {
					p[f] = "0"
				}
			case "minDel":
				p[f] = g.amt(math.NewInt(g.prof.stake * 3))
				if g.p(40) {
					p[f] = "0"
				} else if g.p(50) {
					// exactly what the pool has, or about
					t := math.ZeroInt()
					for _, m := range g.members(nI(a, "pool")) {
						t = t.Add(math.NewIntFromUint64(g.c.app.DelegationKeeper.GetDelegationAmount(g.c.ctx, m.Staker)))
					}
					p[f] = t.AddRaw(int64(g.n(0, 4) / 3)).String()
				}
			case "maxSize":
				p[f] = g.n(0, 100)
				if g.prof.fields != nil {
					p[f] = g.n(5, 100)
				}
			case "sp", "comp":
				p[f] = g.n(0, 3)
			}
		}
		a["p"] = p
		if g.p(4) {
			a["json"], a["text"] = false, pick(g.r, []string{"", "{", "\"x\"", "{\"UploadInterval\":\"a\"}", "{\"MinDelegation\":-1}"})
			a["p"] = M{}
		}
	case "DisablePool", "EnablePool":
		a["from"], a["pool"] = g.gov(), g.anyPool()
	case "ScheduleUpgrade":
		a["from"] = g.gov()
		a["runtime"] = g.runtime()
		if g.p(20) {
			a["runtime"] = "@kyve/none"
		}
		a["version"], a["binaries"] = fmt.Sprintf("1.%d.0", g.n(0, 3)), pick(g.r, []string{"{}", "{\"a\":1}", "{\"b\":2}"})
		a["at"], a["dur"] = int(c.now)+g.n(-50, 200), g.n(0, 150)
		if g.p(5) {
			a["version"] = ""
		}
		if g.p(5) {
			a["binaries"] = ""
		}
		if g.p(5) {
			a["at"] = 0
		}
	case "CancelUpgrade":
		a["from"] = g.gov()
		a["runtime"] = g.runtime()
		if g.p(20) {
			a["runtime"] = "@kyve/none"
		}
	case "UpdateParams":
		if g.prof.params != nil {
			g.prof.params(g, a)
		} else {
			g.params(a)
		}
	case "CreateTeamAccount":
		a["from"] = g.authority()
		left := math.NewInt(165000000000000000)
		a["alloc"] = g.amt(left.QuoRaw(4))
		if g.p(10) {
			a["alloc"] = pick(g.r, []string{"165000000000000000", "165000000000000001", "18446744073709551615", "18281744073709551616", "9223372036854775808"})
		}
		a["comm"] = int(c.now) - g.n(-100, 5*31536000)
		if g.p(3) {
			a["comm"] = 0
		}
	case "Clawback":
		a["from"], a["id"] = g.authority(), g.teamID()
		a["at"] = int(c.now) + g.n(-2*31536000, 31536000)
		if g.p(25) {
			a["at"] = 0
		}
		if ac := g.teamAcc(nI(a, "id")); ac != nil && g.p(35) {
			a["at"] = int(ac.Commencement) + pick(g.r, []int{0, -1, 31536000, 31536000 - 1, 3 * 31536000, g.n(0, 4*31536000)})
		}
	case "ClaimUnlocked", "ClaimAccountRewards":
		a["from"], a["id"], a["to"] = g.authority(), g.teamID(), g.user()
		a["amt"] = strconv.Itoa(g.n(0, 1000))
		if ac := g.teamAcc(nI(a, "id")); ac != nil {
			if kind == "ClaimUnlocked" {
				a["amt"] = g.amt(g.claimable(ac))
			} else {
				a["amt"] = g.amt(uint64Int(ac.TotalRewards - ac.RewardsClaimed))
			}
		}
	case "ClaimAuthorityRewards":
		a["from"], a["to"] = g.authority(), g.user()
		a["amt"] = g.amt(uint64Int(g.s.Team.Authority.TotalRewards - g.s.Team.Authority.RewardsClaimed))
	case "GrantFee":
		a["from"], a["to"] = g.user(), g.user()
		a["unlimited"] = g.p(30)
		a["coins"] = M{}
		if a["unlimited"] == false {
			a["coins"] = M{"tkyve": strconv.Itoa(g.n(1, 600_000))}
			if g.p(20) {
				a["coins"] = M{"tkyve": strconv.Itoa(g.n(1, 600_000)), "acoin": strconv.Itoa(g.n(1, 1_000_000))}
			}
		}
	case "RevokeFee":
		a["from"], a["to"] = g.user(), g.user()
		if g.p(85) {
			for x := range g.c.users {
				for y := range g.c.users {
					if _, ok := g.s.Grants[x+1][y+1]; ok && g.p(40) {
						a["from"], a["to"] = x+1, y+1
					}
				}
			}
		}
	case "Send":
		a["from"], a["to"] = g.user(), g.user()
		d := pick(g.r, denoms)
		v := g.amt(g.bal(nI(a, "from"), d).QuoRaw(20))
		if v == "0" {
			return nil
		}
		a["coins"] = M{d: v}
	case "SendMod":
		a["from"], a["mod"] = g.user(), pick(g.r, moduleNames[:12])
		if g.p(40) {
			a["mod"] = pick(g.r, []string{"delegation", "stakers", "funders", "pool", "team"})
		}
		d := pick(g.r, denoms)
		v := g.amt(g.bal(nI(a, "from"), d).QuoRaw(20))
		if v == "0" {
			return nil
		}
		a["coins"] = M{d: v}
	case "SendPool":
		a["from"], a["pool"] = g.user(), g.anyPool()
		if g.poolOf(nI(a, "pool")) == nil {
			return nil
		}
		d := "tkyve"
		if g.p(15) {
			d = pick(g.r, denoms)
		}
		v := g.amt(g.bal(nI(a, "from"), d).QuoRaw(20))
		if v == "0" {
			return nil
		}
		a["coins"] = M{d: v}
	}
	return a
}

func (g *Gen) gov() int {
	if g.p(5) {
		return g.user()
	}
	return g.c.kgov
}
func (g *Gen) authority() int {
	switch {
	case g.p(5):
		return g.user()
	case g.p(40):
		return g.c.kbcp
	default:
		return g.c.kfound
	}
}
func (g *Gen) teamID() int { return g.r.Intn(int(g.s.Team.AccountCount) + 1) }

// misuse spoils authorisation in a few percent of the cases
func (g *Gen) misuse(a Act) {
	switch g.r.Intn(28) {
	case 0:
		a["from"] = pick(g.r, g.vals)
	case 1:
		a["staker"] = g.aStaker()
	case 2:
		a["from"] = a["staker"]
	case 3:
		a["pool"] = g.anyPool()
	}
}

func (g *Gen) submit(a Act, skip bool) Act {
	c := g.c
	var ready, named []int
	for _, p := range g.pools() {
		pr := g.prop(int(p.Id))
		if pr.NextUploader != "" {
			named = append(named, int(p.Id))
			if uint64(c.now) >= pr.UpdatedAt+p.UploadInterval {
				ready = append(ready, int(p.Id))
			}
		}
	}
	if len(ready) > 0 && !g.p(5) {
		named = ready
	} else if !g.p(10) {
		return nil
	}
	if len(named) == 0 {
		if !g.p(30) || len(g.pools()) == 0 {
			return nil
		}
		named = []int{g.anyPool()}
	}
	id := pick(g.r, named)
	pl, pr := g.poolOf(id), g.prop(id)
	if pl == nil {
		return nil
	}
	next := c.rank(pr.NextUploader)
	a["pool"], a["staker"] = id, next
	a["from"] = pick(g.r, g.vals)
	for _, m := range g.members(id) {
		if m.Staker == pr.NextUploader {
			a["from"] = c.rank(m.Valaddress)
		}
	}
	a["idx"] = int(pl.CurrentIndex + pr.BundleSize)
	if g.p(3) {
		a["idx"] = nI(a, "idx") + g.n(-1, 1)
		if nI(a, "idx") < 0 {
			a["idx"] = 0
		}
	}
	if !skip {
		max := int(pl.MaxBundleSize)
		size := g.n(1, max)
		if g.p(3) {
			size = pick(g.r, []int{0, max, max + 1})
		}
		a["bsize"] = size
		a["sid"], a["hash"], a["sum"] = g.id("S"), g.id("h"), g.id("sum")
		a["fk"], a["tk"] = strconv.Itoa(nI(a, "idx")), strconv.Itoa(nI(a, "idx")+size)
		a["dsize"] = g.dataSize()
		if g.p(6) {
			switch g.r.Intn(6) {
			case 0:
				a["sid"] = ""
			case 1:
				a["fk"] = ""
			case 2:
				a["tk"] = ""
			case 3:
				a["hash"] = ""
			case 4:
				a["sum"] = ""
			case 5:
				a["sid"] = pr.StorageId
			}
		}
		if g.p(4) && pl.EndKey == "" {
			a["tk"] = strconv.Itoa(g.n(0, 5))
		}
		if pl.EndKey != "" && g.p(40) {
			a["tk"] = pl.EndKey
		}
	}
	g.misuse(a)
	return a
}

func (g *Gen) dataSize() string {
	switch g.r.Intn(10) {
	case 0:
		return "0"
	case 1:
		return "1"
	case 2:
		return new(big.Int).Rand(g.r, big.NewInt(1_000_000_000_000)).String()
	case 3:
		return pick(g.r, []string{"9223372036854775807", "9223372036854775808", "18446744073709551615"})
	default:
		return new(big.Int).Rand(g.r, big.NewInt(10_000_000)).String()
	}
}

func (g *Gen) vote(a Act) Act {
	c := g.c
	var open []int
	for _, p := range g.pools() {
		if g.prop(int(p.Id)).StorageId != "" {
			open = append(open, int(p.Id))
		}
	}
	if len(open) == 0 {
		if !g.p(4) || len(g.pools()) == 0 {
			return nil
		}
		open = []int{g.anyPool()}
	}
	id := pick(g.r, open)
	pr := g.prop(id)
	if g.prof.lazy && pr.UpdatedAt/7%3 == 0 && !g.p(12) {
		return nil
	}
	a["pool"], a["sid"] = id, pr.StorageId
	ms := g.members(id)
	if len(ms) == 0 {
		return nil
	}
	voted := map[string]bool{}
	for _, l := range [][]string{pr.VotersValid, pr.VotersInvalid} {
		for _, x := range l {
			voted[x] = true
		}
	}
	var todo []*stakerstypes.Valaccount
	for _, m := range ms {
		if !voted[m.Staker] {
			todo = append(todo, m)
		}
	}
	if len(todo) == 0 {
		if !g.p(10) {
			return nil
		}
		todo = ms
	} else if g.p(6) {
		todo = ms
	}
	m := pick(g.r, todo)
	a["staker"], a["from"] = c.rank(m.Staker), c.rank(m.Valaddress)
	// a round has a mood so that verdicts of all kinds occur
	mood := int(pr.UpdatedAt+uint64(id)*7) % 10
	var v string
	x := g.r.Intn(100)
	switch {
	case mood < 6:
		v = []string{"VALID", "INVALID", "ABSTAIN"}[b2(x, 80, 90)]
	case mood < 8:
		v = []string{"INVALID", "VALID", "ABSTAIN"}[b2(x, 75, 88)]
	default:
		v = []string{"ABSTAIN", "VALID", "INVALID"}[b2(x, 50, 75)]
	}
	if g.p(2) {
		v = pick(g.r, []string{"UNSPECIFIED", "OTHER"})
	}
	a["vote"] = v
	if g.p(3) {
		a["sid"] = pick(g.r, []string{"", "nope", g.prop(g.anyPool()).StorageId})
	}
	g.misuse(a)
	return a
}

func b2(x, a, b int) int {
	if x < a {
		return 0
	}
	if x < b {
		return 1
	}
	return 2
}

func (g *Gen) fund(a Act) {
	c := g.c
	a["from"], a["pool"], a["valid"] = pick(g.r, g.funds), g.anyPool(), true
	if fl := g.s.Funders.FunderList; len(fl) > 0 && !g.p(4) {
		a["from"] = c.rank(pick(g.r, fl).Address)
	}
	from := nI(a, "from")
	var old *funderstypes.Funding
	for _, f := range g.fundingsOf(nI(a, "pool")) {
		if c.rank(f.FunderAddress) == from {
			ff := f
			old = &ff
		}
	}
	coins, per := M{}, M{}
	wl := g.s.Funders.Params.CoinWhitelist
	mult := math.NewIntFromUint64(g.s.Funders.Params.MinFundingMultiple)
	for _, w := range wl {
		if !g.p(45) && !(w.CoinDenom == "tkyve" && g.p(50)) {
			continue
		}
		b := g.bal(from, w.CoinDenom)
		p := w.MinFundingAmountPerBundle
		if g.p(60) {
			p = p.Add(g.below(w.MinFundingAmountPerBundle.AddRaw(10), 1))
		}
		x := math.MaxInt(w.MinFundingAmount, p.Mul(mult))
		switch g.r.Intn(6) {
		case 0, 1:
		case 2:
			x = x.Add(g.below(x.AddRaw(3), 1))
		case 3:
			x = x.MulRaw(int64(g.n(1, 8)))
		case 4:
			x = x.SubRaw(1)
		case 5:
			x = x.AddRaw(int64(g.n(1, 50)))
		}
		if k := mult.AddRaw(int64(g.n(0, 2))); g.p(25) && k.IsPositive() {
			// nearly used up by the first bundles
			p = math.MaxInt(p, x.Quo(k))
		}
		if x.GT(b) && !g.p(5) {
			continue
		}
		if x.IsPositive() && !(old != nil && g.p(25)) {
			coins[w.CoinDenom] = x.String()
		}
		if p.IsPositive() && !(old != nil && g.p(30)) {
			per[w.CoinDenom] = p.String()
		}
	}
	if g.p(6) {
		d := pick(g.r, denoms)
		if b := g.bal(from, d); b.IsPositive() {
			coins[d] = g.amt(b.QuoRaw(10).AddRaw(1))
			per[d] = "1"
		}
	}
	if g.p(4) {
		for _, d := range sortedKeys(per) {
			delete(per, d)
			break
		}
	}
	if g.p(4) {
		coins = M{}
	}
	for d, v := range coins {
		if v == "0" || v.(string)[0] == '-' {
			delete(coins, d)
		}
	}
	a["coins"], a["per"] = coins, per
	if g.p(2) {
		a[pick(g.r, []string{"bad", "badper"})] = pick(g.r, []string{"dup", "zero", "neg"})
		a["valid"] = false
	}
}

func (g *Gen) params(a Act, mods ...string) {
	a["from"], a["json"] = g.gov(), true
	if len(mods) == 0 {
		mods = []string{"bundles", "delegation", "stakers", "pool", "funders", "global"}
	}
	mod := pick(g.r, mods)
	a["module"] = mod
	p := M{}
	set := func(k string, f func() interface{}) {
		if g.p(45) {
			p[k] = f()
		}
	}
	switch mod {
	case "bundles":
		set("upload_timeout", func() interface{} { return g.n(0, 200) })
		set("network_fee", func() interface{} { return g.pctMaybeBad() })
		set("max_points", func() interface{} { return g.n(0, 8) })
		set("storage_costs", func() interface{} {
			l := []interface{}{}
			for i := 0; i < g.n(0, 4); i++ {
				x := g.dec(3)
				if g.p(6) {
					x = "-1"
				}
				l = append(l, M{"storage_provider_id": g.n(0, 3), "cost": x})
			}
			return l
		})
	case "delegation":
		set("unbonding_delegation_time", func() interface{} { return g.dur() })
		set("redelegation_cooldown", func() interface{} { return g.dur() })
		set("redelegation_max_amount", func() interface{} { return g.n(0, 5) })
		for _, k := range []string{"vote_slash", "upload_slash", "timeout_slash"} {
			set(k, func() interface{} { return g.pctMaybeBad() })
		}
	case "stakers":
		set("commission_change_time", func() interface{} { return g.dur() })
		set("leave_pool_time", func() interface{} { return g.dur() })
	case "pool":
		for _, k := range []string{"protocol_inflation_share", "pool_inflation_payout_rate", "max_voting_power_per_pool"} {
			set(k, func() interface{} { return g.pctMaybeBad() })
		}
		if g.p(60) {
			delete(p, "max_voting_power_per_pool")
		}
	case "funders":
		set("min_funding_multiple", func() interface{} { return g.n(0, 30) })
		set("coin_whitelist", func() interface{} {
			l := []interface{}{}
			ds := append([]string{}, denoms...)
			g.r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
			for _, d := range ds {
				if d != "tkyve" && g.p(30) || d == "tkyve" && g.p(8) {
					continue
				}
				w := g.dec(4)
				if g.p(6) {
					w = "-1"
				}
				mf, mp := strconv.Itoa(g.n(0, 1000)), strconv.Itoa(g.n(0, 20))
				if g.p(5) {
					mf = "-3"
				}
				if g.p(5) {
					mp = "-3"
				}
				if g.p(3) {
					d = ""
				}
				l = append(l, M{"coin_denom": d, "coin_decimals": g.n(0, 9), "min_funding_amount": mf, "min_funding_amount_per_bundle": mp, "coin_weight": w})
			}
			return l
		})
	case "global":
		set("min_gas_price", func() interface{} { return pick(g.r, []string{g.dec(3), "0", "-1", "20000000000000000"}) })
		set("burn_ratio", func() interface{} { return g.pctMaybeBad() })
		set("gas_adjustments", func() interface{} {
			l := []interface{}{}
			for i := 0; i < g.n(0, 3); i++ {
				l = append(l, M{"type": pick(g.r, msgTypes), "amount": g.n(0, 5000)})
			}
			return l
		})
		set("gas_refunds", func() interface{} {
			l := []interface{}{}
			for i := 0; i < g.n(0, 3); i++ {
				l = append(l, M{"type": pick(g.r, msgTypes), "fraction": g.pctMaybeBad()})
			}
			return l
		})
	}
	a["p"] = p
	if g.p(4) {
		a["json"], a["text"], a["p"] = false, pick(g.r, []string{"", "{", "nojson"}), M{}
	}
}

var msgTypes = []string{"/cosmos.bank.v1beta1.MsgSend", "/kyve.delegation.v1beta1.MsgDelegate", "/kyve.bundles.v1beta1.MsgVoteBundleProposal", "/kyve.stakers.v1beta1.MsgCreateStaker"}

// time of the next block
func (g *Gen) nextTime() int64 {
	b, d, st := g.s.Bundles.Params, g.s.Delegation.Params, g.s.Stakers.Params
	now := g.c.now
	var due []int64
	for _, p := range g.pools() {
		pr := g.prop(int(p.Id))
		if pr.UpdatedAt > 0 {
			due = append(due, int64(pr.UpdatedAt+p.UploadInterval), int64(pr.UpdatedAt+p.UploadInterval+b.UploadTimeout))
		}
		if up := p.UpgradePlan; up != nil && up.ScheduledAt > 0 {
			due = append(due, int64(up.ScheduledAt), int64(up.ScheduledAt+up.Duration))
		}
	}
	for _, e := range g.s.Delegation.UndelegationQueueEntryList {
		due = append(due, int64(e.CreationTime+d.UnbondingDelegationTime))
	}
	for _, e := range g.s.Stakers.CommissionChangeEntries {
		due = append(due, e.CreationDate+int64(st.CommissionChangeTime))
	}
	for _, e := range g.s.Stakers.LeavePoolEntries {
		due = append(due, e.CreationDate+int64(st.LeavePoolTime))
	}
	for _, e := range g.s.Delegation.RedelegationCooldownList {
		due = append(due, int64(e.CreationDate+d.RedelegationCooldown))
	}
	if g.prof.far != nil {
		due = append(due, g.prof.far(g)...)
	}
	var ahead []int64
	for _, t := range due {
		for _, x := range []int64{t - 1, t, t + 1} {
			if x > now && x < now+2_000_000_00 && x < maxTime {
				ahead = append(ahead, x)
			}
		}
	}
	if len(ahead) > 0 && g.p(70) {
		// prefer what is near
		best := pick(g.r, ahead)
		for i := 0; i < g.n(0, 3); i++ {
			if x := pick(g.r, ahead); x < best {
				best = x
			}
		}
		return best
	}
	if g.p(3) {
		return now
	}
	return now + int64(g.n(1, 12))
}

// times stay within 31 bits even after adding vesting periods
const maxTime = 1_890_000_000

// next proposes the next action; the driver handles blocks
// dur is a delay parameter
func (g *Gen) dur() int64 {
	if g.p(20) {
		return int64(g.n(0, 1))
	}
	return int64(g.n(0, 400))
}

// next is the next action; now and then a message is sent twice
func (g *Gen) next(s *Snap) Act {
	if len(g.queue) == 0 && g.prev != nil && g.p(3) {
		g.s = s
		a := Act{}
		for k, v := range g.prev {
			a[k] = v
		}
		g.prev = nil
		return a
	}
	scripted := len(g.queue) > 0
	a := g.next1(s)
	if !scripted && g.p(2) {
		g.stray(a)
	}
	g.prev = nil
	if k := nS(a, "kind"); !isBlock(k) && !isHandOver(k) && k != "Query" && k != "Upgrade" && !strings.HasPrefix(k, "gen:") {
		g.prev = a
	}
	return a
}

// batch puts several messages together that take effect together or not at all, mostly those of governance
func (g *Gen) batch(a Act) Act {
	ms := []M{}
	for try, n := 0, g.n(2, 4); len(ms) < n && try < 30; try++ {
		k := g.prof.choose(g.r)
		if g.p(50) {
			k = pick(g.r, []string{"UpdateParams", "UpdateParams", "UpdatePool", "DisablePool", "EnablePool", "ScheduleUpgrade", "CancelUpgrade", "CreatePool"})
		}
		if isBlock(k) || isHandOver(k) || k == "Query" || k == "Batch" || k == "Upgrade" {
			continue
		}
		if b := g.act(k); b != nil {
			if m := g.c.msg(b); m != nil {
				ms = append(ms, M{"type": sdk.MsgTypeURL(m), "act": b})
			}
		}
	}
	if len(ms) < 2 {
		return nil
	}
	a["msgs"] = ms
	return a
}

// stray points a message at something else than it was meant for, maybe at something that does not exist
func (g *Gen) stray(a Act) {
	k := nS(a, "kind")
	if isBlock(k) || isHandOver(k) || k == "Query" || k == "Upgrade" || k == "Batch" || k == "Send" || k == "SendPool" || k == "SendMod" || k == "GrantFee" || k == "RevokeFee" {
		return
	}
	var ks []string
	for _, x := range []string{"pool", "staker", "to", "from", "id", "val"} {
		if has(a, x) {
			ks = append(ks, x)
		}
	}
	if len(ks) == 0 {
		return
	}
	switch x := pick(g.r, ks); x {
	case "pool":
		a[x] = g.n(0, len(g.s.Pool.PoolList)+2)
	case "id":
		a[x] = g.n(0, int(g.s.Team.AccountCount)+2)
	default:
		a[x] = g.user()
	}
}

func (g *Gen) next1(s *Snap) Act {
	g.s = s
	if len(g.queue) > 0 {
		a := g.queue[0]
		g.queue = g.queue[1:]
		return a
	}
	for i := 0; i < 50; i++ {
		k := g.prof.choose(g.r)
		if k == "Block" {
			if g.prof.real {
				for n := g.n(1, 12); n > 0; n-- {
					g.queue = append(g.queue, Act{"kind": "Block"})
				}
			}
			g.queue = append(g.queue, Act{"kind": "BeginBlock"})
			return Act{"kind": "EndBlock"}
		}
		if isHandOver(k) {
			if s.Halt != "" {
				continue
			}
			g.queue = append(g.queue, Act{"kind": k})
			return Act{"kind": "EndBlock"}
		}
		if a := g.act(k); a != nil {
			return a
		}
	}
	g.queue = append(g.queue, Act{"kind": "BeginBlock"})
	return Act{"kind": "EndBlock"}
}

func coin(d string, n int64) sdk.Coin { return sdk.NewInt64Coin(d, n) }
