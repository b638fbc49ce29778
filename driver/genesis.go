package main

import (
	"encoding/json"
	"strconv"

	"github.com/cosmos/cosmos-sdk/types/module"
)

// A genesis that is not what a chain exported: records twice, records missing, other
// indexes, other counters, other parameters.  The action carries the keys of its
// records, the specification decides whether it is to be refused.

var genesisLists = map[string][]string{
	"bundles":    {"bundle_proposal_list", "finalized_bundle_list", "finalized_bundle_list", "round_robin_progress_list"},
	"delegation": {"delegator_list", "delegation_entry_list", "delegation_data_list", "delegation_slash_list", "undelegation_queue_entry_list", "undelegation_queue_entry_list", "redelegation_cooldown_list"},
	"funders":    {"funder_list", "funding_list", "funding_state_list"},
	"pool":       {"pool_list"},
	"stakers":    {"staker_list", "valaccount_list", "commission_change_entries", "commission_change_entries", "leave_pool_entries", "leave_pool_entries"},
	"team":       {"account_list"},
	"global":     {},
}

var genesisCounters = map[string][][]string{
	"delegation": {{"queue_state_undelegation", "low_index"}, {"queue_state_undelegation", "high_index"}},
	"stakers":    {{"queue_state_commission", "low_index"}, {"queue_state_commission", "high_index"}, {"queue_state_leave", "low_index"}, {"queue_state_leave", "high_index"}},
	"pool":       {{"pool_count"}},
	"team":       {{"account_count"}, {"authority", "rewards_claimed"}, {"authority", "total_rewards"}},
}

func rows(d M, k string) []interface{} {
	l, _ := d[k].([]interface{})
	return l
}

func asNum(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case string:
		n, err := strconv.ParseInt(x, 10, 64)
		return n, err == nil
	case float64:
		return int64(x), true
	}
	return 0, false
}

func cloneRow(v interface{}) M {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	m := M{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// shift changes one of the numbers or flags of a record
func (g *Gen) shift(m M) {
	ks := []string{}
	for _, k := range sortedKeys(m) {
		if _, ok := m[k].(bool); ok {
			ks = append(ks, k, k)
		} else if n, ok := asNum(m[k]); ok && n < 1<<34 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	k := pick(g.r, ks)
	if b, ok := m[k].(bool); ok {
		m[k] = !b
		return
	}
	n, _ := asNum(m[k])
	n = max(0, n+int64(pick(g.r, []int{-2, -1, -1, 1, 1, 2, 7})))
	if _, ok := m[k].(float64); ok {
		m[k] = n
	} else {
		m[k] = strconv.FormatInt(n, 10)
	}
}

func (g *Gen) genesis(a Act) {
	m := pick(g.r, append([]string{"delegation", "stakers", "stakers"}, kyveModules...))
	c := g.c
	a["module"], a["p"] = m, M{}
	exp, ok := c.app.ModuleManager.Modules[m].(module.HasGenesis)
	if !ok {
		panic("no genesis: " + m)
	}
	d := M{}
	if err := json.Unmarshal(exp.ExportGenesis(c.ctx, c.app.AppCodec()), &d); err != nil {
		panic(err)
	}
	ls := []string{}
	for _, k := range genesisLists[m] {
		if len(rows(d, k)) > 0 {
			ls = append(ls, k)
		}
	}
	for n := pick(g.r, []int{0, 1, 1, 1, 2}); n > 0; n-- {
		if cs := genesisCounters[m]; len(cs) > 0 && (len(ls) == 0 || g.p(20)) {
			p := pick(g.r, cs)
			x := M(d)
			if len(p) == 2 {
				x = d[p[0]].(M)
			}
			k := p[len(p)-1]
			v, _ := asNum(x[k])
			x[k] = strconv.FormatInt(max(0, v+int64(pick(g.r, []int{-1, -1, 1, 1, 3, -3, 100, -100}))), 10)
			continue
		}
		if m != "team" && (len(ls) == 0 || g.p(12)) {
			b := Act{}
			g.params(b, m)
			if b["json"] == true {
				o := M{}
				if err := json.Unmarshal([]byte(paramPayload(m, mm(b, "p"))), &o); err != nil {
					panic(err)
				}
				pr := d["params"].(M)
				for _, k := range sortedKeys(o) {
					pr[k] = o[k]
				}
				p := a["p"].(M)
				for k, v := range mm(b, "p") {
					p[k] = v
				}
			}
			continue
		}
		if len(ls) == 0 {
			continue
		}
		k := pick(g.r, ls)
		l := rows(d, k)
		i := g.r.Intn(len(l))
		if g.p(40) {
			i = len(l) - 1
		}
		switch g.r.Intn(6) {
		case 0:
			d[k] = append(append([]interface{}{}, l[:i]...), l[i+1:]...)
		case 1:
			d[k] = append(append([]interface{}{}, l...), cloneRow(l[i]))
		case 2:
			d[k] = append([]interface{}{cloneRow(l[i])}, l...)
		case 3:
			x := cloneRow(l[i])
			g.shift(x)
			d[k] = append(append([]interface{}{}, l...), x)
		case 4:
			x := cloneRow(l[i])
			g.shift(x)
			l[i] = x
		case 5:
			j := g.r.Intn(len(l))
			l[i], l[j] = l[j], l[i]
		}
		ls = ls[:0]
		for _, k := range genesisLists[m] {
			if len(rows(d, k)) > 0 {
				ls = append(ls, k)
			}
		}
	}
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	c.genesisDoc = b
	a["g"] = genesisKeys(m, d)
}

func genesisKeys(m string, d M) M {
	list := func(k string, fs ...string) []interface{} {
		r := []interface{}{}
		for _, x := range rows(d, k) {
			row := []interface{}{}
			for _, f := range fs {
				v := x.(M)[f]
				if n, ok := asNum(v); ok && n < 1<<30 {
					v = n
				}
				row = append(row, v)
			}
			if len(row) == 1 {
				r = append(r, row[0])
			} else {
				r = append(r, row)
			}
		}
		return r
	}
	n := func(ks ...string) int64 {
		x := d
		for _, k := range ks[:len(ks)-1] {
			x = x[k].(M)
		}
		v, _ := asNum(x[ks[len(ks)-1]])
		return v
	}
	switch m {
	case "bundles":
		return M{"props": list("bundle_proposal_list", "pool_id"), "fin": list("finalized_bundle_list", "pool_id", "id"), "rr": list("round_robin_progress_list", "pool_id")}
	case "delegation":
		return M{"dels": list("delegator_list", "staker", "delegator", "k_index"), "entries": list("delegation_entry_list", "staker", "k_index"),
			"data": list("delegation_data_list", "staker"), "slashes": list("delegation_slash_list", "staker", "k_index"),
			"und": list("undelegation_queue_entry_list", "index"), "low": n("queue_state_undelegation", "low_index"), "high": n("queue_state_undelegation", "high_index"),
			"red": list("redelegation_cooldown_list", "address", "creation_date")}
	case "funders":
		return M{"funders": list("funder_list", "address"), "fundings": list("funding_list", "funder_address", "pool_id"), "states": list("funding_state_list", "pool_id")}
	case "pool":
		return M{"pools": list("pool_list", "id"), "count": n("pool_count")}
	case "stakers":
		return M{"stakers": list("staker_list", "address"), "vals": list("valaccount_list", "pool_id", "staker", "is_leaving"),
			"com": list("commission_change_entries", "index"), "clow": n("queue_state_commission", "low_index"), "chigh": n("queue_state_commission", "high_index"),
			"lv": list("leave_pool_entries", "index", "pool_id", "staker"), "llow": n("queue_state_leave", "low_index"), "lhigh": n("queue_state_leave", "high_index")}
	case "team":
		return M{"accts": list("account_list", "id"), "count": n("account_count"), "claimed": strconv.FormatInt(n("authority", "rewards_claimed"), 10), "total": strconv.FormatInt(n("authority", "total_rewards"), 10)}
	}
	return M{}
}

// validGenesis is what the module says to the document
func (c *Chain) validGenesis(m string) bool {
	mod := c.app.ModuleManager.Modules[m].(module.HasGenesisBasics)
	return guard(func() error { return mod.ValidateGenesis(c.app.AppCodec(), c.txCfg(), c.genesisDoc) }).Ok
}
