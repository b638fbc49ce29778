package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"math/rand"
	"os"
	"strings"
)

// Recorder writes a trace: one JSON object per line, see spec/Trace.tla.
type Recorder struct {
	w    *bufio.Writer
	last map[string]json.RawMessage
	n    int
	stat map[string]int
	ln   int // lines written
	from int // line the next step starts from, if it is not the last one
}

func (r *Recorder) line(o interface{}) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.ln++
}

func (r *Recorder) begin(c *Chain, s *Snap, meta M) {
	r.last = encode(c.project(s))
	r.line(M{"init": r.last, "meta": meta})
}

func (r *Recorder) step(c *Chain, a Act, o Outcome, s *Snap) {
	cur := encode(c.project(s))
	ch := map[string]json.RawMessage{}
	for k, v := range cur {
		if string(r.last[k]) != string(v) {
			ch[k] = v
		}
	}
	r.last = cur
	m := M{"a": a, "ok": o.Ok, "c": ch, "x": c.mark}
	if len(c.ev) > 0 {
		m["e"] = c.ev
		for _, e := range c.ev {
			r.stat["event:"+nS(e, "t")]++
		}
	}
	c.mark, c.ev = "", nil
	if r.from > 0 {
		m["p"] = r.from
	}
	if o.Oks != nil && o.Ok {
		m["ok"] = o.Oks
		for i, t := range a["txs"].([]M) {
			for _, x := range t["msgs"].([]M) {
				r.stat[fmt.Sprintf("tx:%s:%v", nS(x["act"].(Act), "kind"), o.Oks[i])]++
			}
		}
	}
	if o.Err != "" {
		e := o.Err
		if len(e) > 300 {
			e = e[:300]
		}
		m["err"] = e
	}
	r.line(m)
	r.n++
	k := nS(a, "kind")
	if o.Ok {
		r.stat[k+":ok"]++
	} else {
		r.stat[k+":refused"]++
	}
	if o.Panic {
		r.stat[k+":panic"]++
	}
}

// query records a query, which changes nothing
func (r *Recorder) query(a Act, ans interface{}) {
	m := M{"a": a, "ok": ans, "c": M{}}
	if r.from > 0 {
		m["p"] = r.from
	}
	r.line(m)
	r.n++
	res := "ok"
	if m, ok := ans.(M); ok {
		if f, ok := m["found"].(bool); ok && !f {
			res = "notfound"
		} else if m["error"] != nil || m["panic"] != nil {
			res = "error"
		} else if xs, ok := m["items"].([]interface{}); ok && len(xs) == 0 {
			res = "empty"
		}
	}
	r.stat["Query:"+nS(a, "q")+":"+res]++
}

// apply performs one action on the chain
func (c *Chain) apply(a Act) Outcome {
	switch nS(a, "kind") {
	case "BeginBlock":
		o, p := c.beginBlock(int64(nI(a, "now")))
		a["provision"] = p
		return o
	case "EndBlock":
		return c.endBlock()
	case "Block":
		return c.realBlock(a)
	case "Upgrade":
		return c.upgradeTo15(a)
	case "Batch":
		var ms []sdk.Msg
		for _, m := range a["msgs"].([]M) {
			ms = append(ms, c.msg(m["act"].(Act)))
		}
		return c.deliver(ms...)
	}
	m := c.msg(a)
	if m == nil {
		panic("no message for " + nS(a, "kind"))
	}
	return c.deliver(m)
}

func isHandOver(k string) bool { return k == "Restart" || k == "Reimport" }

type run struct {
	Saved
	prof    *Profile
	rec     *Recorder
	inplace bool
}

func (u *run) trace() {
	r := rand.New(rand.NewSource(u.Seed))
	cfg := randCfg(r, u.prof)
	c := newChain(cfg, nil)
	c.still = u.inplace
	g := &Gen{c: c, r: r, prof: u.prof}
	g.roles()
	g.queue = append(g.queue, Act{"kind": "BeginBlock", "now": c.now + 1})
	g.queue = append(g.queue, u.prof.setup(g)...)
	s := c.snap()
	u.rec.begin(c, s, M{"profile": u.prof.name, "seed": u.Seed})
	u.goOn(c, g, s, 0)
}

// resume goes on with a history that was handed over
func (u *run) resume() {
	r := rand.New(rand.NewSource(u.Seed))
	cfg := randCfg(r, u.prof)
	c := (*Chain)(nil)
	o := guard(func() error { c = takeOver(cfg, &u.Saved); return nil })
	a := Act{"kind": u.Kind, "diff": []interface{}{}, "invalid": u.Invalid}
	if !o.Ok {
		a["invalid"] = u.Invalid + o.Err
		u.rec.line(M{"a": a, "ok": false, "c": M{}, "err": o.Err})
		u.rec.stat[u.Kind+":failed"]++
		return
	}
	if u.Kind == "Reimport" {
		d := diffRaw(u.Raw, c.rawStores())
		a["diff"], o.Ok = d, len(d) == 0 && u.Invalid == ""
	}
	u.goOnAfter(c, c.snap(), o, a)
}

// goOnAfter goes on after a hand-over
func (u *run) goOnAfter(c *Chain, s *Snap, o Outcome, a Act) {
	g := &Gen{c: c, r: rand.New(rand.NewSource(u.Seed*31 + int64(u.Done))), prof: u.prof, seq: u.Seq, stk: u.Stk, dels: u.Dels, funds: u.Funds, vals: u.Vals}
	if u.Kind == "Reimport" {
		g.queue = append(g.queue, Act{"kind": "Block", "txs": []M{}})
	}
	u.rec.step(c, a, o, s)
	g.queue = append(g.queue, Act{"kind": "BeginBlock"})
	if len(u.prof.queries) > 0 {
		// what the node keeps in memory was built again
		g.queue = append(g.queue, g.listings(s)...)
	}
	u.goOn(c, g, s, u.Done+1)
}

func (u *run) goOn(c *Chain, g *Gen, s *Snap, i int) {
	for i < u.Steps {
		a := g.next(s)
		if k := nS(a, "kind"); strings.HasPrefix(k, "gen:") {
			var b Act
			for j := 0; j < 20; j++ {
				if b = g.act(k[4:]); b != nil && (!has(a, "pool") || nI(a, "pool") == nI(b, "pool")) {
					break
				}
			}
			if b == nil {
				continue
			}
			a = b
		}
		if k := nS(a, "kind"); isHandOver(k) {
			u.rec.w.Flush()
			v := u.Saved
			v.Done, v.Stat, v.N, v.Last = i, u.rec.stat, u.rec.n, u.rec.last
			v.Seq, v.Stk, v.Dels, v.Funds, v.Vals = g.seq, g.stk, g.dels, g.funds, g.vals
			if u.inplace {
				// the same history on a node that is not restarted
				u.Saved = v
				u.Kind = k
				u.goOnAfter(c, s, Outcome{Ok: true}, Act{"kind": k, "diff": []interface{}{}, "invalid": ""})
				return
			}
			c.handOver(k, &v)
		}
		if isBlock(nS(a, "kind")) && nS(a, "kind") != "EndBlock" && !has(a, "now") {
			a["now"] = g.nextTime()
		}
		if nS(a, "kind") == "Block" && !has(a, "txs") {
			g.block(a)
		}
		if nS(a, "kind") == "Query" {
			u.rec.query(a, c.query(a))
			i++
			continue
		}
		o := c.apply(a)
		s = c.snap()
		u.rec.step(c, a, o, s)
		i++
		if o.Fatal {
			return
		}
	}
}

func main() {
	u := &run{}
	flag.StringVar(&u.Profile, "profile", "mixed", "")
	flag.Int64Var(&u.First, "seed", 1, "")
	flag.IntVar(&u.Traces, "traces", 1, "")
	flag.IntVar(&u.Steps, "steps", 300, "")
	flag.StringVar(&u.Out, "out", "/dev/stdout", "")
	flag.StringVar(&u.Stats, "stats", "", "")
	resume := flag.String("resume", "", "")
	scen := flag.String("scenario", "", "play the prefix of a scenario")
	graph := flag.String("graph", "", "and replay the explored graph in this file")
	part := flag.Int("part", 0, "")
	parts := flag.Int("parts", 1, "")
	flag.BoolVar(&u.inplace, "inplace", false, "do not restart")
	flag.Parse()
	initPrefixes()
	initModules()
	initPools()
	initProfiles()
	mode := os.O_CREATE | os.O_TRUNC | os.O_WRONLY
	if *resume != "" {
		f, err := os.Open(*resume)
		if err != nil {
			panic(err)
		}
		if err := gob.NewDecoder(bufio.NewReader(f)).Decode(&u.Saved); err != nil {
			panic(err)
		}
		f.Close()
		os.Remove(*resume)
		mode = os.O_APPEND | os.O_WRONLY
	}
	u.prof = profiles[u.Profile]
	if u.prof == nil {
		fmt.Fprintln(os.Stderr, "unknown profile")
		os.Exit(3)
	}
	f, err := os.OpenFile(u.Out, mode, 0o644)
	if err != nil {
		panic(err)
	}
	u.rec = &Recorder{w: bufio.NewWriterSize(f, 1<<20), stat: map[string]int{}}
	if *scen != "" {
		if *graph == "" {
			u.scenario(*scen)
		} else {
			u.graph(*scen, *graph, *part, *parts)
		}
		u.Traces = 0
	}
	if *resume != "" {
		u.rec.stat, u.rec.n, u.rec.last = u.Stat, u.N, u.Last
		u.resume()
		u.Trace++
	}
	for ; u.Trace < u.Traces; u.Trace++ {
		u.Seed = u.First*1_000_003 + int64(u.Trace)
		u.trace()
	}
	u.rec.w.Flush()
	f.Close()
	if u.Stats != "" {
		b, _ := json.MarshalIndent(u.rec.stat, "", " ")
		os.WriteFile(u.Stats, b, 0o644)
	}
}
