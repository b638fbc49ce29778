package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/types/module"

	kyve "github.com/KYVENetwork/chain/app"
)

// A history goes on in a fresh process, either on the committed database (a restarted
// node) or on the exported state (a chain started from the export).

type KV struct{ K, V []byte }

// Saved is what the next process needs to go on.
type Saved struct {
	Kind    string
	Profile string
	Seed    int64
	First   int64 // seed of the first trace
	Trace   int   // number of this trace
	Traces  int
	Steps   int
	Done    int // steps done in this trace
	Out     string
	Stats   string
	Stat    map[string]int
	N       int
	Last    map[string]json.RawMessage
	Seq     int
	Stk     []int
	Dels    []int
	Funds   []int
	Vals    []int
	H       int64
	Now     int64
	Db      []KV
	App     []byte
	Invalid string
	Raw     map[string]map[string][]byte
	Act     string
}

func dumpDB(db dbm.DB) (r []KV) {
	it, err := db.Iterator(nil, nil)
	if err != nil {
		panic(err)
	}
	defer it.Close()
	for ; it.Valid(); it.Next() {
		r = append(r, KV{bytes.Clone(it.Key()), bytes.Clone(it.Value())})
	}
	return
}

func loadDB(kvs []KV) dbm.DB {
	db := dbm.NewMemDB()
	for _, x := range kvs {
		if err := db.Set(x.K, append([]byte{}, x.V...)); err != nil {
			panic(err)
		}
	}
	return db
}

var kyveModules = []string{"bundles", "delegation", "funders", "global", "pool", "stakers", "team"}

// rawStores is the whole content of the stores of the KYVE modules, indexes included.
func (c *Chain) rawStores() map[string]map[string][]byte {
	r := map[string]map[string][]byte{}
	for _, k := range c.app.GetStoreKeys() {
		own := false
		for _, m := range kyveModules {
			own = own || strings.HasSuffix(k.Name(), m)
		}
		if _, kv := k.(*storetypes.KVStoreKey); !own || !kv { // what is in memory is rebuilt in the next block, see the queries
			continue
		}
		m := map[string][]byte{}
		it := c.ctx.KVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			if v := it.Value(); len(v) != 8 || !bytes.Equal(v, make([]byte, 8)) { // a counter at zero is as good as none
				m[string(it.Key())] = bytes.Clone(v)
			}
		}
		it.Close()
		r[k.Name()] = m
	}
	return r
}

// diffRaw lists the keys that are not the same in both
func diffRaw(a, b map[string]map[string][]byte) []interface{} {
	n := map[string]int{}
	ex := map[string]string{}
	note := func(store, key, what string) {
		p := fmt.Sprintf("%s/%s %s", store, hex.EncodeToString([]byte(key[:min(1, len(key))])), what)
		n[p]++
		ex[p] = fmt.Sprintf("%q", key)
	}
	for _, s := range sortedKeys(a) {
		for _, k := range sortedKeys(a[s]) {
			if v, ok := b[s][k]; !ok {
				note(s, k, "missing")
			} else if !bytes.Equal(v, a[s][k]) {
				note(s, k, "changed")
			}
		}
		for _, k := range sortedKeys(b[s]) {
			if _, ok := a[s][k]; !ok {
				note(s, k, "added")
			}
		}
	}
	r := []interface{}{}
	for _, k := range sortedKeys(n) {
		r = append(r, fmt.Sprintf("%s x%d e.g. %s", k, n[k], ex[k]))
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// handOver ends this process and goes on in a fresh one
func (c *Chain) handOver(kind string, s *Saved) {
	s.Kind, s.H, s.Now = kind, c.h, c.now
	s.Raw = c.rawStores()
	if kind == "Restart" {
		s.Db = dumpDB(c.db)
	} else {
		exp, err := c.app.ExportAppStateAndValidators(false, nil, nil)
		if err != nil {
			s.Invalid = "export: " + err.Error()
		} else {
			s.App = exp.AppState
			var gs map[string]json.RawMessage
			if err := json.Unmarshal(exp.AppState, &gs); err != nil {
				panic(err)
			}
			for _, m := range kyveModules {
				mod, ok := c.app.ModuleManager.Modules[m].(module.HasGenesisBasics)
				if !ok {
					s.Invalid += m + ": no genesis;"
					continue
				}
				o := guard(func() error { return mod.ValidateGenesis(c.app.AppCodec(), c.txCfg(), gs[m]) })
				if !o.Ok {
					s.Invalid += m + ": " + o.Err + ";"
				}
			}
		}
	}
	f, err := os.Create("handover.gob")
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	if err := gob.NewEncoder(w).Encode(s); err != nil {
		panic(err)
	}
	w.Flush()
	f.Close()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	panic(syscall.Exec(exe, []string{exe, "-resume", "handover.gob"}, os.Environ()))
}

// takeOver is the other side; the chain is between two blocks
func takeOver(cfg *Cfg, s *Saved) *Chain {
	c := &Chain{cfg: cfg, h: s.H, now: s.Now}
	if s.Kind == "Restart" {
		c.db = loadDB(s.Db)
		c.app = openApp(c.db, cfg.NodeGas)
		c.index()
		c.ctx = c.newCtx()
		return c
	}
	c.db = dbm.NewMemDB()
	c.app = openApp(c.db, cfg.NodeGas)
	c.index()
	c.initChain(s.App, s.Now, s.H+1)
	c.ctx = c.app.BaseApp.NewContextLegacy(false, c.header())
	return c
}

func (c *Chain) initChain(state []byte, now, height int64) {
	if _, err := c.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: time.Unix(now, 0).UTC(), ConsensusParams: kyve.DefaultConsensusParams, AppStateBytes: state, InitialHeight: height}); err != nil {
		panic(err)
	}
}
