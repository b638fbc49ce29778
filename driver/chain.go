package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"cosmossdk.io/core/header"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	kyve "github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

const chainID = "kyve-test"

// User is an account of the universe of a history; Rank is its 1-based position in
// the order of the bech32 addresses, which is the order the stores iterate in.
type User struct {
	Rank int
	Addr string
	Acc  sdk.AccAddress
	Key  cryptotypes.PrivKey
}

var (
	modAddr = map[string]string{} // address -> module name
	modAcc  = map[string]sdk.AccAddress{}
)

func initPrefixes() {
	p := "kyve"
	c := sdk.GetConfig()
	if c.GetBech32AccountAddrPrefix() == p {
		return
	}
	c.SetBech32PrefixForAccount(p, p+"pub")
	c.SetBech32PrefixForValidator(p+"valoper", p+"valoperpub")
	c.SetBech32PrefixForConsensusNode(p+"valcons", p+"valconspub")
	c.Seal()
}

// the first twelve take no coins from users
var moduleNames = []string{
	"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "transfer",
	"bundles", "delegation", "stakers", "funders", "pool", "team", "gov", "global", "query",
}

func initModules() {
	for _, m := range moduleNames {
		a := authtypes.NewModuleAddress(m)
		modAddr[a.String()] = m
		modAcc[m] = a
	}
}

func makeUsers(n int) []*User {
	var us []*User
	for i := 0; i < n; i++ {
		k := secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif user %d", i)))
		acc := sdk.AccAddress(k.PubKey().Address())
		us = append(us, &User{Addr: acc.String(), Acc: acc, Key: k})
	}
	for _, s := range []string{teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS, authtypes.NewModuleAddress(govtypes.ModuleName).String()} {
		acc, err := sdk.AccAddressFromBech32(s)
		if err != nil {
			panic(err)
		}
		us = append(us, &User{Addr: s, Acc: acc})
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Addr < us[j].Addr })
	for i, u := range us {
		u.Rank = i + 1
	}
	return us
}

// Cfg is the genesis configuration of one history.
type Cfg struct {
	Users          int `json:"users"`
	Whale          int64
	Time           int64             `json:"time"`
	Balances       map[int]sdk.Coins `json:"-"` // by rank
	Funds          map[string]string `json:"funds"`
	Bundles        bundlestypes.Params
	Delegation     delegationtypes.Params
	Stakers        stakerstypes.Params
	Pool           pooltypes.Params
	Funders        funderstypes.Params
	Global         globaltypes.Params
	BlocksPerYr    uint64
	NoTeamMoney    bool
	FixedInflation bool
	Age            [3]uint64 // entries that the queues (unbonding, commission, leaving) have had before
	NodeGas        string    // minimum gas prices in the node's own settings
}

func defaultCfg(nUsers int) *Cfg {
	return &Cfg{
		Users: nUsers, Time: 1_690_000_000,
		Bundles: bundlestypes.DefaultParams(), Delegation: delegationtypes.DefaultParams(),
		Stakers: stakerstypes.DefaultParams(), Pool: pooltypes.DefaultParams(),
		Funders: funderstypes.DefaultParams(), Global: globaltypes.DefaultParams(),
		BlocksPerYr: 6311520,
	}
}

// Chain drives one instance of the real application.
type Chain struct {
	still  bool // nothing but the decided blocks is executed
	signed bool // sequence numbers of the accounts are part of the state
	db     dbm.DB
	app    *kyve.App
	cfg    *Cfg
	users  []*User
	byAddr map[string]int
	h      int64
	now    int64
	ctx    sdk.Context
	kgov   int
	kfound int
	kbcp   int
	txc    client.TxConfig

	genesisDoc []byte // the one asked about
	branch     bool   // blocks are not committed
	ev         []M    // what the step announced
	mark       string // what replicas agree on after a step: gas of a message, hash of a block
}

func (c *Chain) header() cmtproto.Header {
	return cmtproto.Header{ChainID: chainID, Height: c.h, Time: time.Unix(c.now, 0).UTC()}
}

func (c *Chain) newCtx() sdk.Context {
	h := c.header()
	return c.app.BaseApp.NewUncachedContext(false, h).
		WithHeaderInfo(header.Info{ChainID: chainID, Height: h.Height, Time: h.Time}).
		WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
}

func (c *Chain) index() {
	c.users = makeUsers(c.cfg.Users)
	c.byAddr = map[string]int{}
	gov := authtypes.NewModuleAddress(govtypes.ModuleName).String()
	for _, u := range c.users {
		c.byAddr[u.Addr] = u.Rank
		switch u.Addr {
		case gov:
			c.kgov = u.Rank
		case teamtypes.FOUNDATION_ADDRESS:
			c.kfound = u.Rank
		case teamtypes.BCP_ADDRESS:
			c.kbcp = u.Rank
		}
	}
}

func (c *Chain) addr(rank int) string {
	if rank < 1 || rank > len(c.users) {
		return fmt.Sprintf("unknown%d", rank)
	}
	return c.users[rank-1].Addr
}

func (c *Chain) isPlain(rank int) bool {
	return rank != c.kgov && rank != c.kfound && rank != c.kbcp
}

func genesisState(app *kyve.App, cfg *Cfg, users []*User) map[string]json.RawMessage {
	cdc := app.AppCodec()
	gs := app.DefaultGenesis()
	denom := globaltypes.Denom

	pk := ed25519.GenPrivKeyFromSecret([]byte("verif validator")).PubKey()
	val := sdk.ValAddress(pk.Address()).String()
	anyPk, _ := codectypes.NewAnyWithValue(pk)
	delKey := secp256k1.GenPrivKeyFromSecret([]byte("verif validator owner"))
	del := authtypes.NewBaseAccount(delKey.PubKey().Address().Bytes(), delKey.PubKey(), 0, 0)
	valTokens := sdk.DefaultPowerReduction

	validators := []stakingtypes.Validator{{
		OperatorAddress: val, ConsensusPubkey: anyPk, Status: stakingtypes.Bonded, Tokens: valTokens,
		DelegatorShares: math.LegacyNewDecFromInt(valTokens), UnbondingTime: time.Unix(0, 0).UTC(),
		Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.ZeroInt(),
	}}
	dels := []stakingtypes.Delegation{stakingtypes.NewDelegation(del.GetAddress().String(), val, math.LegacyNewDecFromInt(valTokens))}

	accs := authtypes.GenesisAccounts{del}
	var bals []banktypes.Balance
	total := sdk.NewCoins(sdk.NewCoin(denom, valTokens))
	bals = append(bals, banktypes.Balance{Address: modAcc["bonded_tokens_pool"].String(), Coins: total})
	if !cfg.NoTeamMoney {
		team := sdk.NewCoins(sdk.NewInt64Coin(denom, int64(teamtypes.TEAM_ALLOCATION)))
		bals = append(bals, banktypes.Balance{Address: modAcc["team"].String(), Coins: team})
		total = total.Add(team...)
	}
	if cfg.Whale > 0 {
		w := sdk.NewCoins(sdk.NewInt64Coin(denom, cfg.Whale))
		bals = append(bals, banktypes.Balance{Address: del.GetAddress().String(), Coins: w})
		total = total.Add(w...)
	}
	num := uint64(1)
	for _, u := range users {
		if u.Key == nil {
			continue
		}
		accs = append(accs, authtypes.NewBaseAccount(u.Acc, nil, num, 0))
		num++
		if co := cfg.Balances[u.Rank]; !co.IsZero() {
			bals = append(bals, banktypes.Balance{Address: u.Addr, Coins: co})
			total = total.Add(co...)
		}
	}
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	bankParams := banktypes.DefaultGenesisState().Params
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(bankParams, bals, total, nil, nil))
	sp := stakingtypes.DefaultParams()
	sp.BondDenom = denom
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, validators, dels))
	mp := minttypes.DefaultParams()
	mp.MintDenom = denom
	mp.BlocksPerYear = cfg.BlocksPerYr
	if cfg.FixedInflation {
		mp.InflationRateChange = math.LegacyZeroDec()
	}
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(minttypes.NewGenesisState(minttypes.DefaultInitialMinter(), mp))

	put := func(name string, edit func(json.RawMessage) json.RawMessage) { gs[name] = edit(gs[name]) }
	put(bundlestypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g bundlestypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Bundles
		return cdc.MustMarshalJSON(&g)
	})
	put(delegationtypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g delegationtypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Delegation
		g.QueueStateUndelegation = delegationtypes.QueueState{LowIndex: cfg.Age[0], HighIndex: cfg.Age[0]}
		return cdc.MustMarshalJSON(&g)
	})
	put(stakerstypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g stakerstypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Stakers
		g.QueueStateCommission = stakerstypes.QueueState{LowIndex: cfg.Age[1], HighIndex: cfg.Age[1]}
		g.QueueStateLeave = stakerstypes.QueueState{LowIndex: cfg.Age[2], HighIndex: cfg.Age[2]}
		return cdc.MustMarshalJSON(&g)
	})
	put(pooltypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g pooltypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Pool
		return cdc.MustMarshalJSON(&g)
	})
	put(funderstypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g funderstypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Funders
		return cdc.MustMarshalJSON(&g)
	})
	put(globaltypes.ModuleName, func(b json.RawMessage) json.RawMessage {
		var g globaltypes.GenesisState
		cdc.MustUnmarshalJSON(b, &g)
		g.Params = cfg.Global
		return cdc.MustMarshalJSON(&g)
	})
	return gs
}

func openApp(db dbm.DB, nodeGas string) *kyve.App {
	app, err := kyve.New(log.NewNopLogger(), db, nil, true, kyve.EmptyAppOptions{}, baseapp.SetChainID(chainID), baseapp.SetMinGasPrices(nodeGas))
	if err != nil {
		panic(err)
	}
	return app
}

// newChain starts a chain from genesis and commits its first block.
func newChain(cfg *Cfg, db dbm.DB) *Chain {
	if db == nil {
		db = dbm.NewMemDB()
	}
	c := &Chain{cfg: cfg, db: db, app: openApp(db, cfg.NodeGas)}
	c.index()
	gs := genesisState(c.app, cfg, c.users)
	bz, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	c.initChain(bz, cfg.Time, 1)
	c.now = cfg.Time
	c.finalizeEmpty(cfg.Time)
	return c
}

func (c *Chain) finalizeEmpty(now int64) {
	c.h = c.app.LastBlockHeight() + 1
	c.now = now
	if _, err := c.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: c.h, Time: time.Unix(now, 0).UTC()}); err != nil {
		panic(err)
	}
	if _, err := c.app.Commit(); err != nil {
		panic(err)
	}
	c.ctx = c.newCtx()
}

// Outcome of one step.
type Outcome struct {
	Ok    bool
	Err   string
	Panic bool
	Fatal bool   // the chain can not go on
	Oks   []bool // outcome of each transaction of a block
}

func guard(f func() error) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Err: fmt.Sprintf("panic: %v", r), Panic: true}
		}
	}()
	if err := f(); err != nil {
		return Outcome{Err: err.Error()}
	}
	return Outcome{Ok: true}
}

type validateBasic interface{ ValidateBasic() error }

// deliver runs messages the way a transaction or a governance proposal would, without fees: all or none.
func (c *Chain) deliver(ms ...sdk.Msg) Outcome {
	cc, write := c.ctx.CacheContext()
	cc = cc.WithEventManager(sdk.NewEventManager())
	gas := cc.GasMeter().GasConsumed()
	defer func() { c.mark = fmt.Sprint(cc.GasMeter().GasConsumed() - gas) }()
	o := guard(func() error {
		for _, m := range ms {
			if v, ok := m.(validateBasic); ok {
				if err := v.ValidateBasic(); err != nil {
					return err
				}
			}
			h := c.app.MsgServiceRouter().Handler(m)
			if h == nil {
				return fmt.Errorf("no handler for %T", m)
			}
			res, err := h(cc, m)
			if err != nil {
				return err
			}
			c.listen(res.Events)
		}
		return nil
	})
	if o.Ok {
		write()
	} else {
		c.ev = nil
	}
	return o
}

// beginBlock starts the next block at time now.
func (c *Chain) beginBlock(now int64) (Outcome, string) {
	c.h++
	c.now = now
	if c.branch {
		c.ctx = c.nextCtx()
	} else {
		c.ctx = c.newCtx()
	}
	provision := "0"
	o := guard(func() error {
		cc, write := c.ctx.CacheContext()
		r, err := c.app.BeginBlocker(cc)
		if err != nil {
			return err
		}
		c.listen(r.Events)
		write()
		return nil
	})
	if o.Ok {
		minter, err := c.app.MintKeeper.Minter.Get(c.ctx)
		if err != nil {
			panic(err)
		}
		params, err := c.app.MintKeeper.Params.Get(c.ctx)
		if err != nil {
			panic(err)
		}
		provision = minter.BlockProvision(params).Amount.String()
	}
	o.Fatal = !o.Ok
	return o, provision
}

func (c *Chain) endBlock() Outcome {
	o := guard(func() error {
		cc, write := c.ctx.CacheContext()
		r, err := c.app.EndBlocker(cc)
		if err != nil {
			return err
		}
		c.listen(r.Events)
		write()
		return nil
	})
	o.Fatal = !o.Ok
	if o.Ok && !c.branch {
		c.mark = fmt.Sprintf("%x", c.app.CommitMultiStore().Commit().Hash)
		c.ctx = c.newCtx()
	}
	return o
}
