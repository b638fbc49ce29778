package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
)

// Real blocks with signed transactions: fees, fee allowances, gas adjustments, refunds.

func (c *Chain) txCfg() client.TxConfig {
	if c.txc == nil {
		c.txc = authtx.NewTxConfig(c.app.AppCodec(), authtx.DefaultSignModes)
	}
	return c.txc
}

// signersOf is who has to sign: the senders of the messages in their order, then the payer
func signersOf(t M) []int {
	signers := []int{}
	add := func(r int) {
		for _, x := range signers {
			if x == r {
				return
			}
		}
		signers = append(signers, r)
	}
	for _, m := range t["msgs"].([]M) {
		add(nI(m["act"].(Act), "from"))
	}
	add(t["payer"].(int))
	return signers
}

// signTx builds the bytes of one transaction. t: msgs, gas, fee, payer, granter, memo,
// until, flip, cut and the signatures to attach: who signs with which key which data
func (c *Chain) signTx(t M) ([]byte, error) {
	cfg := c.txCfg()
	b := cfg.NewTxBuilder()
	var msgs []sdk.Msg
	for _, m := range t["msgs"].([]M) {
		msgs = append(msgs, c.msg(m["act"].(Act)))
	}
	payer, granter := t["payer"].(int), t["granter"].(int)
	if payer != signersOf(t)[0] {
		b.SetFeePayer(c.users[payer-1].Acc)
	}
	if granter != 0 {
		b.SetFeeGranter(c.users[granter-1].Acc)
	}
	if err := b.SetMsgs(msgs...); err != nil {
		return nil, err
	}
	b.SetFeeAmount(coinsOf(t["fee"].(M)))
	b.SetGasLimit(uint64(t["gas"].(int)))
	b.SetTimeoutHeight(uint64(t["until"].(int)))
	b.SetMemo(strings.Repeat("m", t["memo"].(int)))
	want := t["sigs"].([]M)
	sigs := make([]signing.SignatureV2, len(want))
	for i, w := range want {
		sigs[i] = signing.SignatureV2{PubKey: c.users[w["pub"].(int)-1].Key.PubKey(), Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}, Sequence: uint64(w["seq"].(int))}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	for i, w := range want {
		k := c.users[w["key"].(int)-1]
		who := c.users[w["who"].(int)-1]
		d := authsigning.SignerData{Address: who.Addr, ChainID: chainID, Sequence: uint64(w["seq"].(int)), PubKey: sigs[i].PubKey}
		if acc := c.app.AccountKeeper.GetAccount(c.ctx, who.Acc); acc != nil {
			d.AccountNumber = acc.GetAccountNumber()
		}
		if w["num"] == false {
			d.AccountNumber++
		}
		if w["chain"] == false {
			d.ChainID = chainID + "-2"
		}
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), cfg.SignModeHandler(), signing.SignMode_SIGN_MODE_DIRECT, d, b.GetTx())
		if err != nil {
			return nil, err
		}
		s, err := k.Key.Sign(bz)
		if err != nil {
			return nil, err
		}
		sigs[i].Data.(*signing.SingleSignatureData).Signature = s
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	bz, err := cfg.TxEncoder()(b.GetTx())
	if err != nil {
		return nil, err
	}
	if n := t["flip"].(int); n > 0 {
		n %= 8 * len(bz)
		bz[n/8] ^= 1 << (n % 8)
	}
	if n := t["cut"].(int); n > 0 {
		bz = bz[:len(bz)-n]
	}
	return bz, nil
}

// realBlock runs a whole block through FinalizeBlock and Commit
// rehearse does what a node does besides executing the blocks that are decided: it checks and simulates
// transactions, it prepares and processes proposals that are then not decided, and it crashes before it commits.
// Nothing of it may show (the second replica does nothing of it).
func (c *Chain) rehearse(what int, raw [][]byte) {
	if c.still {
		return
	}
	try := func(f func() error) { guard(f) }
	if what&1 != 0 {
		for _, bz := range raw {
			try(func() error {
				_, err := c.app.CheckTx(&abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New})
				return err
			})
		}
	}
	if what&2 != 0 {
		for _, bz := range raw {
			try(func() error { _, _, err := c.app.Simulate(bz); return err })
		}
	}
	// a crash after the block was executed and before it was committed
	if what&8 != 0 && c.app.LastBlockHeight() == c.h-1 {
		try(func() error {
			_, err := c.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: c.h, Time: time.Unix(c.now, 0).UTC(), Txs: raw})
			return err
		})
		c.app = openApp(c.db, c.cfg.NodeGas)
		c.index()
		c.ctx = c.newCtx()
	}
	if what&4 != 0 && c.h > 2 {
		var other [][]byte
		for i := len(raw) - 1; i >= 0; i-- {
			other = append(other, raw[i])
		}
		at := time.Unix(c.now+1000, 0).UTC()
		try(func() error {
			_, err := c.app.PrepareProposal(&abci.RequestPrepareProposal{Height: c.h, Time: at, Txs: other, MaxTxBytes: 1 << 20})
			return err
		})
		try(func() error {
			_, err := c.app.ProcessProposal(&abci.RequestProcessProposal{Height: c.h, Time: at, Txs: other})
			return err
		})
		try(func() error {
			_, err := c.app.ProcessProposal(&abci.RequestProcessProposal{Height: c.h, Time: time.Unix(c.now, 0).UTC(), Txs: raw})
			return err
		})
	}
}

func (c *Chain) realBlock(a Act) Outcome {
	txs, _ := a["txs"].([]M)
	c.signed = true
	var raw [][]byte
	for _, t := range txs {
		bz, err := c.signTx(t)
		if err != nil {
			panic("signing: " + err.Error())
		}
		raw = append(raw, bz)
	}
	c.h++
	c.now = int64(nI(a, "now"))
	c.rehearse(nI(a, "decoy"), raw)
	var res *abci.ResponseFinalizeBlock
	o := guard(func() (err error) {
		res, err = c.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: c.h, Time: time.Unix(c.now, 0).UTC(), Txs: raw})
		return
	})
	a["provision"] = "0"
	o.Oks = []bool{}
	if !o.Ok {
		o.Fatal = true
		return o
	}
	if _, err := c.app.Commit(); err != nil {
		panic(err)
	}
	c.ctx = c.newCtx()
	c.mark = fmt.Sprintf("%x", c.app.LastCommitID().Hash)
	c.listen(res.Events)
	for i, r := range res.TxResults {
		c.listen(r.Events)
		o.Oks = append(o.Oks, r.Code == 0)
		txs[i]["used"] = int(r.GasUsed)
		if r.Code != 0 {
			l := r.Log
			if len(l) > 120 {
				l = l[:120]
			}
			o.Err += fmt.Sprintf("[%d %s:%d %s]", i, r.Codespace, r.Code, l)
		}
	}
	minter, err := c.app.MintKeeper.Minter.Get(c.ctx)
	if err != nil {
		panic(err)
	}
	params, err := c.app.MintKeeper.Params.Get(c.ctx)
	if err != nil {
		panic(err)
	}
	a["provision"] = minter.BlockProvision(params).Amount.String()
	return o
}

// ---- generation ------------------------------------------------------------

func (g *Gen) block(a Act) Act {
	a["decoy"] = 0
	if g.p(40) {
		a["decoy"] = g.n(1, 15)
	}
	txs := []M{}
	g.seqs = map[int]int{}
	busy := map[int]bool{}
	max := 4
	if g.prof.forge > 0 {
		max = 7
	}
	for n := g.n(0, max); n > 0; n-- {
		if g.prof.forge > 0 && len(g.old) > 0 && g.p(12) {
			// once more, as it is
			txs = append(txs, copyTx(pick(g.r, g.old)))
			continue
		}
		if t := g.tx(busy); t != nil {
			txs = append(txs, t)
			if g.prof.forge > 0 {
				g.old = append(g.old, t)
				if len(g.old) > 6 {
					g.old = g.old[1:]
				}
			}
		}
	}
	a["txs"] = txs
	return a
}

func copyTx(t M) M {
	n := M{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

// seq is the next sequence number of an account, as far as it can be foreseen
func (g *Gen) nextSeq(r int) int {
	n := 0
	if a := g.c.app.AccountKeeper.GetAccount(g.c.ctx, g.c.users[r-1].Acc); a != nil {
		n = int(a.GetSequence())
	}
	return n + g.seqs[r]
}

func (g *Gen) keyed() int {
	for {
		if x := g.n(1, len(g.c.users)); g.c.users[x-1].Key != nil {
			return x
		}
	}
}

func (g *Gen) tx(busy map[int]bool) M {
	msgs := []M{}
	basic := true
	n := 1
	if g.p(25) {
		n = g.n(2, 3)
	}
	gl := g.s.Global.Params
	adj := 0
	foreign := g.prof.forge > 0 && g.p(5)
	for try := 0; len(msgs) < n && try < 30; try++ {
		k := g.prof.choose(g.r)
		if k == "Block" || k == "Batch" || k == "UpdateParams" && !foreign || k == "Query" {
			continue
		}
		b := g.act(k)
		if b == nil {
			continue
		}
		f := nI(b, "from")
		if f < 1 || f > len(g.c.users) || has(b, "bad") || has(b, "badper") {
			continue
		}
		if g.c.users[f-1].Key == nil && !foreign || g.prof.forge == 0 && busy[f] {
			continue
		}
		m := g.c.msg(b)
		if v, ok := m.(validateBasic); ok && v.ValidateBasic() != nil {
			basic = false // refused before anything else happens
		}
		url := sdk.MsgTypeURL(m)
		for _, x := range gl.GasAdjustments {
			if x.Type == url {
				adj += int(x.Amount)
				break
			}
		}
		msgs = append(msgs, M{"type": url, "act": b})
		busy[f] = true
	}
	if len(msgs) == 0 {
		return nil
	}
	payer := nI(msgs[0]["act"].(Act), "from")
	if g.p(10) || g.c.users[payer-1].Key == nil {
		if x := g.keyed(); g.prof.forge > 0 || !busy[x] {
			payer = x
		}
	}
	busy[payer] = true
	granter := 0
	if g.p(35 - g.prof.forge) {
		granter = g.user()
		if !g.p(25 - g.prof.forge) {
			for x := 1; x <= len(g.c.users); x++ {
				if _, ok := g.s.Grants[x][payer]; ok && g.p(70) {
					granter = x
				}
			}
		}
	}
	gas := adj + 5_000_000 + g.r.Intn(3_000_000)
	if adj > 0 && g.p(8) {
		gas = adj - 1
	}
	need := math.LegacyZeroDec()
	if !gl.MinGasPrice.IsNil() {
		need = gl.MinGasPrice.MulInt64(int64(gas))
	}
	req := need.Ceil().TruncateInt()
	fee := req
	switch g.r.Intn(10 + g.prof.forge) {
	case 0:
		fee = req.SubRaw(1)
	case 1:
		fee = math.ZeroInt()
	case 2, 3:
		fee = req.AddRaw(1)
	case 4, 5, 6:
		fee = req.AddRaw(g.r.Int63n(1_000_000))
	}
	fc := M{}
	if fee.IsPositive() {
		fc["tkyve"] = fee.String()
	}
	if g.p(20) {
		fc[pick(g.r, denoms[1:])] = fmt.Sprint(g.n(1, 1_000_000))
	}
	t := M{"msgs": msgs, "gas": gas, "fee": fc, "payer": payer, "granter": granter, "basic": basic, "memo": 0, "until": 0, "flip": 0, "cut": 0}
	sigs := []M{}
	for _, r := range signersOf(t) {
		k := r
		if g.c.users[r-1].Key == nil {
			k = g.keyed()
		}
		sigs = append(sigs, M{"who": r, "key": k, "pub": k, "seq": g.nextSeq(r), "chain": true, "num": true})
	}
	passes := basic && fee.GTE(req) && gas > adj && g.c.users[signersOf(t)[0]-1].Key != nil
	if h := int(g.c.h) + 1; g.prof.forge > 0 && g.p(10) {
		t["until"] = g.n(h-1, h+1)
		passes = passes && t["until"].(int) >= h
	}
	if g.prof.forge > 0 && g.p(10) {
		t["memo"] = pick(g.r, []int{1, 255, 256, 257})
		passes = passes && t["memo"].(int) <= 256
	}
	if g.p(4 + g.prof.forge) {
		passes = false
		i := g.r.Intn(len(sigs))
		w := sigs[i]
		kinds := []string{"seq", "key"}
		if g.prof.forge > 0 {
			kinds = []string{"seq", "old", "key", "pub", "other", "chain", "num", "less", "more", "swap", "flip", "cut"}
		}
		switch pick(g.r, kinds) {
		case "seq":
			w["seq"] = w["seq"].(int) + g.n(1, 2)
		case "old":
			if w["seq"].(int) > 0 {
				w["seq"] = w["seq"].(int) - 1
			}
		case "key":
			w["key"] = g.keyed()
		case "pub":
			w["pub"] = g.keyed()
		case "other":
			x := g.keyed()
			w["key"], w["pub"] = x, x
		case "chain":
			w["chain"] = false
		case "num":
			w["num"] = false
		case "less":
			sigs = append(append([]M{}, sigs[:i]...), sigs[i+1:]...)
		case "more":
			x := g.keyed()
			sigs = append(sigs, M{"who": x, "key": x, "pub": x, "seq": g.nextSeq(x), "chain": true, "num": true})
		case "swap":
			j := g.r.Intn(len(sigs))
			sigs[i], sigs[j] = sigs[j], sigs[i]
		case "flip":
			t["flip"] = g.n(1, 20_000)
		case "cut":
			t["cut"] = g.n(1, 20)
		}
	}
	t["sigs"] = sigs
	if passes {
		for _, r := range signersOf(t) {
			g.seqs[r]++
		}
	}
	return t
}

func feeMsg(c *Chain, a Act) sdk.Msg {
	from := c.users[nI(a, "from")-1].Acc
	to := c.users[nI(a, "to")-1].Acc
	if nS(a, "kind") == "RevokeFee" {
		m := feegrant.NewMsgRevokeAllowance(from, to)
		return &m
	}
	al := &feegrant.BasicAllowance{}
	if a["unlimited"] != true {
		al.SpendLimit = coinsOf(mm(a, "coins"))
	}
	m, err := feegrant.NewMsgGrantAllowance(al, from, to)
	if err != nil {
		panic(err)
	}
	return m
}

func isBlock(k string) bool { return strings.HasSuffix(k, "Block") }
