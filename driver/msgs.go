package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// Act is one action in the vocabulary of the specification.
type Act = M

func num(a Act, k string) string {
	switch v := a[k].(type) {
	case string:
		return v
	case nil:
		return "0"
	default:
		return fmt.Sprint(v)
	}
}
func nU(a Act, k string) uint64 {
	x, err := strconv.ParseUint(num(a, k), 10, 64)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", k, err))
	}
	return x
}
func nI(a Act, k string) int {
	switch v := a[k].(type) {
	case int:
		return v
	case int64:
		return int(v)
	case uint64:
		return int(v)
	case uint32:
		return int(v)
	case float64:
		return int(v)
	case nil:
		return 0
	default:
		panic(fmt.Sprintf("%s: %T", k, v))
	}
}
func nS(a Act, k string) string { s, _ := a[k].(string); return s }
func has(a Act, k string) bool  { _, ok := a[k]; return ok }
func mm(a Act, k string) M      { m, _ := a[k].(M); return m }

func decOf(raw string) math.LegacyDec {
	b, ok := new(big.Int).SetString(raw, 10)
	if !ok {
		panic("dec " + raw)
	}
	return math.LegacyNewDecFromBigIntWithPrec(b, 18)
}

func coinsOf(m M) sdk.Coins {
	cs := sdk.Coins{}
	for d, v := range m {
		i, ok := math.NewIntFromString(fmt.Sprint(v))
		if !ok {
			panic(v)
		}
		cs = append(cs, sdk.Coin{Denom: d, Amount: i})
	}
	return cs.Sort()
}

// malformed coin lists, selected by a.bad
func spoil(cs sdk.Coins, how string) sdk.Coins {
	switch how {
	case "dup":
		if len(cs) > 0 {
			return append(sdk.Coins{cs[0]}, cs...)
		}
		return sdk.Coins{sdk.NewInt64Coin("tkyve", 5), sdk.NewInt64Coin("tkyve", 5)}
	case "zero":
		return append(sdk.Coins{{Denom: "aaa", Amount: math.ZeroInt()}}, cs...)
	case "neg":
		return append(sdk.Coins{{Denom: "aaa", Amount: math.NewInt(-5)}}, cs...)
	case "unsorted":
		return append(cs, sdk.Coin{Denom: "aaa", Amount: math.NewInt(5)})
	}
	return cs
}

func payload(m M, decs map[string]bool) string {
	o := M{}
	for k, v := range m {
		if decs[k] {
			o[k] = decOf(fmt.Sprint(v)).String()
		} else {
			o[k] = v
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// JSON payload of a parameter change
func paramPayload(mod string, p M) string {
	o := M{}
	list := func(v interface{}, f func(M) M) []interface{} {
		r := []interface{}{}
		switch l := v.(type) {
		case []interface{}:
			for _, e := range l {
				r = append(r, f(e.(M)))
			}
		default:
			panic(fmt.Sprintf("%T", v))
		}
		return r
	}
	dec := func(m M, ks ...string) M {
		c := M{}
		for k, v := range m {
			c[k] = v
		}
		for _, k := range ks {
			if has(c, k) {
				c[k] = decOf(fmt.Sprint(c[k])).String()
			}
		}
		return c
	}
	for k, v := range p {
		switch k {
		case "storage_costs":
			o[k] = list(v, func(m M) M { return dec(m, "cost") })
		case "coin_whitelist":
			o[k] = list(v, func(m M) M { return dec(m, "coin_weight") })
		case "gas_adjustments":
			o[k] = list(v, func(m M) M { return m })
		case "gas_refunds":
			o[k] = list(v, func(m M) M { return dec(m, "fraction") })
		case "network_fee", "vote_slash", "upload_slash", "timeout_slash", "protocol_inflation_share", "pool_inflation_payout_rate",
			"max_voting_power_per_pool", "min_gas_price", "burn_ratio":
			o[k] = decOf(fmt.Sprint(v)).String()
		default:
			o[k] = v
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// JSON payload of a pool update
func poolPayload(p M) string {
	names := map[string]string{"name": "Name", "runtime": "Runtime", "logo": "Logo", "config": "Config", "interval": "UploadInterval",
		"weight": "InflationShareWeight", "minDel": "MinDelegation", "maxSize": "MaxBundleSize", "sp": "StorageProviderId", "comp": "CompressionId", "endKey": "EndKey"}
	o := M{}
	for k, v := range p {
		switch k {
		case "weight":
			o[names[k]] = decOf(fmt.Sprint(v)).String()
		case "minDel":
			x, _ := strconv.ParseUint(fmt.Sprint(v), 10, 64)
			o[names[k]] = x
		default:
			o[names[k]] = v
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (c *Chain) msg(a Act) sdk.Msg {
	from := c.addr(nI(a, "from"))
	pool := uint64(nI(a, "pool"))
	staker := c.addr(nI(a, "staker"))
	switch nS(a, "kind") {
	case "CreateStaker":
		return &stakerstypes.MsgCreateStaker{Creator: from, Amount: nU(a, "amt"), Commission: decOf(num(a, "com"))}
	case "UpdateMetadata":
		m := mm(a, "meta")
		return &stakerstypes.MsgUpdateMetadata{Creator: from, Moniker: nS(m, "moniker"), Website: nS(m, "website"), Identity: nS(m, "identity"), SecurityContact: nS(m, "contact"), Details: nS(m, "details")}
	case "UpdateCommission":
		return &stakerstypes.MsgUpdateCommission{Creator: from, Commission: decOf(num(a, "com"))}
	case "ClaimCommission":
		return &stakerstypes.MsgClaimCommissionRewards{Creator: from, Amounts: spoil(coinsOf(mm(a, "coins")), nS(a, "bad"))}
	case "JoinPool":
		return &stakerstypes.MsgJoinPool{Creator: from, PoolId: pool, Valaddress: c.addr(nI(a, "val")), Amount: nU(a, "amt")}
	case "LeavePool":
		return &stakerstypes.MsgLeavePool{Creator: from, PoolId: pool}
	case "Delegate":
		return &delegationtypes.MsgDelegate{Creator: from, Staker: staker, Amount: nU(a, "amt")}
	case "WithdrawRewards":
		return &delegationtypes.MsgWithdrawRewards{Creator: from, Staker: staker}
	case "Undelegate":
		return &delegationtypes.MsgUndelegate{Creator: from, Staker: staker, Amount: nU(a, "amt")}
	case "Redelegate":
		return &delegationtypes.MsgRedelegate{Creator: from, FromStaker: staker, ToStaker: c.addr(nI(a, "to")), Amount: nU(a, "amt")}
	case "CreateFunder":
		m := mm(a, "meta")
		return &funderstypes.MsgCreateFunder{Creator: from, Moniker: nS(m, "moniker"), Website: nS(m, "website"), Identity: nS(m, "identity"), Contact: nS(m, "contact"), Description: nS(m, "description")}
	case "UpdateFunder":
		m := mm(a, "meta")
		return &funderstypes.MsgUpdateFunder{Creator: from, Moniker: nS(m, "moniker"), Website: nS(m, "website"), Identity: nS(m, "identity"), Contact: nS(m, "contact"), Description: nS(m, "description")}
	case "FundPool":
		return &funderstypes.MsgFundPool{Creator: from, PoolId: pool, Amounts: spoil(coinsOf(mm(a, "coins")), nS(a, "bad")), AmountsPerBundle: spoil(coinsOf(mm(a, "per")), nS(a, "badper"))}
	case "DefundPool":
		return &funderstypes.MsgDefundPool{Creator: from, PoolId: pool, Amounts: spoil(coinsOf(mm(a, "coins")), nS(a, "bad"))}
	case "SubmitBundle":
		return &bundlestypes.MsgSubmitBundleProposal{Creator: from, Staker: staker, PoolId: pool, StorageId: nS(a, "sid"), DataSize: nU(a, "dsize"),
			DataHash: nS(a, "hash"), FromIndex: uint64(nI(a, "idx")), BundleSize: uint64(nI(a, "bsize")), FromKey: nS(a, "fk"), ToKey: nS(a, "tk"), BundleSummary: nS(a, "sum")}
	case "VoteBundle":
		v := map[string]bundlestypes.VoteType{"VALID": 1, "INVALID": 2, "ABSTAIN": 3, "UNSPECIFIED": 0, "OTHER": 7}[nS(a, "vote")]
		return &bundlestypes.MsgVoteBundleProposal{Creator: from, Staker: staker, PoolId: pool, StorageId: nS(a, "sid"), Vote: v}
	case "SkipUploader":
		return &bundlestypes.MsgSkipUploaderRole{Creator: from, Staker: staker, PoolId: pool, FromIndex: uint64(nI(a, "idx"))}
	case "ClaimUploader":
		return &bundlestypes.MsgClaimUploaderRole{Creator: from, Staker: staker, PoolId: pool}
	case "CreatePool":
		p := mm(a, "p")
		bin := nS(p, "binaries")
		return &pooltypes.MsgCreatePool{Authority: from, Name: nS(p, "name"), Runtime: nS(p, "runtime"), Logo: nS(p, "logo"), Config: nS(p, "config"),
			StartKey: nS(p, "startKey"), EndKey: nS(p, "endKey"), UploadInterval: uint64(nI(p, "interval")), InflationShareWeight: decOf(num(p, "weight")),
			MinDelegation: nU(p, "minDel"), MaxBundleSize: uint64(nI(p, "maxSize")), Version: nS(p, "version"), Binaries: bin,
			StorageProviderId: uint32(nI(p, "sp")), CompressionId: uint32(nI(p, "comp"))}
	case "UpdatePool":
		pl := poolPayload(mm(a, "p"))
		if a["json"] == false {
			pl = nS(a, "text")
		}
		return &pooltypes.MsgUpdatePool{Authority: from, Id: pool, Payload: pl}
	case "DisablePool":
		return &pooltypes.MsgDisablePool{Authority: from, Id: pool}
	case "EnablePool":
		return &pooltypes.MsgEnablePool{Authority: from, Id: pool}
	case "ScheduleUpgrade":
		return &pooltypes.MsgScheduleRuntimeUpgrade{Authority: from, Runtime: nS(a, "runtime"), Version: nS(a, "version"), ScheduledAt: uint64(nI(a, "at")), Duration: uint64(nI(a, "dur")), Binaries: nS(a, "binaries")}
	case "CancelUpgrade":
		return &pooltypes.MsgCancelRuntimeUpgrade{Authority: from, Runtime: nS(a, "runtime")}
	case "UpdateParams":
		mod := nS(a, "module")
		pl := ""
		if a["json"] == false {
			pl = nS(a, "text")
		} else {
			pl = paramPayload(mod, mm(a, "p"))
		}
		switch mod {
		case "bundles":
			return &bundlestypes.MsgUpdateParams{Authority: from, Payload: pl}
		case "delegation":
			return &delegationtypes.MsgUpdateParams{Authority: from, Payload: pl}
		case "stakers":
			return &stakerstypes.MsgUpdateParams{Authority: from, Payload: pl}
		case "pool":
			return &pooltypes.MsgUpdateParams{Authority: from, Payload: pl}
		case "funders":
			return &funderstypes.MsgUpdateParams{Authority: from, Payload: pl}
		case "global":
			return &globaltypes.MsgUpdateParams{Authority: from, Payload: pl}
		}
	case "CreateTeamAccount":
		return &teamtypes.MsgCreateTeamVestingAccount{Authority: from, TotalAllocation: nU(a, "alloc"), Commencement: uint64(nI(a, "comm"))}
	case "Clawback":
		return &teamtypes.MsgClawback{Authority: from, Id: uint64(nI(a, "id")), Clawback: uint64(nI(a, "at"))}
	case "ClaimUnlocked":
		return &teamtypes.MsgClaimUnlocked{Authority: from, Id: uint64(nI(a, "id")), Amount: nU(a, "amt"), Recipient: c.addr(nI(a, "to"))}
	case "ClaimAccountRewards":
		return &teamtypes.MsgClaimAccountRewards{Authority: from, Id: uint64(nI(a, "id")), Amount: nU(a, "amt"), Recipient: c.addr(nI(a, "to"))}
	case "ClaimAuthorityRewards":
		return &teamtypes.MsgClaimAuthorityRewards{Authority: from, Amount: nU(a, "amt"), Recipient: c.addr(nI(a, "to"))}
	case "GrantFee", "RevokeFee":
		return feeMsg(c, a)
	case "Send":
		return &banktypes.MsgSend{FromAddress: from, ToAddress: c.addr(nI(a, "to")), Amount: coinsOf(mm(a, "coins"))}
	case "SendMod":
		return &banktypes.MsgSend{FromAddress: from, ToAddress: modAcc[nS(a, "mod")].String(), Amount: coinsOf(mm(a, "coins"))}
	case "SendPool":
		to := authtypes.NewModuleAddress(fmt.Sprintf("%s/%d", pooltypes.ModuleName, pool)).String()
		return &banktypes.MsgSend{FromAddress: from, ToAddress: to, Amount: coinsOf(mm(a, "coins"))}
	}
	return nil
}
