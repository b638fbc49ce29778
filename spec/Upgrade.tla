------------------------------ MODULE Upgrade ------------------------------
(***************************************************************************)
(* The software upgrade to v1.5.  The version before knew one coin and     *)
(* stored amounts as integers; what is migrated keeps its value.  Some     *)
(* parameters get new values: the coin whitelist, the storage costs, the   *)
(* largest voting power, and every pool gets the same share of inflation.  *)
(***************************************************************************)
EXTENDS Genesis

P7 == N(10000000)
P14 == P7 ** P7
Andromeda == "ibc/58EDC95E791161D711F4CF012ACF30A5DA8DDEB40A484F293A52B1968903F643"
SourceProtocol == "ibc/0D2ABDF58A5DBA3D2A90398F8737D16ECAC0DDE58F9792B2918495D499400672"

\* the coins that can be funded: the minima of the native coin stay
UpgradedWhitelist(s) ==
    LET w == WhitelistEntry(s, Denom)
        foreign(d, weight) == [coin_denom |-> d, coin_decimals |-> 6, min_funding_amount |-> N(1000000000),
                               min_funding_amount_per_bundle |-> N(100000), coin_weight |-> weight]
    IN  <<[w EXCEPT !.coin_decimals = 6, !.coin_weight = N(358) ** P14],
          foreign(Andromeda, N(1007) ** P14), foreign(SourceProtocol, N(207) ** P14)>>
UpgradedCosts ==
    <<[storage_provider_id |-> 1, cost |-> N(4194) ** N(1000000)],
      [storage_provider_id |-> 2, cost |-> N(6288) ** N(1000000)],
      [storage_provider_id |-> 3, cost |-> Zero]>>
UpgradedParams(s) ==
    [s.pr EXCEPT !.funders.coin_whitelist = UpgradedWhitelist(s),
                 !.bundles.storage_costs = UpgradedCosts,
                 !.pool.max_voting_power_per_pool = N(5000) ** P14]

\* the protocol nodes of these runtimes are told to upgrade
UpgradedRuntimes == {"@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync"}
RuntimeVersion == "1.2.0"
RuntimeDuration == 600
ArchBinary(r, arch) ==
    LET name == CASE r = "@kyvejs/tendermint" -> "tendermint" [] r = "@kyvejs/tendermint-bsync" -> "tendermint-bsync"
                  [] OTHER -> "tendermint-ssync"
    IN  "\"kyve-" \o arch \o "\":\"https://github.com/KYVENetwork/kyvejs/releases/download/%40kyvejs%2F" \o name
          \o "%401.2.0/kyve-" \o arch \o ".zip\""
Binaries(r) == "{" \o ArchBinary(r, "linux-arm64") \o "," \o ArchBinary(r, "linux-x64") \o "," \o ArchBinary(r, "macos-x64") \o "}"
UpgradedPool(s, p) ==
    LET pl == [s.pools[p] EXCEPT !.weight = Prec]
    IN  IF pl.runtime \in UpgradedRuntimes /\ pl.uat = 0
        THEN [pl EXCEPT !.uver = RuntimeVersion, !.ubin = Binaries(pl.runtime), !.uat = s.now, !.udur = RuntimeDuration]
        ELSE pl

\* what is announced: the new parameters (of what was before, nothing), every pool and every runtime
UpgradeSays(s, t) ==
    LET pools == SeqOfInts(DOMAIN t.pools)
        r(x) == [t |-> "UpgradeScheduled", runtime |-> x, version |-> RuntimeVersion, at |-> s.now, dur |-> RuntimeDuration,
                 binaries |-> Binaries(x), pools |-> SelectSeq(pools, LAMBDA p : t.pools[p].runtime = x /\ s.pools[p].uat = 0)]
    IN  <<[t |-> "Params", m |-> "funders", old |-> [coin_whitelist |-> <<>>, min_funding_multiple |-> 0], new |-> t.pr.funders],
          [t |-> "Params", m |-> "bundles", new |-> t.pr.bundles,
           old |-> [upload_timeout |-> 0, storage_costs |-> <<>>, network_fee |-> Zero, max_points |-> 0]]>>
        \o Map(pools, LAMBDA p : PoolUpdated(p, t.pools[p]))
        \o <<r("@kyvejs/tendermint"), r("@kyvejs/tendermint-bsync"), r("@kyvejs/tendermint-ssync")>>

Upgrade(s, a) ==
    LET t == [s EXCEPT !.pr = UpgradedParams(s), !.pools = [p \in DOMAIN @ |-> UpgradedPool(s, p)]]
    IN  Ok([t EXCEPT !.ev = @ \o UpgradeSays(s, t)])

\* proposals that wait in the governance module are read as they were written
UpgradedMsg(m) ==
    IF m.t = "CreatePool"
    THEN [f \in DOMAIN m \cup {"endKey"} |-> IF f = "endKey" THEN "" ELSE IF f = "weight" THEN DecOf(m.weight) ELSE m[f]]
    ELSE m
UpgradedProposals(a) ==
    [list |-> Map(a.before, LAMBDA p : [p EXCEPT !.msgs = Map(@, UpgradedMsg)]),
     deposit |-> Coin1(Denom, N(50000) ** N(1000000)), period |-> 1800]
=============================================================================
