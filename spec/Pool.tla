-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* x/pool: pool registry, runtime upgrades, pool inflation accounts, and   *)
(* the condition under which a pool can run.                               *)
(***************************************************************************)
EXTENDS Funders

PoolIds(s) == SeqOfInts(DOMAIN s.pools)

\* first reason why the pool cannot run, "ok" if there is none
PoolStatus(s, p) ==
    IF ~PoolExists(s, p) THEN "notfound"
    ELSE LET pl == s.pools[p] IN
         IF pl.uat > 0 /\ s.now >= pl.uat THEN "upgrading"
         ELSE IF pl.disabled THEN "disabled"
         ELSE IF pl.endKey # "" /\ pl.curKey = pl.endKey THEN "endkey"
         ELSE IF PoolStake(s, p) \prec pl.minDel THEN "mindelegation"
         ELSE IF DTrunc(s.pr.pool.max_voting_power_per_pool ** PoolStake(s, p)) \prec MaxStake(s, p)
              THEN "votingpower"
         ELSE "ok"
CanRun(s, p) == PoolStatus(s, p) = "ok"

CreatePool(s, a) ==
    Check(s, /\ a.from = s.k.gov
             /\ a.p.interval > 0 /\ Zero \preceq a.p.weight /\ a.p.maxSize > 0
             /\ a.json,
      LET id == Cardinality(DOMAIN s.pools)
          rec == [id |-> id, name |-> a.p.name, runtime |-> a.p.runtime, logo |-> a.p.logo,
                  config |-> a.p.config, startKey |-> a.p.startKey, curKey |-> "",
                  curSummary |-> "", curIndex |-> 0, total |-> 0, interval |-> a.p.interval,
                  weight |-> a.p.weight, minDel |-> a.p.minDel, maxSize |-> a.p.maxSize,
                  disabled |-> FALSE, pver |-> a.p.version, pbin |-> a.p.binaries, plast |-> s.now,
                  uver |-> "", ubin |-> "", uat |-> 0, udur |-> 0,
                  sp |-> a.p.sp, comp |-> a.p.comp, endKey |-> a.p.endKey]
      IN  OkSay([s EXCEPT !.pools = PutKey(@, id, rec), !.fstate = PutKey(@, id, <<>>)],
                [t |-> "CreatePool", p |-> id, name |-> rec.name, runtime |-> rec.runtime, logo |-> rec.logo,
                 config |-> rec.config, startKey |-> rec.startKey, endKey |-> rec.endKey,
                 interval |-> rec.interval, weight |-> rec.weight, minDel |-> rec.minDel,
                 maxSize |-> rec.maxSize, version |-> rec.pver, binaries |-> rec.pbin,
                 sp |-> rec.sp, comp |-> rec.comp]))

PoolUpdated(p, rec) ==
    [t |-> "PoolUpdated", p |-> p, name |-> rec.name, runtime |-> rec.runtime, logo |-> rec.logo, config |-> rec.config,
     interval |-> rec.interval, weight |-> rec.weight, minDel |-> rec.minDel, maxSize |-> rec.maxSize,
     sp |-> rec.sp, comp |-> rec.comp]
UpdatePool(s, a) ==
    Check(s, /\ a.from = s.k.gov
             /\ a.json
             /\ ("interval" \in DOMAIN a.p => a.p.interval > 0)
             /\ ("weight" \in DOMAIN a.p => Zero \preceq a.p.weight)
             /\ ("maxSize" \in DOMAIN a.p => a.p.maxSize > 0)
             /\ PoolExists(s, a.pool),
      LET s1 == [s EXCEPT !.pools[a.pool] = [f \in DOMAIN @ |-> IF f \in DOMAIN a.p THEN a.p[f] ELSE @[f]]]
          rec == s1.pools[a.pool]
      IN  OkSay(s1,
                PoolUpdated(a.pool, rec)))

DisablePool(s, a) ==
    Check(s, a.from = s.k.gov /\ PoolExists(s, a.pool) /\ ~s.pools[a.pool].disabled,
      LET s1 == [s EXCEPT !.pools[a.pool].disabled = TRUE]
          Op(acc, v) == RemoveMember(acc, a.pool, v)
          s2 == FoldS(Op, s1, SeqOfInts(PoolMembers(s1, a.pool)))
      IN  OkSay(PoolToMod(s2, a.pool, Treasury, Coin1(Denom, Amt(PoolCoins(s2, a.pool), Denom))),
                [t |-> "PoolDisabled", p |-> a.pool]))

EnablePool(s, a) ==
    Check(s, a.from = s.k.gov /\ PoolExists(s, a.pool) /\ s.pools[a.pool].disabled,
      OkSay([s EXCEPT !.pools[a.pool].disabled = FALSE], [t |-> "PoolEnabled", p |-> a.pool]))

ScheduleUpgrade(s, a) ==
    Check(s, a.from = s.k.gov /\ a.version # "" /\ a.binaries # "",
      LET at == IF a.at < s.now THEN s.now ELSE a.at
          hit == {p \in DOMAIN s.pools : s.pools[p].runtime = a.runtime /\ s.pools[p].uat = 0}
      IN  OkSay([s EXCEPT !.pools = [p \in DOMAIN @ |->
                IF p \in hit
                THEN [@[p] EXCEPT !.uver = a.version, !.ubin = a.binaries, !.uat = at, !.udur = a.dur]
                ELSE @[p]]],
                [t |-> "UpgradeScheduled", runtime |-> a.runtime, version |-> a.version, at |-> at,
                 dur |-> a.dur, binaries |-> a.binaries, pools |-> SeqOfInts(hit)]))

CancelUpgrade(s, a) ==
    Check(s, a.from = s.k.gov,
      LET hit == {p \in DOMAIN s.pools : s.pools[p].runtime = a.runtime /\ s.pools[p].uat # 0}
      IN  OkSay([s EXCEPT !.pools = [p \in DOMAIN @ |->
                IF p \in hit THEN [@[p] EXCEPT !.uver = "", !.ubin = "", !.uat = 0, !.udur = 0]
                ELSE @[p]]],
                [t |-> "UpgradeCancelled", runtime |-> a.runtime, pools |-> SeqOfInts(hit)]))

\* end of block
HandleUpgrades(s) ==
    [s EXCEPT !.pools = [p \in DOMAIN @ |->
        IF @[p].uat > 0 /\ s.now >= @[p].uat
        THEN LET pl == @[p]
                 p1 == IF pl.pver # pl.uver \/ pl.pbin # pl.ubin
                       THEN [pl EXCEPT !.pver = pl.uver, !.pbin = pl.ubin, !.plast = pl.uat] ELSE pl
             IN  IF s.now >= pl.uat + pl.udur
                 THEN [p1 EXCEPT !.uver = "", !.ubin = "", !.uat = 0, !.udur = 0] ELSE p1
        ELSE @[p]]]

\* the pool's inflation payout of one bundle; yields [s, paid: Num]
ChargeInflation(s, p) ==
    LET n == DTrunc(DMul(DecOf(Amt(PoolCoins(s, p), Denom)), s.pr.pool.pool_inflation_payout_rate))
    IN  [s |-> PoolToMod(s, p, "pool", Coin1(Denom, n)), paid |-> n]
=============================================================================
