------------------------------- MODULE Bundles -------------------------------
(***************************************************************************)
(* x/bundles: the optimistic bundle protocol - uploader selection,          *)
(* submission, votes, tally, rewards, slashing, upload timeouts, inflation  *)
(* split.                                                                   *)
(*                                                                          *)
(*  s.prop  pool -> current proposal                                        *)
(*  s.fin   pool -> sequence of finalized bundles                           *)
(*  s.rr    pool -> (staker -> round robin progress)                        *)
(***************************************************************************)
EXTENDS Pool

NoProp == [upl |-> 0, next |-> 0, sid |-> "", dsize |-> Zero, bsize |-> 0, at |-> 0,
           vv |-> <<>>, vi |-> <<>>, va |-> <<>>, from |-> "", to |-> "", sum |-> "",
           hash |-> "", sp |-> 0, comp |-> 0]
Prop(s, p) == GetOr(s.prop, p, NoProp)
SetProp(s, p, r) == [s EXCEPT !.prop = PutKey(@, p, r)]
BundlesOf(s, p) == GetOr(s.fin, p, <<>>)
AddVoter(q, v) == SortSeq(Append(q, v), LAMBDA x, y : x < y)
WithoutVoter(q, v) == SelectSeq(q, LAMBDA x : x # v)

(* ---- stake weighted round robin ------------------------------------------ *)
RRVals(s, p) == {v \in PoolMembers(s, p) : Zero \prec Stake(s, v)}
MaxOver(S, F(_)) == LET Op(acc, x) == NMax(acc, F(x)) IN FoldS(Op, F(CHOOSE x \in S : TRUE), SeqOfSet(S))
MinOver(S, F(_)) == LET Op(acc, x) == NMin(acc, F(x)) IN FoldS(Op, F(CHOOSE x \in S : TRUE), SeqOfSet(S))

Normalize(pr, total) ==
    IF DOMAIN pr = {} THEN pr
    ELSE LET F(x) == pr[x]
             diff == MaxOver(DOMAIN pr, F) -- MinOver(DOMAIN pr, F)
             thr == N(2) ** total
             pr1 == IF thr \prec diff THEN [v \in DOMAIN pr |-> NQuo(pr[v] ** thr, diff)] ELSE pr
             avg == NQuo(SumOver(DOMAIN pr1, LAMBDA x : pr1[x]), N(Cardinality(DOMAIN pr1)))
         IN  [v \in DOMAIN pr1 |-> pr1[v] -- avg]

RRLoad(s, p) ==
    LET vals == RRVals(s, p)
        total == SumOver(vals, LAMBDA v : Stake(s, v))
        saved == GetOr(s.rr, p, Empty)
    IN  Normalize([v \in vals |-> IF v \in DOMAIN saved THEN saved[v]
                                  ELSE NQuo(N(-9) ** total, N(8))], total)

\* excluded: set of stakers that shall not be chosen; if that would leave nobody
\* the exclusion is void.  Yields [s, next] (next = 0: nobody)
ChooseNext(s, p, excluded) ==
    LET vals == RRVals(s, p)
        total == SumOver(vals, LAMBDA v : Stake(s, v))
    IN  IF vals = {} THEN [s |-> [s EXCEPT !.rr = PutKey(@, p, Empty)], next |-> 0]
        ELSE LET ex == IF vals \subseteq excluded THEN {} ELSE excluded
                 elig == vals \ ex
                 pr == Normalize(RRLoad(s, p), total)
                 pr1 == [v \in vals |-> IF v \in elig THEN pr[v] ++ Stake(s, v) ELSE pr[v]]
                 best == CHOOSE v \in elig : \A w \in elig :
                             pr1[w] \prec pr1[v] \/ (pr1[v] = pr1[w] /\ v <= w)
                 eligPower == SumOver(elig, LAMBDA v : Stake(s, v))
             IN  [s |-> [s EXCEPT !.rr = PutKey(@, p, [pr1 EXCEPT ![best] = @ -- eligPower])],
                  next |-> best]
ChooseNextFrom(s, p, included) == ChooseNext(s, p, RRVals(s, p) \ included)

(* ---- points ---------------------------------------------------------------- *)
SlashAndRemove(s, p, v, kind) == RemoveMember(SlashStaker(s, p, v, kind), p, v)

AddPoint(s, p, v) ==
    LET s0 == AddPointsOf(s, p, v)
        s1 == IF InPool(s, p, v) THEN Say(s0, [t |-> "Point", p |-> p, v |-> v, n |-> s0.val[p][v].pts]) ELSE s0
    IN  IF InPool(s1, p, v) /\ s1.val[p][v].pts >= s.pr.bundles.max_points
        THEN SlashAndRemove(s1, p, v, "TIMEOUT") ELSE s1

Voted(pp) == ToSet(pp.vv) \cup ToSet(pp.vi) \cup ToSet(pp.va)
NonVoters(s, p) == PoolMembers(s, p) \ Voted(Prop(s, p))
HandleNonVoters(s, p) ==
    LET Op(acc, v) == AddPoint(acc, p, v) IN FoldS(Op, s, SeqOfInts(NonVoters(s, p)))

(* ---- votes ------------------------------------------------------------------ *)
Distribution(s, p) ==
    LET pp == Prop(s, p)
        power(q) == SumSeq([i \in DOMAIN q |-> IF InPool(s, p, q[i]) THEN Stake(s, q[i]) ELSE Zero])
    IN  [valid |-> power(pp.vv), invalid |-> power(pp.vi), abstain |-> power(pp.va),
         total |-> PoolStake(s, p)]
Verdict(d) == IF d.total = Zero THEN "NOQUORUM"
              ELSE IF d.total \prec N(2) ** d.valid THEN "VALID"
              ELSE IF d.total \preceq N(2) ** d.invalid THEN "INVALID"
              ELSE "NOQUORUM"

(* ---- rewards ------------------------------------------------------------------ *)
StorageCost(s, sp) ==
    LET q == s.pr.bundles.storage_costs
        m == {i \in DOMAIN q : q[i].storage_provider_id = sp}
    IN  IF m = {} THEN Zero ELSE q[CHOOSE i \in m : \A j \in m : i <= j].cost

ShareC(c, dec) == NormC([d \in DOMAIN c |-> DTrunc(DMul(DecOf(c[d]), dec))])

\* split of the reward total of pool p's current proposal
Payouts(s, p, total) ==
    LET pp == Prop(s, p)
        treasury == ShareC(total, s.pr.bundles.network_fee)
        r1 == CSub(total, treasury)
        cpc == DQuoInt(StorageCost(s, pp.sp) ** pp.dsize, N(Cardinality(DOMAIN r1)))
        wantedF == [d \in {x \in DOMAIN r1 : WhitelistEntry(s, x).coin_weight # Zero} |->
                       LET e == WhitelistEntry(s, d)
                       IN  DTrunc(DQuo(DMul(cpc, DecOf(Pow10(e.coin_decimals))), e.coin_weight))]
        storage == IF CIsZero(r1) THEN NoCoins ELSE CMin(r1, NormC(wantedF))
        r2 == CSub(r1, storage)
        com0 == IF CIsZero(r2) THEN NoCoins ELSE ShareC(r2, s.stk[pp.upl].com)
        r3 == CSub(r2, com0)
        hasStake == Zero \prec Stake(s, pp.upl)
    IN  IF ~StakerExists(s, pp.upl) \/ CIsZero(total)
        THEN [treasury |-> NoCoins, storage |-> NoCoins, commission |-> NoCoins, delegation |-> NoCoins]
        ELSE [treasury |-> treasury, storage |-> storage,
              commission |-> IF hasStake THEN com0 ELSE CAdd(com0, r3),
              delegation |-> IF hasStake THEN r3 ELSE NoCoins]

SlashAll(s, p, q, Kind(_)) ==
    LET Op(acc, v) == SlashAndRemove(acc, p, v, Kind(v)) IN FoldS(Op, s, q)

NoPay == [fpay |-> NoCoins, ipay |-> Zero, tre |-> NoCoins, upr |-> NoCoins, del |-> NoCoins,
          tot |-> NoCoins, cost |-> NoCoins, com |-> NoCoins]
\* yields [s, verdict, d, pay]: evaluates the current proposal, pays and slashes
Tally(s0, p) ==
    LET pp == Prop(s0, p)
        s == HandleNonVoters(s0, p)
        d == Distribution(s, p)
        v == Verdict(d)
    IN  CASE v = "VALID" ->
               LET c == ChargeFunders(s, p)
                   i == ChargeInflation(c.s, p)
                   tot == CAdd(c.paid, Coin1(Denom, i.paid))
                   pay == Payouts(i.s, p, tot)
                   s1 == ModToMod(i.s, "pool", Treasury, pay.treasury)
                   s2 == CommissionRewards(s1, pp.upl, CAdd(pay.commission, pay.storage), "pool")
                   s3 == PayoutRewards(s2.s, pp.upl, pay.delegation, "pool")
               IN  [s |-> SlashAll(s3.s, p, pp.vi, LAMBDA x : "VOTE"), verdict |-> v, d |-> d,
                    pay |-> [fpay |-> c.paid, ipay |-> i.paid, tre |-> pay.treasury,
                             upr |-> CAdd(pay.commission, pay.storage), del |-> pay.delegation,
                             tot |-> tot, cost |-> pay.storage, com |-> pay.commission]]
          [] v = "INVALID" ->
               [s |-> SlashAll(s, p, pp.vv, LAMBDA x : IF x = pp.upl THEN "UPLOAD" ELSE "VOTE"),
                verdict |-> v, d |-> d, pay |-> NoPay]
          [] OTHER -> [s |-> s, verdict |-> v, d |-> d, pay |-> NoPay]

\* the end of a round, with what was paid and who is next
SayEnd(s, p, d, st, pay, next) ==
    Say(s, [t |-> "Finalized", p |-> p, id |-> s.pools[p].total, valid |-> d.valid, invalid |-> d.invalid,
            abstain |-> d.abstain, total |-> d.total, st |-> st, at |-> s.now, upl |-> Prop(s, p).upl,
            next |-> next] @@ pay)

Finalize(s0, p, d, pay, next) ==
    LET s == SayEnd(s0, p, d, "VALID", pay, next)
        pp == Prop(s, p)
        pl == s.pools[p]
        b == [id |-> pl.total, sid |-> pp.sid, upl |-> pp.upl, from |-> pl.curIndex,
              to |-> pl.curIndex + pp.bsize, fk |-> pp.from, tk |-> pp.to, sum |-> pp.sum,
              hash |-> pp.hash, sp |-> pp.sp, comp |-> pp.comp, fh |-> s.h, ft |-> s.now,
              valid |-> d.valid, total |-> d.total]
    IN  [s EXCEPT !.fin = PutKey(@, p, Append(BundlesOf(s, p), b)),
                  !.pools[p].curIndex = @ + pp.bsize,
                  !.pools[p].total = @ + 1,
                  !.pools[p].curKey = pp.to,
                  !.pools[p].curSummary = pp.sum]

Vacate(s, p, next) == SetProp(s, p, [NoProp EXCEPT !.next = next, !.at = s.now])
Drop(s, p, next, d, st) == Vacate(SayEnd(s, p, d, st, NoPay, 0), p, next)
NoVotes == [valid |-> Zero, invalid |-> Zero, abstain |-> Zero, total |-> Zero]

Register(s, a, next) ==
    Say(Say(SetProp(s, a.pool,
      [upl |-> a.staker, next |-> next, sid |-> a.sid, dsize |-> a.dsize, bsize |-> a.bsize,
       at |-> s.now, vv |-> <<a.staker>>, vi |-> <<>>, va |-> <<>>, from |-> a.fk, to |-> a.tk,
       sum |-> a.sum, hash |-> a.hash, sp |-> s.pools[a.pool].sp, comp |-> s.pools[a.pool].comp]),
      [t |-> "Proposed", p |-> a.pool, id |-> s.pools[a.pool].total, sid |-> a.sid, v |-> a.staker,
       dsize |-> a.dsize, from |-> s.pools[a.pool].curIndex, bsize |-> a.bsize, fk |-> a.fk, tk |-> a.tk,
       sum |-> a.sum, hash |-> a.hash, at |-> s.now, sp |-> s.pools[a.pool].sp,
       comp |-> s.pools[a.pool].comp]),
      [t |-> "Vote", p |-> a.pool, v |-> a.staker, sid |-> a.sid, w |-> "VALID"])

(* ---- messages -------------------------------------------------------------------- *)
CanPropose(s, p, v, from, idx) ==
    /\ CanRun(s, p)
    /\ Authorized(s, p, v, from)
    /\ Prop(s, p).next = v
    /\ s.now >= Prop(s, p).at + s.pools[p].interval
    /\ s.pools[p].curIndex + Prop(s, p).bsize = idx

CanVote(s, p, v, from, sid) ==
    /\ CanRun(s, p)
    /\ Authorized(s, p, v, from)
    /\ Prop(s, p).sid # ""
    /\ Prop(s, p).sid = sid
    /\ v \notin ToSet(Prop(s, p).vv) \cup ToSet(Prop(s, p).vi)

SubmitBundle(s, a) ==
    Check(s, /\ CanPropose(s, a.pool, a.staker, a.from, a.idx)
             /\ a.sid # ""
             /\ a.bsize >= 1 /\ a.bsize <= s.pools[a.pool].maxSize
             /\ a.fk # "" /\ a.tk # "",
      LET p == a.pool
          pp == Prop(s, p)
          s1 == ResetPoints(s, p, a.staker)
      IN  IF pp.sid = ""
          THEN LET n == ChooseNext(s1, p, {}) IN Ok(Register(n.s, a, n.next))
          ELSE LET t == Tally(s1, p) IN
               CASE t.verdict = "VALID" ->
                      LET n == ChooseNextFrom(t.s, p, ToSet(pp.vv))
                      IN  Ok(Register(Finalize(n.s, p, t.d, t.pay, n.next), a, n.next))
                 [] t.verdict = "INVALID" -> Ok(Drop(t.s, p, pp.next, t.d, "INVALID"))
                 [] OTHER -> Fail(s))

SkipUploader(s, a) ==
    Check(s, CanPropose(s, a.pool, a.staker, a.from, a.idx),
      LET p == a.pool
          pp == Prop(s, p)
          s1 == ResetPoints(s, p, a.staker)
          \* nothing to evaluate while there is no proposal
          t == IF pp.sid = "" THEN [s |-> s1, verdict |-> "NOQUORUM", d |-> NoVotes, pay |-> NoPay] ELSE Tally(s1, p)
          n == ChooseNext(t.s, p, {a.staker})
          s2 == CASE t.verdict = "VALID" -> Vacate(Finalize(n.s, p, t.d, t.pay, n.next), p, n.next)
                  [] t.verdict = "INVALID" -> Drop(n.s, p, n.next, t.d, "INVALID")
                  [] OTHER -> SetProp(n.s, p, [pp EXCEPT !.next = n.next, !.at = s.now])
      IN  OkSay(s2, [t |-> "Skipped", p |-> p, id |-> s2.pools[p].total, v |-> a.staker, w |-> n.next]))

ClaimUploader(s, a) ==
    Check(s, CanRun(s, a.pool) /\ Authorized(s, a.pool, a.staker, a.from) /\ Prop(s, a.pool).next = 0,
      OkSay(SetProp(s, a.pool, [Prop(s, a.pool) EXCEPT !.next = a.staker, !.at = s.now]),
            [t |-> "Claimed", p |-> a.pool, id |-> s.pools[a.pool].total, v |-> a.staker]))

VoteBundle(s, a) ==
    Check(s, /\ CanVote(s, a.pool, a.staker, a.from, a.sid)
             /\ a.vote \in {"VALID", "INVALID", "ABSTAIN"}
             /\ (a.vote = "ABSTAIN" => a.staker \notin ToSet(Prop(s, a.pool).va)),
      LET pp == [Prop(s, a.pool) EXCEPT !.va = WithoutVoter(@, a.staker)]
          p1 == CASE a.vote = "VALID" -> [pp EXCEPT !.vv = AddVoter(@, a.staker)]
                  [] a.vote = "INVALID" -> [pp EXCEPT !.vi = AddVoter(@, a.staker)]
                  [] a.vote = "ABSTAIN" -> [pp EXCEPT !.va = AddVoter(@, a.staker)]
      IN  OkSay(ResetPoints(SetProp(s, a.pool, p1), a.pool, a.staker),
                [t |-> "Vote", p |-> a.pool, v |-> a.staker, sid |-> a.sid, w |-> a.vote]))

(* ---- end of block: upload timeouts -------------------------------------------------- *)
TimeoutOf(s, p) ==
    LET pp == Prop(s, p)
        st == PoolStatus(s, p)
        due == pp.at + s.pools[p].interval
    IN
    IF st # "ok"
    THEN IF st = "disabled" /\ pp.sid # "" THEN Drop(s, p, 0, NoVotes, "DISABLED")
         ELSE IF pp.next # 0 THEN SetProp(s, p, [pp EXCEPT !.next = 0]) ELSE s
    ELSE IF s.now < due THEN s
    ELSE IF pp.sid # "" /\ Verdict(Distribution(s, p)) = "NOQUORUM"
    THEN LET s1 == HandleNonVoters(s, p)
             n == ChooseNext(s1, p, {})
         IN  Drop(n.s, p, n.next, Distribution(s, p), "NOQUORUM")
    ELSE IF s.now < due + s.pr.bundles.upload_timeout THEN s
    ELSE LET s1 == IF pp.sid = ""
                   THEN LET n == ChooseNext(s, p, {})
                        IN  SetProp(n.s, p, [pp EXCEPT !.next = n.next, !.at = s.now])
                   ELSE LET t == Tally(s, p) IN
                        IF t.verdict = "VALID"
                        THEN LET n == ChooseNextFrom(t.s, p, ToSet(pp.vv))
                             IN  Vacate(Finalize(n.s, p, t.d, t.pay, n.next), p, n.next)
                        ELSE LET n == ChooseNext(t.s, p, {}) IN Drop(n.s, p, n.next, t.d, t.verdict)
         IN  IF InPool(s1, p, pp.next) THEN AddPoint(s1, p, pp.next) ELSE s1

HandleTimeouts(s) == LET Op(acc, p) == TimeoutOf(acc, p) IN FoldS(Op, s, PoolIds(s))

(* ---- begin of block: the pools' share of inflation ----------------------------------- *)
\* provision: minted coins of the block; team: part of it that belongs to the team
\* known: the chain as it is (known finding F1): the rounding rest goes, once each, to the
\* pools that can not run instead of to the first pool that can
SplitInflation(s, provision, team, known) ==
    LET protocol == DTrunc(DMul(DecOf(provision -- team), s.pr.pool.protocol_inflation_share))
        run == {p \in DOMAIN s.pools : CanRun(s, p)}
        W == SumOver(run, LAMBDA p : s.pools[p].weight)
        share == [p \in run |-> DTrunc(DMul(DQuo(s.pools[p].weight, W), DecOf(protocol)))]
        rest == protocol -- SumOver(run, LAMBDA p : share[p])
        first == CHOOSE p \in run : \A q \in run : p <= q
        Op(acc, p) == ModToPool(acc, "fee_collector", p,
                         Coin1(Denom, IF p = first /\ ~known THEN share[p] ++ rest ELSE share[p]))
        \* ... and the chain halts if that is more than there is
        OpRest(acc, p) == IF CanPayMod(acc, "fee_collector", Coin1(Denom, rest))
                          THEN ModToPool(acc, "fee_collector", p, Coin1(Denom, rest))
                          ELSE [acc EXCEPT !.halt = "emergency_" \o ToString(s.h + 1)]
        s1 == FoldS(Op, s, SeqOfInts(run))
    IN  IF protocol = Zero \/ W = Zero THEN s
        ELSE IF known THEN FoldS(OpRest, s1, SeqOfInts(DOMAIN s.pools \ run))
        ELSE s1
=============================================================================
