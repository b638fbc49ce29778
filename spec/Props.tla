------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties of /verif/properties.jsonl as predicates over states and *)
(* transitions of Kyve.tla.  They are checked on the specification         *)
(* (MC_*.cfg) and evaluated on every recorded step of the real chain       *)
(* (Trace.tla).  Inv_Cxx(s): state predicate; Step_Cxx(s, a, ok, t): the   *)
(* step from s by action a with outcome ok to t.                           *)
(***************************************************************************)
EXTENDS Kyve

BlockKinds == {"BeginBlock", "EndBlock", "Block"}
IsMsg(a) == a.kind \notin BlockKinds
Bag(S, F(_)) == SumOver(S, F)
PoolSet(s) == DOMAIN s.pools
LastOf(q) == q[Len(q)]
IsPrefixOf(q, r) == Len(q) <= Len(r) /\ \A i \in DOMAIN q : q[i] = r[i]
Votes(pp) == <<pp.vv, pp.vi, pp.va>>
Sum2(S, F(_, _)) == SumOver(S, LAMBDA x : F(x[1], x[2]))
DelegationPairs(s) == {<<v, d>> : v \in DOMAIN s.dl, d \in UNION {DOMAIN s.dl[w] : w \in DOMAIN s.dl}}
Pairs(s) == {x \in DelegationPairs(s) : x[2] \in DOMAIN s.dl[x[1]]}
TotalStakeAll(s) == SumOver(DOMAIN s.dd, LAMBDA v : s.dd[v].total)
OutstandingAll(s) == CSumSeq([i \in DOMAIN SeqOfSet(Pairs(s)) |->
                        LET x == SeqOfSet(Pairs(s))[i] IN Outstanding(s, x[1], x[2])])
NewBundle(s, t, p) == Len(BundlesOf(t, p)) = Len(BundlesOf(s, p)) + 1

(* ---- C01: one gapless immutable chain per pool --------------------------- *)
Inv_C01(s) ==
    \A p \in PoolSet(s) :
        LET q == BundlesOf(s, p) pl == s.pools[p] IN
        /\ pl.total = Len(q)
        /\ \A i \in DOMAIN q :
              /\ q[i].id = i - 1
              /\ q[i].from = IF i = 1 THEN 0 ELSE q[i-1].to
              /\ q[i].to > q[i].from
        /\ IF q = <<>> THEN pl.curIndex = 0 /\ pl.curKey = "" /\ pl.curSummary = ""
           ELSE /\ pl.curIndex = LastOf(q).to /\ pl.curKey = LastOf(q).tk
                /\ pl.curSummary = LastOf(q).sum
Step_C01(s, a, ok, t) ==
    \A p \in PoolSet(t) :
        LET q == BundlesOf(s, p) r == BundlesOf(t, p) IN
        /\ IsPrefixOf(q, r)
        /\ (a.kind # "Block" => Len(r) <= Len(q) + 1)
        /\ (r # q => a.kind \in {"SubmitBundle", "SkipUploader", "EndBlock", "Block"})
        /\ (r # q /\ a.kind # "Block") =>
              LET pp == Prop(s, p) b == LastOf(r) IN
              /\ pp.sid # "" /\ b.sid = pp.sid /\ b.upl = pp.upl /\ b.fk = pp.from /\ b.tk = pp.to
              /\ b.hash = pp.hash /\ b.sum = pp.sum /\ b.sp = pp.sp /\ b.comp = pp.comp
              /\ b.to - b.from = pp.bsize /\ b.fh = t.h /\ b.ft = t.now

(* ---- C02: stake majority ---------------------------------------------------- *)
Step_C02(s, a, ok, t) ==
    (a.kind # "Block") =>
    \A p \in PoolSet(t) :
        LET pp == Prop(s, p)
            power(q) == SumSeq([i \in DOMAIN q |-> IF InPool(s, p, q[i]) THEN Stake(s, q[i]) ELSE Zero])
        IN NewBundle(s, t, p) =>
             LET b == LastOf(BundlesOf(t, p)) IN
             /\ b.total \prec N(2) ** b.valid
             /\ b.valid \preceq power(pp.vv) /\ b.total \preceq PoolStake(s, p)
             \* nobody was removed meanwhile: exactly the stake of the moment
             /\ ((PoolMembers(s, p) = PoolMembers(t, p) /\ \A v \in PoolMembers(s, p) : Stake(s, v) = Stake(t, v))
                   => (b.valid = power(pp.vv) /\ b.total = PoolStake(s, p)))

(* ---- C03: votes ----------------------------------------------------------------- *)
Step_C03(s, a, ok, t) ==
    /\ (a.kind = "VoteBundle" /\ ok) =>
         LET p == a.pool pp == Prop(s, p) qq == Prop(t, p) v == a.staker IN
         /\ CanVote(s, p, v, a.from, a.sid) /\ a.vote \in {"VALID", "INVALID", "ABSTAIN"}
         /\ (v \in ToSet(qq.vv)) = (a.vote = "VALID")
         /\ (v \in ToSet(qq.vi)) = (a.vote = "INVALID")
         /\ (v \in ToSet(qq.va)) = (a.vote = "ABSTAIN")
         /\ WithoutVoter(qq.vv, v) = WithoutVoter(pp.vv, v)
         /\ WithoutVoter(qq.vi, v) = WithoutVoter(pp.vi, v)
         /\ WithoutVoter(qq.va, v) = WithoutVoter(pp.va, v)
    /\ (a.kind = "VoteBundle" /\ ~ok) => Votes(Prop(s, a.pool)) = Votes(Prop(t, a.pool))
Inv_C03(s) ==
    \A p \in DOMAIN s.prop :
        LET pp == s.prop[p] IN
        /\ ToSet(pp.vv) \cap ToSet(pp.vi) = {} /\ ToSet(pp.vv) \cap ToSet(pp.va) = {} /\ ToSet(pp.vi) \cap ToSet(pp.va) = {}
        /\ (pp.sid = "" => Votes(pp) = <<<<>>, <<>>, <<>>>>)
        /\ (pp.sid # "" => pp.upl # 0)

(* ---- C04: uploader protocol ------------------------------------------------------- *)
Step_C04(s, a, ok, t) ==
    /\ (a.kind \in {"SubmitBundle", "SkipUploader"} /\ ok) =>
         /\ Prop(s, a.pool).next = a.staker /\ Authorized(s, a.pool, a.staker, a.from)
         /\ s.now >= Prop(s, a.pool).at + s.pools[a.pool].interval
         /\ a.idx = s.pools[a.pool].curIndex + Prop(s, a.pool).bsize
    /\ (a.kind = "ClaimUploader" /\ ok) =>
         /\ Prop(s, a.pool).next = 0 /\ Authorized(s, a.pool, a.staker, a.from)
         /\ Prop(t, a.pool).next = a.staker
    /\ (a.kind = "SubmitBundle" /\ ok) =>
         LET qq == Prop(t, a.pool) IN
         /\ a.sid # "" /\ a.fk # "" /\ a.tk # "" /\ a.bsize \in 1..s.pools[a.pool].maxSize
         \* the previous proposal found a verdict
         /\ (Prop(s, a.pool).sid # "" => NewBundle(s, t, a.pool) \/ qq.sid = "")
         /\ (qq.sid # "" => /\ qq.sid = a.sid /\ qq.upl = a.staker /\ qq.dsize = a.dsize /\ qq.bsize = a.bsize
                             /\ qq.from = a.fk /\ qq.to = a.tk /\ qq.sum = a.sum /\ qq.hash = a.hash
                             /\ Votes(qq) = <<<<a.staker>>, <<>>, <<>>>>
                             /\ qq.sp = s.pools[a.pool].sp /\ qq.comp = s.pools[a.pool].comp)

(* ---- C05: next uploader --------------------------------------------------------------- *)
\* a freshly designated uploader is a participant with stake
Designated(s, a, t, p) ==
    \/ Prop(t, p).next # Prop(s, p).next
    \/ (a.kind \in {"SubmitBundle", "SkipUploader"} /\ a.pool = p)
Step_C05(s, a, ok, t) ==
    /\ (a.kind \in {"SubmitBundle", "SkipUploader", "EndBlock"}) =>
       \A p \in PoolSet(t) :
         LET n == Prop(t, p).next
             pp == Prop(s, p)
             keeps == Prop(t, p).sid = "" /\ n = pp.next     \* role kept after an invalid round
         IN
         /\ (Designated(s, a, t, p) /\ n # 0 /\ ~keeps /\ ok) =>
               \* nobody is designated who was no participant with stake; the timeout of the
               \* previous uploader may remove the next one in the same step
               (InPool(s, p, n) /\ Zero \prec Stake(s, n))
         /\ (NewBundle(s, t, p) /\ a.kind # "SkipUploader"
               /\ \E v \in ToSet(pp.vv) : InPool(t, p, v) /\ Zero \prec Stake(t, v))
             => n \in ToSet(pp.vv)
    /\ (a.kind = "SkipUploader" /\ ok
          /\ \E v \in PoolMembers(t, a.pool) \ {a.staker} : Zero \prec Stake(t, v))
        => Prop(t, a.pool).next # a.staker
Inv_C05(s) == \A p \in DOMAIN s.rr : \A v \in DOMAIN s.rr[p] : v \in DOMAIN s.stk

(* ---- C06: timeouts ------------------------------------------------------------------------ *)
Step_C06(s, a, ok, t) ==
    (a.kind = "EndBlock") =>
    \A p \in PoolSet(s) :
        LET u == HandleUpgrades(s)
            st == PoolStatus(u, p)
            pp == Prop(s, p) qq == Prop(t, p)
            due == pp.at + s.pools[p].interval
            \* pools of another one's participants: slashing elsewhere can change the status
            others == \E r \in PoolSet(s) : r < p /\ Prop(s, r) # Prop(t, r)
        IN  others \/
            IF st # "ok" THEN qq.next = 0 /\ (st = "disabled" => qq.sid = "")
            ELSE IF s.now < due THEN qq = pp
            ELSE IF pp.sid # "" /\ Verdict(Distribution(u, p)) = "NOQUORUM"
            THEN qq.sid = "" /\ qq.at = s.now /\ ~NewBundle(s, t, p)
            ELSE IF s.now < due + s.pr.bundles.upload_timeout THEN qq = pp
            ELSE qq.sid = "" /\ qq.at = s.now

(* ---- C07: points ------------------------------------------------------------------------------ *)
Inv_C07(s) == \A p \in DOMAIN s.val : \A v \in DOMAIN s.val[p] : s.val[p][v].pts >= 0
Step_C07(s, a, ok, t) ==
    \A p \in DOMAIN t.val : \A v \in DOMAIN t.val[p] :
        InPool(s, p, v) =>
          LET x == s.val[p][v].pts y == t.val[p][v].pts IN
          /\ (y # x => a.kind \in {"SubmitBundle", "SkipUploader", "VoteBundle", "EndBlock", "Block"})
          /\ (IsMsg(a) /\ y # x => a.pool = p)
          /\ (IsMsg(a) => y \in {0, x, x + 1} \/ (a.staker = v /\ y = 1))
          /\ (IsMsg(a) /\ y = 0 /\ x # 0 => a.staker = v)
          /\ (a.kind = "VoteBundle" /\ ok /\ a.pool = p /\ a.staker = v => y = 0)
          /\ (y > x => y < s.pr.bundles.max_points)

(* ---- C08: slashing -------------------------------------------------------------------------------- *)
Slashed(s, t, v) == GetOr(s.ds, v, Empty) # GetOr(t.ds, v, Empty)
Step_C08(s, a, ok, t) ==
    /\ \A v \in DOMAIN t.ds : Slashed(s, t, v) =>
         a.kind \in {"SubmitBundle", "SkipUploader", "EndBlock", "Block"}
    /\ (a.kind \in {"SubmitBundle", "SkipUploader"} /\ ok) =>
         LET p == a.pool pp == Prop(s, p) IN
         \A v \in DOMAIN t.ds : Slashed(s, t, v) =>
            /\ ~InPool(t, p, v)
            /\ \/ (NewBundle(s, t, p) /\ v \in ToSet(pp.vi))
               \/ (~NewBundle(s, t, p) /\ Prop(t, p).sid = "" /\ v \in ToSet(pp.vv))
               \/ (v \notin Voted(pp) /\ InPool(s, p, v) /\ s.val[p][v].pts + 1 >= s.pr.bundles.max_points)
    /\ \A v \in DOMAIN s.dd :
         Stake(t, v) \prec Stake(s, v) =>
            \/ Slashed(s, t, v)
            \/ a.kind \in {"BeginBlock", "Block"} \/ (a.kind = "Redelegate" /\ a.staker = v)
            \* a sole delegator who delegates again leaves the rounding dust behind
            \/ (a.kind \in {"Delegate", "JoinPool", "Redelegate"} /\ Stake(t, v) = SumOver(DelegatorsOf(t, v), LAMBDA d : DelStake(t, v, d)))
    \* delegators of a staker that was not slashed lose stake only by their own doing
    /\ \A x \in Pairs(s) :
         (~Slashed(s, t, x[1]) /\ DelStake(t, x[1], x[2]) \prec DelStake(s, x[1], x[2])) =>
            \/ a.kind \in {"BeginBlock", "Block"} \/ (a.kind = "Redelegate" /\ a.from = x[2] /\ a.staker = x[1])

(* ---- C09 / C10: bundle rewards ---------------------------------------------------------------------- *)
FundingSum(s, p) == LET fs == GetOr(s.fundings, p, Empty)
                    IN  CSumOver(DOMAIN fs, LAMBDA f : fs[f].amts)
\* what leaves funders and pool arrives with treasury, stakers and delegation
Step_C09(s, a, ok, t) ==
    (a.kind \in {"SubmitBundle", "SkipUploader"} /\ ok) =>
      LET p == a.pool
          out == CAdd(CSub(FundingSum(s, p), FundingSum(t, p)),
                      CSub(PoolCoins(s, p), PoolCoins(t, p)))
          in == CAdd(CAdd(CSub(ModCoins(t, "stakers"), ModCoins(s, "stakers")),
                          CSub(ModCoins(t, "delegation"), ModCoins(s, "delegation"))),
                     CSub(ModCoins(t, Treasury), ModCoins(s, Treasury)))
      IN  /\ out = in
          /\ ModCoins(t, "pool") = ModCoins(s, "pool")
          /\ (~NewBundle(s, t, p) => CIsZero(out))
          /\ CNonNeg(out) /\ CNonNeg(CSub(ModCoins(t, Treasury), ModCoins(s, Treasury)))
Step_C10(s, a, ok, t) ==
    (a.kind \notin {"FundPool", "DefundPool", "Block"}) =>
    \A p \in DOMAIN s.fundings : \A f \in DOMAIN s.fundings[p] :
        LET x == s.fundings[p][f] y == t.fundings[p][f]
            charged == [d \in {e \in DOMAIN x.amts \cap DOMAIN x.per : e \in WhitelistDenoms(s)} |-> NMin(x.amts[d], x.per[d])]
        IN  IF NewBundle(s, t, p) /\ f \in ActiveSet(s, p)
            THEN /\ y.amts = CSub(x.amts, charged) /\ y.total = CAdd(x.total, charged)
                 /\ (f \in ActiveSet(t, p)) = ~CIsZero(y.amts)
            ELSE y = x

(* ---- C11 / C12: fundings ------------------------------------------------------------------------------ *)
Inv_C11(s) ==
    /\ ModCoins(s, "funders") = CSumOver(DOMAIN s.fundings, LAMBDA p : FundingSum(s, p))
    /\ \A p \in PoolSet(s) : ActiveSet(s, p) =
          {f \in DOMAIN GetOr(s.fundings, p, Empty) : ~CIsZero(s.fundings[p][f].amts)}
    /\ \A p \in DOMAIN s.fundings : \A f \in DOMAIN s.fundings[p] : f \in DOMAIN s.funders
Step_C11(s, a, ok, t) ==
    /\ (a.kind = "DefundPool" /\ ok) =>
         LET paid == CSub(UserCoins(t, a.from), UserCoins(s, a.from))
             old == FundingOf(s, a.pool, a.from)
         IN  /\ paid = CMin(old.amts, a.coins)
             /\ FundingOf(t, a.pool, a.from).amts = CSub(old.amts, paid)
             /\ ModCoins(t, "funders") = CSub(ModCoins(s, "funders"), paid)
    \* everything can be taken back at once
    /\ (a.kind = "DefundPool" /\ ~ok /\ FundingExists(s, a.pool, a.from)) =>
         LET old == FundingOf(s, a.pool, a.from)
         IN  ~(a.valid /\ ~CIsZero(old.amts) /\ CLe(old.amts, a.coins) /\ CLe(a.coins, old.amts) /\ CIsZero(CSub(a.coins, old.amts))
               /\ Compatible(s, Clean([old EXCEPT !.amts = NoCoins])))
Inv_C12(s) == \A p \in PoolSet(s) : Cardinality(ActiveSet(s, p)) <= MaxFunders
Step_C12(s, a, ok, t) ==
    /\ (a.kind = "FundPool" /\ ok) =>
         LET fd == FundingOf(t, a.pool, a.from) IN
         /\ a.from \in DOMAIN s.funders /\ PoolExists(s, a.pool)
         /\ DOMAIN fd.amts \subseteq WhitelistDenoms(s) /\ ~CIsZero(fd.amts)
         /\ \A d \in DOMAIN fd.amts :
               /\ Amt(MinFunding(s), d) \preceq fd.amts[d]
               /\ d \in DOMAIN fd.per /\ Amt(MinPerBundle(s), d) \preceq fd.per[d]
               /\ N(s.pr.funders.min_funding_multiple) ** fd.per[d] \preceq fd.amts[d]
         /\ \A f \in ActiveSet(s, a.pool) \ ActiveSet(t, a.pool) :
               /\ Cardinality(ActiveSet(s, a.pool)) >= MaxFunders /\ a.from \notin ActiveSet(s, a.pool)
               /\ \A g \in ActiveSet(s, a.pool) : Score(s, FundingOf(s, a.pool, f).amts) \preceq Score(s, FundingOf(s, a.pool, g).amts)
               /\ Score(s, FundingOf(s, a.pool, f).amts) \preceq Score(s, fd.amts)
               /\ UserCoins(t, f) = CAdd(UserCoins(s, f), FundingOf(s, a.pool, f).amts)
    /\ (a.kind \in {"FundPool", "DefundPool"} /\ ~ok) => (s.bal = t.bal /\ s.mod = t.mod)

(* ---- C13 / C14: delegation ------------------------------------------------------------------------------- *)
Inv_C13(s) ==
    LET need == CAdd(Coin1(Denom, TotalStakeAll(s)), OutstandingAll(s))
    IN  CLe(need, ModCoins(s, "delegation"))
\* nobody's accrued rewards shrink except by being paid out
Step_C13(s, a, ok, t) ==
    \A x \in Pairs(s) :
        LET o == Outstanding(s, x[1], x[2])
            paidOut == \/ (a.kind = "WithdrawRewards" /\ a.from = x[2] /\ a.staker = x[1])
                       \/ (a.kind \in {"Delegate"} /\ a.from = x[2] /\ a.staker = x[1])
                       \/ (a.kind = "CreateStaker" /\ a.from = x[2] /\ a.from = x[1])
                       \/ (a.kind = "Redelegate" /\ a.from = x[2] /\ x[1] \in {a.staker, a.to})
                       \/ a.kind \in {"BeginBlock", "Block"}
        IN  /\ (~paidOut => \A d \in DOMAIN o : (o[d] -- One) \preceq Amt(Outstanding(t, x[1], x[2]), d))
            /\ (a.kind = "WithdrawRewards" /\ ok /\ paidOut) =>
                 /\ CIsZero(Outstanding(t, x[1], x[2]))
                 /\ UserCoins(t, a.from) = CAdd(UserCoins(s, a.from), o)
    /\ (a.kind = "WithdrawRewards" /\ IsDelegator(s, a.staker, a.from)) => ok
Inv_C14(s) ==
    /\ \A v \in DOMAIN s.dd :
         LET ds == DelegatorsOf(s, v)
             sum == SumOver(ds, LAMBDA d : DelStake(s, v, d))
             slashes == Cardinality(DOMAIN GetOr(s.ds, v, Empty))
         IN  /\ s.dd[v].n = Cardinality(ds)
             /\ sum \preceq s.dd[v].total
             /\ s.dd[v].total -- sum \preceq N((slashes + 1) * (s.dd[v].n + 1) * 4)
             /\ (ds = {} => IsZ(s.dd[v].total))
    /\ \A v \in DOMAIN s.dl : v \in DOMAIN s.dd
Step_C14(s, a, ok, t) ==
    (a.kind = "Delegate" /\ ok) =>
       /\ StakerExists(s, a.staker)
       /\ DelStake(t, a.staker, a.from) = DelStake(s, a.staker, a.from) ++ a.amt
       /\ s.dd # t.dd \/ IsZ(a.amt)
       /\ \A x \in Pairs(s) : x # <<a.staker, a.from>> => DelStake(t, x[1], x[2]) = DelStake(s, x[1], x[2])

(* ---- C15 / C16: unbonding, redelegation ----------------------------------------------------------------- *)
Inv_C15(s) ==
    /\ \A i \in DOMAIN s.uq.q : i > s.uq.lo /\ i <= s.uq.hi
    /\ \A i, j \in DOMAIN s.uq.q : i < j => s.uq.q[i].at <= s.uq.q[j].at
Step_C15(s, a, ok, t) ==
    /\ \A i \in DOMAIN s.uq.q : i \notin DOMAIN t.uq.q =>
          /\ a.kind \in {"BeginBlock", "Block"}
          /\ s.uq.q[i].at + s.pr.delegation.unbonding_delegation_time <= t.now
    /\ (a.kind = "BeginBlock") =>
          \A i \in DOMAIN t.uq.q : t.now < t.uq.q[i].at + t.pr.delegation.unbonding_delegation_time
             \/ \E j \in DOMAIN t.uq.q : j < i
    /\ (a.kind = "Undelegate" /\ ok) =>
          /\ a.amt \preceq DelStake(s, a.staker, a.from)
          /\ s.dd = t.dd /\ s.dl = t.dl /\ s.bal = t.bal
          /\ Cardinality(DOMAIN t.uq.q) = Cardinality(DOMAIN s.uq.q) + 1
Step_C16(s, a, ok, t) ==
    (a.kind = "Redelegate" /\ ok) =>
       /\ StakerExists(s, a.to) /\ PoolsOf(s, a.to) # {}
       /\ SpellFree(s, a.from) /\ s.now \in GetOr(t.rc, a.from, {})
       /\ Cardinality(ActiveSpells(t, a.from)) <= s.pr.delegation.redelegation_max_amount
       /\ (a.to # a.staker =>
             /\ DelStake(t, a.staker, a.from) = DelStake(s, a.staker, a.from) -- a.amt
             /\ DelStake(t, a.to, a.from) = DelStake(s, a.to, a.from) ++ a.amt)
       /\ UserCoins(t, a.from) = CAdd(UserCoins(s, a.from),
              IF a.to = a.staker THEN Outstanding(s, a.staker, a.from)
              ELSE CAdd(Outstanding(s, a.staker, a.from), Outstanding(s, a.to, a.from)))

(* ---- C17 / C18: memberships, commission -------------------------------------------------------------------- *)
Inv_C17(s) ==
    /\ \A p \in DOMAIN s.val :
         /\ p \in PoolSet(s) /\ MemberCount(s, p) <= MaxStakers
         /\ \A v \in DOMAIN s.val[p] : StakerExists(s, v) /\ s.val[p][v].val # v
         /\ \A v, w \in DOMAIN s.val[p] : v # w => s.val[p][v].val # s.val[p][w].val
         /\ \A v \in DOMAIN s.val[p] : s.val[p][v].leaving = HasLeaveRequest(s, p, v)
         /\ (s.pools[p].disabled => DOMAIN s.val[p] = {})
    /\ \A p, q \in DOMAIN s.val : p # q =>
         \A v \in DOMAIN s.val[p] \cap DOMAIN s.val[q] : s.val[p][v].val # s.val[q][v].val
    /\ \A i \in DOMAIN s.lq.q : InPool(s, s.lq.q[i].pool, s.lq.q[i].staker)
Step_C17(s, a, ok, t) ==
    /\ \A p \in DOMAIN s.val : \A v \in DOMAIN s.val[p] : ~InPool(t, p, v) =>
         \/ (a.kind = "BeginBlock" /\ \E i \in DOMAIN s.lq.q :
                /\ s.lq.q[i].staker = v /\ s.lq.q[i].pool = p
                /\ s.lq.q[i].at + s.pr.stakers.leave_pool_time <= t.now)
         \/ (a.kind = "DisablePool" /\ a.pool = p)
         \/ (a.kind = "JoinPool" /\ a.pool = p /\ MemberCount(s, p) >= MaxStakers
               /\ Stake(s, v) \prec Stake(s, a.from)
               /\ \A w \in DOMAIN s.val[p] : Stake(s, v) \preceq Stake(s, w))
         \/ ((Slashed(s, t, v) \/ v \notin DOMAIN s.dd) /\ a.kind \in {"SubmitBundle", "SkipUploader", "EndBlock"})
         \/ a.kind = "Block"
    /\ \A p \in DOMAIN t.val : \A v \in DOMAIN t.val[p] : ~InPool(s, p, v) =>
         a.kind = "Block" \/ (a.kind = "JoinPool" /\ a.from = v /\ a.pool = p /\ ok)
    /\ (a.kind = "BeginBlock") =>
         \A i \in DOMAIN t.lq.q : t.now < t.lq.q[i].at + t.pr.stakers.leave_pool_time
            \/ \E j \in DOMAIN t.lq.q : j < i
    /\ (a.kind = "JoinPool" /\ ok) => (a.from # a.val /\ ~s.pools[a.pool].disabled /\ StakerExists(s, a.from))
    /\ (a.kind = "LeavePool" /\ ok) => (InPool(t, a.pool, a.from) /\ ~HasLeaveRequest(s, a.pool, a.from))
Inv_C18(s) ==
    /\ ModCoins(s, "stakers") = CSumOver(DOMAIN s.stk, LAMBDA v : s.stk[v].rew)
    /\ \A v \in DOMAIN s.stk : IsPct(s.stk[v].com) /\ CNonNeg(s.stk[v].rew)
    /\ \A i, j \in DOMAIN s.cq.q : i # j => s.cq.q[i].staker # s.cq.q[j].staker
Step_C18(s, a, ok, t) ==
    /\ \A v \in DOMAIN s.stk : v \in DOMAIN t.stk
    /\ \A v \in DOMAIN s.stk : t.stk[v].com # s.stk[v].com =>
         \/ (a.kind \in {"BeginBlock", "Block"} /\ \E i \in DOMAIN s.cq.q :
               /\ s.cq.q[i].staker = v /\ s.cq.q[i].com = t.stk[v].com
               /\ s.cq.q[i].at + s.pr.stakers.commission_change_time <= t.now)
    /\ (a.kind = "BeginBlock") =>
         \A i \in DOMAIN t.cq.q : t.now < t.cq.q[i].at + t.pr.stakers.commission_change_time
            \/ \E j \in DOMAIN t.cq.q : j < i
    /\ (a.kind = "ClaimCommission" /\ ok) =>
         /\ CLe(a.coins, s.stk[a.from].rew)
         /\ UserCoins(t, a.from) = CAdd(UserCoins(s, a.from), a.coins)

(* ---- C19: pools that can not run -------------------------------------------------------------------------------- *)
Step_C19(s, a, ok, t) ==
    (a.kind \in {"VoteBundle", "SubmitBundle", "SkipUploader", "ClaimUploader"} /\ ok) =>
       /\ PoolExists(s, a.pool)
       /\ LET pl == s.pools[a.pool] IN
          /\ ~pl.disabled /\ ~(pl.uat > 0 /\ pl.uat <= s.now)
          /\ ~(pl.endKey # "" /\ pl.curKey = pl.endKey)
          /\ pl.minDel \preceq PoolStake(s, a.pool)
          /\ MaxStake(s, a.pool) \preceq DTrunc(s.pr.pool.max_voting_power_per_pool ** PoolStake(s, a.pool))

(* ---- C20 / C21: administration ------------------------------------------------------------------------------------ *)
Inv_C20(s) == PoolSet(s) = 0..(Cardinality(PoolSet(s)) - 1)
UpgradeFields == {"pver", "pbin", "plast", "uver", "ubin", "uat", "udur"}
AdminFields == {"name", "runtime", "logo", "config", "startKey", "endKey", "interval", "weight", "minDel",
                "maxSize", "disabled", "sp", "comp"}
PoolFieldsSame(s, t, p, F) == \A f \in F : s.pools[p][f] = t.pools[p][f]
Step_C20(s, a, ok, t) ==
    /\ PoolSet(s) \subseteq PoolSet(t)
    /\ (a.kind # "CreatePool" => PoolSet(t) = PoolSet(s))
    /\ \A p \in PoolSet(s) :
         /\ s.pools[p].id = t.pools[p].id
         /\ ((~PoolFieldsSame(s, t, p, AdminFields)) =>
               \/ (a.kind \in {"UpdatePool", "DisablePool", "EnablePool"} /\ a.pool = p /\ ok)
               \/ (a.kind = "Upgrade" /\ PoolFieldsSame(s, t, p, AdminFields \ {"weight"})))
         /\ ((~PoolFieldsSame(s, t, p, UpgradeFields)) =>
               \/ (a.kind \in {"ScheduleUpgrade", "CancelUpgrade"} /\ s.pools[p].runtime = a.runtime /\ ok)
               \/ (a.kind \in {"EndBlock", "Block"} /\ s.pools[p].uat > 0 /\ s.pools[p].uat <= t.now)
               \/ a.kind = "Upgrade")
         /\ ((a.kind = "EndBlock" /\ s.pools[p].uat > 0 /\ s.pools[p].uat <= s.now) =>
               t.pools[p].pver = s.pools[p].uver /\ t.pools[p].pbin = s.pools[p].ubin)
    /\ (a.kind = "DisablePool" /\ ok) =>
         PoolMembers(t, a.pool) = {} /\ IsZ(Amt(PoolCoins(t, a.pool), Denom)) /\ t.pools[a.pool].disabled
GovKinds == {"CreatePool", "UpdatePool", "DisablePool", "EnablePool", "ScheduleUpgrade", "CancelUpgrade", "UpdateParams"}
Inv_C21(s) == \A m \in ParamModules : ParamsValid(m, s.pr[m])
Step_C21(s, a, ok, t) ==
    /\ (a.kind \in GovKinds /\ ok) => a.from = s.k.gov
    /\ (s.pr # t.pr => (a.kind = "UpdateParams" /\ ok) \/ a.kind = "Upgrade")
    /\ (a.kind = "UpdateParams" /\ ok) =>
          /\ \A m \in ParamModules \ {a.module} : s.pr[m] = t.pr[m]
          /\ \A f \in DOMAIN s.pr[a.module] : t.pr[a.module][f] = (IF f \in DOMAIN a.p THEN a.p[f] ELSE s.pr[a.module][f])

(* ---- C22: inflation --------------------------------------------------------------------------------------------------- *)
Step_C22(s, a, ok, t) ==
    (a.kind = "BeginBlock") =>
      LET gain(p) == CSub(PoolCoins(t, p), PoolCoins(s, p))
          team == TeamProvision(MintBlock(s, a), a.provision)
          pools == SumOver(PoolSet(t), LAMBDA p : Amt(gain(p), Denom))
          r == [s EXCEPT !.now = t.now]
          run == {p \in PoolSet(s) : CanRun(r, p)}
          \* the pools' part is a share of what the team, entitled to slightly more with its
          \* new rewards, leaves over
          rest == a.provision -- TeamProvision(t, a.provision)
      IN  /\ Amt(t.sup, Denom) = Amt(s.sup, Denom) ++ a.provision
          /\ Amt(ModCoins(t, "team"), Denom) = Amt(ModCoins(s, "team"), Denom) ++ team
          /\ \A p \in PoolSet(s) \ run : CIsZero(gain(p))
          \* never more than the protocol's share, and all of it if a pool with weight can run
          /\ pools \preceq (DTrunc(DMul(DecOf(rest), s.pr.pool.protocol_inflation_share)) ++ One)
          /\ ((\E p \in run : Zero \prec s.pools[p].weight) =>
                DTrunc(DMul(DecOf(rest), s.pr.pool.protocol_inflation_share)) -- One \preceq pools)
          /\ CNonNeg(CSub(ModCoins(t, Treasury), ModCoins(s, Treasury)))

(* ---- C23: team ------------------------------------------------------------------------------------------------------------ *)
Inv_C23(s) ==
    /\ Issued(s) \preceq TeamAllocation
    /\ TeamRequired(s) \preceq Amt(ModCoins(s, "team"), Denom)
    /\ s.team.claimed \preceq s.team.total
    /\ \A i \in DOMAIN s.team.accts :
         LET ac == TAcct(s, i) IN
         /\ ac.rclaim \preceq ac.trew /\ ac.ucl \preceq ac.alloc
         /\ UnlockedAt(ac, s.now) \preceq ac.alloc /\ VestedAt(ac, s.now) \preceq ac.alloc
TeamKinds == {"CreateTeamAccount", "Clawback", "ClaimUnlocked", "ClaimAccountRewards", "ClaimAuthorityRewards"}
Step_C23(s, a, ok, t) ==
    /\ (a.kind \in TeamKinds /\ ok) => a.from \in TeamAuthorities(s)
    /\ (s.team # t.team => a.kind \in TeamKinds \cup {"BeginBlock", "Block"})
    /\ (a.kind = "ClaimUnlocked" /\ ok) =>
          /\ TAcct(t, a.id).ucl \preceq UnlockedAt(TAcct(s, a.id), s.now)
          /\ TAcct(t, a.id).ucl = TAcct(s, a.id).ucl ++ a.amt
    \* time alone never takes anything away
    /\ (a.kind = "BeginBlock") =>
          \A i \in DOMAIN s.team.accts :
             /\ VestedAt(TAcct(s, i), s.now) \preceq VestedAt(TAcct(s, i), t.now)
             /\ UnlockedAt(TAcct(s, i), s.now) \preceq UnlockedAt(TAcct(s, i), t.now)

(* ---- C24 / C25: fees, conservation ------------------------------------------------------------------------------------------ *)
AllCoins(s) ==
    CAdd(CAdd(CSumOver(DOMAIN s.bal, LAMBDA x : s.bal[x]), CSumOver(DOMAIN s.mod, LAMBDA x : s.mod[x])),
         CAdd(CSumOver(DOMAIN s.pbal, LAMBDA x : s.pbal[x]), CSumOver(DOMAIN s.oth, LAMBDA x : s.oth[x])))
EndBlock_C24(s, a, t) ==
    (a.kind = "EndBlock") =>
       LET burnt == CSub(s.sup, t.sup) IN
       /\ burnt = (IF s.h = 1 THEN NoCoins ELSE ShareC(ModCoins(s, FeeAcct), s.pr.global.burn_ratio))
       /\ ModCoins(t, FeeAcct) = CSub(ModCoins(s, FeeAcct), burnt)
\* gas: every message of a configured type adds exactly its extra gas (the rest of the
\* consumption is bounded), and nothing runs beyond the limit it paid for
BaseGas == 5000000
Gas_C24(s, a, ok) ==
    (a.kind = "Block") =>
       \A i \in DOMAIN a.txs :
          LET x == AdjustmentsOf(s, [j \in DOMAIN a.txs[i].msgs |-> a.txs[i].msgs[j].type]) IN
          ok[i] => /\ x < a.txs[i].used /\ a.txs[i].used <= x + BaseGas
                   /\ a.txs[i].used <= a.txs[i].gas
\* over a whole block: nobody pays more than the fees it offered, nothing is minted
\* but the provision, and what leaves the supply is the burn share of what was left
Step_Block_C24(s, a, t) ==
    (a.kind = "Block") =>
       LET left == CSub(CAdd(s.sup, Coin1(Denom, a.provision)), t.sup) IN
       /\ CNonNeg(left)
       /\ CLe(left, CSumOver(DOMAIN a.txs, LAMBDA i : a.txs[i].fee))
Step_C24(s, a, ok, t) == EndBlock_C24(s, a, t) /\ Gas_C24(s, a, ok) /\ Step_Block_C24(s, a, t)
Inv_C25(s) ==
    /\ s.sup = AllCoins(s)
    /\ \A x \in DOMAIN s.bal : CNonNeg(s.bal[x])
    /\ \A x \in DOMAIN s.mod : CNonNeg(s.mod[x])
    /\ \A x \in DOMAIN s.pbal : CNonNeg(s.pbal[x])
Step_C25(s, a, ok, t) ==
    /\ (IsMsg(a) => s.sup = t.sup)
    /\ (IsMsg(a) /\ ~ok => \A c \in DOMAIN s : s[c] = t[c])

(* ---- C28 ---------------------------------------------------------------------------------------------------------------------- *)
Step_C28(s, a, ok, t) ==
    /\ (a.kind \in {"BeginBlock", "EndBlock"} => ok)
    /\ s.halt = t.halt

(* ---- C30: what is announced is what happened -------------------------------------------------------------------------------- *)
Says(ev, T(_)) == SelectSeq(ev, T)
SumN(q) == SumSeq([i \in DOMAIN q |-> q[i].n])
SumC(q) == CSumSeq([i \in DOMAIN q |-> q[i].c])
Members(s) == {<<p, v>> : p \in DOMAIN s.val, v \in DOMAIN s.stk} \cap UNION {{<<p, v>> : v \in DOMAIN s.val[p]} : p \in DOMAIN s.val}
FundingKeys(s) == UNION {{<<p, f>> : f \in DOMAIN s.fundings[p]} : p \in DOMAIN s.fundings}
Step_C30(s, a, ok, t, ev) ==
    /\ (IsMsg(a) /\ ~ok => ev = <<>>)
    \* membership: one announcement for every end and every beginning
    /\ \A m \in Members(s) \cup Members(t) \cup {<<ev[i].p, ev[i].v>> : i \in {j \in DOMAIN ev : ev[j].t \in {"Join", "Leave"}}} :
          LET n(x, T) == Len(Says(ev, LAMBDA e : e.t = T /\ e.p = m[1] /\ e.v = m[2]))
          IN  n(m, "Join") - n(m, "Leave") = (IF m \in Members(t) THEN 1 ELSE 0) - (IF m \in Members(s) THEN 1 ELSE 0)
    \* bundles: one announcement for each
    /\ \A p \in DOMAIN t.pools :
          LET new == SubSeq(BundlesOf(t, p), Len(BundlesOf(s, p)) + 1, Len(BundlesOf(t, p)))
              said == Says(ev, LAMBDA e : e.t = "Finalized" /\ e.p = p /\ e.st = "VALID")
          IN  /\ Len(new) = Len(said)
              /\ \A i \in DOMAIN new : \E j \in DOMAIN said :
                     /\ said[j].id = new[i].id /\ said[j].upl = new[i].upl /\ said[j].at = new[i].ft
                     /\ said[j].valid = new[i].valid /\ said[j].total = new[i].total
                     /\ said[j].tot = CAdd(said[j].fpay, Coin1(Denom, said[j].ipay))
                     /\ said[j].tot = CAdd(said[j].tre, CAdd(said[j].upr, said[j].del))
                     /\ said[j].upr = CAdd(said[j].cost, said[j].com)
    \* stake: the announced movements account for it, up to the rounding dust of
    \* slashes, which the last delegator leaves behind
    /\ \A v \in DOMAIN s.dd \cup DOMAIN t.dd :
          LET inn == SumN(Says(ev, LAMBDA e : e.t = "Delegate" /\ e.v = v)) ++ SumN(Says(ev, LAMBDA e : e.t = "Redelegate" /\ e.w = v))
              out == SumN(Says(ev, LAMBDA e : e.t \in {"Undelegate", "Slash", "Redelegate"} /\ e.v = v))
          IN  \/ Stake(t, v) ++ out = Stake(s, v) ++ inn
              \/ /\ Stake(t, v) ++ out \prec Stake(s, v) ++ inn
                 /\ \E x \in {s, t} : v \notin DOMAIN x.dd \/ x.dd[v].n <= 1
    \* fundings: likewise, with what the bundles were charged
    /\ \A x \in FundingKeys(s) \cup FundingKeys(t) :
          LET old == IF x \in FundingKeys(s) THEN FundingOf(s, x[1], x[2]) ELSE NoFunding
              new == IF x \in FundingKeys(t) THEN FundingOf(t, x[1], x[2]) ELSE NoFunding
              q(T) == SumC(Says(ev, LAMBDA e : e.t = T /\ e.p = x[1] /\ e.f = x[2]))
          IN  CAdd(CAdd(new.amts, new.total), q("Defund")) = CAdd(CAdd(old.amts, old.total), q("Fund"))
    \* commission rewards and parameters
    /\ \A v \in DOMAIN s.stk \cap DOMAIN t.stk :
          /\ (s.stk[v].com # t.stk[v].com => Says(ev, LAMBDA e : e.t = "Commission" /\ e.v = v /\ e.com = t.stk[v].com) # <<>>)
          /\ (s.stk[v].meta # t.stk[v].meta => Says(ev, LAMBDA e : e.t = "Metadata" /\ e.v = v /\ e.meta = t.stk[v].meta) # <<>>)
    /\ \A m \in DOMAIN s.pr : s.pr[m] # t.pr[m] /\ a.kind # "Upgrade" =>
          Says(ev, LAMBDA e : e.t = "Params" /\ e.m = m /\ e.new = t.pr[m]) # <<>>
    /\ \A p \in DOMAIN t.pools : p \notin DOMAIN s.pools => Says(ev, LAMBDA e : e.t = "CreatePool" /\ e.p = p) # <<>>
    /\ \A p \in DOMAIN s.pools : s.pools[p].disabled # t.pools[p].disabled =>
          Says(ev, LAMBDA e : e.t = (IF t.pools[p].disabled THEN "PoolDisabled" ELSE "PoolEnabled") /\ e.p = p) # <<>>

(* ---- C31: an upgrade keeps what the chain owes and counts ----------------------------------------------------------- *)
Kept == {"h", "now", "bal", "mod", "pbal", "oth", "sup", "prop", "fin", "rr", "stk", "val", "cq", "lq", "dd", "de", "ds", "dl",
         "uq", "rc", "funders", "fundings", "team", "fg", "seq", "halt"}
Step_C31(s, a, ok, t) ==
    a.kind = "Upgrade" =>
      /\ ok
      /\ \A c \in Kept : s[c] = t[c]
      /\ \A p \in DOMAIN s.fstate : ToSet(s.fstate[p]) = ToSet(GetOr(t.fstate, p, <<>>))
      /\ DOMAIN t.pools = DOMAIN s.pools
      /\ \A p \in DOMAIN s.pools :
            /\ \A f \in DOMAIN s.pools[p] \ {"weight", "uver", "ubin", "uat", "udur"} : t.pools[p][f] = s.pools[p][f]
            \* every pool has the same share; a plan under way is not replaced, and only these runtimes get one
            /\ t.pools[p].weight = Prec
            /\ (s.pools[p].uat > 0 \/ t.pools[p].uat = 0 => PoolFieldsSame(s, t, p, {"uver", "ubin", "uat", "udur"}))
            /\ (s.pools[p].uat = 0 => (t.pools[p].uat > 0 <=> s.pools[p].runtime \in UpgradedRuntimes))
      \* parameters: only the listed ones
      /\ [t.pr EXCEPT !.funders.coin_whitelist = s.pr.funders.coin_whitelist, !.bundles.storage_costs = s.pr.bundles.storage_costs,
                      !.pool.max_voting_power_per_pool = s.pr.pool.max_voting_power_per_pool] = s.pr
      /\ WhitelistEntry(t, Denom).min_funding_amount = WhitelistEntry(s, Denom).min_funding_amount
      /\ WhitelistEntry(t, Denom).min_funding_amount_per_bundle = WhitelistEntry(s, Denom).min_funding_amount_per_bundle

(* ---- C33: a transaction acts only for those who signed it, and once -------------------------------------------------- *)
GoodSigs(x) ==
    LET need == SignersOf(x) IN
    /\ x.flip = 0 /\ x.cut = 0
    /\ Len(x.sigs) = Len(need)
    /\ \A j \in DOMAIN need :
          /\ x.sigs[j].who = need[j] /\ x.sigs[j].key = need[j] /\ x.sigs[j].pub = need[j]
          /\ x.sigs[j].chain /\ x.sigs[j].num
SignedBy(x, u) == \E j \in DOMAIN x.sigs : x.sigs[j].who = u
NumberOf(x, u) == x.sigs[CHOOSE j \in DOMAIN x.sigs : x.sigs[j].who = u].seq
Step_C33(s, a, ok, t) ==
    IF a.kind # "Block" THEN t.seq = s.seq
    ELSE /\ \A i \in DOMAIN a.txs : ok[i] => GoodSigs(a.txs[i])
         \* numbers are used one after the other, each by one transaction
         /\ \A u \in DOMAIN s.seq \cup DOMAIN t.seq :
               LET used == {i \in DOMAIN a.txs : ok[i] /\ SignedBy(a.txs[i], u)}
                   mine == {i \in DOMAIN a.txs : GoodSigs(a.txs[i]) /\ SignedBy(a.txs[i], u)}
               IN  /\ SeqNo(s, u) <= SeqNo(t, u)
                   /\ SeqNo(t, u) - SeqNo(s, u) <= Cardinality(mine)
                   /\ \A i \in used : SeqNo(s, u) <= NumberOf(a.txs[i], u) /\ NumberOf(a.txs[i], u) < SeqNo(t, u)
                   /\ \A i, j \in used : i < j => NumberOf(a.txs[i], u) < NumberOf(a.txs[j], u)
=============================================================================
