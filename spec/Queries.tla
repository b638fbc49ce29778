------------------------------ MODULE Queries ------------------------------
(***************************************************************************)
(* What the chain answers to its clients: every query of x/query and of the *)
(* modules (and the interface through which the governance module counts    *)
(* protocol stake) as an operator from the state to the answer.             *)
(*                                                                          *)
(* Lists are queried page by page (a.page = [mode, limit, dir]); the answer *)
(* is the concatenation of all pages, however they were cut.                *)
(***************************************************************************)
EXTENDS Global

Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]
NotFound == [found |-> FALSE]
DefaultLimit == 100
Paged(a, items) ==
    LET xs == IF a.page.dir = "down" THEN Reverse(items) ELSE items
    IN  [items |-> IF a.page.mode = "none" /\ Len(xs) > DefaultLimit THEN SubSeq(xs, 1, DefaultLimit) ELSE xs,
         total |-> IF a.page.mode = "offset" THEN Len(items) ELSE 0]
\* elements of S, those with more F first, among equals by address
ByMost(S, F(_)) == SetToSortSeq(S, LAMBDA x, y : F(y) \prec F(x) \/ (F(x) = F(y) /\ x < y))

(* ---- building blocks -------------------------------------------------------- *)
ActiveFunds(s, p) == CSumSeq(Map(ActiveSeq(s, p), LAMBDA f : FundingOf(s, p, f).amts))
\* the status shown to clients also tells that a pool has run out of funds
ShownStatus(s, p) == LET st == PoolStatus(s, p)
                     IN  IF st = "ok" /\ CIsZero(ActiveFunds(s, p)) THEN "nofunds" ELSE st
BasicPool(s, p) ==
    LET pl == s.pools[p]
    IN  [id |-> p, name |-> pl.name, runtime |-> pl.runtime, logo |-> pl.logo, weight |-> pl.weight,
         interval |-> pl.interval, funds |-> ActiveFunds(s, p), del |-> PoolStake(s, p),
         status |-> ShownStatus(s, p)]

Unbonding(s, T(_)) == SumOver({i \in DOMAIN s.uq.q : T(s.uq.q[i])}, LAMBDA i : s.uq.q[i].amt)

Full(s, v) ==
    LET st == s.stk[v]
        pend == {i \in DOMAIN s.cq.q : s.cq.q[i].staker = v}
        e == s.cq.q[CHOOSE i \in pend : TRUE]
    IN  [addr |-> v, com |-> st.com, rew |-> st.rew, meta |-> st.meta,
         pending |-> IF pend = {} THEN [com |-> Zero, at |-> 0] ELSE [com |-> e.com, at |-> e.at],
         self |-> DelStake(s, v, v),
         selfUnb |-> Unbonding(s, LAMBDA x : x.del = v /\ x.staker = v),
         total |-> Stake(s, v),
         n |-> IF v \in DOMAIN s.dd THEN s.dd[v].n ELSE 0,
         pools |-> Map(SeqOfInts(PoolsOf(s, v)), LAMBDA p :
                      [pool |-> BasicPool(s, p), pts |-> s.val[p][v].pts, leaving |-> s.val[p][v].leaving,
                       val |-> s.val[p][v].val, bal |-> Amt(UserCoins(s, s.val[p][v].val), Denom)])]

StakersOf(s, d) == {v \in DOMAIN s.dl : d \in DOMAIN s.dl[v]}
DelegationQ(s, v, d) == [staker |-> v, del |-> d, rew |-> Outstanding(s, v, d), amt |-> DelStake(s, v, d)]

FundedPools(s, f) == {p \in DOMAIN s.fundings : f \in DOMAIN s.fundings[p]}
FundingQ(s, p, f) ==
    LET fd == FundingOf(s, p, f)
    IN  [funder |-> f, pool |-> p, amts |-> fd.amts, per |-> fd.per, total |-> fd.total, score |-> Score(s, fd.amts)]
StatusOk(st, fd) == CASE st = "all" -> TRUE
                      [] st = "active" -> ~CIsZero(fd.amts)
                      [] st = "inactive" -> CIsZero(fd.amts)
FunderQ(s, f) ==
    LET P == FundedPools(s, f)
    IN  [addr |-> f, meta |-> s.funders[f], pools |-> SeqOfInts(P),
         used |-> CSumOver(P, LAMBDA p : FundingOf(s, p, f).total),
         alloc |-> CSumOver(P, LAMBDA p : FundingOf(s, p, f).amts),
         per |-> CSumOver({p \in P : ~CIsZero(FundingOf(s, p, f).amts)}, LAMBDA p : FundingOf(s, p, f).per),
         score |-> SumOver(P, LAMBDA p : Score(s, FundingOf(s, p, f).amts))]

FinQ(p, b) == [pool |-> p, id |-> b.id, sid |-> b.sid, upl |-> b.upl, from |-> b.from, to |-> b.to, fk |-> b.fk,
               tk |-> b.tk, sum |-> b.sum, hash |-> b.hash, sp |-> b.sp, comp |-> b.comp, fh |-> b.fh,
               ft |-> b.ft, valid |-> b.valid, total |-> b.total]

PoolQ(s, p) ==
    [id |-> p, data |-> s.pools[p], prop |-> Prop(s, p), stakers |-> SeqOfInts(PoolMembers(s, p)),
     selfDel |-> SumOver(PoolMembers(s, p), LAMBDA v : DelStake(s, v, v)), del |-> PoolStake(s, p),
     status |-> ShownStatus(s, p), account |-> p, bal |-> Amt(PoolCoins(s, p), Denom),
     fundings |-> GetOr(s.fundings, p, Empty)]

VestingQ(s, ac, t) ==
    [found |-> TRUE, date |-> s.now,
     plan |-> [comm |-> ac.comm, vstart |-> ac.comm + Cliff, vend |-> ac.comm + Vesting, ustart |-> UnlockStart(ac),
               uend |-> UnlockStart(ac) + Unlock, clawback |-> ac.clawback, camt |-> ac.alloc -- MaxVested(ac),
               max |-> MaxVested(ac)],
     status |-> [vested |-> VestedAt(ac, t), unlocked |-> UnlockedAt(ac, t), claimable |-> Claimable(ac, t),
                 locked |-> VestedAt(ac, t) -- UnlockedAt(ac, t), unvested |-> MaxVested(ac) -- VestedAt(ac, t),
                 claimed |-> ac.ucl, trew |-> ac.trew, rclaim |-> ac.rclaim, arew |-> ac.trew -- ac.rclaim]]

ActiveStakers(s) == {v \in DOMAIN s.stk : PoolsOf(s, v) # {}}
PoolCount(s, v) == N(Cardinality(PoolsOf(s, v)))

(* ---- the answers ---------------------------------------------------------------- *)
AccountAssets(s, a) ==
    LET d == a.addr
    IN  [bal |-> Amt(UserCoins(s, d), Denom), self |-> DelStake(s, d, d),
         selfUnb |-> Unbonding(s, LAMBDA x : x.del = d /\ x.staker = d),
         del |-> SumOver(StakersOf(s, d), LAMBDA v : DelStake(s, v, d)),
         delUnb |-> Unbonding(s, LAMBDA x : x.del = d),
         rew |-> CSumOver(StakersOf(s, d), LAMBDA v : Outstanding(s, v, d)),
         fund |-> CSumOver(FundedPools(s, d), LAMBDA p : FundingOf(s, p, d).amts)]

Unbondings(s, a) ==
    Paged(a, Map(SeqOfInts({i \in DOMAIN s.uq.q : s.uq.q[i].del = a.addr}), LAMBDA i :
        [amt |-> s.uq.q[i].amt, at |-> s.uq.q[i].at, staker |-> Full(s, s.uq.q[i].staker)]))

Funded(s, a) ==
    Map(SeqOfInts({p \in FundedPools(s, a.addr) : ~CIsZero(FundingOf(s, p, a.addr).amts)}), LAMBDA p :
        [amts |-> FundingOf(s, p, a.addr).amts, pool |-> BasicPool(s, p)])

RedelegationQ(s, a) ==
    LET q == SeqOfInts(ActiveSpells(s, a.addr))
        max == s.pr.delegation.redelegation_max_amount
    IN  [entries |-> Map(q, LAMBDA t : [at |-> t, end |-> t + s.pr.delegation.redelegation_cooldown]),
         avail |-> IF Len(q) >= max THEN Zero ELSE N(max - Len(q))]

VoteStatus(s, a) ==
    IF ~PoolExists(s, a.pool) THEN NotFound
    ELSE LET d == IF a.pool \in DOMAIN s.prop THEN Distribution(s, a.pool)
                  ELSE [valid |-> Zero, invalid |-> Zero, abstain |-> Zero, total |-> Zero]
         IN  [found |-> TRUE, valid |-> d.valid, invalid |-> d.invalid, abstain |-> d.abstain, total |-> d.total]

CanValidate(s, a) ==
    LET V == {v \in PoolMembers(s, a.pool) : s.val[a.pool][v].val = a.addr}
    IN  IF PoolExists(s, a.pool) /\ V # {} THEN [possible |-> TRUE, staker |-> CHOOSE v \in V : TRUE]
        ELSE [possible |-> FALSE, staker |-> 0]

CanVoteQ(s, a) ==
    LET c == CanVote(s, a.pool, a.staker, a.addr, a.sid)
    IN  [possible |-> c, noAbstain |-> c /\ a.staker \in ToSet(Prop(s, a.pool).va)]

BundleQ(s, a) ==
    LET B == {i \in DOMAIN BundlesOf(s, a.pool) : BundlesOf(s, a.pool)[i].id = a.id}
    IN  IF B = {} THEN NotFound ELSE [found |-> TRUE, b |-> FinQ(a.pool, BundlesOf(s, a.pool)[CHOOSE i \in B : TRUE])]

FundersQ(s, a) == Paged(a, Map(SeqOfInts({f \in DOMAIN s.funders : f \in a.match}), LAMBDA f : FunderQ(s, f)))
FundingsOfFunder(s, f, st) ==
    Map(SeqOfInts({p \in FundedPools(s, f) : StatusOk(st, FundingOf(s, p, f))}), LAMBDA p : FundingQ(s, p, f))
FundingsOfPool(s, p, st) ==
    Map(SeqOfInts({f \in DOMAIN GetOr(s.fundings, p, Empty) : StatusOk(st, FundingOf(s, p, f))}), LAMBDA f : FundingQ(s, p, f))

PoolsQ(s, a) ==
    Paged(a, Map(SeqOfInts({p \in DOMAIN s.pools : /\ p \in a.match
                                                   /\ (a.runtime # "" => s.pools[p].runtime = a.runtime)
                                                   /\ s.pools[p].disabled = a.disabled
                                                   /\ (a.sp # 0 => s.pools[p].sp = a.sp)}),
                 LAMBDA p : PoolQ(s, p)))

StakersQ(s, a) ==
    LET S == CASE a.status = "all" -> DOMAIN s.stk
               [] a.status = "active" -> ActiveStakers(s)
               [] a.status = "inactive" -> DOMAIN s.stk \ ActiveStakers(s)
    IN  Paged(a, Map(ByMost(S \cap a.match, LAMBDA v : Stake(s, v)), LAMBDA v : Full(s, v)))

StakersByPool(s, a) ==
    IF ~PoolExists(s, a.pool) THEN NotFound
    ELSE [found |-> TRUE, items |-> Map(SeqOfInts(PoolMembers(s, a.pool)), LAMBDA v :
              [staker |-> Full(s, v), pool |-> a.pool,
               m |-> [val |-> s.val[a.pool][v].val, pts |-> s.val[a.pool][v].pts, leaving |-> s.val[a.pool][v].leaving]])]

StakersByPoolCount(s, a) ==
    Paged(a, Map(SetToSortSeq(ActiveStakers(s), LAMBDA x, y :
                    \/ PoolCount(s, y) \prec PoolCount(s, x)
                    \/ PoolCount(s, y) = PoolCount(s, x)
                         /\ (Stake(s, y) \prec Stake(s, x) \/ (Stake(s, x) = Stake(s, y) /\ x < y))),
                 LAMBDA v : Full(s, v)))

TeamInfo(s) ==
    LET A == DOMAIN s.team.accts
        trew == SumOver(A, LAMBDA i : TAcct(s, i).trew)
        rcl == SumOver(A, LAMBDA i : TAcct(s, i).rclaim)
    IN  [foundation |-> s.k.foundation, bcp |-> s.k.bcp, allocation |-> TeamAllocation, issued |-> Issued(s),
         available |-> TeamAllocation -- Issued(s), total |-> s.team.total, claimed |-> s.team.claimed,
         avail |-> s.team.total -- s.team.claimed, atotal |-> trew, aclaimed |-> rcl, aavail |-> trew -- rcl,
         required |-> TeamRequired(s), balance |-> Amt(ModCoins(s, "team"), Denom)]

\* the stake that counts in governance votes: that of the stakers working in some pool
GovWeights(s) ==
    LET V == ActiveStakers(s)
    IN  [total |-> SumOver(V, LAMBDA v : Stake(s, v)),
         vals |-> [v \in V |-> [tokens |-> Stake(s, v), shares |-> DecOf(Stake(s, v)), deductions |-> Zero]]]
GovDelegations(s, a) ==
    [v \in ActiveStakers(s) \cap StakersOf(s, a.addr) |-> DecOf(DelStake(s, v, a.addr))]

HasAcct(s, a) == a.id \in DOMAIN s.team.accts

Answer(s, a) ==
    CASE a.q = "accountAssets" -> AccountAssets(s, a)
      [] a.q = "unbondings" -> Unbondings(s, a)
      [] a.q = "funded" -> Funded(s, a)
      [] a.q = "redelegation" -> RedelegationQ(s, a)
      [] a.q = "voteStatus" -> VoteStatus(s, a)
      [] a.q = "canValidate" -> CanValidate(s, a)
      [] a.q = "canPropose" -> [possible |-> CanPropose(s, a.pool, a.staker, a.addr, a.idx)]
      [] a.q = "canVote" -> CanVoteQ(s, a)
      [] a.q = "bundles" -> Paged(a, Map(BundlesOf(s, a.pool), LAMBDA b : FinQ(a.pool, b)))
      [] a.q = "bundleAt" -> Map(SelectSeq(BundlesOf(s, a.pool), LAMBDA b : b.from <= a.idx /\ a.idx < b.to), LAMBDA b : FinQ(a.pool, b))
      [] a.q = "bundle" -> BundleQ(s, a)
      [] a.q = "delegator" -> DelegationQ(s, a.staker, a.addr)
      [] a.q = "delegatorsByStaker" ->
           Paged(a, Map(SeqOfInts(DelegatorsOf(s, a.staker)), LAMBDA d : DelegationQ(s, a.staker, d)))
             @@ [stake |-> Stake(s, a.staker), n |-> IF a.staker \in DOMAIN s.dd THEN s.dd[a.staker].n ELSE 0]
      [] a.q = "stakersByDelegator" ->
           Paged(a, Map(SeqOfInts(StakersOf(s, a.addr)), LAMBDA v :
                       [staker |-> Full(s, v), rew |-> Outstanding(s, v, a.addr), amt |-> DelStake(s, v, a.addr)]))
      [] a.q = "funders" -> FundersQ(s, a)
      [] a.q = "funder" -> IF a.addr \notin DOMAIN s.funders THEN NotFound
                           ELSE [found |-> TRUE, funder |-> FunderQ(s, a.addr), fundings |-> FundingsOfFunder(s, a.addr, a.status)]
      [] a.q = "fundingsByFunder" -> Paged(a, FundingsOfFunder(s, a.addr, a.status))
      [] a.q = "fundingsByPool" -> Paged(a, FundingsOfPool(s, a.pool, a.status))
      [] a.q = "pool" -> IF PoolExists(s, a.pool) THEN [found |-> TRUE, pool |-> PoolQ(s, a.pool)] ELSE NotFound
      [] a.q = "pools" -> PoolsQ(s, a)
      [] a.q = "staker" -> IF StakerExists(s, a.staker) THEN [found |-> TRUE, staker |-> Full(s, a.staker)] ELSE NotFound
      [] a.q = "stakers" -> StakersQ(s, a)
      [] a.q = "stakersByPool" -> StakersByPool(s, a)
      [] a.q = "stakersByPoolCount" -> StakersByPoolCount(s, a)
      [] a.q \in {"params", "moduleParams"} -> s.pr
      [] a.q = "teamInfo" -> TeamInfo(s)
      [] a.q = "teamAccounts" -> s.team.accts
      [] a.q = "teamAccount" -> IF HasAcct(s, a) THEN [found |-> TRUE, id |-> a.id, account |-> TAcct(s, a.id)] ELSE NotFound
      [] a.q = "teamStatus" -> IF HasAcct(s, a) THEN VestingQ(s, TAcct(s, a.id), s.now) ELSE NotFound
      [] a.q = "teamStatusAt" -> IF HasAcct(s, a) THEN VestingQ(s, TAcct(s, a.id), a.at) ELSE NotFound
      [] a.q = "govWeights" -> GovWeights(s)
      [] a.q = "slots" -> [p \in DOMAIN s.pools |-> MemberCount(s, p)]
      [] a.q = "govDelegations" -> GovDelegations(s, a)
=============================================================================
