------------------------------ MODULE Stakers ------------------------------
(***************************************************************************)
(* x/stakers: stakers, pool memberships (valaccounts), commission and      *)
(* leave queues, commission rewards.                                       *)
(*                                                                         *)
(*  s.stk  staker -> [com, rew, meta]                                      *)
(*  s.val  pool -> (staker -> [val, pts, leaving])                         *)
(*  s.cq   [lo, hi, q: index -> [staker, com, at]]                         *)
(*  s.lq   [lo, hi, q: index -> [staker, pool, at]]                        *)
(***************************************************************************)
EXTENDS Delegation

CONSTANT MaxStakers      \* slots per pool (50 on the chain)

PoolExists(s, p) == p \in DOMAIN s.pools
MemberCount(s, p) == Cardinality(PoolMembers(s, p))
Authorized(s, p, v, from) == InPool(s, p, v) /\ s.val[p][v].val = from

\* lowest stake in the pool; among equals the first in address order
LowestMember(s, p) ==
    CHOOSE v \in PoolMembers(s, p) :
        \A w \in PoolMembers(s, p) :
            Stake(s, v) \prec Stake(s, w) \/ (Stake(s, v) = Stake(s, w) /\ v <= w)

\* removes a membership at once; a pending leave request of it is void
RemoveMember(s, p, v) ==
    IF ~InPool(s, p, v) THEN s
    ELSE LET m == RemoveKey(s.val[p], v)
         IN  Say([s EXCEPT !.val = IF m = Empty THEN RemoveKey(@, p) ELSE PutKey(@, p, m),
                           !.lq.q = [i \in {j \in DOMAIN @ : ~(@[j].staker = v /\ @[j].pool = p)} |-> @[i]]],
                 [t |-> "Leave", p |-> p, v |-> v])

AddPointsOf(s, p, v) == IF InPool(s, p, v) THEN [s EXCEPT !.val[p][v].pts = @ + 1] ELSE s
ResetPoints(s, p, v) == IF InPool(s, p, v) /\ s.val[p][v].pts > 0
                        THEN Say([s EXCEPT !.val[p][v].pts = 0], [t |-> "PointsReset", p |-> p, v |-> v]) ELSE s

CommissionRewards(s, v, c, payer) ==
    IF CIsZero(c) THEN Ok(s)
    ELSE Check(s, StakerExists(s, v) /\ CanPayMod(s, payer, c),
           Ok(ModToMod([s EXCEPT !.stk[v].rew = CAdd(@, c)], payer, "stakers", c)))

(* ---- messages ------------------------------------------------------------ *)
NoMeta == [moniker |-> "", website |-> "", identity |-> "", contact |-> "", details |-> ""]

CreateStaker(s, a) ==
    Check(s, IsPct(a.com) /\ ~StakerExists(s, a.from),
      LET r == Delegate([s EXCEPT !.stk = PutKey(@, a.from, [com |-> a.com, rew |-> NoCoins, meta |-> NoMeta])],
                        [staker |-> a.from, from |-> a.from, amt |-> a.amt])
      IN  Check(s, r.ok, OkSay(r.s, [t |-> "CreateStaker", v |-> a.from, n |-> a.amt, com |-> a.com])))

UpdateMetadata(s, a) ==
    Check(s, a.valid /\ StakerExists(s, a.from), OkSay([s EXCEPT !.stk[a.from].meta = a.meta], [t |-> "Metadata", v |-> a.from, meta |-> a.meta]))

UpdateCommission(s, a) ==
    Check(s, IsPct(a.com) /\ StakerExists(s, a.from),
      Ok([s EXCEPT !.cq = [lo |-> @.lo, hi |-> @.hi + 1,
            q |-> PutKey([i \in {j \in DOMAIN @.q : @.q[j].staker # a.from} |-> @.q[i]],
                         @.hi + 1, [staker |-> a.from, com |-> a.com, at |-> s.now])]]))

ClaimCommission(s, a) ==
    Check(s, /\ ~CIsZero(a.coins)
             /\ StakerExists(s, a.from)
             /\ CLe(a.coins, s.stk[a.from].rew),
      OkSay(ModToUser([s EXCEPT !.stk[a.from].rew = CSub(@, a.coins)], "stakers", a.from, a.coins),
            [t |-> "ClaimCommission", v |-> a.from, c |-> a.coins]))

JoinPool(s, a) ==
    Check(s, /\ PoolExists(s, a.pool)
             /\ ~s.pools[a.pool].disabled
             /\ StakerExists(s, a.from)
             /\ a.from # a.val
             /\ ~InPool(s, a.pool, a.from)
             /\ (MemberCount(s, a.pool) >= MaxStakers
                   => Stake(s, LowestMember(s, a.pool)) \prec Stake(s, a.from)),
      LET s1 == IF MemberCount(s, a.pool) >= MaxStakers
                THEN RemoveMember(s, a.pool, LowestMember(s, a.pool)) ELSE s
          c == Coin1(Denom, a.amt)
      IN  Check(s, /\ \A p \in PoolsOf(s1, a.from) : s1.val[p][a.from].val # a.val
                   /\ \A v \in PoolMembers(s1, a.pool) : s1.val[a.pool][v].val # a.val
                   /\ CanPayUser(s1, a.from, c),
            LET s2 == [s1 EXCEPT !.val = PutKey(@, a.pool, PutKey(GetOr(@, a.pool, Empty), a.from,
                                     [val |-> a.val, pts |-> 0, leaving |-> FALSE]))]
            IN  OkSay(UserToUser(s2, a.from, a.val, c),
                      [t |-> "Join", p |-> a.pool, v |-> a.from, val |-> a.val, n |-> a.amt])))

HasLeaveRequest(s, p, v) == \E i \in DOMAIN s.lq.q : s.lq.q[i].staker = v /\ s.lq.q[i].pool = p

LeavePool(s, a) ==
    Check(s, InPool(s, a.pool, a.from) /\ ~HasLeaveRequest(s, a.pool, a.from),
      Ok([s EXCEPT !.val[a.pool][a.from].leaving = TRUE,
                   !.lq = [lo |-> @.lo, hi |-> @.hi + 1,
                           q |-> PutKey(@.q, @.hi + 1, [staker |-> a.from, pool |-> a.pool, at |-> s.now])]]))

(* ---- begin of block ------------------------------------------------------ *)
RECURSIVE ProcessCommission(_)
ProcessCommission(s) ==
    LET i == s.cq.lo + 1 IN
    IF i \notin DOMAIN s.cq.q
    THEN IF s.cq.lo < s.cq.hi THEN ProcessCommission([s EXCEPT !.cq.lo = i]) ELSE s
    ELSE LET e == s.cq.q[i] IN
         IF e.at + s.pr.stakers.commission_change_time <= s.now
         THEN LET s0 == IF StakerExists(s, e.staker) THEN [s EXCEPT !.stk[e.staker].com = e.com] ELSE s
                  s1 == Say(s0, [t |-> "Commission", v |-> e.staker, com |-> e.com])
              IN  ProcessCommission([s1 EXCEPT !.cq = [lo |-> i, hi |-> @.hi, q |-> RemoveKey(@.q, i)]])
         ELSE s

RECURSIVE ProcessLeave(_)
ProcessLeave(s) ==
    LET i == s.lq.lo + 1 IN
    IF i \notin DOMAIN s.lq.q
    THEN IF s.lq.lo < s.lq.hi THEN ProcessLeave([s EXCEPT !.lq.lo = i]) ELSE s
    ELSE LET e == s.lq.q[i] IN
         IF e.at + s.pr.stakers.leave_pool_time <= s.now
         THEN LET s1 == [s EXCEPT !.lq = [lo |-> i, hi |-> @.hi, q |-> RemoveKey(@.q, i)]]
              IN  ProcessLeave(RemoveMember(s1, e.pool, e.staker))
         ELSE s
=============================================================================
