----------------------------- MODULE Delegation -----------------------------
(***************************************************************************)
(* x/delegation: stake, F1 reward distribution, slashing, unbonding queue, *)
(* redelegation spells.                                                    *)
(*                                                                         *)
(* State:                                                                  *)
(*  s.dd   staker -> [rew, total, k, n, und]   per-staker accumulator      *)
(*  s.de   staker -> (k -> dec coins)          F1 entries                  *)
(*  s.ds   staker -> (k -> decimal)            slashes                     *)
(*  s.dl   staker -> (delegator -> [k, amt])   delegators                  *)
(*  s.uq   [lo, hi, q: index -> entry]         unbonding queue             *)
(*  s.rc   delegator -> set of times           used redelegation spells    *)
(***************************************************************************)
EXTENDS Base

StakerExists(s, v) == v \in DOMAIN s.stk
InPool(s, p, v) == p \in DOMAIN s.val /\ v \in DOMAIN s.val[p]
PoolMembers(s, p) == IF p \in DOMAIN s.val THEN DOMAIN s.val[p] ELSE {}
PoolsOf(s, v) == {p \in DOMAIN s.val : v \in DOMAIN s.val[p]}

IsDelegator(s, v, d) == v \in DOMAIN s.dl /\ d \in DOMAIN s.dl[v]
DelegatorsOf(s, v) == IF v \in DOMAIN s.dl THEN DOMAIN s.dl[v] ELSE {}
Stake(s, v) == IF v \in DOMAIN s.dd THEN s.dd[v].total ELSE Zero
PoolStake(s, p) == SumOver(PoolMembers(s, p), LAMBDA v : Stake(s, v))
MaxStake(s, p) == LET Op(acc, v) == NMax(acc, Stake(s, v))
                  IN  FoldS(Op, Zero, SeqOfSet(PoolMembers(s, p)))

(* ---- F1 core ------------------------------------------------------------ *)
EntryOf(s, v, k) == IF v \in DOMAIN s.de /\ k \in DOMAIN s.de[v] THEN s.de[v][k] ELSE NoCoins
SetEntry(s, v, k, c) == [s EXCEPT !.de = PutKey(@, v, PutKey(GetOr(@, v, Empty), k, c))]
DelEntry(s, v, k) ==
    IF v \in DOMAIN s.de /\ k \in DOMAIN s.de[v]
    THEN LET m == RemoveKey(s.de[v], k)
         IN  [s EXCEPT !.de = IF m = Empty THEN RemoveKey(@, v) ELSE PutKey(@, v, m)]
    ELSE s

NoData == [rew |-> NoCoins, total |-> Zero, k |-> 0, n |-> 0, und |-> FALSE]

\* reward per unit of stake of the running period (rounded down: nobody is ever
\* promised more than was paid in)
PeriodValue(data) ==
    IF data.total = Zero THEN NoCoins
    ELSE NormC([d \in DOMAIN data.rew |-> DQuoTrunc(DecOf(data.rew[d]), DecOf(data.total))])

\* closes the running period of staker v; yields [s, data] with data not yet stored
NewPeriod(s, v, data) ==
    LET prev == EntryOf(s, v, data.k)
        s1 == SetEntry(s, v, data.k + 1, CAdd(PeriodValue(data), prev))
        s2 == IF data.und THEN DelEntry(s1, v, data.k) ELSE s1
    IN  [s |-> s2, data |-> [data EXCEPT !.rew = NoCoins, !.k = @ + 1, !.und = FALSE]]

PutData(s, v, data) == [s EXCEPT !.dd = PutKey(@, v, data)]
PutDelegator(s, v, d, rec) == [s EXCEPT !.dl = PutKey(@, v, PutKey(GetOr(@, v, Empty), d, rec))]
DropDelegator(s, v, d) ==
    LET m == RemoveKey(s.dl[v], d)
    IN  [s EXCEPT !.dl = IF m = Empty THEN RemoveKey(@, v) ELSE PutKey(@, v, m)]

\* slashes of v at indices >= lo, in order
SlashesFrom(s, v, lo) ==
    IF v \in DOMAIN s.ds THEN SeqOfInts({k \in DOMAIN s.ds[v] : k >= lo}) ELSE <<>>

\* the (decimal) balance of a delegator with amount amt since index k, and the
\* rewards it accrued up to index kmax: walk over the slashes in between
F1Walk(s, v, rec, kmax) ==
    LET Op(acc, sk) ==
            LET diff == CSub(EntryOf(s, v, sk), EntryOf(s, v, acc.at))
            IN  [at |-> sk,
                 bal |-> acc.bal -- DMulTrunc(acc.bal, s.ds[v][sk]),
                 rew |-> CAdd(acc.rew, NormC([d \in DOMAIN diff |-> DMulTrunc(diff[d], acc.bal)]))]
        w == FoldS(Op, [at |-> rec.k, bal |-> DecOf(rec.amt), rew |-> NoCoins],
                   SlashesFrom(s, v, rec.k))
        last == CSub(EntryOf(s, v, kmax), EntryOf(s, v, w.at))
    IN  [bal |-> w.bal,
         rew |-> CAdd(w.rew, NormC([d \in DOMAIN last |-> DMulTrunc(last[d], w.bal)]))]

TruncC(c) == NormC([d \in DOMAIN c |-> DTrunc(c[d])])

\* the stake of delegator d with staker v after all slashes
DelStake(s, v, d) ==
    IF ~IsDelegator(s, v, d) THEN Zero
    ELSE LET Op(acc, sk) == acc -- DMulTrunc(acc, s.ds[v][sk])
         IN  DTrunc(FoldS(Op, DecOf(s.dl[v][d].amt), SlashesFrom(s, v, s.dl[v][d].k)))

\* what delegator d could withdraw right now
Outstanding(s, v, d) ==
    IF ~IsDelegator(s, v, d) THEN NoCoins
    ELSE LET data == s.dd[v]
             w == F1Walk(s, v, s.dl[v][d], data.k)
             pv == PeriodValue(data)
         IN  TruncC(CAdd(w.rew, NormC([c \in DOMAIN pv |-> DMulTrunc(pv[c], w.bal)])))

F1Create(s, v, d, amt) ==
    IF amt = Zero THEN s
    ELSE LET np == NewPeriod(s, v, GetOr(s.dd, v, NoData))
             s1 == PutData(np.s, v, [np.data EXCEPT !.total = @ ++ amt, !.n = @ + 1])
         IN  PutDelegator(s1, v, d, [k |-> np.data.k, amt |-> amt])

\* removes the delegator and yields its stake
F1Remove(s, v, d) ==
    IF ~IsDelegator(s, v, d) THEN [s |-> s, amt |-> Zero]
    ELSE LET bal == DelStake(s, v, d)
             k0 == s.dl[v][d].k
             np == NewPeriod(s, v, s.dd[v])
             n1 == np.data.n - 1
             \* rounding dust of slashes belongs to nobody once the last delegator left
             total1 == IF n1 = 0 THEN Zero ELSE np.data.total -- bal
             s1 == DelEntry(DropDelegator(np.s, v, d), v, k0)
             s2 == IF n1 = 0 THEN DelEntry(s1, v, np.data.k) ELSE s1
         IN  [s |-> PutData(s2, v, [np.data EXCEPT !.und = TRUE, !.total = total1, !.n = n1]),
              amt |-> bal]

\* resets the rewards of the delegator and yields them
F1Withdraw(s, v, d) ==
    IF ~IsDelegator(s, v, d) THEN [s |-> s, rew |-> NoCoins]
    ELSE LET rec == s.dl[v][d]
             bal == DelStake(s, v, d)
             np == NewPeriod(s, v, s.dd[v])
             s1 == PutData(np.s, v, np.data)
             w == F1Walk(s1, v, rec, np.data.k)
             s2 == DelEntry(s1, v, rec.k)
         IN  [s |-> PutDelegator(s2, v, d, [k |-> np.data.k, amt |-> bal]),
              rew |-> TruncC(w.rew)]

\* explicit or automatic withdrawal to the delegator's account
Withdraw(s, v, d) ==
    LET w == F1Withdraw(s, v, d)
    IN  Say(ModToUser(w.s, "delegation", d, w.rew), [t |-> "Withdraw", d |-> d, v |-> v, c |-> w.rew])

(* ---- stake changes ------------------------------------------------------- *)
AddStake(s, v, d, amt) ==
    IF IsDelegator(s, v, d)
    THEN LET s1 == Withdraw(s, v, d)
             r == F1Remove(s1, v, d)
         IN  F1Create(r.s, v, d, r.amt ++ amt)
    ELSE F1Create(s, v, d, amt)

\* removes up to amt; yields what was really removed
SubStake(s, v, d, amt) ==
    LET s1 == Withdraw(s, v, d)
        r == F1Remove(s1, v, d)
    IN  IF amt \prec r.amt
        THEN [s |-> F1Create(r.s, v, d, r.amt -- amt), amt |-> amt]
        ELSE [s |-> r.s, amt |-> r.amt]

(* ---- interface to other modules ----------------------------------------- *)
SlashFraction(s, kind) == CASE kind = "VOTE" -> s.pr.delegation.vote_slash
                            [] kind = "UPLOAD" -> s.pr.delegation.upload_slash
                            [] kind = "TIMEOUT" -> s.pr.delegation.timeout_slash
SlashAmount(s, v, kind) == DTrunc(DMul(DecOf(Stake(s, v)), SlashFraction(s, kind)))

\* in pool p
SlashStaker(s, p, v, kind) ==
    IF v \notin DOMAIN s.dd THEN s
    ELSE LET np == NewPeriod(s, v, s.dd[v])
             amt == SlashAmount(s, v, kind)
             s1 == PutData(np.s, v, [np.data EXCEPT !.total = @ -- amt])
             s2 == [s1 EXCEPT !.ds = PutKey(@, v, PutKey(GetOr(@, v, Empty), np.data.k, SlashFraction(s, kind)))]
         IN  Say(ModToMod(s2, "delegation", Treasury, Coin1(Denom, amt)),
                [t |-> "Slash", p |-> p, v |-> v, n |-> amt, kind |-> kind])

PayoutRewards(s, v, c, payer) ==
    IF CIsZero(c) THEN Ok(s)
    ELSE Check(s, v \in DOMAIN s.dd /\ CanPayMod(s, payer, c),
           Ok(ModToMod([s EXCEPT !.dd[v].rew = CAdd(@, c)], payer, "delegation", c)))

(* ---- messages ------------------------------------------------------------ *)
Delegate(s, a) ==
    Check(s, StakerExists(s, a.staker),
      LET s1 == AddStake(s, a.staker, a.from, a.amt)
      IN  Check(s, CanPayUser(s1, a.from, Coin1(Denom, a.amt)),
            OkSay(UserToMod(s1, a.from, "delegation", Coin1(Denom, a.amt)),
                  [t |-> "Delegate", d |-> a.from, v |-> a.staker, n |-> a.amt])))

WithdrawRewards(s, a) ==
    Check(s, IsDelegator(s, a.staker, a.from), Ok(Withdraw(s, a.staker, a.from)))

Undelegate(s, a) ==
    Check(s, a.amt \preceq DelStake(s, a.staker, a.from),
      OkSay([s EXCEPT !.uq = [lo |-> @.lo, hi |-> @.hi + 1,
            q |-> PutKey(@.q, @.hi + 1, [staker |-> a.staker, del |-> a.from, amt |-> a.amt, at |-> s.now])]],
            [t |-> "StartUndelegation", d |-> a.from, v |-> a.staker, n |-> a.amt,
             at |-> s.now + s.pr.delegation.unbonding_delegation_time]))

\* spells still on cooldown
ActiveSpells(s, d) ==
    {t \in GetOr(s.rc, d, {}) : s.now - t <= s.pr.delegation.redelegation_cooldown}
SpellFree(s, d) ==
    /\ Cardinality(ActiveSpells(s, d)) < s.pr.delegation.redelegation_max_amount
    /\ s.now \notin ActiveSpells(s, d)

Redelegate(s, a) ==
    Check(s, /\ IsDelegator(s, a.staker, a.from)
             /\ StakerExists(s, a.to)
             /\ PoolsOf(s, a.to) # {}
             /\ a.amt \preceq DelStake(s, a.staker, a.from)
             /\ SpellFree(s, a.from),
      LET s1 == [s EXCEPT !.rc = PutKey(@, a.from, ActiveSpells(s, a.from) \cup {s.now})]
          r == SubStake(s1, a.staker, a.from, a.amt)
      IN  Check(s, r.amt = a.amt, OkSay(AddStake(r.s, a.to, a.from, a.amt),
                  [t |-> "Redelegate", d |-> a.from, v |-> a.staker, w |-> a.to, n |-> a.amt])))

(* ---- begin of block: unbonding queue ------------------------------------ *)
RECURSIVE ProcessUnbonding(_)
ProcessUnbonding(s) ==
    LET i == s.uq.lo + 1 IN
    IF i \notin DOMAIN s.uq.q
    THEN IF s.uq.lo < s.uq.hi THEN ProcessUnbonding([s EXCEPT !.uq.lo = i]) ELSE s
    ELSE LET e == s.uq.q[i] IN
         IF e.at + s.pr.delegation.unbonding_delegation_time <= s.now
         THEN LET r == SubStake(s, e.staker, e.del, e.amt)
                  s1 == Say(ModToUser(r.s, "delegation", e.del, Coin1(Denom, r.amt)),
                            [t |-> "Undelegate", d |-> e.del, v |-> e.staker, n |-> r.amt])
              IN  ProcessUnbonding([s1 EXCEPT !.uq = [lo |-> i, hi |-> @.hi, q |-> RemoveKey(@.q, i)]])
         ELSE s
=============================================================================
