------------------------------ MODULE Funders ------------------------------
(***************************************************************************)
(* x/funders: funder profiles, fundings of pools, the bounded set of       *)
(* active funders per pool, charging per finalized bundle.                 *)
(*                                                                         *)
(*  s.funders   funder -> profile                                          *)
(*  s.fundings  pool -> (funder -> [amts, per, total])                     *)
(*  s.fstate    pool -> sequence of active funders (compared as a set)     *)
(***************************************************************************)
EXTENDS Stakers

CONSTANT MaxFunders      \* active funders per pool (50 on the chain)

WhitelistSeq(s) == s.pr.funders.coin_whitelist
WhitelistDenoms(s) == {WhitelistSeq(s)[i].coin_denom : i \in DOMAIN WhitelistSeq(s)}
\* the last entry of a denomination counts
WhitelistEntry(s, d) ==
    LET q == WhitelistSeq(s)
        i == CHOOSE i \in DOMAIN q : q[i].coin_denom = d
                        /\ \A j \in DOMAIN q : q[j].coin_denom = d => j <= i
    IN  q[i]
MinFunding(s) == CSumSeq([i \in DOMAIN WhitelistSeq(s) |->
    Coin1(WhitelistSeq(s)[i].coin_denom, WhitelistSeq(s)[i].min_funding_amount)])
MinPerBundle(s) == CSumSeq([i \in DOMAIN WhitelistSeq(s) |->
    Coin1(WhitelistSeq(s)[i].coin_denom, WhitelistSeq(s)[i].min_funding_amount_per_bundle)])

FundingExists(s, p, f) == p \in DOMAIN s.fundings /\ f \in DOMAIN s.fundings[p]
FundingOf(s, p, f) == s.fundings[p][f]
NoFunding == [amts |-> NoCoins, per |-> NoCoins, total |-> NoCoins]
SetFunding(s, p, f, rec) == [s EXCEPT !.fundings = PutKey(@, p, PutKey(GetOr(@, p, Empty), f, rec))]
ActiveSeq(s, p) == GetOr(s.fstate, p, <<>>)
ActiveSet(s, p) == ToSet(ActiveSeq(s, p))
SetActive(s, p, f) == IF f \in ActiveSet(s, p) THEN s
                      ELSE [s EXCEPT !.fstate = PutKey(@, p, Append(ActiveSeq(s, p), f))]
SetInactive(s, p, f) == [s EXCEPT !.fstate = PutKey(@, p, SelectSeq(ActiveSeq(s, p), LAMBDA x : x # f))]

\* a coin without remaining funds has no per-bundle amount either
Clean(fd) == [fd EXCEPT !.per = [d \in DOMAIN fd.per \cap DOMAIN fd.amts |-> fd.per[d]]]

\* value of a funding
Score(s, amts) ==
    SumOver({d \in DOMAIN amts : d \in WhitelistDenoms(s)},
            LAMBDA d : LET e == WhitelistEntry(s, d)
                       IN  DTrunc(DQuo(e.coin_weight ** amts[d], DecOf(Pow10(e.coin_decimals)))))

CAnyGT(a, b) == \E d \in DOMAIN a \cap DOMAIN b : b[d] \prec a[d]

\* fd already cleaned
Compatible(s, fd) ==
    /\ DOMAIN fd.amts \subseteq DOMAIN fd.per
    /\ DOMAIN fd.amts \subseteq DOMAIN MinFunding(s)
    /\ DOMAIN fd.per \subseteq DOMAIN MinPerBundle(s)
    /\ ~CAnyGT(MinFunding(s), fd.amts)
    /\ ~CAnyGT(MinPerBundle(s), fd.per)
    /\ \A d \in DOMAIN fd.per : N(s.pr.funders.min_funding_multiple) ** fd.per[d] \preceq Amt(fd.amts, d)

\* the active funding of least value, the first in the order of admission among equals
LowestFunder(s, p) ==
    LET q == ActiveSeq(s, p)
        sc(i) == Score(s, FundingOf(s, p, q[i]).amts)
        i == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q :
                 sc(i) \prec sc(j) \/ (sc(i) = sc(j) /\ i <= j)
    IN  q[i]

CreateFunder(s, a) ==
    Check(s, a.meta.moniker # "" /\ a.from \notin DOMAIN s.funders,
      OkSay([s EXCEPT !.funders = PutKey(@, a.from, a.meta)], [t |-> "CreateFunder", f |-> a.from, meta |-> a.meta]))

UpdateFunder(s, a) ==
    Check(s, a.meta.moniker # "" /\ a.from \in DOMAIN s.funders,
      OkSay([s EXCEPT !.funders = PutKey(@, a.from, a.meta)], [t |-> "UpdateFunder", f |-> a.from, meta |-> a.meta]))

FundPool(s, a) ==
    Check(s, /\ a.valid
             /\ ~(CIsZero(a.coins) /\ CIsZero(a.per))
             /\ a.from \in DOMAIN s.funders
             /\ PoolExists(s, a.pool),
      LET old == IF FundingExists(s, a.pool, a.from) THEN FundingOf(s, a.pool, a.from) ELSE NoFunding
          fd == Clean([amts |-> CAdd(old.amts, a.coins),
                       per |-> [d \in DOMAIN old.per \cup DOMAIN a.per |->
                                   IF d \in DOMAIN a.per THEN a.per[d] ELSE old.per[d]],
                       total |-> old.total])
          act == ActiveSet(s, a.pool)
          full == Cardinality(act) >= MaxFunders /\ a.from \notin act
          low == LowestFunder(s, a.pool)
      IN  Check(s, /\ Compatible(s, fd)
                   /\ ~CIsZero(fd.amts)
                   /\ (full => Score(s, FundingOf(s, a.pool, low).amts) \preceq Score(s, fd.amts)),
            LET lf == FundingOf(s, a.pool, low)
                s1 == IF full
                      THEN Say(SetInactive(SetFunding(ModToUser(s, "funders", low, lf.amts), a.pool, low,
                                                  [lf EXCEPT !.amts = NoCoins, !.per = NoCoins]),
                                       a.pool, low), [t |-> "Defund", p |-> a.pool, f |-> low, c |-> lf.amts])
                      ELSE s
            IN  Check(s, CanPayUser(s1, a.from, a.coins),
                  OkSay(SetActive(SetFunding(UserToMod(s1, a.from, "funders", a.coins), a.pool, a.from, fd),
                                  a.pool, a.from),
                        [t |-> "Fund", p |-> a.pool, f |-> a.from, c |-> a.coins, per |-> a.per]))))

DefundPool(s, a) ==
    Check(s, a.valid /\ ~CIsZero(a.coins) /\ FundingExists(s, a.pool, a.from),
      LET old == FundingOf(s, a.pool, a.from)
          pay == CMin(old.amts, a.coins)
          fd == Clean([old EXCEPT !.amts = CSub(@, pay)])
      IN  Check(s, ~CIsZero(pay) /\ Compatible(s, fd),
            LET s1 == SetFunding(ModToUser(s, "funders", a.from, pay), a.pool, a.from, fd)
            IN  OkSay(IF CIsZero(fd.amts) THEN SetInactive(s1, a.pool, a.from) ELSE s1,
                      [t |-> "Defund", p |-> a.pool, f |-> a.from, c |-> pay])))

\* one bundle's charge of one funding
ChargeOf(s, fd) == LET c == CMin(fd.amts, fd.per)
                   IN  [d \in DOMAIN c \cap WhitelistDenoms(s) |-> c[d]]

\* charges all active funders of a pool; yields [s, paid], paid already moved to module "pool"
ChargeFunders(s, p) ==
    LET Op(acc, f) ==
            LET fd == FundingOf(acc.s, p, f)
                c == ChargeOf(s, fd)
                fd1 == Clean([fd EXCEPT !.amts = CSub(@, c), !.total = CAdd(@, c)])
                s1 == SetFunding(acc.s, p, f, fd1)
            IN  [s |-> IF CIsZero(fd1.amts) THEN SetInactive(s1, p, f) ELSE s1,
                 paid |-> CAdd(acc.paid, c)]
        r == FoldS(Op, [s |-> s, paid |-> NoCoins], ActiveSeq(s, p))
        s1 == IF ActiveSeq(s, p) # <<>> /\ ActiveSeq(r.s, p) = <<>>
              THEN Say(r.s, [t |-> "OutOfFunds", p |-> p]) ELSE r.s
    IN  [s |-> ModToMod(s1, "funders", "pool", r.paid), paid |-> r.paid]
=============================================================================
