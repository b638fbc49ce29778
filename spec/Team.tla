-------------------------------- MODULE Team --------------------------------
(***************************************************************************)
(* x/team: vesting accounts of the core team, their share of inflation,    *)
(* and the authority's rewards.                                            *)
(*  s.team = [total, claimed, accts: id -> account]                        *)
(***************************************************************************)
EXTENDS Bundles

CONSTANTS TeamAllocation,             \* Num
          TGE, Cliff, Vesting, Unlock \* seconds

TeamAuthorities(s) == {s.k.foundation, s.k.bcp}
TAcct(s, i) == s.team.accts[i]

VestedAt(ac, t) ==
    LET d0 == IF t > ac.comm THEN t - ac.comm ELSE 0
        d == IF ac.clawback > 0 /\ ac.clawback < t THEN ac.clawback - ac.comm ELSE d0
    IN  IF d < Cliff THEN Zero
        ELSE IF d < Vesting
             THEN DTrunc(DQuo(DMul(DecOf(ac.alloc), DecOf(N(d))), DecOf(N(Vesting))))
             ELSE ac.alloc
MaxVested(ac) == VestedAt(ac, ac.comm + Vesting)
UnlockStart(ac) == (IF ac.comm > TGE THEN ac.comm ELSE TGE) + Cliff
UnlockedAt(ac, t) ==
    IF t < UnlockStart(ac) THEN Zero
    ELSE IF t - UnlockStart(ac) < Unlock
         THEN DTrunc(DQuo(DMul(DecOf(VestedAt(ac, t)), DecOf(N(t - UnlockStart(ac)))), DecOf(N(Unlock))))
         ELSE MaxVested(ac)
Claimable(ac, t) == NMax(Zero, UnlockedAt(ac, t) -- ac.ucl)

IssuedOf(accts) == SumOver(DOMAIN accts, LAMBDA i : MaxVested(accts[i]))
Issued(s) == IssuedOf(s.team.accts)
\* what the team account has to hold
TeamRequired(s) ==
    TeamAllocation ++ (s.team.total -- s.team.claimed)
      ++ SumOver(DOMAIN s.team.accts, LAMBDA i : TAcct(s, i).trew -- TAcct(s, i).rclaim -- TAcct(s, i).ucl)

TeamProvision(s, provision) ==
    DTrunc(DMul(DQuo(DecOf(TeamRequired(s)), DecOf(Amt(s.sup, Denom) -- provision)), DecOf(provision)))

\* begin of block, after minting
DistributeTeam(s, provision) ==
    LET tp == TeamProvision(s, provision)
        rew == [i \in DOMAIN s.team.accts |->
                  LET ac == TAcct(s, i)
                      share == DQuo(DecOf(VestedAt(ac, s.now) -- ac.ucl), DecOf(TeamAllocation))
                  IN  DTrunc(DMul(DecOf(tp), share))]
        sum == SumOver(DOMAIN rew, LAMBDA i : rew[i])
    IN  ModToMod([s EXCEPT !.team.accts = [i \in DOMAIN @ |-> [@[i] EXCEPT !.trew = @ ++ rew[i]]],
                           !.team.total = @ ++ (tp -- sum)],
                 "fee_collector", "team", Coin1(Denom, tp))

CreateTeamAccount(s, a) ==
    Check(s, /\ a.from \in TeamAuthorities(s)
             /\ a.alloc # Zero /\ a.comm # 0
             /\ Issued(s) ++ a.alloc \preceq TeamAllocation,
      OkSay([s EXCEPT !.team.accts = PutKey(@, Cardinality(DOMAIN @),
               [alloc |-> a.alloc, comm |-> a.comm, clawback |-> 0, ucl |-> Zero, lct |-> 0,
                trew |-> Zero, rclaim |-> Zero])],
            [t |-> "CreateTeamAccount", from |-> a.from, id |-> Cardinality(DOMAIN s.team.accts),
             alloc |-> a.alloc, comm |-> a.comm]))

Clawback(s, a) ==
    Check(s, /\ a.from \in TeamAuthorities(s)
             /\ a.id \in DOMAIN s.team.accts
             /\ (a.at > 0 => a.at >= TAcct(s, a.id).comm /\ a.at >= TAcct(s, a.id).lct),
      LET s1 == [s EXCEPT !.team.accts[a.id].clawback = a.at]
      IN  Check(s, Issued(s1) \preceq TeamAllocation,
            OkSay(s1, [t |-> "Clawback", from |-> a.from, id |-> a.id, at |-> a.at,
                       n |-> TAcct(s1, a.id).alloc -- MaxVested(TAcct(s1, a.id))])))

\* a transfer of 0 coins is accepted
TeamPay(s, to, amt) == ModToUser(s, "team", to, Coin1(Denom, amt))
CanTeamPay(s, amt) == CanPayMod(s, "team", Coin1(Denom, amt))

ClaimUnlocked(s, a) ==
    Check(s, /\ a.from \in TeamAuthorities(s)
             /\ a.id \in DOMAIN s.team.accts
             /\ a.amt \preceq Claimable(TAcct(s, a.id), s.now)
             /\ CanTeamPay(s, a.amt),
      OkSay(TeamPay([s EXCEPT !.team.accts[a.id].ucl = @ ++ a.amt, !.team.accts[a.id].lct = s.now],
                    a.to, a.amt),
            [t |-> "ClaimUnlocked", from |-> a.from, id |-> a.id, n |-> a.amt, to |-> a.to]))

ClaimAccountRewards(s, a) ==
    Check(s, /\ a.from \in TeamAuthorities(s)
             /\ a.id \in DOMAIN s.team.accts
             /\ a.amt \preceq TAcct(s, a.id).trew -- TAcct(s, a.id).rclaim
             /\ CanTeamPay(s, a.amt),
      OkSay(TeamPay([s EXCEPT !.team.accts[a.id].rclaim = @ ++ a.amt], a.to, a.amt),
            [t |-> "ClaimRewards", from |-> a.from, id |-> a.id, n |-> a.amt, to |-> a.to]))

ClaimAuthorityRewards(s, a) ==
    Check(s, /\ a.from = s.k.foundation
             /\ a.amt \preceq s.team.total -- s.team.claimed
             /\ CanTeamPay(s, a.amt),
      OkSay(TeamPay([s EXCEPT !.team.claimed = @ ++ a.amt], a.to, a.amt),
            [t |-> "ClaimAuthority", from |-> a.from, n |-> a.amt, to |-> a.to]))
=============================================================================
