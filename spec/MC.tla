--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification from states the real chain  *)
(* was led into (driver/scen.go): every enabled and every refused action of *)
(* a small alphabet, in every order, breadth first until the budget is used *)
(* up.  The properties are checked on every transition, and every           *)
(* transition is noted so that the driver can replay it on the real chain.  *)
(***************************************************************************)
EXTENDS Props, TraceData

VARIABLES k,     \* the scenario
          s,     \* the chain
          ph     \* "in" a block or "out" between blocks

M == MCMeta(k)
Name == M.scenario
Stakers_ == ToSet(M.stk)
Dels == ToSet(M.dels)
Fnds == ToSet(M.funders)
ValOf(v) == M.val[CHOOSE i \in DOMAIN M.stk : M.stk[i] = v]
Gov == M.gov
In(names) == Name \in names
Open == {p \in DOMAIN s.pools : Prop(s, p).sid # ""}

(* ---- alphabets ------------------------------------------------------------- *)
NextIdx(p) == s.pools[p].curIndex + Prop(s, p).bsize
Submits(P) ==
    {[kind |-> "SubmitBundle", from |-> ValOf(v), staker |-> v, pool |-> p, sid |-> "b" \o ToString(p) \o "-" \o ToString(NextIdx(p)),
      dsize |-> "100", hash |-> "h", idx |-> NextIdx(p), bsize |-> 10, fk |-> ToString(NextIdx(p)), tk |-> ToString(NextIdx(p) + 9),
      sum |-> "s" \o ToString(NextIdx(p))] : v \in Stakers_, p \in P}
VoteActs(vs, kinds) ==
    {[kind |-> "VoteBundle", from |-> ValOf(v), staker |-> v, pool |-> p, sid |-> Prop(s, p).sid, vote |-> w] :
        v \in vs, p \in Open, w \in kinds}
Skips(P) == {[kind |-> "SkipUploader", from |-> ValOf(v), staker |-> v, pool |-> p, idx |-> NextIdx(p)] : v \in Stakers_, p \in P}
Claims(P) == {[kind |-> "ClaimUploader", from |-> ValOf(v), staker |-> v, pool |-> p] : v \in Stakers_, p \in P}
Delegates(ds, vs, ns) == {[kind |-> "Delegate", from |-> d, staker |-> v, amt |-> n] : d \in ds, v \in vs, n \in ns}
Undelegates(ds, vs, ns) == {[kind |-> "Undelegate", from |-> d, staker |-> v, amt |-> n] : d \in ds, v \in vs, n \in ns}
Redelegates(ds, ns) == {[kind |-> "Redelegate", from |-> d, staker |-> v, to |-> w, amt |-> n] : d \in ds, v \in Stakers_, w \in Stakers_, n \in ns}
Withdraws(ds, vs) == {[kind |-> "WithdrawRewards", from |-> d, staker |-> v] : d \in ds, v \in vs}
Joins(vs, P) == {[kind |-> "JoinPool", from |-> v, pool |-> p, val |-> ValOf(v), amt |-> "1"] : v \in vs, p \in P}
Leaves(vs, P) == {[kind |-> "LeavePool", from |-> v, pool |-> p] : v \in vs, p \in P}
Commissions(vs, cs) == {[kind |-> "UpdateCommission", from |-> v, com |-> c] : v \in vs, c \in cs}
ClaimsCom(vs) == {[kind |-> "ClaimCommission", from |-> v, coins |-> c, bad |-> ""] :
                    v \in vs, c \in {Coin1(Denom, "1"), Coin1("acoin", "1"), Coin1(Denom, "9") @@ Coin1("acoin", "2")}}
Funds(fs, cs, ps) == {[kind |-> "FundPool", from |-> f, pool |-> 0, coins |-> c, per |-> p, valid |-> TRUE] : f \in fs, c \in cs, p \in ps}
Defunds(fs, cs) == {[kind |-> "DefundPool", from |-> f, pool |-> 0, coins |-> c, valid |-> TRUE] : f \in fs, c \in cs}
GovPool(kinds, P, from) == {[kind |-> x, from |-> from, pool |-> p] : x \in kinds, p \in P}

K(n) == Coin1(Denom, n)
A(n) == Coin1("acoin", n)
Two(n, m) == K(n) @@ A(m)

(* ---- one transition ---------------------------------------------------------- *)
\* (IF, not disjunction: a disjunction would be two transitions)
MInv(tag, a, e) == IF ~Want(tag) THEN TRUE ELSE LET t == Try(e) IN
    IF ~t.ok THEN MCReport(k, s, ph, a, tag, t.v)
    ELSE IF t.v THEN TRUE ELSE MCReport(k, s, ph, a, tag, "FALSE")

Properties(a, ok, t, ev) == IF a.kind = "Query" THEN TRUE ELSE
    /\ MInv("inv:C01", a, Inv_C01(t))
    /\ MInv("inv:C03", a, Inv_C03(t))
    /\ MInv("inv:C05", a, Inv_C05(t))
    /\ MInv("inv:C07", a, Inv_C07(t))
    /\ MInv("inv:C11", a, Inv_C11(t))
    /\ MInv("inv:C12", a, Inv_C12(t))
    /\ MInv("inv:C13", a, Inv_C13(t))
    /\ MInv("inv:C14", a, Inv_C14(t))
    /\ MInv("inv:C15", a, Inv_C15(t))
    /\ MInv("inv:C17", a, Inv_C17(t))
    /\ MInv("inv:C18", a, Inv_C18(t))
    /\ MInv("inv:C20", a, Inv_C20(t))
    /\ MInv("inv:C21", a, Inv_C21(t))
    /\ MInv("inv:C23", a, Inv_C23(t))
    /\ MInv("inv:C25", a, Inv_C25(t))
    /\ MInv("step:C01", a, Step_C01(s, a, ok, t))
    /\ MInv("step:C02", a, Step_C02(s, a, ok, t))
    /\ MInv("step:C03", a, Step_C03(s, a, ok, t))
    /\ MInv("step:C04", a, Step_C04(s, a, ok, t))
    /\ MInv("step:C05", a, Step_C05(s, a, ok, t))
    /\ MInv("step:C06", a, Step_C06(s, a, ok, t))
    /\ MInv("step:C07", a, Step_C07(s, a, ok, t))
    /\ MInv("step:C08", a, Step_C08(s, a, ok, t))
    /\ MInv("step:C09", a, Step_C09(s, a, ok, t))
    /\ MInv("step:C10", a, Step_C10(s, a, ok, t))
    /\ MInv("step:C11", a, Step_C11(s, a, ok, t))
    /\ MInv("step:C12", a, Step_C12(s, a, ok, t))
    /\ MInv("step:C13", a, Step_C13(s, a, ok, t))
    /\ MInv("step:C14", a, Step_C14(s, a, ok, t))
    /\ MInv("step:C15", a, Step_C15(s, a, ok, t))
    /\ MInv("step:C16", a, Step_C16(s, a, ok, t))
    /\ MInv("step:C17", a, Step_C17(s, a, ok, t))
    /\ MInv("step:C18", a, Step_C18(s, a, ok, t))
    /\ MInv("step:C19", a, Step_C19(s, a, ok, t))
    /\ MInv("step:C20", a, Step_C20(s, a, ok, t))
    /\ MInv("step:C21", a, Step_C21(s, a, ok, t))
    /\ MInv("step:C22", a, Step_C22(s, a, ok, t))
    /\ MInv("step:C23", a, Step_C23(s, a, ok, t))
    /\ MInv("step:C24", a, Step_C24(s, a, ok, t))
    /\ MInv("step:C25", a, Step_C25(s, a, ok, t))
    /\ MInv("step:C28", a, Step_C28(s, a, ok, t))
    /\ MInv("step:C30", a, Step_C30(s, a, ok, t, ev))

Take(a, ph2) ==
    \E r \in {Step(s, a)} :
    \E t \in {[r.s EXCEPT !.ev = <<>>]} :
    /\ Room(k)
    /\ Emit(k, s, ph, a, t, ph2)
    /\ Properties(a, r.ok, t, r.s.ev)
    /\ s' = t
    /\ ph' = ph2
    /\ k' = k

Act_(S) == ph = "in" /\ \E a \in S : Take(a, "in")

(* ---- blocks -------------------------------------------------------------------- *)
Dts == CASE In({"votes", "funders", "slots", "places"}) -> {60, 120}
         [] In({"stake"}) -> {60, 100}
         [] In({"members"}) -> {59, 100}
         [] In({"pools"}) -> {10, 60}
         [] In({"team"}) -> {7776000, 31536000}
         [] In({"inflation", "params"}) -> {60}
\* what the chain mints (no change of the inflation rate): only where it matters
Provision(t) == IF In({"team", "inflation"})
                THEN DTrunc(NQuo(M.inflation ** Amt(s.sup, Denom), N(M.bpy)))
                ELSE Zero
Blocks == \/ ph = "in" /\ Take([kind |-> "EndBlock"], "out")
          \/ ph = "out" /\ \E dt \in Dts :
                Take([kind |-> "BeginBlock", now |-> s.now + dt, provision |-> Provision(0)], "in")

(* ---- what clients ask ------------------------------------------------------------ *)
NoPage == [mode |-> "none", dir |-> "up", limit |-> 1]
ByOffset == [mode |-> "offset", dir |-> "up", limit |-> 1]
Everybody == Stakers_ \cup Dels \cup Fnds
Qs(q) == [kind |-> "Query", q |-> q]
QueryOf ==
    \/ Act_({Qs(q) @@ [addr |-> d] : q \in {"accountAssets", "redelegation", "govDelegations"}, d \in Everybody})
    \/ Act_({Qs("unbondings") @@ [addr |-> d, page |-> NoPage] : d \in Dels})
    \/ Act_({Qs("stakersByDelegator") @@ [addr |-> d, page |-> ByOffset] : d \in Dels})
    \/ Act_({Qs("delegatorsByStaker") @@ [staker |-> v, page |-> ByOffset] : v \in Stakers_})
    \/ Act_({Qs("delegator") @@ [staker |-> v, addr |-> d] : v \in Stakers_, d \in Dels})
    \/ Act_({Qs("staker") @@ [staker |-> v] : v \in Stakers_})
    \/ Act_({Qs(q) @@ [pool |-> p] : q \in {"voteStatus", "pool", "stakersByPool"}, p \in DOMAIN s.pools})
    \/ Act_({Qs("canPropose") @@ [pool |-> p, staker |-> v, addr |-> ValOf(v), idx |-> NextIdx(p)] : v \in Stakers_, p \in DOMAIN s.pools})
    \/ Act_({Qs("canVote") @@ [pool |-> p, staker |-> v, addr |-> ValOf(v), sid |-> Prop(s, p).sid] : v \in Stakers_, p \in Open})
    \/ Act_({Qs("stakers") @@ [search |-> "", match |-> DOMAIN s.stk, status |-> st, page |-> NoPage] : st \in {"active", "inactive"}})
    \/ Act_({Qs("stakersByPoolCount") @@ [page |-> NoPage], Qs("bundles") @@ [pool |-> 0, page |-> ByOffset],
             Qs("fundingsByPool") @@ [pool |-> 0, status |-> "active", page |-> NoPage]})
    \/ Act_({Qs("bundleAt") @@ [pool |-> 0, idx |-> i] : i \in {9, 10}})
    \/ Act_({Qs("govWeights")})
Asks == Want("queries") /\ ~In({"slots", "places", "team"}) /\ QueryOf

(* ---- the scenarios ----------------------------------------------------------------- *)
VoteScenario ==
    /\ In({"votes"})
    /\ \/ Act_(VoteActs(Stakers_, {"VALID", "INVALID", "ABSTAIN"}))
       \/ Act_(Submits({0})) \/ Act_(Skips({0})) \/ Act_(Claims({0}))

StakeScenario ==
    /\ In({"stake"})
    /\ \/ Act_(VoteActs(Stakers_, {"VALID", "INVALID"})) \/ Act_(Submits({0}))
       \/ Act_(Delegates(Dels, Stakers_, {"7"})) \/ Act_(Undelegates(Dels, Stakers_, {"3"})) \/ Act_(Undelegates(Stakers_, Stakers_, {"33"}))
       \/ Act_(Redelegates(Dels, {"3"})) \/ Act_(Withdraws(Dels \cup Stakers_, Stakers_)) \/ Act_(ClaimsCom(Stakers_))

MemberScenario ==
    /\ In({"members"})
    /\ \/ Act_(VoteActs(Stakers_, {"VALID", "INVALID"})) \/ Act_(Submits({0}))
       \/ Act_(Joins(Stakers_, {0, 1})) \/ Act_(Leaves(Stakers_, {0, 1})) \/ Act_(Claims({1}))
       \/ Act_(Commissions({M.stk[1]}, {"250000000000000000", "500000000000000000"}))
       \/ Act_(GovPool({"DisablePool", "EnablePool"}, {0}, Gov))

FunderScenario ==
    /\ In({"funders"})
    /\ \/ Act_(Submits({0}))
       \/ Act_(Funds(Fnds, {K("20"), A("12"), Two("21", "10"), NoCoins}, {K("5"), A("6"), Two("9", "3"), NoCoins}))
       \/ Act_(Defunds(Fnds, {K("3"), A("8"), Two("99", "99")}))

SlotScenario ==
    /\ In({"slots"})
    /\ \/ Act_(Submits({0}))
       \/ Act_(Funds(Fnds, {K("24"), K("25"), K("26"), K("41")}, {K("6")}))
       \/ Act_(Funds(Fnds, {A("19"), A("20")}, {A("6")}))
       \/ Act_(Defunds(Fnds, {K("1"), K("99")}))

PlaceScenario ==
    /\ In({"places"})
    /\ \/ Act_(Submits({0})) \/ Act_(Joins(Stakers_, {0})) \/ Act_(Leaves(Stakers_, {0}))
       \/ Act_(Delegates(Dels, Stakers_, {"1"})) \/ Act_(VoteActs(Stakers_, {"VALID"}))

PoolScenario ==
    /\ In({"pools"})
    /\ \/ Act_(VoteActs(Stakers_, {"VALID"})) \/ Act_(Submits({0, 1})) \/ Act_(Claims({0, 1}))
       \/ Act_(GovPool({"DisablePool", "EnablePool"}, {0, 1}, Gov)) \/ Act_(GovPool({"DisablePool"}, {0}, M.stk[1]))
       \/ Act_(Joins({M.stk[3]}, {0}))
       \/ Act_({[kind |-> "ScheduleUpgrade", from |-> Gov, runtime |-> r, version |-> "2", binaries |-> "{b}", at |-> s.now + d, dur |-> 20] :
                  r \in {"@kyve/test", "@kyve/other"}, d \in {-5, 10}})
       \/ Act_({[kind |-> "CancelUpgrade", from |-> f, runtime |-> "@kyve/test"] : f \in {Gov, M.stk[1]}})
       \/ Act_({[kind |-> "UpdatePool", from |-> Gov, json |-> TRUE, pool |-> 0, p |-> x] :
                  x \in {[minDel |-> "161"], [minDel |-> "100"]}})

TeamScenario ==
    /\ In({"team"})
    /\ \/ Act_({[kind |-> "CreateTeamAccount", from |-> f, alloc |-> "164000000000000000", comm |-> 1685000000] : f \in {M.foundation, M.bcp, M.dels[1]}})
       \/ Act_({[kind |-> "Clawback", from |-> f, id |-> i, at |-> t] : f \in {M.foundation}, i \in {0, 1}, t \in {0, 1700000000, s.now}})
       \/ Act_({[kind |-> "ClaimUnlocked", from |-> M.bcp, id |-> i, amt |-> n, to |-> M.dels[1]] : i \in DOMAIN s.team.accts, n \in {"1", "1000000000"}})
       \/ Act_({[kind |-> "ClaimUnlocked", from |-> M.foundation, id |-> i, amt |-> Claimable(TAcct(s, i), s.now), to |-> M.dels[1]] : i \in DOMAIN s.team.accts})
       \/ Act_({[kind |-> "ClaimAccountRewards", from |-> M.foundation, id |-> i, amt |-> TAcct(s, i).trew -- TAcct(s, i).rclaim ++ d, to |-> M.dels[1]] : i \in DOMAIN s.team.accts, d \in {"0", "1"}})
       \/ Act_({[kind |-> "ClaimAuthorityRewards", from |-> f, amt |-> s.team.total -- s.team.claimed ++ d, to |-> M.dels[1]] : f \in {M.foundation, M.bcp}, d \in {"0", "1"}})

InflationScenario ==
    /\ In({"inflation"})
    /\ \/ Act_(Submits({0}))
       \/ Act_(GovPool({"DisablePool", "EnablePool"}, {0, 1, 2}, Gov))
       \/ Act_({[kind |-> "UpdatePool", from |-> Gov, json |-> TRUE, pool |-> p, p |-> x] :
                  p \in {0, 2}, x \in {[weight |-> "0"], [weight |-> "3000000000000000000"], [minDel |-> "1000"], [minDel |-> "0"]}})
       \/ Act_({[kind |-> "UpdateParams", from |-> Gov, json |-> TRUE, module |-> "pool", p |-> x] :
                  x \in {[protocol_inflation_share |-> "0"], [protocol_inflation_share |-> "333333333333333333"], [protocol_inflation_share |-> "1000000000000000001"],
                         [pool_inflation_payout_rate |-> "500000000000000000"]}})
       \/ Act_(Undelegates({M.stk[2]}, {M.stk[2]}, {"60"}))

ParamScenario ==
    /\ In({"params"})
    /\ \/ Act_(Submits({0})) \/ Act_(VoteActs(Stakers_, {"VALID"})) \/ Act_(Joins({M.stk[3]}, {0}))
       \/ Act_({[kind |-> "UpdateParams", from |-> f, json |-> TRUE, module |-> "bundles", p |-> x] :
                  f \in {Gov, M.stk[1]}, x \in {[max_points |-> 1], [max_points |-> 0], [upload_timeout |-> 0], [upload_timeout |-> 1], [network_fee |-> "1000000000000000000"]}})
       \/ Act_({[kind |-> "UpdateParams", from |-> Gov, json |-> TRUE, module |-> "delegation", p |-> x] :
                  x \in {[vote_slash |-> "1000000000000000000"], [vote_slash |-> "1000000000000000001"], [timeout_slash |-> "-1"], [unbonding_delegation_time |-> 0]}})
       \/ Act_({[kind |-> "UpdateParams", from |-> Gov, json |-> TRUE, module |-> "pool", p |-> x] :
                  x \in {[max_voting_power_per_pool |-> "400000000000000000"], [max_voting_power_per_pool |-> "1000000000000000000"], [pool_inflation_payout_rate |-> "1000000000000000001"]}})
       \/ Act_({[kind |-> "UpdateParams", from |-> Gov, json |-> TRUE, module |-> "funders", p |-> x] :
                  x \in {[min_funding_multiple |-> 9], [coin_whitelist |-> SubSeq(s.pr.funders.coin_whitelist, 1, 1)], [coin_whitelist |-> SubSeq(s.pr.funders.coin_whitelist, 2, Len(s.pr.funders.coin_whitelist))]}})

Init == /\ k \in 1..MCCount
        /\ s = MCState(k)
        /\ ph = "in"
Next == Blocks \/ Asks \/ VoteScenario \/ StakeScenario \/ MemberScenario \/ FunderScenario \/ SlotScenario
          \/ PlaceScenario \/ PoolScenario \/ TeamScenario \/ InflationScenario \/ ParamScenario
Spec == Init /\ [][Next]_<<k, s, ph>>
=============================================================================
