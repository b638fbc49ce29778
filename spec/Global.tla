------------------------------- MODULE Global -------------------------------
(***************************************************************************)
(* x/global: fees (minimum gas price, gas adjustments, refunds, burning)   *)
(* and the parameter changes of all modules.                               *)
(*   s.fg  granter -> (grantee -> [unlimited, lim])   fee allowances       *)
(***************************************************************************)
EXTENDS Team

FeeAcct == "fee_collector"

\* end of block
BurnFees(s) ==
    IF s.h = 1 THEN s
    ELSE LET c == ModCoins(s, FeeAcct)
             b == ShareC(c, s.pr.global.burn_ratio)
         IN  [SetMod(s, FeeAcct, CSub(c, b)) EXCEPT !.sup = CSub(@, b)]

(* ---- parameters ------------------------------------------------------------ *)
NonNeg(n) == Zero \preceq n
ParamsValid(m, r) ==
    CASE m = "bundles" ->
           /\ r.upload_timeout > 0 /\ r.max_points > 0 /\ IsPct(r.network_fee)
           /\ \A i \in DOMAIN r.storage_costs : NonNeg(r.storage_costs[i].cost)
      [] m = "delegation" ->
           /\ IsPct(r.vote_slash) /\ IsPct(r.upload_slash) /\ IsPct(r.timeout_slash)
           /\ r.unbonding_delegation_time >= 0 /\ r.redelegation_cooldown >= 0
           /\ r.redelegation_max_amount >= 0
      [] m = "stakers" -> r.commission_change_time >= 0 /\ r.leave_pool_time >= 0
      [] m = "pool" -> /\ IsPct(r.protocol_inflation_share) /\ IsPct(r.pool_inflation_payout_rate)
                       /\ IsPct(r.max_voting_power_per_pool)
      [] m = "funders" ->
           /\ r.min_funding_multiple >= 0
           /\ \E i \in DOMAIN r.coin_whitelist : r.coin_whitelist[i].coin_denom = Denom
           /\ \A i \in DOMAIN r.coin_whitelist :
                 /\ r.coin_whitelist[i].coin_denom # ""
                 /\ NonNeg(r.coin_whitelist[i].min_funding_amount)
                 /\ NonNeg(r.coin_whitelist[i].min_funding_amount_per_bundle)
                 /\ NonNeg(r.coin_whitelist[i].coin_weight)
      [] m = "global" ->
           /\ NonNeg(r.min_gas_price) /\ IsPct(r.burn_ratio)
           /\ \A i \in DOMAIN r.gas_adjustments : r.gas_adjustments[i].amount >= 0
           /\ \A i \in DOMAIN r.gas_refunds : IsPct(r.gas_refunds[i].fraction)
ParamModules == {"bundles", "delegation", "stakers", "pool", "funders", "global"}

UpdateParams(s, a) ==
    LET old == s.pr[a.module]
        new == [f \in DOMAIN old |-> IF f \in DOMAIN a.p THEN a.p[f] ELSE old[f]]
    IN  Check(s, a.from = s.k.gov /\ a.json /\ ParamsValid(a.module, new),
          OkSay([s EXCEPT !.pr[a.module] = new], [t |-> "Params", m |-> a.module, old |-> old, new |-> new]))

(* ---- transactions ------------------------------------------------------------ *)
\* who has to sign: the senders of the messages in their order, then the payer of the fee
SignersOf(t) ==
    LET Op(acc, x) == IF x \in ToSet(acc) THEN acc ELSE Append(acc, x)
    IN  FoldS(Op, <<>>, Append([i \in DOMAIN t.msgs |-> t.msgs[i].act.from], t.payer))
SeqNo(s, x) == GetOr(s.seq, x, 0)
\* each of them with its own key, for this chain and its account, with its next sequence
\* number; untampered, not too late and without a longer memo than allowed
MaxMemo == 256
Authentic(s, t) ==
    LET need == SignersOf(t)
    IN  /\ Len(t.sigs) = Len(need)
        /\ \A i \in DOMAIN need :
              LET g == t.sigs[i] IN
              /\ g.who = need[i] /\ g.key = need[i] /\ g.pub = need[i]
              /\ g.seq = SeqNo(s, need[i]) /\ g.chain /\ g.num
        /\ t.flip = 0 /\ t.cut = 0
        /\ (t.until # 0 => s.h <= t.until)
        /\ t.memo <= MaxMemo
\* every signature can be used only once
Signed(s, t) ==
    LET Op(acc, x) == [acc EXCEPT !.seq = PutKey(@, x, SeqNo(acc, x) + 1)]
    IN  FoldS(Op, s, SignersOf(t))

AdjustmentOf(s, type) ==
    LET q == s.pr.global.gas_adjustments
        m == {i \in DOMAIN q : q[i].type = type}
    IN  IF m = {} THEN 0 ELSE q[CHOOSE i \in m : \A j \in m : i <= j].amount
AdjustmentsOf(s, types) == FoldS(LAMBDA acc, t : acc + AdjustmentOf(s, t), 0, types)
RefundOf(s, type) ==
    LET q == s.pr.global.gas_refunds
        m == {i \in DOMAIN q : q[i].type = type}
    IN  IF m = {} THEN Zero ELSE q[CHOOSE i \in m : \A j \in m : i <= j].fraction

CeilDec(d) == LET t == DTrunc(d) IN IF DecOf(t) \prec d THEN t ++ One ELSE t
RequiredFee(s, gas) == CeilDec(s.pr.global.min_gas_price ** N(gas))

Grant(s, g, e) == s.fg[g][e]
HasGrant(s, g, e) == g \in DOMAIN s.fg /\ e \in DOMAIN s.fg[g]
GrantCovers(s, g, e, fee) == HasGrant(s, g, e) /\ (Grant(s, g, e).unlimited \/ CLe(fee, Grant(s, g, e).lim))
UseGrant(s, g, e, fee) ==
    IF Grant(s, g, e).unlimited THEN s
    ELSE LET left == CSub(Grant(s, g, e).lim, fee)
             m == IF CIsZero(left) THEN RemoveKey(s.fg[g], e)
                  ELSE [s.fg[g] EXCEPT ![e].lim = left]
         IN  [s EXCEPT !.fg = IF m = Empty THEN RemoveKey(@, g) ELSE PutKey(@, g, m)]

(* ---- fee allowances -------------------------------------------------------------- *)
GrantFee(s, a) ==
    Check(s, /\ a.from # a.to
             /\ ~HasGrant(s, a.from, a.to)
             /\ (a.unlimited \/ (a.coins # NoCoins /\ CNonNeg(a.coins))),
      Ok([s EXCEPT !.fg = PutKey(@, a.from, PutKey(GetOr(@, a.from, Empty), a.to,
                                 [unlimited |-> a.unlimited, lim |-> a.coins]))]))
RevokeFee(s, a) ==
    Check(s, a.from # a.to /\ HasGrant(s, a.from, a.to),
      LET m == RemoveKey(s.fg[a.from], a.to)
      IN  Ok([s EXCEPT !.fg = IF m = Empty THEN RemoveKey(@, a.from) ELSE PutKey(@, a.from, m)]))
=============================================================================
