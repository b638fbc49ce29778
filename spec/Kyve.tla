-------------------------------- MODULE Kyve --------------------------------
(***************************************************************************)
(* The KYVE chain as one deterministic transition system: Step(s, a) is    *)
(* the result of message or block phase a in state s.                      *)
(***************************************************************************)
EXTENDS Upgrade

(* ---- plain bank transfers (make room for outside money in every account) -- *)
Send(s, a) == Check(s, CanPayUser(s, a.from, a.coins), Ok(UserToUser(s, a.from, a.to, a.coins)))
\* the accounts that hold what the chain owes take no coins from users
Closed == {"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool",
           "transfer", "bundles", "delegation", "stakers", "funders", "pool", "team"}
SendMod(s, a) ==
    Check(s, a.mod \notin Closed /\ CanPayUser(s, a.from, a.coins), Ok(UserToMod(s, a.from, a.mod, a.coins)))
SendPool(s, a) ==
    Check(s, CanPayUser(s, a.from, a.coins),
      Ok(SetPoolB(SetUser(s, a.from, CSub(UserCoins(s, a.from), a.coins)), a.pool,
                  CAdd(PoolCoins(s, a.pool), a.coins))))

Msg(s, a) ==
    CASE a.kind = "CreateStaker" -> CreateStaker(s, a)
      [] a.kind = "UpdateMetadata" -> UpdateMetadata(s, a)
      [] a.kind = "UpdateCommission" -> UpdateCommission(s, a)
      [] a.kind = "ClaimCommission" -> ClaimCommission(s, a)
      [] a.kind = "JoinPool" -> JoinPool(s, a)
      [] a.kind = "LeavePool" -> LeavePool(s, a)
      [] a.kind = "Delegate" -> Delegate(s, a)
      [] a.kind = "WithdrawRewards" -> WithdrawRewards(s, a)
      [] a.kind = "Undelegate" -> Undelegate(s, a)
      [] a.kind = "Redelegate" -> Redelegate(s, a)
      [] a.kind = "CreateFunder" -> CreateFunder(s, a)
      [] a.kind = "UpdateFunder" -> UpdateFunder(s, a)
      [] a.kind = "FundPool" -> FundPool(s, a)
      [] a.kind = "DefundPool" -> DefundPool(s, a)
      [] a.kind = "SubmitBundle" -> SubmitBundle(s, a)
      [] a.kind = "VoteBundle" -> VoteBundle(s, a)
      [] a.kind = "SkipUploader" -> SkipUploader(s, a)
      [] a.kind = "ClaimUploader" -> ClaimUploader(s, a)
      [] a.kind = "CreatePool" -> CreatePool(s, a)
      [] a.kind = "UpdatePool" -> UpdatePool(s, a)
      [] a.kind = "DisablePool" -> DisablePool(s, a)
      [] a.kind = "EnablePool" -> EnablePool(s, a)
      [] a.kind = "ScheduleUpgrade" -> ScheduleUpgrade(s, a)
      [] a.kind = "CancelUpgrade" -> CancelUpgrade(s, a)
      [] a.kind = "UpdateParams" -> UpdateParams(s, a)
      [] a.kind = "CreateTeamAccount" -> CreateTeamAccount(s, a)
      [] a.kind = "Clawback" -> Clawback(s, a)
      [] a.kind = "ClaimUnlocked" -> ClaimUnlocked(s, a)
      [] a.kind = "ClaimAccountRewards" -> ClaimAccountRewards(s, a)
      [] a.kind = "ClaimAuthorityRewards" -> ClaimAuthorityRewards(s, a)
      [] a.kind = "GrantFee" -> GrantFee(s, a)
      [] a.kind = "RevokeFee" -> RevokeFee(s, a)
      [] a.kind = "Send" -> Send(s, a)
      [] a.kind = "SendPool" -> SendPool(s, a)
      [] a.kind = "SendMod" -> SendMod(s, a)

(* ---- block phases ------------------------------------------------------------ *)
MintBlock(s, a) ==
    LET c == Coin1(Denom, a.provision)
    IN  SetMod([s EXCEPT !.h = @ + 1, !.now = a.now, !.sup = CAdd(@, c)], FeeAcct,
               CAdd(ModCoins(s, FeeAcct), c))

\* everything still with the fee collector goes the way of the chain's usual fee
\* distribution (no validator signatures in these histories: the community pool)
DistributeFees(s) ==
    IF s.h > 1 THEN ModToMod(s, FeeAcct, Treasury, ModCoins(s, FeeAcct)) ELSE s

BeginBlock(s, a, known) ==
    LET s1 == MintBlock(s, a)
        s2 == DistributeTeam(s1, a.provision)
        \* the pools' part is computed from what the team would be entitled to after
        \* its new rewards have been credited
        s3 == SplitInflation(s2, a.provision, TeamProvision(s2, a.provision), known)
        s4 == DistributeFees(s3)
    IN  ProcessLeave(ProcessCommission(ProcessUnbonding(s4)))

EndBlock(s) == BurnFees(HandleTimeouts(HandleUpgrades(s)))

(* ---- transactions ---------------------------------------------------------------
   t.msgs: sequence of [type, act]; t.gas, t.fee, t.payer, t.granter (0: none), t.sigs,
   t.memo: its length, t.until: the last height at which it may run (0: any), t.flip and
   t.cut: its bytes were tampered with
   yields [ok, s]: a refused transaction leaves no trace, a failed one only its fee *)
RunMsgs(s, msgs) ==
    LET Op(acc, m) == IF acc.ok THEN Msg(acc.s, m.act) ELSE acc
        r == FoldS(Op, Ok(s), msgs)
    IN  IF r.ok THEN r ELSE Fail(s)

DeliverTx(s, t) ==
    LET types == [i \in DOMAIN t.msgs |-> t.msgs[i].type]
        viaGrant == t.granter # 0 /\ t.granter # t.payer
        source == IF viaGrant THEN t.granter ELSE t.payer
        s0 == IF viaGrant THEN UseGrant(s, t.granter, t.payer, t.fee) ELSE s
        s1 == Signed(UserToMod(s0, source, FeeAcct, t.fee), t)
        r == RunMsgs(s1, t.msgs)
        refund == IF Len(types) = 1 THEN ShareC(t.fee, RefundOf(r.s, types[1])) ELSE NoCoins
    IN  Check(s, /\ t.basic
                 /\ Authentic(s, t)
                 /\ AdjustmentsOf(s, types) <= t.gas
                 /\ (s.h > 1 => RequiredFee(s, t.gas) \preceq Amt(t.fee, Denom))
                 /\ (viaGrant => GrantCovers(s, t.granter, t.payer, t.fee))
                 /\ CanPayUser(s, source, t.fee),
          IF ~r.ok THEN Fail(s1)
          ELSE Ok(IF CIsZero(refund) THEN r.s ELSE ModToUser(r.s, FeeAcct, source, refund)))

\* a whole block; yields [oks, s]
Block(s, a, known) ==
    LET Op(acc, t) == LET r == DeliverTx(acc.s, t) IN [oks |-> Append(acc.oks, r.ok), s |-> r.s]
        r == FoldS(Op, [oks |-> <<>>, s |-> BeginBlock(s, a, known)], a.txs)
    IN  [oks |-> r.oks, s |-> EndBlock(r.s)]

StepK(s, a, known) ==
    CASE a.kind = "BeginBlock" -> Ok(BeginBlock(s, a, known))
      [] a.kind = "EndBlock" -> Ok(EndBlock(s))
      [] a.kind = "Block" -> LET r == Block(s, a, known) IN [ok |-> r.oks, s |-> r.s]
      [] a.kind \in {"Restart", "Reimport"} -> Ok(s)   \* a node goes on with the committed state; a new chain with the exported one
      [] a.kind = "Batch" -> RunMsgs(s, a.msgs)               \* a governance proposal: all its messages or none
      [] a.kind = "Upgrade" -> Upgrade(s, a)
      [] a.kind = "Query" -> [ok |-> CASE a.q = "govProposals" -> UpgradedProposals(a) [] a.q = "genesis" -> GenesisOk(s, a) [] OTHER -> Answer(s, a), s |-> s]
      [] OTHER -> Msg(s, a)

Step(s, a) == StepK(s, a, FALSE)
\* as Step, with the known findings of the implementation (known_findings.json)
KnownStep(s, a) == StepK(s, a, TRUE)
HasKnown(a) == a.kind \in {"BeginBlock", "Block"}
=============================================================================
