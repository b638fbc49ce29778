------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance of recorded histories of the real chain with Kyve.tla: every*)
(* observed step must be exactly the step of the specification from the    *)
(* observed state before it.  Divergences are reported per state component *)
(* (a report never stops the check).                                       *)
(***************************************************************************)
EXTENDS Props, TraceData

CONSTANT Width           \* number of independent chains of steps (parallelism)
VARIABLE i

Init == i \in 1..(IF Width < TraceLen THEN Width ELSE TraceLen)
Next == i + Width <= TraceLen /\ i' = i + Width
Spec == Init /\ [][Next]_i

\* functions with a default value for absent keys
EqDef(f, g, dflt) == Same(f, g) \/ \A x \in DOMAIN f \cup DOMAIN g : GetOr(f, x, dflt) = GetOr(g, x, dflt)
EqSets(f, g) == Same(f, g) \/ \A x \in DOMAIN f \cup DOMAIN g : ToSet(GetOr(f, x, <<>>)) = ToSet(GetOr(g, x, <<>>))

Components == {"h", "now", "bal", "mod", "pbal", "oth", "sup", "pr", "k", "pools", "prop", "fin", "rr", "stk", "val", "cq", "lq",
               "dd", "de", "ds", "dl", "uq", "rc", "funders", "fundings", "fstate", "team", "fg", "seq", "halt"}

EqComp(c, x, y) ==
    CASE c \in {"bal", "mod", "pbal", "oth"} -> EqDef(x, y, NoCoins)
      [] c = "prop" -> EqDef(x, y, NoProp)
      [] c = "rr" -> EqDef(x, y, Empty)
      [] c = "seq" -> EqDef(x, y, 0)
      [] c = "fin" -> EqDef(x, y, <<>>)
      [] c = "rc" -> EqDef(x, y, {})
      [] c = "fstate" -> EqSets(x, y)
      [] OTHER -> Same(x, y)

Diff(j, c, x, y) == EqComp(c, x, y) \/ Report(j, c, x, y)

Matches(j, r) == r.ok = OkOf(j) /\ SameBag(r.s.ev, EvOf(j)) /\ \A c \in Components : EqComp(c, r.s[c], Post(j)[c])

IsKnown(r) == HasKnown(Act(i)) /\ ~Matches(i, r) /\ Matches(i, KnownStep(Pre(i), Act(i)))

CheckModel(t, kn) ==
    IF ~t.ok THEN Report(i, "eval", t.v, OkOf(i))
    ELSE IF kn THEN Report(i, "known:F1", "", "")
    ELSE /\ (t.v.ok = OkOf(i) \/ Report(i, "ok", t.v.ok, OkOf(i)))
         /\ \A c \in Components : Diff(i, c, t.v.s[c], Post(i)[c])
         /\ (SameBag(t.v.s.ev, EvOf(i)) \/ Report(i, "ev", t.v.s.ev, EvOf(i)))

(* ---- the properties, evaluated on the observed states and steps ---------------- *)
PInv(tag, e) == ~Want(tag) \/ LET t == Try(e) IN
    IF ~t.ok THEN Report(i, tag, "not evaluable", t.v)
    ELSE t.v \/ Report(i, tag, "TRUE", "FALSE")

\* the steps of a batch are not observed one by one
PStep(tag, e) == Act(i).kind = "Batch" \/ PInv(tag, e)

CheckProps(kn) ==
    LET s == Pre(i) a == Act(i) ok == OkOf(i) t == Post(i) IN
    /\ PInv("inv:C01", Inv_C01(t))
    /\ PInv("inv:C03", Inv_C03(t))
    /\ PInv("inv:C05", Inv_C05(t))
    /\ PInv("inv:C07", Inv_C07(t))
    /\ PInv("inv:C11", Inv_C11(t))
    /\ PInv("inv:C12", Inv_C12(t))
    /\ PInv("inv:C13", Inv_C13(t))
    /\ PInv("inv:C14", Inv_C14(t))
    /\ PInv("inv:C15", Inv_C15(t))
    /\ PInv("inv:C17", Inv_C17(t))
    /\ PInv("inv:C18", Inv_C18(t))
    /\ PInv("inv:C20", Inv_C20(t))
    /\ PInv("inv:C21", Inv_C21(t))
    /\ PInv("inv:C23", Inv_C23(t))
    /\ PInv("inv:C25", Inv_C25(t))
    /\ PStep("step:C01", Step_C01(s, a, ok, t))
    /\ PStep("step:C02", Step_C02(s, a, ok, t))
    /\ PStep("step:C03", Step_C03(s, a, ok, t))
    /\ PStep("step:C04", Step_C04(s, a, ok, t))
    /\ PStep("step:C05", Step_C05(s, a, ok, t))
    /\ PStep("step:C06", Step_C06(s, a, ok, t))
    /\ PStep("step:C07", Step_C07(s, a, ok, t))
    /\ PStep("step:C08", Step_C08(s, a, ok, t))
    /\ PStep("step:C09", Step_C09(s, a, ok, t))
    /\ PStep("step:C10", Step_C10(s, a, ok, t))
    /\ PStep("step:C11", Step_C11(s, a, ok, t))
    /\ PStep("step:C12", Step_C12(s, a, ok, t))
    /\ PStep("step:C13", Step_C13(s, a, ok, t))
    /\ PStep("step:C14", Step_C14(s, a, ok, t))
    /\ PStep("step:C15", Step_C15(s, a, ok, t))
    /\ PStep("step:C16", Step_C16(s, a, ok, t))
    /\ PStep("step:C17", Step_C17(s, a, ok, t))
    /\ PStep("step:C18", Step_C18(s, a, ok, t))
    /\ PStep("step:C19", Step_C19(s, a, ok, t))
    /\ PStep("step:C20", Step_C20(s, a, ok, t))
    /\ PStep("step:C21", Step_C21(s, a, ok, t))
    /\ (kn \/ PStep("step:C22", Step_C22(s, a, ok, t)))
    /\ PStep("step:C23", Step_C23(s, a, ok, t))
    /\ PStep("step:C24", Step_C24(s, a, ok, t))
    /\ PStep("step:C25", Step_C25(s, a, ok, t))
    /\ (kn \/ PStep("step:C28", Step_C28(s, a, ok, t)))
    /\ PStep("step:C30", Step_C30(s, a, ok, t, EvOf(i)))
    /\ PStep("step:C31", Step_C31(s, a, ok, t))
    /\ PStep("step:C33", Step_C33(s, a, ok, t))
\* a query: its answer follows from the state, which stays as it is
CheckQuery(t) ==
    IF ~t.ok THEN Report(i, Act(i).q, t.v, OkOf(i))
    ELSE LET e == Try(Same(t.v.ok, OkOf(i))) IN (e.ok /\ e.v) \/ Report(i, Act(i).q, t.v.ok, OkOf(i))

CheckStep == IF Act(i).kind = "Query" THEN CheckQuery(Try(Step(Pre(i), Act(i)))) ELSE
             LET t == Try(Step(Pre(i), Act(i)))
                 kn == t.ok /\ IsKnown(t.v)
             IN  CheckModel(t, kn) /\ CheckProps(kn)
=============================================================================
