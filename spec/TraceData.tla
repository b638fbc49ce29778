----------------------------- MODULE TraceData -----------------------------
(***************************************************************************)
(* Access to recorded histories of the real chain.  The definitions below  *)
(* are placeholders: tools/java/TraceData.java implements the operators    *)
(* from the NDJSON files the driver wrote.                                 *)
(***************************************************************************)
TraceLen == 0          \* number of recorded steps over all histories
Pre(i) == i            \* state before step i
Act(i) == i            \* the action of step i
OkOf(i) == i           \* its observed outcome
Post(i) == i           \* observed state after step i
EvOf(i) == <<>>        \* what step i announced
SameBag(q, r) == q = r \* the same elements, in any order
Same(a, b) == a = b
Report(i, tag, exp, got) == TRUE
Want(tag) == TRUE       \* is the property predicate to be evaluated in this run?
Try(e) == [ok |-> TRUE, v |-> e]

(* ---- for MC.tla: the scenarios to explore, and a record of what was explored ---- *)
MCCount == 0                        \* number of scenarios
MCMeta(k) == k                      \* its roles
MCState(k) == k                     \* the state of the real chain it starts from
Room(k) == TRUE                     \* is there budget left for scenario k?
Emit(k, s, ph, a, t, tph) == TRUE   \* note the transition
MCReport(k, s, ph, a, tag, got) == TRUE
=============================================================================
