------------------------------ MODULE Genesis ------------------------------
(***************************************************************************)
(* Which genesis documents a module refuses.  A document is given by the    *)
(* keys of its records and its counters (a.g), its parameters by what they  *)
(* differ in from those of the state (a.p).                                 *)
(***************************************************************************)
EXTENDS Queries

Once(q) == Cardinality(ToSet(q)) = Len(q)
Keys(q, F(_)) == Map(q, F)
Within(x, low, high) == low <= x /\ x <= high

RecordsOk(m, g) ==
    CASE m = "bundles" ->
           /\ Once(g.props) /\ Once(g.rr)
           \* the bundles of a pool are numbered without a gap
           /\ LET ids(p) == {x[2] : x \in {y \in ToSet(g.fin) : y[1] = p}}
              IN  Once(g.fin) /\ \A x \in ToSet(g.fin) : ids(x[1]) = 0..(Cardinality(ids(x[1])) - 1)
      [] m = "delegation" ->
           /\ Once(Keys(g.dels, LAMBDA x : <<x[1], x[2]>>)) /\ Once(Keys(g.dels, LAMBDA x : <<x[1], x[3]>>))
           /\ Once(g.entries) /\ Once(g.data) /\ Once(g.slashes) /\ ToSet(g.slashes) \subseteq ToSet(g.entries)
           /\ Once(g.und) /\ \A x \in ToSet(g.und) : Within(x, g.low, g.high)
           /\ Once(g.red)
      [] m = "funders" -> Once(g.funders) /\ Once(g.fundings) /\ Once(g.states)
      [] m = "pool" -> Once(g.pools) /\ \A x \in ToSet(g.pools) : x < g.count
      [] m = "stakers" ->
           /\ Once(g.stakers) /\ Once(Keys(g.vals, LAMBDA x : <<x[1], x[2]>>))
           /\ Once(g.com) /\ \A x \in ToSet(g.com) : Within(x, g.clow, g.chigh)
           /\ Once(Keys(g.lv, LAMBDA x : x[1])) /\ \A x \in ToSet(g.lv) : Within(x[1], g.llow, g.lhigh)
           \* exactly those who are leaving have asked for it, once
           /\ Once(Keys(g.lv, LAMBDA x : <<x[2], x[3]>>))
           /\ {<<x[2], x[3]>> : x \in ToSet(g.lv)} = {<<x[1], x[2]>> : x \in {y \in ToSet(g.vals) : y[3]}}
      [] m = "team" -> /\ Once(g.accts) /\ \A x \in ToSet(g.accts) : x < g.count
                       /\ g.claimed \preceq g.total
      [] m = "global" -> TRUE

GenesisOk(s, a) ==
    /\ RecordsOk(a.module, a.g)
    /\ (a.module \in ParamModules =>
          LET old == s.pr[a.module]
          IN  ParamsValid(a.module, [f \in DOMAIN old |-> IF f \in DOMAIN a.p THEN a.p[f] ELSE old[f]]))
=============================================================================
