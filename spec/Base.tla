-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Arithmetic notation, fixed-point decimals, coins and bank movements     *)
(* shared by all modules of the KYVE specification.                        *)
(*                                                                         *)
(* The whole chain state is one record s; every message and every block    *)
(* phase is an operator from a state (and arguments) to a result           *)
(*      [ok |-> BOOLEAN, s |-> state].                                      *)
(* A refused message is [ok |-> FALSE, s |-> the unchanged state].         *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANT Prec          \* fixed-point scale of decimals: 10^18 on the chain

a ++ b == NAdd(a, b)
a -- b == NSub(a, b)
a ** b == NMul(a, b)
a \prec b == NLt(a, b)
a \preceq b == NLe(a, b)

Zero == N(0)
One  == N(1)
IsZ(a) == a = Zero
Pos(a) == Zero \prec a
NMin(a, b) == IF a \preceq b THEN a ELSE b
NMax(a, b) == IF a \preceq b THEN b ELSE a

(* ---- fixed-point decimals: the raw value is value * Prec --------------- *)
DecOf(n)          == n ** Prec                      \* integer -> decimal
DMul(a, b)        == NChop(a ** b, Prec)            \* rounds half to even
DMulTrunc(a, b)   == NQuo(a ** b, Prec)
DQuo(a, b)        == NChop(NQuo(a ** Prec ** Prec, b), Prec)
DQuoTrunc(a, b)   == NQuo(NQuo(a ** Prec ** Prec, b), Prec)
DTrunc(a)         == NQuo(a, Prec)                    \* decimal -> integer
DQuoInt(a, n)     == NQuo(a, n)
Pow10(k) == LET RECURSIVE P(_)
                P(i) == IF i = 0 THEN One ELSE N(10) ** P(i-1)
            IN  P(k)

(* ---- folds ------------------------------------------------------------- *)
FoldS(Op(_, _), acc, q) == FoldLeft(Op, acc, q)
\* the elements of a finite set of integers in increasing order
SeqOfInts(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
\* the elements of a finite set in some (fixed) order; only for commutative folds
SeqOfSet(S) == SetToSeq(S)
SumOver(S, F(_)) == LET Op(acc, x) == acc ++ F(x) IN FoldS(Op, Zero, SeqOfSet(S))
SumSeq(q) == LET Op(acc, x) == acc ++ x IN FoldS(Op, Zero, q)
SelSeq(q, T(_)) == SelectSeq(q, T)
RemoveKey(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PutKey(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
GetOr(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Empty == [x \in {} |-> 0]

(* ---- coins: functions from denomination to a positive Num -------------- *)
NoCoins == Empty
Amt(c, d) == IF d \in DOMAIN c THEN c[d] ELSE Zero
NormC(f) == [d \in {x \in DOMAIN f : f[x] # Zero} |-> f[d]]
Coin1(d, n) == IF n = Zero THEN NoCoins ELSE [x \in {d} |-> n]
CAdd(a, b) == NormC([d \in DOMAIN a \cup DOMAIN b |-> Amt(a, d) ++ Amt(b, d)])
CSub(a, b) == NormC([d \in DOMAIN a \cup DOMAIN b |-> Amt(a, d) -- Amt(b, d)])
CLe(a, b) == \A d \in DOMAIN a : a[d] \preceq Amt(b, d)
CMin(a, b) == NormC([d \in DOMAIN a \cap DOMAIN b |-> NMin(a[d], b[d])])
CIsZero(a) == DOMAIN a = {}
CNonNeg(a) == \A d \in DOMAIN a : Zero \preceq a[d]
CSumSeq(q) == LET Op(acc, x) == CAdd(acc, x) IN FoldS(Op, NoCoins, q)
CSumOver(S, F(_)) == LET Op(acc, x) == CAdd(acc, F(x)) IN FoldS(Op, NoCoins, SeqOfSet(S))

(* ---- results ------------------------------------------------------------ *)
Ok(s)   == [ok |-> TRUE, s |-> s]
Fail(s) == [ok |-> FALSE, s |-> s]
Check(s, cond, r) == IF cond THEN r ELSE Fail(s)

(* ---- events: what a step announces, in s.ev (a refused message: nothing) - *)
Say(s, e) == [s EXCEPT !.ev = Append(@, e)]
OkSay(s, e) == Ok(Say(s, e))

(* ---- bank ---------------------------------------------------------------
   s.bal : user account -> coins, s.mod : module account or pool account
   name -> coins.  User accounts are positive integers (their rank in the
   address order), module accounts are strings, pool accounts are the
   entries of s.pbal (pool id -> coins).                                    *)
UserCoins(s, a) == GetOr(s.bal, a, NoCoins)
ModCoins(s, m)  == GetOr(s.mod, m, NoCoins)
PoolCoins(s, p) == GetOr(s.pbal, p, NoCoins)
SetUser(s, a, c) == [s EXCEPT !.bal = PutKey(@, a, c)]
SetMod(s, m, c)  == [s EXCEPT !.mod = PutKey(@, m, c)]
SetPoolB(s, p, c) == [s EXCEPT !.pbal = PutKey(@, p, c)]

CanPayUser(s, a, c) == CLe(c, UserCoins(s, a))
CanPayMod(s, m, c)  == CLe(c, ModCoins(s, m))
UserToMod(s, a, m, c) == SetMod(SetUser(s, a, CSub(UserCoins(s, a), c)), m, CAdd(ModCoins(s, m), c))
ModToUser(s, m, a, c) == SetUser(SetMod(s, m, CSub(ModCoins(s, m), c)), a, CAdd(UserCoins(s, a), c))
UserToUser(s, a, b, c) == LET s1 == SetUser(s, a, CSub(UserCoins(s, a), c))
                          IN  SetUser(s1, b, CAdd(UserCoins(s1, b), c))
ModToMod(s, m, n, c) == LET s1 == SetMod(s, m, CSub(ModCoins(s, m), c))
                        IN  SetMod(s1, n, CAdd(ModCoins(s1, n), c))
PoolToMod(s, p, m, c) == SetMod(SetPoolB(s, p, CSub(PoolCoins(s, p), c)), m, CAdd(ModCoins(s, m), c))
ModToPool(s, m, p, c) == SetPoolB(SetMod(s, m, CSub(ModCoins(s, m), c)), p, CAdd(PoolCoins(s, p), c))

Treasury == "distribution"     \* the community pool is held by this module account
Denom == "tkyve"

(* ---- parameters --------------------------------------------------------- *)
IsPct(d) == Zero \preceq d /\ d \preceq Prec
=============================================================================
