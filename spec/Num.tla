-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Amounts, stakes and decimals.  In the model-checking configurations a   *)
(* Num is a (small) TLA+ integer and these definitions are used as they    *)
(* stand.  In the trace-validation configuration TLC overrides every       *)
(* operator of this module by tools/java/Num.java, which represents a Num  *)
(* as its canonical decimal string and computes with arbitrary precision,  *)
(* because the real chain uses 63-bit amounts and 10^-18 fixed-point       *)
(* decimals, far outside TLC's 32-bit integers.                            *)
(***************************************************************************)
EXTENDS Integers

N(i) == i                                  \* literal
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
\* quotient truncated towards zero
NQuo(a, b) == IF (a >= 0 /\ b > 0) THEN a \div b
              ELSE IF (a < 0 /\ b < 0) THEN (-a) \div (-b)
              ELSE IF a < 0 THEN -((-a) \div b) ELSE -(a \div (-b))
NLt(a, b) == a < b
NLe(a, b) == a <= b
\* a/p rounded half to even (p > 0), symmetric around zero
NChop(a, p) == LET x == IF a < 0 THEN -a ELSE a
                   q == x \div p
                   r == x % p
                   y == IF 2*r < p THEN q
                        ELSE IF 2*r > p THEN q + 1
                        ELSE IF q % 2 = 0 THEN q ELSE q + 1
               IN  IF a < 0 THEN -y ELSE y
NToInt(a) == a                             \* only for values known to be small
=============================================================================
