------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reductions: the exact real result of a sum or dot product of floating   *)
(* point numbers, rounded once.                                            *)
(***************************************************************************)
EXTENDS Float, Integers, Sequences

ReduceOps == {"sum", "sum_abs", "sum_sqr", "dot"}
(* rounding modes as numbered in traces *)
RndMode == <<"d", "u", "n", "z">>

(* product with the floating point convention 0 * inf = NaN *)
FMul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF IsFin(a) /\ IsFin(b) THEN DMul(a, b)
              ELSE LET s == Sgn(a) * Sgn(b) IN IF s = 0 THEN NaN ELSE <<s, 0, <<0>>>>
(* sum with inf - inf = NaN *)
FAdd(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF IsFin(a) /\ IsFin(b) THEN DAdd(a, b)
              ELSE IF IsFin(a) THEN b ELSE IF IsFin(b) THEN a
              ELSE IF a = b THEN a ELSE NaN
RECURSIVE FSum(_)
FSum(s) == LET n == Len(s)
           IN  IF n = 0 THEN DZero ELSE IF n = 1 THEN s[1]
               ELSE FAdd(FSum(SubSeq(s, 1, n \div 2)), FSum(SubSeq(s, n \div 2 + 1, n)))
FAbs(a) == IF IsNaN(a) THEN a ELSE Abs(a)
Terms(op, x) ==
   CASE op = "sum" -> x[1]
     [] op = "sum_abs" -> [i \in DOMAIN x[1] |-> FAbs(x[1][i])]
     [] op = "sum_sqr" -> [i \in DOMAIN x[1] |-> FMul(x[1][i], x[1][i])]
     [] op = "dot" -> [i \in DOMAIN x[1] |-> FMul(x[1][i], x[2][i])]
Reduced(F, op, mode, x) ==
   LET v == FSum(Terms(op, x)) IN IF IsFin(v) THEN Rnd(F, RndMode[mode], v) ELSE v
=============================================================================
