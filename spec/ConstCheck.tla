----------------------------- MODULE ConstCheck ------------------------------
(***************************************************************************)
(* Recomputes the literals of Consts.tla from Machin-like series:          *)
(*   pi = 16 atan(1/5) - 4 atan(1/239)                                     *)
(*   ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)             *)
(*   ln 10 = 3 ln 2 + 2 atanh(1/9)                                         *)
(* with 64 guard bits; every addend of a series is at most 2 too small and *)
(* there are fewer than 2^14 of them, so 40 guard bits absorb all errors.  *)
(***************************************************************************)
EXTENDS BigInt, Consts, TLC
VARIABLE st

LOCAL B(n) == BOfInt(n)
RECURSIVE InvSeries(_, _, _, _, _)
LOCAL InvSeries(t, q2, k, s, acc) ==
   IF t[1] = 0 THEN acc
   ELSE LET a == BDiv(t, B(2 * k + 1))
        IN  InvSeries(BDiv(t, q2), q2, k + 1, s,
                      IF s < 0 /\ k % 2 = 1 THEN BSub(acc, a) ELSE BAdd(acc, a))
LOCAL AtanInv(q, W)  == InvSeries(BDiv(BShl(BOne, W), B(q)), B(q * q), 0, -1, BZero)
LOCAL AtanhInv(q, W) == InvSeries(BDiv(BShl(BOne, W), B(q)), B(q * q), 0, 1, BZero)
PiAt(W) == BSub(BMul(B(16), AtanInv(5, W)), BMul(B(4), AtanInv(239, W)))
Ln2At(W) == BAdd(BSub(BMul(B(18), AtanhInv(26, W)), BMul(B(2), AtanhInv(4801, W))),
                 BMul(B(8), AtanhInv(8749, W)))
Ln10At(W) == BAdd(BMul(B(3), Ln2At(W)), BMul(B(2), AtanhInv(9, W)))

(* lit 2^64 <= value < (lit + 1) 2^64 with a margin of 2^40 on both sides *)
Matches(lit, v) == /\ BCmp(BShl(lit, 64), BSub(v, BShl(BOne, 40))) <= 0
                   /\ BCmp(BAdd(v, BShl(BOne, 40)), BShl(BAdd(lit, BOne), 64)) < 0
Init == st = 0
Next == /\ st < 4
        /\ st' = st + 1
        /\ CASE st = 0 -> Assert(Matches(PiC, PiAt(CW + 64)), "PiC")
             [] st = 1 -> Assert(Matches(Ln2C, Ln2At(CW + 64)), "Ln2C")
             [] st = 2 -> Assert(Matches(Ln10C, Ln10At(CW + 64)), "Ln10C")
             [] st = 3 -> Assert(Matches(PiHuge, PiAt(HW + 64)), "PiHuge")
=============================================================================
