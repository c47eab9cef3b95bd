------------------------------- MODULE Float --------------------------------
(***************************************************************************)
(* Binary floating point formats and rounding of exact numbers into them.  *)
(* A format is a record [p, emin, emax]: p significand bits, 2^emin is the *)
(* smallest subnormal, all finite numbers are < 2^emax in magnitude.       *)
(***************************************************************************)
EXTENDS Dyadic

LOCAL Mx(a, b) == IF a > b THEN a ELSE b

Fmt(t) == CASE t = "f" -> [p |-> 24, emin |-> -149,   emax |-> 128]
            [] t = "d" -> [p |-> 53, emin |-> -1074,  emax |-> 1024]
            [] t = "l" -> [p |-> 64, emin |-> -16445, emax |-> 16384]
            [] t = "t" -> [p |-> 3,  emin |-> -3,     emax |-> 4]     \* tiny: 0, 1/8 .. 14
            [] t = "u" -> [p |-> 2,  emin |-> -2,     emax |-> 3]     \* tinier: 0, 1/4 .. 6
            [] t = "v" -> [p |-> 5,  emin |-> -6,     emax |-> 6]     \* finer than both
            [] t = "w" -> [p |-> 1,  emin |-> -1,     emax |-> 2]     \* tiniest: 0, 1/2, 1, 2

MaxF(F) == <<0, F.emax - F.p, BSub(BShl(BOne, F.p), BOne)>>
MinF(F) == DPow2(F.emin)

(* exponent of the last place of the format at the magnitude of a # 0 *)
LOCAL Quantum(F, a) == Mx(F.emin, Top(a) - F.p)

IsFloat(F, x) == x[1] # 0 \/ x[3][1] = 0 \/ (x[2] >= Quantum(F, x) /\ Top(x) <= F.emax)

(* largest number of the format (including infinities) not above x *)
RD(F, x) ==
   IF x[1] # 0 \/ x[3][1] = 0 THEN x
   ELSE LET q == Quantum(F, x)
            y == IF x[2] >= q THEN x ELSE DMk(BShr(x[3], q - x[2]), q)
        IN  IF y[3][1] = 0 \/ Top(y) <= F.emax THEN y
            ELSE IF y[3][1] > 0 THEN MaxF(F) ELSE NInf
(* smallest number of the format not below x *)
RU(F, x) == Neg(RD(F, Neg(x)))
(* to nearest, ties to even *)
RN(F, x) ==
   IF x[1] # 0 \/ x[3][1] = 0 THEN x
   ELSE LET q == Quantum(F, x)
            m == BShr(x[3], q - x[2])
            r == DSub(DScale(DSub(x, DMk(m, q)), 1), DPow2(q))      \* 2 * rest - 1 ulp
            s == Sgn(r)
            y == IF x[2] >= q THEN x
                 ELSE IF s > 0 \/ (s = 0 /\ BOdd(m)) THEN DMk(BAdd(m, BOne), q) ELSE DMk(m, q)
        IN  IF y[3][1] = 0 \/ Top(y) <= F.emax THEN y
            ELSE IF y[3][1] > 0 THEN PInf ELSE NInf
RZ(F, x) == IF Sgn(x) >= 0 THEN RD(F, x) ELSE RU(F, x)

Rnd(F, mode, x) == CASE mode = "d" -> RD(F, x) [] mode = "u" -> RU(F, x)
                     [] mode = "n" -> RN(F, x) [] mode = "z" -> RZ(F, x)

(* neighbours in the format *)
Succ(F, x) == IF x = PInf THEN x ELSE IF x = NInf THEN Neg(MaxF(F))
              ELSE RU(F, DAdd(x, DPow2(F.emin - 2)))
Pred(F, x) == Neg(Succ(F, Neg(x)))
=============================================================================
