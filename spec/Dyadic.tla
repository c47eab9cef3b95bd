------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Extended dyadic numbers m * 2^e, the exact values of binary floating    *)
(* point numbers.                                                          *)
(*                                                                         *)
(* A number is a tuple <<c, e, m>>:                                        *)
(*    c = 0   the real number m * 2^e, m a BigInt, m odd or zero           *)
(*            (canonical: zero is <<0, 0, <<0>>>>)                         *)
(*    c = 1   +infinity        c = -1  -infinity        c = 2  NaN         *)
(* (with e = 0 and m = <<0>> unless c = 0), so "=" is equality of values.  *)
(* The sign of zero is not represented; where it is observable it is       *)
(* carried separately.                                                     *)
(***************************************************************************)
EXTENDS BigInt

DMk(m, e) ==                                                         \* (ov)
   IF m[1] = 0 THEN <<0, 0, m>>
   ELSE LET t == BTz(m) IN <<0, e + t, BShr(m, t)>>

DZero == <<0, 0, <<0>>>>
DOne  == <<0, 0, <<1, 1>>>>
PInf  == <<1, 0, <<0>>>>
NInf  == <<-1, 0, <<0>>>>
NaN   == <<2, 0, <<0>>>>

DInt(n) == DMk(BOfInt(n), 0)
DPow2(k) == <<0, k, <<1, 1>>>>

IsFin(x) == x[1] = 0
IsInf(x) == x[1] = 1 \/ x[1] = -1
IsNaN(x) == x[1] = 2

(* sign: -1, 0, 1 (also of infinities) *)
Sgn(x) == IF x[1] = 0 THEN x[3][1] ELSE x[1]
Neg(x) == IF x[1] = 0 THEN <<0, x[2], BNeg(x[3])>>
          ELSE IF x[1] = 2 THEN x ELSE <<-x[1], 0, <<0>>>>
Abs(x) == IF Sgn(x) < 0 THEN Neg(x) ELSE x

(* ---- finite operands ---------------------------------------------------- *)
DAdd(a, b) ==                                                        \* (ov)
   IF a[3][1] = 0 THEN b ELSE IF b[3][1] = 0 THEN a
   ELSE IF a[2] >= b[2] THEN DMk(BAdd(BShl(a[3], a[2] - b[2]), b[3]), b[2])
   ELSE DMk(BAdd(BShl(b[3], b[2] - a[2]), a[3]), a[2])
DSub(a, b) == DAdd(a, Neg(b))
DMul(a, b) == DMk(BMul(a[3], b[3]), a[2] + b[2])                      \* (ov)
DCmp(a, b) ==                                                        \* (ov)
   LET d == DAdd(a, <<0, b[2], BNeg(b[3])>>) IN d[3][1]
DScale(a, k) == IF a[3][1] = 0 THEN a ELSE <<0, a[2] + k, a[3]>>     \* a * 2^k
DPow(a, n) == DMk(BPow(a[3], n), a[2] * n)                           \* n >= 0

(* exponent of the leading bit plus one: 2^(Top-1) <= |a| < 2^Top, a # 0 *)
Top(a) == BBits(a[3]) + a[2]

(* a rounded down / up to at most k significant bits *)
DTrunc(a, k) ==                                                      \* (ov)
   LET s == BBits(a[3]) - k
   IN  IF s <= 0 THEN a ELSE DMk(BShr(a[3], s), a[2] + s)
DTruncUp(a, k) ==                                                    \* (ov)
   LET s == BBits(a[3]) - k
   IN  IF s <= 0 THEN a ELSE DMk(BNeg(BShr(BNeg(a[3]), s)), a[2] + s)

(* a / b (b # 0) with at least k significant bits plus a sticky bit: the     *)
(* result is exact if the quotient has at most that many bits, otherwise it  *)
(* lies strictly between the two neighbouring numbers of k bits that enclose *)
(* the quotient; every rounding to fewer than k bits is that of the quotient *)
DDivS(a, b, k) ==                                                    \* (ov)
   IF a[3][1] = 0 THEN DZero
   ELSE LET p  == IF b[3][1] < 0 THEN BNeg(a[3]) ELSE a[3]
            q  == BAbs(b[3])
            s0 == k + BBits(q) - BBits(p) + 1
            sh == IF s0 < 0 THEN 0 ELSE s0
            n  == BShl(p, sh)
            f  == BDiv(n, q)
            ex == BMul(f, q) = n
        IN  DMk(BAdd(BShl(f, 1), IF ex THEN BZero ELSE BOne), a[2] - b[2] - sh - 1)

(* square root (a >= 0) in the same sticky sense *)
DSqrtS(a, k) ==
   IF a[3][1] = 0 THEN DZero
   ELSE LET s0 == 2 * k + 2 - BBits(a[3])
            s1 == IF s0 < 0 THEN 0 ELSE s0
            sh == IF (a[2] - s1) % 2 = 0 THEN s1 ELSE s1 + 1
            n  == BShl(a[3], sh)
            r  == BSqrt(n)
            ex == BMul(r, r) = n
        IN  DMk(BAdd(BShl(r, 1), IF ex THEN BZero ELSE BOne), (a[2] - sh) \div 2 - 1)

(* integer part: floor *)
DFloor(a) == IF a[2] >= 0 THEN a ELSE DMk(BShr(a[3], -a[2]), 0)
IsInteger(a) == a[1] = 0 /\ a[2] >= 0
(* floor as a BigInt *)
DFloorB(a) == IF a[2] >= 0 THEN BShl(a[3], a[2]) ELSE BShr(a[3], -a[2])

(* ---- extended operands --------------------------------------------------- *)
(* -1, 0, 1; neither operand NaN *)
Cmp(a, b) == IF a[1] = 0 /\ b[1] = 0 THEN DCmp(a, b)
             ELSE IF a[1] = b[1] THEN 0 ELSE IF a[1] < b[1] THEN -1 ELSE 1
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
MinX(a, b) == IF Cmp(a, b) <= 0 THEN a ELSE b
MaxX(a, b) == IF Cmp(a, b) >= 0 THEN a ELSE b

(* sum of extended numbers; opposite infinities do not occur in the callers *)
Add(a, b) == IF a[1] # 0 THEN a ELSE IF b[1] # 0 THEN b ELSE DAdd(a, b)
Sub(a, b) == Add(a, Neg(b))
(* product with the interval convention 0 * inf = 0 *)
Mul(a, b) == IF a[1] = 0 /\ b[1] = 0 THEN DMul(a, b)
             ELSE LET s == Sgn(a) * Sgn(b)
                  IN  IF s = 0 THEN DZero ELSE <<s, 0, <<0>>>>
=============================================================================
