------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary precision integers for TLC (whose built-in integers are       *)
(* 32-bit).                                                                *)
(*                                                                         *)
(* A big integer is a tuple <<s, l0, l1, ..., lk>> with sign s in          *)
(* {-1, 0, 1} and little-endian limbs in base 2^15, without leading zero   *)
(* limbs; zero is <<0>>.  The representation is canonical, so TLA+         *)
(* equality is numeric equality.                                           *)
(*                                                                         *)
(* Every operator below has a complete TLA+ definition.  The Java class    *)
(* BigIntOverrides accelerates the operators marked (ov); BigIntCheck.tla  *)
(* evaluates the same expressions with and without the accelerator and the *)
(* results are compared.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Base == 32768

LOCAL Max2(a, b) == IF a > b THEN a ELSE b
LOCAL Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)     \* 2^k, k <= 30

(* ---- magnitudes: sequences of limbs, no leading zero limb ------------- *)
LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Trim(_)
LOCAL Trim(a) == IF a = <<>> THEN a
                 ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE MagCmpAt(_, _, _)
LOCAL MagCmpAt(a, b, i) == IF i = 0 THEN 0
                           ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                           ELSE MagCmpAt(a, b, i - 1)
LOCAL MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                      ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddC(_, _, _, _, _)
LOCAL MagAddC(a, b, i, c, acc) ==
   IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
   ELSE LET t == Limb(a, i) + Limb(b, i) + c
        IN  MagAddC(a, b, i + 1, t \div Base, Append(acc, t % Base))
LOCAL MagAdd(a, b) == MagAddC(a, b, 1, 0, <<>>)

RECURSIVE MagSubC(_, _, _, _, _)                  \* requires a >= b
LOCAL MagSubC(a, b, i, c, acc) ==
   IF i > Len(a) THEN Trim(acc)
   ELSE LET t == a[i] - Limb(b, i) - c
        IN  IF t < 0 THEN MagSubC(a, b, i + 1, 1, Append(acc, t + Base))
            ELSE MagSubC(a, b, i + 1, 0, Append(acc, t))
LOCAL MagSub(a, b) == MagSubC(a, b, 1, 0, <<>>)

RECURSIVE MagMul1(_, _, _, _, _)                  \* a * d + carry
LOCAL MagMul1(a, d, i, c, acc) ==
   IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
   ELSE LET t == a[i] * d + c
        IN  MagMul1(a, d, i + 1, t \div Base, Append(acc, t % Base))
RECURSIVE MagMulC(_, _, _)
LOCAL MagMulC(a, b, i) ==
   IF i > Len(b) THEN <<>>
   ELSE LET row == Trim(MagMul1(a, b[i], 1, 0, <<>>))
            hi  == MagMulC(a, b, i + 1)
        IN  MagAdd(row, IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)
LOCAL MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MagMulC(a, b, 1))

RECURSIVE BitLenI(_)
LOCAL BitLenI(n) == IF n = 0 THEN 0 ELSE 1 + BitLenI(n \div 2)
LOCAL MagBits(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitLenI(a[Len(a)])

LOCAL Zeros(n) == [i \in 1..n |-> 0]
LOCAL MagShl(a, k) == IF a = <<>> THEN a
                      ELSE Trim(Zeros(k \div 15) \o MagMul1(a, P2(k % 15), 1, 0, <<>>))
LOCAL MagShr(a, k) ==                             \* floor of the magnitude
   LET w == k \div 15  r == k % 15  n == Len(a) - w
   IN  IF n <= 0 THEN <<>>
       ELSE Trim([i \in 1..n |-> (a[i + w] \div P2(r))
                                 + (Limb(a, i + w + 1) % P2(r)) * P2(15 - r)])
LOCAL MagBit(a, k) == (Limb(a, (k \div 15) + 1) \div P2(k % 15)) % 2

RECURSIVE MagDivC(_, _, _, _, _)                  \* schoolbook binary division
LOCAL MagDivC(a, b, k, q, r) ==
   IF k < 0 THEN <<q, r>>
   ELSE LET r1 == MagAdd(MagShl(r, 1), IF MagBit(a, k) = 1 THEN <<1>> ELSE <<>>)
            q1 == MagShl(q, 1)
        IN  IF MagCmp(r1, b) >= 0
            THEN MagDivC(a, b, k - 1, MagAdd(q1, <<1>>), MagSub(r1, b))
            ELSE MagDivC(a, b, k - 1, q1, r1)
LOCAL MagDivMod(a, b) == MagDivC(a, b, MagBits(a) - 1, <<>>, <<>>)

LOCAL Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
LOCAL Mag(a) == Tail(a)

(* ---- signed integers --------------------------------------------------- *)
BZero == <<0>>
BOne  == <<1, 1>>
BTwo  == <<1, 2>>

RECURSIVE LimbsOf(_)
LOCAL LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o LimbsOf(n \div Base)
BOfInt(n) ==                                                         \* (ov)
   IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o LimbsOf(n) ELSE <<-1>> \o LimbsOf(-n)

BSgn(a) == a[1]
BNeg(a) == [a EXCEPT ![1] = -a[1]]                                   \* (ov)
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a

BCmp(a, b) ==                                                        \* (ov)
   IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
   ELSE a[1] * MagCmp(Mag(a), Mag(b))

BAdd(a, b) ==                                                        \* (ov)
   IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
   ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(Mag(a), Mag(b)))
   ELSE LET c == MagCmp(Mag(a), Mag(b))
        IN  IF c = 0 THEN <<0>>
            ELSE IF c > 0 THEN Mk(a[1], MagSub(Mag(a), Mag(b)))
            ELSE Mk(b[1], MagSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))                                       \* (ov)
BMul(a, b) == Mk(a[1] * b[1], MagMul(Mag(a), Mag(b)))                \* (ov)

(* a * 2^k, k >= 0 *)
BShl(a, k) == Mk(a[1], MagShl(Mag(a), k))                            \* (ov)
(* floor(a / 2^k), k >= 0 *)
BShr(a, k) ==                                                        \* (ov)
   LET q == Mk(a[1], MagShr(Mag(a), k))
   IN  IF a[1] >= 0 \/ BShl(q, k) = a THEN q ELSE BSub(q, BOne)
(* floor(a / b), b > 0 *)
BDiv(a, b) ==                                                        \* (ov)
   LET dm == MagDivMod(Mag(a), Mag(b))
       q  == Mk(a[1], dm[1])
   IN  IF a[1] >= 0 \/ dm[2] = <<>> THEN q ELSE BSub(q, BOne)
BMod(a, b) == BSub(a, BMul(BDiv(a, b), b))                           \* (ov)

(* number of bits of |a| *)
BBits(a) == MagBits(Mag(a))                                          \* (ov)
(* number of trailing zero bits of |a|; 0 for zero *)
RECURSIVE TzC(_, _)
LOCAL TzC(a, k) == IF MagBit(a, k) = 1 THEN k ELSE TzC(a, k + 1)
BTz(a) == IF a[1] = 0 THEN 0 ELSE TzC(Mag(a), 0)                     \* (ov)
BOdd(a) == a[1] # 0 /\ a[2] % 2 = 1

(* floor of the square root, a >= 0: bit by bit *)
RECURSIVE SqrtC(_, _, _)
LOCAL SqrtC(a, r, k) ==
   IF k < 0 THEN r
   ELSE LET t == BAdd(r, BShl(BOne, k))
        IN  IF BCmp(BMul(t, t), a) <= 0 THEN SqrtC(a, t, k - 1) ELSE SqrtC(a, r, k - 1)
BSqrt(a) == IF a[1] = 0 THEN a ELSE SqrtC(a, <<0>>, (BBits(a) + 1) \div 2)  \* (ov)

(* a^n, n >= 0 *)
RECURSIVE BPow(_, _)
BPow(a, n) ==                                                        \* (ov)
   IF n = 0 THEN BOne
   ELSE LET h == BPow(a, n \div 2)
            h2 == BMul(h, h)
        IN  IF n % 2 = 0 THEN h2 ELSE BMul(h2, a)

(* value as a TLC integer; requires |a| < 2^30 *)
RECURSIVE IntOf(_)
LOCAL IntOf(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * IntOf(Tail(m))
BToInt(a) == a[1] * IntOf(Mag(a))                                    \* (ov)
=============================================================================
