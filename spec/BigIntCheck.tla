---------------------------- MODULE BigIntCheck ------------------------------
(***************************************************************************)
(* Prints the values of all operators that have a Java override, on fixed    *)
(* pseudo-random operands.  tools/bigint_check.sh evaluates this once with    *)
(* the overrides and once with the TLA+ definitions and compares.            *)
(***************************************************************************)
EXTENDS Dyadic, TLC, Sequences
VARIABLE i

Lcg(n) == (n * 75 + 74) % 65537
RECURSIVE Build(_, _)
Build(n, k) == IF k = 0 THEN BZero ELSE BAdd(BShl(Build(Lcg(n), k - 1), 15), BOfInt(Lcg(n * 3) % 32768))
Big(n) == LET k == n % 9  b == Build(n, k)  s == Lcg(n) % 3 IN IF s = 0 THEN BNeg(b) ELSE b
Num(n) == LET k == n % 23 IN IF k = 0 THEN PInf ELSE IF k = 1 THEN NInf
          ELSE DMk(Big(n), (Lcg(n) % 91) - 45)
Row(n) ==
   LET a == Big(n)  b == Big(Lcg(n) + 5)  k == n % 47  x == Num(n + 2)  y == Num(Lcg(n) + 9)
       nz == IF b[1] = 0 THEN BOfInt(7) ELSE b
       u == DMk(a, k - 20)  v == DMk(nz, 11 - k)
   IN  << BNeg(a), BCmp(a, b), BAdd(a, b), BSub(a, b), BMul(a, b), BShl(a, k), BShr(a, k), BDiv(a, BAbs(nz)), BMod(a, BAbs(nz)),
          BBits(a), BTz(a), BSqrt(BAbs(a)), BPow(BOfInt(k - 20), n % 8), BToInt(BOfInt(n - 30000)),
          DMk(BShl(a, k), k - 9), DAdd(u, v), DMul(u, v), DCmp(u, v), DCmp(x, y), DTrunc(u, 1 + (n % 70)), DTruncUp(u, 1 + (n % 70)), DDivS(u, v, 1 + (n % 90)) >>
Init == i = 1
Next == i < 700 /\ i' = i + 1 /\ PrintT(<<"ROW", i, Row((i * 91) % 65000)>>)
=============================================================================
