------------------------------- MODULE RealFun ------------------------------
(***************************************************************************)
(* Rigorous enclosures of real functions at exact (dyadic) arguments and   *)
(* their correctly directed rounding into a format.                        *)
(*                                                                         *)
(* An enclosure is a pair <<lo, hi>> of dyadics with lo <= value <= hi;    *)
(* <<NInf, PInf>> stands for "not enough working precision".  Enc(fn,a,W)  *)
(* computes an enclosure with about W bits; FD and FU repeat with growing  *)
(* W until both ends round to the same number.  Points where the value is  *)
(* itself dyadic, where this would not terminate, are decided exactly by   *)
(* Exact(fn, a).                                                           *)
(*                                                                         *)
(* Inner kernels use W-bit fixed point integers with floor rounding; the   *)
(* error bound of each kernel is stated where it is used.                  *)
(***************************************************************************)
EXTENDS Float, Consts, TLC

LOCAL B(n) == BOfInt(n)
LOCAL Undecided == <<NInf, PInf>>
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
LOCAL MinI(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------------------------ *)
(* Constants: lower and upper fixed point values to W bits after the point   *)
(* ------------------------------------------------------------------------ *)
LOCAL CLo(c, W) == BShr(IF c = "pi" THEN PiC ELSE IF c = "ln2" THEN Ln2C ELSE Ln10C, CW - W)
LOCAL CHi(c, W) == BAdd(CLo(c, W), BOne)
(* pi to any precision up to HW *)
LOCAL PLo(W) == IF W <= CW THEN BShr(PiC, CW - W) ELSE BShr(PiHuge, HW - W)
LOCAL PHi(W) == BAdd(PLo(W), BOne)
PiE(W) == <<DMk(CLo("pi", W), -W), DMk(CHi("pi", W), -W)>>

(* ------------------------------------------------------------------------ *)
(* Enclosure arithmetic, outward rounded to W bits                           *)
(* ------------------------------------------------------------------------ *)
LOCAL Pt(x) == <<x, x>>
LOCAL TrD(x, W) == DTrunc(x, W)
LOCAL TrU(x, W) == DTruncUp(x, W)
LOCAL EAdd(x, y, W) == <<TrD(DAdd(x[1], y[1]), W), TrU(DAdd(x[2], y[2]), W)>>
LOCAL ENeg(x) == <<Neg(x[2]), Neg(x[1])>>
LOCAL ESub(x, y, W) == EAdd(x, ENeg(y), W)
LOCAL EMulP(x, y, W) == <<TrD(DMul(x[1], y[1]), W), TrU(DMul(x[2], y[2]), W)>>   \* x, y >= 0
LOCAL EMul(x, y, W) ==
   LET a == DMul(x[1], y[1])  b == DMul(x[1], y[2])  c == DMul(x[2], y[1])  d == DMul(x[2], y[2])
   IN  <<TrD(MinX(MinX(a, b), MinX(c, d)), W), TrU(MaxX(MaxX(a, b), MaxX(c, d)), W)>>
LOCAL EDivP(x, y, W) == <<TrD(DDivS(x[1], y[2], W + 2), W), TrU(DDivS(x[2], y[1], W + 2), W)>> \* x >= 0, y > 0
LOCAL ESqrt(x, W) == <<TrD(DSqrtS(x[1], W + 2), W), TrU(DSqrtS(x[2], W + 2), W)>>
LOCAL EHalf(x) == <<DScale(x[1], -1), DScale(x[2], -1)>>
(* x^k / n for small odd k *)
LOCAL PowDiv(x, k, num, den, W, up) ==
   LET q == DDivS(DMul(DPow(x, k), DInt(num)), DInt(den), W)
   IN  IF up THEN TrU(q, W) ELSE TrD(q, W)

(* arguments so small that two or three terms of the series give W bits;      *)
(* k is the order of the first neglected relative (absolute) error           *)
LOCAL Tiny(x, W, k) == x[3][1] # 0 /\ Top(x) < -20 /\ -k * Top(x) >= W
(* extra bits for kernels with absolute error whose value is of the order x   *)
LOCAL Ext(x, W) == IF x[3][1] # 0 /\ Top(x) < 0 THEN W - Top(x) - Top(x) ELSE W

(* ------------------------------------------------------------------------ *)
(* exp                                                                       *)
(* ------------------------------------------------------------------------ *)
(* Kernel: R = fixed point (W bits) of r in [0, 0.75).                        *)
(* t_n = floor(t_(n-1) R / (n 2^W)) is below the exact term by at most 2,     *)
(* so exp(r) is in [S, S + 3N + 8] with N the number of terms.                *)
RECURSIVE ExpK(_, _, _, _, _)
LOCAL ExpK(t, R, n, acc, W) ==
   IF t[1] = 0 THEN <<acc, BAdd(acc, B(3 * n + 8))>>
   ELSE ExpK(BDiv(BShr(BMul(t, R), W), B(n)), R, n + 1, BAdd(acc, t), W)
LOCAL ExpFix(R, W) == ExpK(BShl(BOne, W), R, 1, BZero, W)

(* exp of the fixed point interval [A, Bb] * 2^-W (Bb - A small) *)
LOCAL ExpFixI(A, Bb, W) ==
   LET k  == BToInt(BDiv(A, CHi("ln2", W)))
       k1 == BMul(B(k), CLo("ln2", W))
       k2 == BMul(B(k), CHi("ln2", W))
       r1 == BSub(A, IF k >= 0 THEN k2 ELSE k1)
       r2 == BSub(Bb, IF k >= 0 THEN k1 ELSE k2)
       \* r1 may be slightly negative: shift by the width, exp(r) >= 1 + r
       e1 == IF r1[1] < 0 THEN <<BAdd(BShl(BOne, W), r1), BZero>> ELSE ExpFix(r1, W)
       e2 == ExpFix(IF r2[1] < 0 THEN BZero ELSE r2, W)
   IN  <<DMk(e1[1], k - W), DMk(e2[2], k - W)>>

LOCAL ToFixD(x, W) == BShr(BShl(x[3], MaxI(0, x[2] + W)), MaxI(0, -(x[2] + W)))   \* floor(x 2^W)
LOCAL ToFixU(x, W) == BNeg(ToFixD(Neg(x), W))

LOCAL Clamp(x, c) == IF DCmp(x, DInt(c)) > 0 THEN DInt(c)
                     ELSE IF DCmp(x, DInt(-c)) < 0 THEN DInt(-c) ELSE x

(* every |x| >= 2^16 overflows or underflows every format, so clamp there *)
LOCAL ExpE(x, W) ==                                  \* enclosure argument
   LET w == W + 24
   IN  IF (x[1][3][1] = 0 \/ Tiny(x[1], W, 2)) /\ (x[2][3][1] = 0 \/ Tiny(x[2], W, 2))
       THEN <<DAdd(DOne, x[1]), DAdd(DAdd(DOne, x[2]), DMul(x[2], x[2]))>>   \* 1 + z <= exp z <= 1 + z + z^2
       ELSE ExpFixI(ToFixD(Clamp(x[1], 65536), w), ToFixU(Clamp(x[2], 65536), w), w)
LOCAL ExpP(x, W) ==
   IF x[3][1] = 0 THEN Pt(DOne)
   ELSE IF Tiny(x, W, 2)                               \* 1 + x < exp x < 1 + x + x^2
   THEN <<DAdd(DOne, x), DAdd(DAdd(DOne, x), DMul(x, x))>>
   ELSE ExpE(Pt(x), W)

(* exp(x ln c) for the constant c; fixed point multiplication by the constant *)
LOCAL ExpC(x0, c, W) ==
   LET x  == Clamp(x0, 65536)
       w  == W + 40
       p1 == DMul(x, DMk(IF Sgn(x) >= 0 THEN CLo(c, w) ELSE CHi(c, w), -w))
       p2 == DMul(x, DMk(IF Sgn(x) >= 0 THEN CHi(c, w) ELSE CLo(c, w), -w))
   IN  IF Tiny(x, W, 2)
       THEN <<DAdd(DOne, p1), DAdd(DAdd(DOne, p2), DMul(p2, p2))>>
       ELSE ExpE(<<p1, p2>>, W)

(* ------------------------------------------------------------------------ *)
(* log                                                                       *)
(* ------------------------------------------------------------------------ *)
(* sum z^(2k+1)/(2k+1), alternating if s < 0, for fixed point 0 <= z < 0.3:   *)
(* powers are below the exact ones by at most 2 and terms by at most 3, so    *)
(* the error of the sum is at most 3N + 4 in either direction                 *)
RECURSIVE OddK(_, _, _, _, _, _)
LOCAL OddK(pw, z2, k, s, acc, W) ==
   IF pw[1] = 0 THEN <<acc, B(3 * k + 8)>>
   ELSE LET a == BDiv(pw, B(2 * k + 1))
        IN  OddK(BShr(BMul(pw, z2), W), z2, k + 1, s,
                 IF s < 0 /\ k % 2 = 1 THEN BSub(acc, a) ELSE BAdd(acc, a), W)
LOCAL OddSeries(Z, s, W) == OddK(Z, BShr(BMul(Z, Z), W), 0, s, BZero, W)

(* x > 0 dyadic *)
LOCAL LogP(x, W0) ==
   LET W  == W0 + 24
       n  == BBits(x[3])
       \* x = m 2^k, m in [0.75, 1.5)
       m1 == DMk(x[3], 1 - n)                          \* in [1, 2)
       big == DCmp(m1, DMk(B(3), -1)) >= 0
       m  == IF big THEN DScale(m1, -1) ELSE m1
       k  == Top(x) - 1 + (IF big THEN 1 ELSE 0)
       u  == DSub(m, DOne)
       v  == DAdd(m, DOne)
       neg == Sgn(u) < 0
       z  == DDivS(Abs(u), v, W)
       Z  == ToFixD(z, W)                               \* error <= 1
       sr == OddSeries(Z, 1, W)
       lo0 == BShl(BSub(sr[1], sr[2]), 1)
       hi0 == BShl(BAdd(BAdd(sr[1], sr[2]), B(2)), 1)
       lo1 == IF u[3][1] = 0 THEN BZero ELSE IF neg THEN BNeg(hi0) ELSE lo0
       hi1 == IF u[3][1] = 0 THEN BZero ELSE IF neg THEN BNeg(lo0) ELSE hi0
       kl == BMul(B(k), IF k >= 0 THEN CLo("ln2", W) ELSE CHi("ln2", W))
       kh == BMul(B(k), IF k >= 0 THEN CHi("ln2", W) ELSE CLo("ln2", W))
   IN  IF k = 0 THEN <<DMk(lo1, -W), DMk(hi1, -W)>>
       ELSE <<DMk(BAdd(lo1, kl), -W), DMk(BAdd(hi1, kh), -W)>>
LOCAL LogE(x, W) == <<LogP(x[1], W)[1], LogP(x[2], W)[2]>>
(* quotient of a signed enclosure by a positive constant enclosure *)
LOCAL EDivC(x, c, W) ==
   LET lo == IF Sgn(x[1]) >= 0 THEN TrD(DDivS(x[1], c[2], W), W) ELSE TrD(DDivS(x[1], c[1], W), W)
       hi == IF Sgn(x[2]) >= 0 THEN TrU(DDivS(x[2], c[1], W), W) ELSE TrU(DDivS(x[2], c[2], W), W)
   IN  <<lo, hi>>
LOCAL CEnc(c, W) == <<DMk(CLo(c, W), -W), DMk(CHi(c, W), -W)>>

(* ------------------------------------------------------------------------ *)
(* sin, cos, tan                                                             *)
(* ------------------------------------------------------------------------ *)
(* Kernel for fixed point 0 <= r < 0.8: terms t_n as in ExpK; the two         *)
(* alternating sums are within 3N + 8 of cos and sin                          *)
RECURSIVE SinCosK(_, _, _, _, _, _)
LOCAL SinCosK(t, R, n, c, s, W) ==
   IF t[1] = 0 THEN <<c, s, B(3 * n + 8)>>
   ELSE LET u == BDiv(BShr(BMul(t, R), W), B(n + 1))
        IN  CASE n % 4 = 0 -> SinCosK(u, R, n + 1, BAdd(c, t), s, W)
              [] n % 4 = 1 -> SinCosK(u, R, n + 1, c, BAdd(s, t), W)
              [] n % 4 = 2 -> SinCosK(u, R, n + 1, BSub(c, t), s, W)
              [] n % 4 = 3 -> SinCosK(u, R, n + 1, c, BSub(s, t), W)

(* <<cos enclosure, sin enclosure>> of the dyadic x *)
LOCAL SinCosP(x, W0) ==
   LET W  == W0 + 24
       WB == W + MaxI(0, Top(x))                        \* pi with enough bits for the quotient
       hp == DMk(PLo(WB + 8), -(WB + 8) - 1)       \* lower bound of pi/2
       hph == DMk(PHi(WB + 8), -(WB + 8) - 1)
       \* n = nearest integer of x/(pi/2), any choice within 1 is sound
       n  == DFloorB(DAdd(TrD(DDivS(x, hp, MaxI(8, Top(x) + 12)), MaxI(8, Top(x) + 12)), DMk(BOne, -1)))
       nd == DMk(n, 0)
       n1 == DMul(nd, IF n[1] >= 0 THEN hp ELSE hph)     \* n pi/2 enclosure
       n2 == DMul(nd, IF n[1] >= 0 THEN hph ELSE hp)
       r1 == ToFixD(DSub(x, n2), W)
       r2 == ToFixU(DSub(x, n1), W)
       neg == r1[1] < 0
       R  == IF neg THEN BAbs(r1) ELSE r1
       sc == SinCosK(BShl(BOne, W), R, 0, BZero, BZero, W)
       er == BAdd(sc[3], BSub(r2, r1))
       c  == <<DMk(BSub(sc[1], er), -W), DMk(BAdd(sc[1], er), -W)>>
       s0 == IF neg THEN BNeg(sc[2]) ELSE sc[2]
       s  == <<DMk(BSub(s0, er), -W), DMk(BAdd(s0, er), -W)>>
       q  == BToInt(BMod(n, B(4)))
   IN  CASE q = 0 -> <<c, s>>
         [] q = 1 -> <<ENeg(s), c>>
         [] q = 2 -> <<ENeg(c), ENeg(s)>>
         [] q = 3 -> <<s, ENeg(c)>>

(* bounds of v / (pi/2), |v| < 2^W *)
LowQ(v, W)  == LET p == IF Sgn(v) >= 0 THEN DMk(PHi(W), -W - 1) ELSE DMk(PLo(W), -W - 1)
               IN  LET q == DDivS(v, p, W) IN TrD(q, W)
HighQ(v, W) == LET p == IF Sgn(v) >= 0 THEN DMk(PLo(W), -W - 1) ELSE DMk(PHi(W), -W - 1)
               IN  LET q == DDivS(v, p, W) IN TrU(q, W)

(* odd functions: evaluate at |x| *)
LOCAL Odd(x, e) == IF Sgn(x) < 0 THEN ENeg(e) ELSE e

(* x - x^3/6 < sin x < x - x^3/6 + x^5/120, 0 < x *)
LOCAL SinTiny(x, W) == <<DSub(x, PowDiv(x, 3, 1, 6, W, TRUE)),
                         DAdd(DSub(x, PowDiv(x, 3, 1, 6, W, FALSE)), PowDiv(x, 5, 1, 120, W, TRUE))>>
(* 1 - x^2/2 < cos x < 1 - x^2/2 + x^4/24 *)
LOCAL CosTiny(x, W) == LET a == DSub(DOne, DScale(DMul(x, x), -1))
                       IN  <<a, DAdd(a, PowDiv(x, 4, 1, 24, W, TRUE))>>
(* x + x^3/3 < tan x < x + x^3/3 + x^5 / 5, 0 < x < 2^-20 *)
LOCAL TanTiny(x, W) == <<DAdd(x, PowDiv(x, 3, 1, 3, W, FALSE)),
                         DAdd(DAdd(x, PowDiv(x, 3, 1, 3, W, TRUE)), PowDiv(x, 5, 1, 5, W, TRUE))>>
LOCAL EDivS(x, y, W) ==           \* y not containing 0
   IF Sgn(y[1]) > 0
   THEN IF Sgn(x[1]) >= 0 THEN EDivP(x, y, W)
        ELSE IF Sgn(x[2]) <= 0 THEN ENeg(EDivP(ENeg(x), y, W))
        ELSE <<Neg(EDivP(Pt(Neg(x[1])), y, W)[2]), EDivP(Pt(x[2]), y, W)[2]>>
   ELSE ENeg(IF Sgn(x[1]) >= 0 THEN EDivP(x, ENeg(y), W)
             ELSE IF Sgn(x[2]) <= 0 THEN ENeg(EDivP(ENeg(x), ENeg(y), W))
             ELSE <<Neg(EDivP(Pt(Neg(x[1])), ENeg(y), W)[2]), EDivP(Pt(x[2]), ENeg(y), W)[2]>>)
LOCAL TanP(x, W) ==
   LET cs == SinCosP(x, W)
   IN  IF Sgn(cs[1][1]) * Sgn(cs[1][2]) <= 0 THEN Undecided ELSE EDivS(cs[2], cs[1], W)

(* ------------------------------------------------------------------------ *)
(* atan of a positive ratio u/v (angle of the vector (v, u)), u, v > 0       *)
(* ------------------------------------------------------------------------ *)
(* one halving step on fixed point y in [0,1]: y / (1 + sqrt(1 + y^2));       *)
(* result within 2 of the exact image of the given fixed point number         *)
LOCAL HalfStep(Y, W) ==
   LET s == BSqrt(BAdd(BShl(BOne, 2 * W), BMul(Y, Y)))
   IN  BDiv(BShl(Y, W), BAdd(BShl(BOne, W), s))
(* atan of fixed point Y in [0, 1]: three halvings, series, times 8; the      *)
(* halving errors (2 each, the map is a contraction by 1/2) contribute at     *)
(* most 8 * 4                                                                *)
LOCAL AtanFix(Y, W) ==
   LET y3 == HalfStep(HalfStep(HalfStep(Y, W), W), W)
       sr == OddSeries(y3, -1, W)
       er == BAdd(BShl(sr[2], 3), B(40))
   IN  <<BSub(BShl(sr[1], 3), er), BAdd(BShl(sr[1], 3), er)>>
(* enclosure of atan(r), r = <<r1, r2>> in (0, 1] *)
LOCAL AtanTiny(r, W) ==
   \* z - z^3/3 < atan z < z - z^3/3 + z^5/5; both bounds increase with z
   <<DSub(r[1], PowDiv(r[1], 3, 1, 3, W, TRUE)),
     DAdd(DSub(r[2], PowDiv(r[2], 3, 1, 3, W, FALSE)), PowDiv(r[2], 5, 1, 5, W, TRUE))>>
LOCAL Atan01(r, W0) ==
   IF Top(r[2]) < -20 /\ -4 * Top(r[2]) >= W0 THEN AtanTiny(r, W0 + 24)
   ELSE LET W == Ext(r[1], W0) + 24
            a == AtanFix(ToFixD(r[1], W), W)
            b == AtanFix(ToFixU(r[2], W), W)
        IN  <<DMk(a[1], -W), DMk(b[2], -W)>>
LOCAL HalfPiE(W) == <<DMk(CLo("pi", W), -W - 1), DMk(CHi("pi", W), -W - 1)>>
LOCAL AngleQ1(u, v, W) ==                              \* u, v positive enclosures
   IF Sgn(u[1]) <= 0 \/ Sgn(v[1]) <= 0 THEN Undecided
   ELSE IF DCmp(u[2], v[1]) <= 0 THEN Atan01(EDivP(u, v, W + 24), W)
   ELSE IF DCmp(v[2], u[1]) <= 0
   THEN LET a == Atan01(EDivP(v, u, W + 24), W)
            h == HalfPiE(W + 24)
        IN  <<DSub(h[1], a[2]), DSub(h[2], a[1])>>
   ELSE LET h == HalfPiE(W + 24)                       \* overlapping: around pi/4
            a == Atan01(<<EDivP(Pt(u[1]), Pt(v[2]), W + 24)[1], DOne>>, W)
            b == Atan01(<<EDivP(Pt(v[1]), Pt(u[2]), W + 24)[1], DOne>>, W)
        IN  <<a[1], DSub(h[2], b[1])>>

LOCAL SqC(x) == DSub(DOne, DMul(x, x))                 \* 1 - x^2

LOCAL AtanP(x, W) ==                                    \* x > 0 or PInf
   IF x = PInf THEN HalfPiE(W) ELSE AngleQ1(Pt(x), Pt(DOne), W)
(* 0 < x <= 1 *)
LOCAL AsinP(x, W) ==
   IF x = DOne THEN HalfPiE(W)
   ELSE IF Tiny(x, W, 4)  \* x + x^3/6 < asin x < x + x^3/6 + x^5/8
   THEN <<DAdd(x, PowDiv(x, 3, 1, 6, W, FALSE)),
          DAdd(DAdd(x, PowDiv(x, 3, 1, 6, W, TRUE)), PowDiv(x, 5, 1, 8, W, TRUE))>>
   ELSE LET V == Ext(x, W) IN AngleQ1(Pt(x), ESqrt(Pt(SqC(x)), V + 24), V)
(* -1 <= x < 1 *)
LOCAL AcosP(x, W) ==
   IF x = DZero THEN HalfPiE(W)
   ELSE IF x = Neg(DOne) THEN PiE(W)
   ELSE IF Tiny(x, W, 4)                 \* pi/2 - asin x
   THEN LET a == Odd(x, AsinP(Abs(x), W)) h == HalfPiE(W + 24) IN <<DSub(h[1], a[2]), DSub(h[2], a[1])>>
   ELSE IF Sgn(x) > 0 THEN AngleQ1(ESqrt(Pt(SqC(x)), W + 24), Pt(x), W)
   ELSE LET a == AngleQ1(ESqrt(Pt(SqC(x)), W + 24), Pt(Neg(x)), W)
            p == PiE(W + 24)
        IN  IF a = Undecided THEN a ELSE <<DSub(p[1], a[2]), DSub(p[2], a[1])>>
(* atan2 away from the origin and the positive x axis; a finite *)
LOCAL Atan2P(y, x, W) ==
   LET sy == Sgn(y) sx == Sgn(x)
       a0 == AngleQ1(Pt(Abs(y)), Pt(Abs(x)), W)
       p == PiE(W + 24)
       r == IF sy = 0 THEN PiE(W)                        \* x < 0
            ELSE IF sx = 0 THEN HalfPiE(W)
            ELSE IF sx > 0 THEN a0
            ELSE <<DSub(p[1], a0[2]), DSub(p[2], a0[1])>>
   IN  Odd(y, r)

(* ------------------------------------------------------------------------ *)
(* hyperbolic functions                                                      *)
(* ------------------------------------------------------------------------ *)
LOCAL SinhP(x, W0) ==                                     \* x > 0
   LET W == IF Tiny(x, W0, 4) THEN W0 ELSE Ext(x, W0) IN
   IF Tiny(x, W0, 4) THEN <<DAdd(x, PowDiv(x, 3, 1, 6, W, FALSE)),
                     DAdd(DAdd(x, PowDiv(x, 3, 1, 6, W, TRUE)), PowDiv(x, 5, 1, 60, W, TRUE))>>
   ELSE LET e == ExpP(x, W + 24) IN EHalf(ESub(e, EDivP(Pt(DOne), e, W + 24), W + 24))
LOCAL CoshP(x, W) ==
   IF x = DZero THEN Pt(DOne)
   ELSE IF Tiny(x, W, 4) THEN LET a == DAdd(DOne, DScale(DMul(x, x), -1))
                        IN  <<a, DAdd(a, PowDiv(x, 4, 1, 12, W, TRUE))>>
   ELSE LET e == ExpP(Abs(x), W + 24) IN EHalf(EAdd(e, EDivP(Pt(DOne), e, W + 24), W + 24))
(* 1 - 2/(exp(2x) + 1); beyond 512 every format sees the same rounding *)
LOCAL TanhP(x0, W0) ==
   LET x == Clamp(x0, 512)
       W == IF Tiny(x, W0, 4) THEN W0 ELSE Ext(x, W0)
   IN  IF Tiny(x, W0, 4) THEN <<DSub(x, PowDiv(x, 3, 1, 3, W, TRUE)),
                         DAdd(DSub(x, PowDiv(x, 3, 1, 3, W, FALSE)), PowDiv(x, 5, 2, 15, W, TRUE))>>
       ELSE LET e == ExpP(DScale(x, 1), W + 24)
                d == EDivP(Pt(DInt(2)), <<DAdd(e[1], DOne), DAdd(e[2], DOne)>>, W + 24)
            IN  <<DSub(DOne, d[2]), DSub(DOne, d[1])>>
LOCAL AsinhP(x, W0) ==                                     \* x > 0
   LET W == IF Tiny(x, W0, 4) THEN W0 ELSE Ext(x, W0) IN
   IF Tiny(x, W0, 4) THEN <<DSub(x, PowDiv(x, 3, 1, 6, W, TRUE)),
                     DAdd(DSub(x, PowDiv(x, 3, 1, 6, W, FALSE)), PowDiv(x, 5, 3, 40, W, TRUE))>>
   ELSE LET V == W + 24 + 2 * MaxI(0, 8)
            s == ESqrt(Pt(DAdd(DMul(x, x), DOne)), V)
        IN  LogE(EAdd(Pt(x), s, V), V)
LOCAL AcoshP(x, W) ==                                     \* x > 1
   LET V == W + 40
       s == ESqrt(Pt(DSub(DMul(x, x), DOne)), V)
   IN  LogE(EAdd(Pt(x), s, V), V)
LOCAL AtanhP(x, W0) ==                                     \* 0 < x < 1
   LET W == IF Tiny(x, W0, 4) THEN W0 ELSE Ext(x, W0) IN
   IF Tiny(x, W0, 4) THEN <<DAdd(x, PowDiv(x, 3, 1, 3, W, FALSE)),
                     DAdd(DAdd(x, PowDiv(x, 3, 1, 3, W, TRUE)), PowDiv(x, 5, 1, 4, W, TRUE))>>
   ELSE LET a == LogP(DAdd(DOne, x), W + 24)
            b == LogP(DSub(DOne, x), W + 24)
        IN  EHalf(ESub(a, b, W + 24))

(* ------------------------------------------------------------------------ *)
(* powers                                                                    *)
(* ------------------------------------------------------------------------ *)
(* x^y = exp(y log x), x > 0, both finite *)
LOCAL PowE(x, y, W) ==
   LET V == W + 40
       l == LogP(x, V)
   IN  ExpE(EMul(Pt(y), l, V), V)

(* repeated exact square root: x^(1/2^k) if it is dyadic, else the empty tuple *)
RECURSIVE RootPow2(_, _)
LOCAL RootPow2(x, k) ==
   IF k = 0 THEN x
   ELSE LET r == BSqrt(x[3])
        IN  IF x[2] % 2 = 0 /\ BMul(r, r) = x[3] THEN RootPow2(<<0, x[2] \div 2, r>>, k - 1) ELSE <<>>
LOCAL FitsInt(x) == x[3][1] = 0 \/ Top(x) <= 29
LOCAL IntVal(x) == BToInt(DFloorB(x))

(* ------------------------------------------------------------------------ *)
(* Exact(fn, a): the value as a dyadic when it is one, the empty tuple if the *)
(* value is certainly not dyadic.  a is the tuple of (finite) arguments.      *)
(* ------------------------------------------------------------------------ *)
RECURSIVE Pow5(_, _)
LOCAL Pow5(m, k) == IF BCmp(m, BOne) = 0 THEN k
                    ELSE IF BCmp(BMul(BDiv(m, B(5)), B(5)), m) = 0 THEN Pow5(BDiv(m, B(5)), k + 1) ELSE -1
NegInt(n) == IF n < -2147483647 THEN 2147483647 ELSE -n    \* -n, saturated
(* product saturated far beyond every exponent range *)
LOCAL SatMul(a, n) ==
   LET b == IF n < -1073741824 THEN 1073741824 ELSE IF n < 0 THEN -n ELSE MinI(n, 1073741824)
       c == IF a < 0 THEN -a ELSE a
       m == IF c = 0 THEN 0 ELSE IF b > 536870912 \div c THEN 536870912 ELSE b * c
   IN  IF (a < 0) # (n < 0) THEN -m ELSE m
LOCAL ExactPowN(x, n) ==                 \* x^n, n a TLC integer, x # 0
   IF x[3] = BOne \/ x[3] = BNeg(BOne)
   THEN <<0, SatMul(x[2], n), IF n % 2 = 0 THEN BOne ELSE x[3]>>
   ELSE IF n >= 0 /\ n <= 20000 \div BBits(x[3]) THEN DPow(x, n) ELSE <<>>
LOCAL ExactRoot(x, n) ==                 \* x^(1/n), x > 0, n >= 1
   IF n = 1 THEN x
   ELSE IF x[2] % n # 0 THEN <<>>
   ELSE IF x[3] = BOne THEN <<0, x[2] \div n, BOne>>
   ELSE IF BBits(x[3]) <= n THEN <<>>
   ELSE LET e == PowE(<<0, 0, x[3]>>, TrD(DDivS(DOne, DInt(n), 96), 96), 96)
            r == DFloorB(DAdd(e[1], DMk(BOne, -1)))
        IN  IF BPow(r, n) = x[3] THEN <<0, x[2] \div n, r>> ELSE <<>>
LOCAL ExactPow(x, y) ==                  \* x > 0
   IF y = DZero \/ x = DOne THEN DOne
   ELSE IF y[2] >= 0
   THEN IF FitsInt(y) THEN ExactPowN(x, IntVal(y)) ELSE <<>>
   ELSE IF -y[2] > 40 THEN
            (IF x[3] = BOne /\ x[2] % P2(MinI(-y[2], 15)) = 0 /\ x[2] = 0 THEN DOne ELSE <<>>)
   ELSE LET r == RootPow2(x, -y[2])
        IN  IF r = <<>> THEN <<>>
            ELSE IF BBits(y[3]) > 29 THEN <<>> ELSE ExactPowN(r, BToInt(y[3]))

Exact(fn, a) ==
   LET x == a[1]
   IN CASE fn = "id"  -> x
        [] fn = "sum" -> DAdd(x, a[2])
        [] fn = "prod" -> DMul(x, a[2])
        [] fn = "fma" -> DAdd(DMul(x, a[2]), a[3])
        [] fn = "sqr" -> DMul(x, x)
        [] fn = "pow" -> ExactPow(x, a[2])
        [] fn = "pown" -> ExactPowN(x, a[2])
        [] fn = "root" -> ExactRoot(x, a[2])
        [] fn = "rootinv" -> LET m == NegInt(a[2])
                             IN  IF x[3] = BOne /\ x[2] % m = 0 THEN <<0, -(x[2] \div m), BOne>> ELSE <<>>
        [] fn \in {"exp", "cosh", "cos"} -> IF x = DZero THEN DOne ELSE <<>>
        [] fn \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"} ->
               IF x = DZero THEN DZero ELSE <<>>
        [] fn \in {"log", "acos", "acosh"} -> IF x = DOne THEN DZero ELSE <<>>
        [] fn = "atan2" -> IF x = DZero /\ Sgn(a[2]) > 0 THEN DZero ELSE <<>>
        [] fn = "arc" -> IF x = DZero /\ a[4] = (IF a[3] = "acos" THEN DOne ELSE DZero) THEN DZero ELSE <<>>
        [] fn = "exp2" -> IF x[2] >= 0 /\ Top(x) <= 18 THEN DPow2(IntVal(x)) ELSE <<>>
        [] fn = "exp10" -> IF Sgn(x) >= 0 /\ x[2] >= 0 /\ Top(x) <= 13 THEN DPow(DInt(10), IntVal(x)) ELSE <<>>
        [] fn = "log2" -> IF x[3] = BOne THEN DInt(x[2]) ELSE <<>>
        [] fn = "log10" -> IF x[2] >= 0 /\ Pow5(x[3], 0) = x[2] THEN DInt(x[2]) ELSE <<>>
        [] OTHER -> <<>>

(* enclosure where Exact is <<>> *)
Enc(fn, a, W) ==
   LET x == a[1]
   IN CASE fn = "quot" -> LET q == DDivS(x, a[2], W) IN <<TrD(q, W), TrU(q, W)>>
        [] fn = "sqrt" -> LET q == DSqrtS(x, W) IN <<TrD(q, W), TrU(q, W)>>
        [] fn = "exp"  -> ExpP(x, W)
        [] fn = "exp2" -> ExpC(x, "ln2", W)
        [] fn = "exp10" -> ExpC(x, "ln10", W)
        [] fn = "log"  -> LogP(x, W)
        [] fn = "log2" -> EDivC(LogP(x, W), CEnc("ln2", W + 24), W)
        [] fn = "log10" -> EDivC(LogP(x, W), CEnc("ln10", W + 24), W)
        [] fn = "sin"  -> Odd(x, IF Tiny(x, W, 4) THEN SinTiny(Abs(x), W)
                                 ELSE SinCosP(Abs(x), Ext(x, W))[2])
        [] fn = "cos"  -> IF Tiny(x, W, 4) THEN CosTiny(Abs(x), W) ELSE SinCosP(Abs(x), W)[1]
        [] fn = "tan"  -> IF Tiny(x, W, 4) THEN Odd(x, TanTiny(Abs(x), W))
                          ELSE LET t == TanP(Abs(x), Ext(x, W)) IN IF t = Undecided THEN t ELSE Odd(x, t)
        [] fn = "atan" -> Odd(x, AtanP(Abs(x), W))
        [] fn = "asin" -> Odd(x, AsinP(Abs(x), W))
        [] fn = "acos" -> AcosP(x, W)
        [] fn = "atan2" -> Atan2P(x, a[2], W)
        [] fn = "sinh" -> Odd(x, SinhP(Abs(Clamp(x, 65536)), W))
        [] fn = "cosh" -> CoshP(Clamp(x, 65536), W)
        [] fn = "tanh" -> Odd(x, TanhP(Abs(x), W))
        [] fn = "asinh" -> Odd(x, AsinhP(Abs(x), W))
        [] fn = "acosh" -> AcoshP(x, W)
        [] fn = "atanh" -> Odd(x, AtanhP(Abs(x), W))
        [] fn = "pow"  -> PowE(x, a[2], W)
        [] fn = "pown" -> LET n == a[2]
                              s == IF Sgn(x) < 0 /\ n % 2 = 1 THEN -1 ELSE 1
                              y == Abs(x)
                              e == IF n < 0 /\ n >= -20000 \div BBits(x[3])
                                   THEN LET q == DDivS(DOne, DPow(y, -n), W) IN <<TrD(q, W), TrU(q, W)>>
                                   ELSE PowE(y, DInt(n), W + 40)
                          IN  IF s < 0 THEN ENeg(e) ELSE e
        [] fn = "root" -> LET V == W + 40
                              l == LogP(x, V)
                          IN  ExpE(EDivC(l, Pt(DInt(a[2])), V), V)
        [] fn = "rootinv" -> LET V == W + 40              \* x^(1/n), n < 0
                                 l == LogP(x, V)
                          IN  ExpE(ENeg(EDivC(l, Pt(Neg(DInt(a[2]))), V)), V)
        [] fn = "arc" -> \* x pi + a[2] * a[3](a[4]), x an integer, a[2] = 1 or -1
             LET V == W + MaxI(0, Top(x)) + 8
                 lo == DMk(PLo(V), -V) hi == DMk(PHi(V), -V)
                 v == a[4]
                 e == CASE a[3] = "acos" -> IF v = DOne THEN Pt(DZero) ELSE AcosP(v, W)
                        [] v = DZero -> Pt(DZero)
                        [] a[3] = "asin" -> Odd(v, AsinP(Abs(v), W))
                        [] a[3] = "atan" -> IF v[1] # 0 THEN Odd(v, HalfPiE(W)) ELSE Odd(v, AtanP(Abs(v), W))
                 f == IF a[2] < 0 THEN ENeg(e) ELSE e
                 g == IF Sgn(x) >= 0 THEN <<DMul(x, lo), DMul(x, hi)>> ELSE <<DMul(x, hi), DMul(x, lo)>>
             IN  <<DAdd(f[1], g[1]), DAdd(f[2], g[2])>>
        [] fn = "pi" -> PiE(W)
        [] fn = "halfpi" -> HalfPiE(W)
        [] fn = "mpi" -> ENeg(PiE(W))
        [] fn = "mhalfpi" -> ENeg(HalfPiE(W))

(* ------------------------------------------------------------------------ *)
(* Real terms <<fn, args>> and their directed rounding.  <<"lim", v>> is the  *)
(* extended number v itself (v may be infinite), <<"neg", t>> the negated term.                           *)
(* ------------------------------------------------------------------------ *)
RECURSIVE FDLoop(_, _, _, _)
LOCAL FDLoop(F, fn, a, W) ==
   LET e == Enc(fn, a, W)
       d1 == RD(F, e[1])
       d2 == RD(F, e[2])
   IN  IF d1 = d2 THEN d1
       ELSE IF W > 2000 THEN Assert(FALSE, <<"precision exhausted", fn, a>>)
       ELSE FDLoop(F, fn, a, 2 * W)
RECURSIVE FULoop(_, _, _, _)
LOCAL FULoop(F, fn, a, W) ==
   LET e == Enc(fn, a, W)
       d1 == RU(F, e[1])
       d2 == RU(F, e[2])
   IN  IF d1 = d2 THEN d1
       ELSE IF W > 2000 THEN Assert(FALSE, <<"precision exhausted", fn, a>>)
       ELSE FULoop(F, fn, a, 2 * W)

RECURSIVE TermU(_, _)
RECURSIVE TermD(_, _)
TermD(F, t) ==
   IF t[1] = "lim" THEN RD(F, t[2])
   ELSE IF t[1] = "neg" THEN Neg(TermU(F, t[2]))
   ELSE IF t[1] \in {"quot", "sqrt"} THEN RD(F, IF t[1] = "quot" THEN DDivS(t[2][1], t[2][2], F.p + 3)
                                                ELSE DSqrtS(t[2][1], F.p + 3))
   ELSE LET x == Exact(t[1], t[2])
        IN  IF x # <<>> THEN RD(F, x) ELSE FDLoop(F, t[1], t[2], F.p + 30)
TermU(F, t) ==
   IF t[1] = "lim" THEN RU(F, t[2])
   ELSE IF t[1] = "neg" THEN Neg(TermD(F, t[2]))
   ELSE IF t[1] \in {"quot", "sqrt"} THEN RU(F, IF t[1] = "quot" THEN DDivS(t[2][1], t[2][2], F.p + 3)
                                                ELSE DSqrtS(t[2][1], F.p + 3))
   ELSE LET x == Exact(t[1], t[2])
        IN  IF x # <<>> THEN RU(F, x) ELSE FULoop(F, t[1], t[2], F.p + 30)

(* comparison of a term with an extended number: -1, 0, 1 *)
RECURSIVE TermCmpLoop(_, _, _, _)
LOCAL TermCmpLoop(fn, a, c, W) ==
   LET e == Enc(fn, a, W)
   IN  IF Cmp(e[1], c) > 0 THEN 1 ELSE IF Cmp(e[2], c) < 0 THEN -1
       ELSE IF W > 2000 THEN Assert(FALSE, <<"precision exhausted", fn, a, c>>)
       ELSE TermCmpLoop(fn, a, c, 2 * W)
RECURSIVE TermCmp(_, _)
TermCmp(t, c) ==
   IF t[1] = "lim" THEN Cmp(t[2], c)
   ELSE IF t[1] = "neg" THEN -TermCmp(t[2], Neg(c))
   ELSE IF c[1] # 0 THEN -c[1]
   ELSE IF t[1] = "sqrt" THEN (IF Sgn(c) < 0 THEN 1 ELSE DCmp(t[2][1], DMul(c, c)))
   ELSE IF t[1] = "quot" THEN Sgn(t[2][2]) * DCmp(t[2][1], DMul(c, t[2][2]))
   ELSE LET x == Exact(t[1], t[2])
        IN  IF x # <<>> THEN DCmp(x, c) ELSE TermCmpLoop(t[1], t[2], c, 128)
=============================================================================
