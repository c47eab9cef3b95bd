------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* The set-based interval flavour: every operation of the library, defined *)
(* by its meaning on sets of reals.                                        *)
(*                                                                         *)
(* A bare interval is <<lo, hi>>: lo <= hi, lo # +oo, hi # -oo; the empty  *)
(* set is <<NaN, NaN>>.  A decorated interval is <<lo, hi, dec>> with dec  *)
(* in {0 ill, 4 trv, 8 def, 12 dac, 16 com}; not-an-interval (NaI) is      *)
(* <<NaN, NaN, 0>>.                                                        *)
(*                                                                         *)
(* The range of an operation over a box is given by candidate real terms:  *)
(* its infimum is the least of the lower candidates and its supremum the   *)
(* greatest of the upper ones (vertex limits and critical points of the    *)
(* box).  Rounding is monotone, so the tightest enclosure in the format F  *)
(* is <<min TermD, max TermU>> over the candidates.                        *)
(***************************************************************************)
EXTENDS RealFun

Empty  == <<NaN, NaN>>
Entire == <<NInf, PInf>>
NaI    == <<NaN, NaN, 0>>
Ill == 0  Trv == 4  Def == 8  Dac == 12  Com == 16

IsEmpty(x)  == IsNaN(x[1])
Lo(x) == x[1]
Hi(x) == x[2]
Bounded(x) == IsEmpty(x) \/ (IsFin(x[1]) /\ IsFin(x[2]))
IsCommon(x) == IsFin(x[1]) /\ IsFin(x[2])
Bare(x) == <<x[1], x[2]>>

(* representation invariants of the library's objects *)
ValidBare(x) == \/ IsNaN(x[1]) /\ IsNaN(x[2])
                \/ /\ ~IsNaN(x[1]) /\ ~IsNaN(x[2])
                   /\ Le(x[1], x[2]) /\ x[1] # PInf /\ x[2] # NInf
ValidDec(x) == /\ x[3] \in {0, 4, 8, 12, 16}
               /\ ValidBare(x)
               /\ IF x[3] = Com THEN IsCommon(x)
                  ELSE IF x[3] \in {Def, Dac} THEN ~IsEmpty(x)
                  ELSE IF x[3] = Ill THEN IsEmpty(x) ELSE TRUE
IsNaI(x) == x[3] = Ill

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
(* strongest decoration an interval can carry *)
DecCap(x) == IF IsEmpty(x) THEN Trv ELSE IF IsCommon(x) THEN Com ELSE Dac

In(v, x) == ~IsEmpty(x) /\ Le(x[1], v) /\ Le(v, x[2])       \* v finite
Zero(x) == ~IsEmpty(x) /\ Sgn(x[1]) <= 0 /\ Sgn(x[2]) >= 0   \* 0 in x

Meet(x, y) == IF IsEmpty(x) \/ IsEmpty(y) THEN Empty
              ELSE LET l == MaxX(x[1], y[1]) h == MinX(x[2], y[2])
                   IN  IF Le(l, h) THEN <<l, h>> ELSE Empty
Join(x, y) == IF IsEmpty(x) THEN y ELSE IF IsEmpty(y) THEN x
              ELSE <<MinX(x[1], y[1]), MaxX(x[2], y[2])>>
(* smallest interval of the format containing x *)
Conv(F, x) == IF IsEmpty(x) THEN Empty ELSE <<RD(F, x[1]), RU(F, x[2])>>

(* ------------------------------------------------------------------------ *)
(* Range by candidates                                                       *)
(* ------------------------------------------------------------------------ *)
L(v) == <<"lim", v>>
RECURSIVE MinTermD(_, _, _)
MinTermD(F, s, i) == IF i = Len(s) THEN TermD(F, s[i]) ELSE MinX(TermD(F, s[i]), MinTermD(F, s, i + 1))
RECURSIVE MaxTermU(_, _, _)
MaxTermU(F, s, i) == IF i = Len(s) THEN TermU(F, s[i]) ELSE MaxX(TermU(F, s[i]), MaxTermU(F, s, i + 1))

None == <<<<>>, <<>>>>                             \* the empty range
Rg(lo, hi) == <<lo, hi>>
Hull(F, r) == IF r[1] = <<>> THEN Empty ELSE <<MinTermD(F, r[1], 1), MaxTermU(F, r[2], 1)>>
Both(r, s) == <<r[1] \o s[1], r[2] \o s[2]>>        \* union of two ranges

(* ------------------------------------------------------------------------ *)
(* Limits of elementary functions at the ends of an interval                 *)
(* ------------------------------------------------------------------------ *)
T1(fn, v) ==
   IF IsFin(v)
   THEN CASE fn = "log" \/ fn = "log2" \/ fn = "log10" -> IF v = DZero THEN L(NInf) ELSE <<fn, <<v>>>>
          [] fn = "atanh" -> IF v = DOne THEN L(PInf) ELSE IF v = Neg(DOne) THEN L(NInf) ELSE <<fn, <<v>>>>
          [] OTHER -> <<fn, <<v>>>>
   ELSE IF v = PInf
   THEN CASE fn = "atan" -> <<"halfpi", <<>>>>
          [] fn = "tanh" -> L(DOne)
          [] OTHER -> L(PInf)
   ELSE CASE fn \in {"exp", "exp2", "exp10"} -> L(DZero)
          [] fn = "atan" -> <<"mhalfpi", <<>>>>
          [] fn = "tanh" -> L(Neg(DOne))
          [] fn = "cosh" -> L(PInf)
          [] OTHER -> L(NInf)

MOne == Neg(DOne)

(* natural domains that are not the whole line, as closed intervals; Open     *)
(* says that the ends do not belong to it                                    *)
DomOf(fn) == CASE fn = "sqrt" -> <<DZero, PInf>>
               [] fn \in {"log", "log2", "log10"} -> <<DZero, PInf>>
               [] fn \in {"asin", "acos", "atanh"} -> <<MOne, DOne>>
               [] fn = "acosh" -> <<DOne, PInf>>
               [] OTHER -> Entire
OpenDom(fn) == fn \in {"log", "log2", "log10", "atanh"}
(* x restricted to the domain; empty if it holds no point of the domain *)
Restrict(fn, x) ==
   LET d == DomOf(fn)
       y == Meet(x, d)
   IN  IF IsEmpty(y) THEN y
       ELSE IF OpenDom(fn) /\ y[1] = y[2] /\ (y[1] = d[1] \/ y[1] = d[2]) THEN Empty
       ELSE y
DefinedOn(fn, x) ==
   LET d == DomOf(fn)
   IN  /\ Le(d[1], x[1]) /\ Le(x[2], d[2])
       /\ OpenDom(fn) => (x[1] # d[1] \/ ~IsFin(d[1])) /\ (x[2] # d[2] \/ ~IsFin(d[2]))

Increasing == {"exp", "exp2", "exp10", "log", "log2", "log10", "sqrt", "asin", "atan",
               "sinh", "tanh", "asinh", "acosh", "atanh"}

(* ---- multiples of pi/2 inside an interval -------------------------------- *)
(* floor(v / (pi/2)) of a finite dyadic v # 0 (never an integer itself)       *)
RECURSIVE QuadLoop(_, _)
QuadLoop(v, W) ==
   LET a == DFloorB(LowQ(v, W))
       b == DFloorB(HighQ(v, W))
   IN  IF a = b THEN a ELSE QuadLoop(v, W + 200)
Quad(v) == IF v = DZero THEN BZero ELSE QuadLoop(v, MaxI(0, Top(v)) + 100)
(* least and greatest m with m pi/2 in the bounded interval x *)
MLo(x) == IF x[1] = DZero THEN BZero ELSE BAdd(Quad(x[1]), BOne)
MHi(x) == Quad(x[2])
(* is there an m = r (mod q) with m pi/2 in x?  (q a power of two, r < q) *)
HasM(x, r, q) ==
   IF ~IsFin(x[1]) \/ ~IsFin(x[2]) THEN TRUE
   ELSE LET lo == MLo(x)
            d  == BToInt(BMod(BSub(BOfInt(r), lo), BOfInt(q)))
        IN  BCmp(BAdd(lo, BOfInt(d)), MHi(x)) <= 0

(* ---- unary functions ------------------------------------------------------ *)
Steps == {"sign", "ceil", "floor", "trunc", "rte", "rta"}
RTrunc(v) == IF Sgn(v) >= 0 THEN DFloor(v) ELSE Neg(DFloor(Neg(v)))
(* nearest integer; ties to even / away *)
RHalf(v, even) ==
   LET a == Abs(v)
       f == DFloor(a)
       c == DCmp(DScale(DSub(a, f), 1), DOne)
       up == c > 0 \/ (c = 0 /\ (~even \/ (f[2] = 0 /\ BOdd(f[3]))))
       r == IF up THEN DAdd(f, DOne) ELSE f
   IN  IF Sgn(v) < 0 THEN Neg(r) ELSE r
StepAt(fn, v) ==
   IF ~IsFin(v) THEN (IF fn = "sign" THEN DInt(Sgn(v)) ELSE v)
   ELSE CASE fn = "sign" -> DInt(Sgn(v))
          [] fn = "floor" -> DFloor(v)
          [] fn = "ceil" -> Neg(DFloor(Neg(v)))
          [] fn = "trunc" -> RTrunc(v)
          [] fn = "rte" -> RHalf(v, TRUE)
          [] fn = "rta" -> RHalf(v, FALSE)
(* is the step function discontinuous at v? *)
JumpAt(fn, v) ==
   CASE fn = "sign" -> v = DZero
     [] fn \in {"floor", "ceil"} -> IsInteger(v)
     [] fn = "trunc" -> IsInteger(v) /\ v # DZero
     [] OTHER -> v[3][1] # 0 /\ v[2] = -1

Range1(fn, x0) ==
   LET x == Restrict(fn, x0)
   IN  IF IsEmpty(x) THEN None
       ELSE CASE fn = "pos" -> Rg(<<L(x[1])>>, <<L(x[2])>>)
              [] fn = "neg" -> Rg(<<L(Neg(x[2]))>>, <<L(Neg(x[1]))>>)
              [] fn \in Increasing -> Rg(<<T1(fn, x[1])>>, <<T1(fn, x[2])>>)
              [] fn = "acos" -> Rg(<<T1(fn, x[2])>>, <<T1(fn, x[1])>>)
              [] fn \in Steps -> Rg(<<L(StepAt(fn, x[1]))>>, <<L(StepAt(fn, x[2]))>>)
              [] fn = "sqr" -> LET c == <<L(Mul(x[1], x[1])), L(Mul(x[2], x[2]))>>
                               IN  Rg(IF Zero(x) THEN <<L(DZero)>> ELSE c, c)
              [] fn = "abs" -> LET c == <<L(Abs(x[1])), L(Abs(x[2]))>>
                               IN  Rg(IF Zero(x) THEN <<L(DZero)>> ELSE c, c)
              [] fn = "cosh" -> Rg(IF Zero(x) THEN <<L(DOne)>>
                                   ELSE IF Sgn(x[1]) > 0 THEN <<T1(fn, x[1])>> ELSE <<T1(fn, x[2])>>,
                                   IF Le(Abs(x[1]), Abs(x[2])) THEN <<T1(fn, x[2])>> ELSE <<T1(fn, x[1])>>)
              [] fn \in {"sin", "cos"} ->
                    LET top == HasM(x, IF fn = "sin" THEN 1 ELSE 0, 4)
                        bot == HasM(x, IF fn = "sin" THEN 3 ELSE 2, 4)
                        e == <<<<fn, <<x[1]>>>>, <<fn, <<x[2]>>>>>>
                    IN  Rg(IF bot THEN <<L(MOne)>> ELSE e, IF top THEN <<L(DOne)>> ELSE e)
              [] fn = "tan" -> IF HasM(x, 1, 2) THEN Rg(<<L(NInf)>>, <<L(PInf)>>)
                               ELSE Rg(<<<<fn, <<x[1]>>>>>>, <<<<fn, <<x[2]>>>>>>)

(* ---- quotients ------------------------------------------------------------- *)
(* limit of a/b as the denominator approaches b with the sign s *)
QuotAt(a, b, s) ==
   IF b = DZero THEN (IF Sgn(a) = 0 THEN <<L(DZero)>> ELSE <<L(<<Sgn(a) * s, 0, <<0>>>>)>>)
   ELSE IF ~IsFin(b) THEN (IF IsFin(a) THEN <<L(DZero)>>
                           ELSE <<L(DZero), L(<<Sgn(a) * s, 0, <<0>>>>)>>)
   ELSE IF ~IsFin(a) THEN <<L(<<Sgn(a) * s, 0, <<0>>>>)>>
   ELSE <<<<"quot", <<a, b>>>>>>
(* x / y for y inside [0, oo] (s = 1) or [-oo, 0] (s = -1), y # {0} *)
QuotSide(x, y, s) ==
   LET c == QuotAt(x[1], y[1], s) \o QuotAt(x[1], y[2], s) \o QuotAt(x[2], y[1], s) \o QuotAt(x[2], y[2], s)
   IN  Rg(c, c)
NegPart(y) == IF IsEmpty(y) \/ Sgn(y[1]) >= 0 THEN Empty ELSE <<y[1], MinX(y[2], DZero)>>
PosPart(y) == IF IsEmpty(y) \/ Sgn(y[2]) <= 0 THEN Empty ELSE <<MaxX(y[1], DZero), y[2]>>
RangeDiv(x, y) ==
   LET n == NegPart(y) p == PosPart(y)
   IN  Both(IF IsEmpty(n) THEN None ELSE QuotSide(x, n, -1),
            IF IsEmpty(p) THEN None ELSE QuotSide(x, p, 1))

(* ---- powers ----------------------------------------------------------------- *)
PownAt(v, n, s) ==       \* limit of t^n, t -> v with the sign s if v = 0
   IF IsFin(v) /\ v # DZero THEN <<"pown", <<v, n>>>>
   ELSE LET sg == IF n % 2 = 0 THEN 1 ELSE IF v = DZero THEN s ELSE Sgn(v)
        IN  IF (v = DZero) = (n > 0) THEN L(DZero) ELSE L(<<sg, 0, <<0>>>>)
RangePown(x, n) ==
   IF n = 0 THEN Rg(<<L(DOne)>>, <<L(DOne)>>)
   ELSE IF n > 0
   THEN LET c == <<PownAt(x[1], n, 1), PownAt(x[2], n, 1)>>
        IN  IF n % 2 = 1 THEN Rg(<<c[1]>>, <<c[2]>>)
            ELSE Rg(IF Zero(x) THEN <<L(DZero)>> ELSE IF Sgn(x[1]) > 0 THEN <<c[1]>> ELSE <<c[2]>>,
                    IF Le(Abs(x[1]), Abs(x[2])) THEN <<c[2]>> ELSE <<c[1]>>)
   ELSE LET a == NegPart(x)  b == PosPart(x)
            ca == <<PownAt(a[1], n, -1), PownAt(a[2], n, -1)>>
            cb == <<PownAt(b[1], n, 1), PownAt(b[2], n, 1)>>
        IN  Both(IF IsEmpty(a) THEN None ELSE Rg(ca, ca), IF IsEmpty(b) THEN None ELSE Rg(cb, cb))

(* limit of s^t at the vertex (a, b) of a box with a >= 0: exp(b log a) with   *)
(* 0 * oo = 0                                                                  *)
PowAt(a, b) ==
   IF IsFin(a) /\ a # DZero /\ IsFin(b) THEN <<"pow", <<a, b>>>>
   ELSE LET sl == IF a = DZero THEN -1 ELSE IF a = PInf THEN 1 ELSE DCmp(a, DOne)    \* sign of log a
            s  == sl * Sgn(b)
        IN  IF s = 0 THEN L(DOne) ELSE IF s > 0 THEN L(PInf) ELSE L(DZero)
RangePow(x0, y) ==
   LET x == Meet(x0, <<DZero, PInf>>)
   IN  IF IsEmpty(x) \/ (x[2] = DZero /\ Sgn(y[2]) <= 0) THEN None
       ELSE IF x[2] = DZero THEN Rg(<<L(DZero)>>, <<L(DZero)>>)
       ELSE \* t -> t^b increases or decreases with the sign of b, likewise b -> a^b with log a
            LET lo == IF Lt(x[2], DOne) \/ x[2] = DOne      \* a <= 1: decreasing in b
                      THEN <<PowAt(IF Sgn(y[2]) >= 0 THEN x[1] ELSE x[2], y[2])>>
                      ELSE IF Le(DOne, x[1])
                      THEN <<PowAt(IF Sgn(y[1]) >= 0 THEN x[1] ELSE x[2], y[1])>>
                      ELSE <<PowAt(x[1], y[2]), PowAt(x[2], y[1])>>
                           \o (IF Sgn(y[1]) > 0 \/ Sgn(y[2]) < 0
                               THEN <<PowAt(x[1], y[1]), PowAt(x[2], y[2])>> ELSE <<>>)
                hi == IF Lt(x[2], DOne) \/ x[2] = DOne
                      THEN <<PowAt(IF Sgn(y[1]) >= 0 THEN x[2] ELSE x[1], y[1])>>
                      ELSE IF Le(DOne, x[1])
                      THEN <<PowAt(IF Sgn(y[2]) >= 0 THEN x[2] ELSE x[1], y[2])>>
                      ELSE <<PowAt(x[1], y[1]), PowAt(x[2], y[2])>>
                           \o (IF Sgn(y[1]) > 0 \/ Sgn(y[2]) < 0
                               THEN <<PowAt(x[1], y[2]), PowAt(x[2], y[1])>> ELSE <<>>)
            IN  Rg(lo, hi)

(* ---- angle ------------------------------------------------------------------ *)
(* limit angles at the vertex (a, b) = (x, y), none at the origin *)
AngleAt(b, a) ==
   IF IsFin(a) /\ IsFin(b)
   THEN IF a = DZero /\ b = DZero THEN <<>>
        ELSE IF b = DZero /\ Sgn(a) > 0 THEN <<L(DZero)>>
        ELSE <<<<"atan2", <<b, a>>>>>>
   ELSE LET hz == IF Sgn(a) > 0 THEN L(DZero) ELSE IF Sgn(b) < 0 THEN <<"mpi", <<>>>> ELSE <<"pi", <<>>>>
            vt == IF Sgn(b) > 0 THEN <<"halfpi", <<>>>> ELSE <<"mhalfpi", <<>>>>
        IN  (IF IsFin(a) THEN <<>> ELSE <<hz>>) \o (IF IsFin(b) THEN <<>> ELSE <<vt>>)
RangeAtan2(y, x) ==
   IF x = <<DZero, DZero>> /\ y = <<DZero, DZero>> THEN None
   ELSE IF Sgn(x[1]) < 0 /\ Sgn(y[1]) < 0 /\ Sgn(y[2]) >= 0
   THEN Rg(<<<<"mpi", <<>>>>>>, <<<<"pi", <<>>>>>>)
   ELSE LET c == AngleAt(y[1], x[1]) \o AngleAt(y[1], x[2]) \o AngleAt(y[2], x[1]) \o AngleAt(y[2], x[2])
        IN  Rg(c, c)

(* ---- several arguments -------------------------------------------------------- *)
MulC(x, y) == <<L(Mul(x[1], y[1])), L(Mul(x[1], y[2])), L(Mul(x[2], y[1])), L(Mul(x[2], y[2]))>>
RangeMul(x, y) == LET c == MulC(x, y) IN Rg(c, c)
MinP(x, y) == MinX(MinX(Mul(x[1], y[1]), Mul(x[1], y[2])), MinX(Mul(x[2], y[1]), Mul(x[2], y[2])))
MaxP(x, y) == MaxX(MaxX(Mul(x[1], y[1]), Mul(x[1], y[2])), MaxX(Mul(x[2], y[1]), Mul(x[2], y[2])))

UnaryFns == {"pos", "neg", "sqr", "abs", "sqrt", "exp", "exp2", "exp10", "log", "log2", "log10",
             "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
             "asinh", "acosh", "atanh"} \cup Steps

(* range of the operation op over the box xs of non-empty intervals, n an integer parameter *)
RangeOf(op, xs, n) ==
   IF op \in UnaryFns THEN Range1(op, xs[1])
   ELSE LET x == xs[1] IN
        CASE op = "recip" -> RangeDiv(<<DOne, DOne>>, x)
          [] op = "pown" -> RangePown(x, n)
          [] op = "add" -> Rg(<<L(Add(x[1], xs[2][1]))>>, <<L(Add(x[2], xs[2][2]))>>)
          [] op = "sub" -> Rg(<<L(Sub(x[1], xs[2][2]))>>, <<L(Sub(x[2], xs[2][1]))>>)
          [] op = "mul" -> RangeMul(x, xs[2])
          [] op = "div" -> RangeDiv(x, xs[2])
          [] op = "pow" -> RangePow(x, xs[2])
          [] op = "atan2" -> RangeAtan2(x, xs[2])
          [] op = "min" -> Rg(<<L(MinX(x[1], xs[2][1]))>>, <<L(MinX(x[2], xs[2][2]))>>)
          [] op = "max" -> Rg(<<L(MaxX(x[1], xs[2][1]))>>, <<L(MaxX(x[2], xs[2][2]))>>)
          [] op = "fma" -> Rg(<<L(Add(MinP(x, xs[2]), xs[3][1]))>>, <<L(Add(MaxP(x, xs[2]), xs[3][2]))>>)

AnyEmpty(xs) == \E i \in 1..Len(xs) : IsEmpty(xs[i])

(* the bare operation: tightest enclosure in F *)
Fwd(F, op, xs, n) == IF AnyEmpty(xs) THEN Empty ELSE Hull(F, RangeOf(op, xs, n))

(* ------------------------------------------------------------------------ *)
(* Decorations: the strongest statement true of op on the box               *)
(* Com  defined and continuous at every point (boundedness added by Dec)     *)
(* Dac  defined, and continuous as a function on the box                     *)
(* Def  defined at every point                                               *)
(* ------------------------------------------------------------------------ *)
LocalDec(op, xs, n) ==
   LET x == xs[1]
       ok(b) == IF b THEN Com ELSE Trv
   IN CASE op \in Steps -> IF StepAt(op, x[1]) # StepAt(op, x[2]) \/ ~IsFin(x[1]) \/ ~IsFin(x[2])
                           THEN (IF StepAt(op, x[1]) # StepAt(op, x[2]) THEN Def ELSE Com)
                           ELSE IF JumpAt(op, x[1]) \/ JumpAt(op, x[2]) THEN Dac ELSE Com
        [] op = "tan" -> ok(~HasM(x, 1, 2))
        [] op \in UnaryFns -> ok(DefinedOn(op, x))
        [] op = "recip" -> ok(~Zero(x))
        [] op = "div" -> ok(~Zero(xs[2]))
        [] op = "pown" -> ok(n >= 0 \/ ~Zero(x))
        [] op = "pow" -> ok(Sgn(x[1]) > 0 \/ (x[1] = DZero /\ Sgn(xs[2][1]) > 0))
        [] op = "atan2" -> IF Zero(x) /\ Zero(xs[2]) THEN Trv
                           ELSE IF Zero(x) /\ Sgn(xs[2][1]) < 0
                           THEN (IF Sgn(x[1]) < 0 THEN Def ELSE Dac)
                           ELSE Com
        [] OTHER -> Com
RECURSIVE MinDec(_, _)
MinDec(xs, i) == IF i > Len(xs) THEN Com ELSE MinI(xs[i][3], MinDec(xs, i + 1))
Bares(xs) == [i \in 1..Len(xs) |-> Bare(xs[i])]
AnyNaI(xs) == \E i \in 1..Len(xs) : IsNaI(xs[i])

FwdDec(F, op, xs, n) ==
   IF AnyNaI(xs) THEN NaI
   ELSE LET b == Bares(xs)
            r == Fwd(F, op, b, n)
        IN  <<r[1], r[2], MinI(MinI(MinDec(xs, 1), IF AnyEmpty(b) THEN Trv ELSE LocalDec(op, b, n)),
                               DecCap(r))>>

(* ------------------------------------------------------------------------ *)
(* Set operations                                                            *)
(* ------------------------------------------------------------------------ *)
Trivial(r) == <<r[1], r[2], Trv>>
SetOp(F, op, x, y) == Conv(F, IF op = "intersection" THEN Meet(x, y) ELSE Join(x, y))

(* cancellative subtraction: the z with y + z = x *)
CancelMinus(F, x, y) ==
   IF IsEmpty(x) THEN (IF IsEmpty(y) \/ IsCommon(y) THEN Empty ELSE Entire)
   ELSE IF IsEmpty(y) \/ ~IsCommon(x) \/ ~IsCommon(y) THEN Entire
   ELSE IF DCmp(DSub(x[2], x[1]), DSub(y[2], y[1])) < 0 THEN Entire
   ELSE <<RD(F, DSub(x[1], y[1])), RU(F, DSub(x[2], y[2]))>>
NegI(x) == IF IsEmpty(x) THEN x ELSE <<Neg(x[2]), Neg(x[1])>>
CancelPlus(F, x, y) == CancelMinus(F, x, NegI(y))

(* ------------------------------------------------------------------------ *)
(* Reverse operations: real branches <<lo term, hi term>>                    *)
(* ------------------------------------------------------------------------ *)
(* hull in F of the points of the closed real interval [a, b] (terms) in x   *)
ClipTo(F, a, b, x) ==
   IF IsEmpty(x) \/ TermCmp(a, x[2]) > 0 \/ TermCmp(b, x[1]) < 0 THEN Empty
   ELSE <<IF TermCmp(a, x[1]) >= 0 THEN TermD(F, a) ELSE RD(F, x[1]),
          IF TermCmp(b, x[2]) <= 0 THEN TermU(F, b) ELSE RU(F, x[2])>>
NegT(t) == CASE t[1] = "lim" -> L(Neg(t[2]))
             [] t[1] = "quot" -> <<"quot", <<Neg(t[2][1]), t[2][2]>>>>
             [] t[1] = "neg" -> t[2]
             [] OTHER -> <<"neg", t>>

NonNeg == <<DZero, PInf>>
(* x with |x| in the branch [a, b], 0 <= a <= b *)
Mirror(F, a, b, x) == Join(ClipTo(F, a, b, x), ClipTo(F, NegT(b), NegT(a), x))
SqrRev(F, c0, x) == LET c == Meet(c0, NonNeg)
                    IN  IF IsEmpty(c) THEN Empty ELSE Mirror(F, T1("sqrt", c[1]), T1("sqrt", c[2]), x)
AbsRev(F, c0, x) == LET c == Meet(c0, NonNeg)
                    IN  IF IsEmpty(c) THEN Empty ELSE Mirror(F, L(c[1]), L(c[2]), x)
CoshRev(F, c0, x) == LET c == Meet(c0, <<DOne, PInf>>)
                     IN  IF IsEmpty(c) THEN Empty ELSE Mirror(F, T1("acosh", c[1]), T1("acosh", c[2]), x)
(* v^(1/n) for v >= 0, n # 0; limits at 0 and oo *)
RootAt(v, n) == IF v = DZero THEN L(IF n > 0 THEN DZero ELSE PInf)
                ELSE IF v = PInf THEN L(IF n > 0 THEN PInf ELSE DZero)
                ELSE IF n > 0 THEN <<"root", <<v, n>>>> ELSE <<"rootinv", <<v, n>>>>
(* preimages of c (inside [0, oo], not {0} if n < 0) under t^n on t > 0 (t >= 0 if n > 0) *)
PosRoots(c, n) == IF n > 0 THEN <<RootAt(c[1], n), RootAt(c[2], n)>> ELSE <<RootAt(c[2], n), RootAt(c[1], n)>>
PownRev(F, c, x, n) ==
   IF IsEmpty(c) \/ IsEmpty(x) THEN Empty
   ELSE IF n = 0 THEN (IF In(DOne, c) THEN Conv(F, x) ELSE Empty)
   ELSE LET p == IF n > 0 THEN Meet(c, NonNeg) ELSE PosPart(c)
            m == IF n > 0 THEN Meet(NegI(c), NonNeg) ELSE PosPart(NegI(c))
            rp == PosRoots(p, n)
            rm == PosRoots(m, n)
        IN  IF n % 2 = 0
            THEN IF IsEmpty(p) THEN Empty ELSE Mirror(F, rp[1], rp[2], x)
            ELSE Join(IF IsEmpty(p) THEN Empty ELSE ClipTo(F, rp[1], rp[2], x),
                      IF IsEmpty(m) THEN Empty ELSE ClipTo(F, NegT(rm[2]), NegT(rm[1]), x))

(* extremes of a quotient range as terms: candidates compared exactly *)
QTermLe(a, b) ==                        \* both "lim" or "quot"
   IF a[1] = "lim" /\ b[1] = "lim" THEN Le(a[2], b[2])
   ELSE IF a[1] = "lim" THEN TermCmp(b, a[2]) >= 0
   ELSE IF b[1] = "lim" THEN TermCmp(a, b[2]) <= 0
   ELSE \* p/q <= r/s
        LET p == a[2][1] q == a[2][2] r == b[2][1] s == b[2][2]
        IN  Sgn(q) * Sgn(s) * DCmp(DMul(p, s), DMul(r, q)) <= 0
RECURSIVE QMin(_, _)
QMin(s, i) == IF i = Len(s) THEN s[i]
              ELSE LET m == QMin(s, i + 1) IN IF QTermLe(s[i], m) THEN s[i] ELSE m
RECURSIVE QMax(_, _)
QMax(s, i) == IF i = Len(s) THEN s[i]
              ELSE LET m == QMax(s, i + 1) IN IF QTermLe(m, s[i]) THEN s[i] ELSE m

(* {t : b t = c for some b in B, c in C}: up to two real branches *)
MulRevParts(b, c) ==
   IF IsEmpty(b) \/ IsEmpty(c) THEN <<>>
   ELSE IF Zero(b) /\ Zero(c) THEN <<Rg(<<L(NInf)>>, <<L(PInf)>>)>>
   ELSE LET n == NegPart(b) p == PosPart(b)
            rn == QuotSide(c, n, -1) rp == QuotSide(c, p, 1)
        IN  IF IsEmpty(n) /\ IsEmpty(p) THEN <<>>
            ELSE IF IsEmpty(n) THEN <<rp>>
            ELSE IF IsEmpty(p) THEN <<rn>>
            ELSE IF Sgn(c[1]) > 0 THEN <<rn, rp>> ELSE <<rp, rn>>
MulRevPair(F, b, c) ==
   LET s == MulRevParts(b, c)
   IN  <<IF Len(s) >= 1 THEN Hull(F, s[1]) ELSE Empty, IF Len(s) >= 2 THEN Hull(F, s[2]) ELSE Empty>>
MulRevPairDec(F, b, c) ==
   IF IsNaI(b) \/ IsNaI(c) THEN <<NaI, NaI>>
   ELSE LET r == MulRevPair(F, Bare(b), Bare(c))
            d == MinI(MinI(b[3], c[3]),
                      IF Zero(b) \/ IsEmpty(r[1]) THEN Trv ELSE DecCap(r[1]))
        IN  <<<<r[1][1], r[1][2], d>>, Trivial(r[2])>>
MulRev(F, b, c, x) ==
   LET s == MulRevParts(b, c)
       part(i) == ClipTo(F, QMin(s[i][1], 1), QMax(s[i][2], 1), x)
   IN  Join(IF Len(s) >= 1 THEN part(1) ELSE Empty, IF Len(s) >= 2 THEN part(2) ELSE Empty)

(* ------------------------------------------------------------------------ *)
(* Relations: definitions on sets, for closed sets in terms of their bounds  *)
(* ------------------------------------------------------------------------ *)
(* sup X < sup Y in the sense "every point of X is exceeded by one of Y" *)
LtInf(a, b, inf) == Lt(a, b) \/ (a = inf /\ b = inf)
Rel(op, x, y) ==
   LET ex == IsEmpty(x) ey == IsEmpty(y)
   IN CASE op = "equal" -> Bare(x) = Bare(y)
        [] op = "subset" -> ex \/ (~ey /\ Le(y[1], x[1]) /\ Le(x[2], y[2]))
        [] op = "superset" -> ey \/ (~ex /\ Le(x[1], y[1]) /\ Le(y[2], x[2]))
        [] op = "less" -> (ex /\ ey) \/ (~ex /\ ~ey /\ Le(x[1], y[1]) /\ Le(x[2], y[2]))
        [] op = "greater" -> (ex /\ ey) \/ (~ex /\ ~ey /\ Le(y[1], x[1]) /\ Le(y[2], x[2]))
        [] op = "precedes" -> ex \/ ey \/ Le(x[2], y[1])
        [] op = "succeeds" -> ex \/ ey \/ Le(y[2], x[1])
        [] op = "interior" -> ex \/ (~ey /\ LtInf(y[1], x[1], NInf) /\ LtInf(x[2], y[2], PInf))
        [] op = "contains_interior" -> ey \/ (~ex /\ LtInf(x[1], y[1], NInf) /\ LtInf(y[2], x[2], PInf))
        [] op = "strictly_less" -> (ex /\ ey) \/ (~ex /\ ~ey /\ LtInf(x[1], y[1], NInf) /\ LtInf(x[2], y[2], PInf))
        [] op = "strictly_greater" -> (ex /\ ey) \/ (~ex /\ ~ey /\ LtInf(y[1], x[1], NInf) /\ LtInf(y[2], x[2], PInf))
        [] op = "strictly_precedes" -> ex \/ ey \/ Lt(x[2], y[1])
        [] op = "strictly_succeeds" -> ex \/ ey \/ Lt(y[2], x[1])
        [] op = "disjoint" -> IsEmpty(Meet(Bare(x), Bare(y)))
Relations == {"equal", "subset", "superset", "less", "greater", "precedes", "succeeds", "interior",
              "contains_interior", "strictly_less", "strictly_greater", "strictly_precedes",
              "strictly_succeeds", "disjoint"}
Pred1(op, x) ==
   CASE op = "is_empty" -> IsEmpty(x)
     [] op = "is_entire" -> Bare(x) = Entire
     [] op = "is_common_interval" -> IsCommon(x)
     [] op = "is_singleton" -> IsCommon(x) /\ x[1] = x[2]
Predicates == {"is_empty", "is_entire", "is_common_interval", "is_singleton"}

(* The sixteen states, numbered as in the enumeration of the library *)
OverlapDefs(x, y) ==
   LET a == x[1] b == x[2] c == y[1] d == y[2]
       ee == IsEmpty(x) \/ IsEmpty(y)
   IN [both_empty   |-> IsEmpty(x) /\ IsEmpty(y),
       first_empty  |-> IsEmpty(x) /\ ~IsEmpty(y),
       second_empty |-> ~IsEmpty(x) /\ IsEmpty(y),
       before       |-> ~ee /\ Lt(b, c),
       meets        |-> ~ee /\ Lt(a, b) /\ b = c /\ Lt(c, d),
       overlaps     |-> ~ee /\ Lt(a, c) /\ Lt(c, b) /\ Lt(b, d),
       starts       |-> ~ee /\ a = c /\ Lt(b, d),
       contained_by |-> ~ee /\ Lt(c, a) /\ Lt(b, d),
       finishes     |-> ~ee /\ Lt(c, a) /\ b = d,
       equal        |-> ~ee /\ a = c /\ b = d,
       finished_by  |-> ~ee /\ Lt(a, c) /\ b = d,
       contains     |-> ~ee /\ Lt(a, c) /\ Lt(d, b),
       started_by   |-> ~ee /\ a = c /\ Lt(d, b),
       overlapped_by|-> ~ee /\ Lt(c, a) /\ Lt(a, d) /\ Lt(d, b),
       met_by       |-> ~ee /\ Lt(c, d) /\ d = a /\ Lt(a, b),
       after        |-> ~ee /\ Lt(d, a)]
OverlapNames == <<"both_empty", "first_empty", "second_empty", "before", "meets", "overlaps", "starts",
                  "contained_by", "finishes", "equal", "finished_by", "contains", "started_by",
                  "overlapped_by", "met_by", "after">>
ConverseName == [both_empty |-> "both_empty", first_empty |-> "second_empty", second_empty |-> "first_empty",
                 before |-> "after", meets |-> "met_by", overlaps |-> "overlapped_by", starts |-> "started_by",
                 contained_by |-> "contains", finishes |-> "finished_by", equal |-> "equal",
                 finished_by |-> "finishes", contains |-> "contained_by", started_by |-> "starts",
                 overlapped_by |-> "overlaps", met_by |-> "meets", after |-> "before"]
Overlap(x, y) == LET d == OverlapDefs(x, y) IN CHOOSE s \in DOMAIN d : d[s]

(* ------------------------------------------------------------------------ *)
(* Numeric functions                                                         *)
(* ------------------------------------------------------------------------ *)
Inf(F, x) == IF IsEmpty(x) THEN PInf ELSE RD(F, x[1])
Sup(F, x) == IF IsEmpty(x) THEN NInf ELSE RU(F, x[2])
Mid(F, x) ==
   IF IsEmpty(x) THEN NaN
   ELSE IF IsCommon(x) THEN
        LET m == RN(F, DScale(DAdd(x[1], x[2]), -1))
        IN  IF IsFin(m) THEN m ELSE IF m = PInf THEN MaxF(F) ELSE Neg(MaxF(F))
   ELSE IF Bare(x) = Entire THEN DZero
   ELSE IF x[1] = NInf THEN Neg(MaxF(F)) ELSE MaxF(F)
Rad(F, x) ==
   IF IsEmpty(x) THEN NaN
   ELSE IF ~IsCommon(x) THEN PInf
   ELSE LET m == Mid(F, x) IN RU(F, MaxX(DSub(m, x[1]), DSub(x[2], m)))
Wid(F, x) == IF IsEmpty(x) THEN NaN ELSE IF ~IsCommon(x) THEN PInf ELSE RU(F, DSub(x[2], x[1]))
Mag(F, x) == IF IsEmpty(x) THEN NaN ELSE RU(F, MaxX(Abs(x[1]), Abs(x[2])))
Mig(F, x) == IF IsEmpty(x) THEN NaN ELSE IF Zero(x) THEN DZero ELSE RD(F, MinX(Abs(x[1]), Abs(x[2])))
NumFns == {"inf", "sup", "mid", "rad", "wid", "mag", "mig"}
Num(F, op, x) == CASE op = "inf" -> Inf(F, x) [] op = "sup" -> Sup(F, x) [] op = "mid" -> Mid(F, x)
                   [] op = "rad" -> Rad(F, x) [] op = "wid" -> Wid(F, x) [] op = "mag" -> Mag(F, x)
                   [] op = "mig" -> Mig(F, x)
(* what mid and rad promise together *)
MidRadOk(F, x) == IsEmpty(x) \/ LET m == Mid(F, x) r == Rad(F, x)
                                IN  IsFin(m) /\ Le(Sub(m, r), x[1]) /\ Le(x[2], Add(m, r))
=============================================================================
