-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The contract of every public operation: for a call e with exact         *)
(* arguments, the values it may return (Accepts) and the exception flags    *)
(* it raises (Signals).                                                     *)
(*                                                                         *)
(* A call is a record [op, k, F, x, n, ...]: operation, k = 0 bare or 1     *)
(* decorated, F the letter of the result format, x the arguments, n the     *)
(* integer parameter.                                                       *)
(***************************************************************************)
EXTENDS Interval, Reduce, Text, Format, Flags, Naturals, Sequences

ForwardOps == UnaryFns \cup {"recip", "pown", "add", "sub", "mul", "div", "pow", "atan2", "min", "max", "fma"}
SetOps == {"intersection", "convex_hull"}
CancelOps == {"cancel_plus", "cancel_minus"}
RevOps == {"sqr_rev", "abs_rev", "cosh_rev", "pown_rev", "mul_rev"}
PeriodicRev == {"sin_rev", "cos_rev", "tan_rev"}
B2I(b) == IF b THEN 1 ELSE 0

Valid(k, x) == IF k = 0 THEN ValidBare(x) ELSE ValidDec(x)
(* an invalid object is treated like the empty set / not-an-interval *)
Norm(k, x) == IF Valid(k, x) THEN x ELSE IF k = 0 THEN Empty ELSE NaI

(* ------------------------------------------------------------------------ *)
(* Reverse sine, cosine, tangent                                             *)
(* ------------------------------------------------------------------------ *)
(* {t : f(t) in c} is the union over the integers m of the real intervals     *)
(* Piece(f, c, m) = <<left, right>>, which are ordered and share at most ends *)
Arc(m, s, fn, v) ==                     \* acos(-1) = pi is moved into m
   IF fn = "acos" /\ v = MOne
   THEN <<"arc", <<DMk(IF s > 0 THEN BAdd(m, BOne) ELSE BSub(m, BOne), 0), s, fn, DOne>>>>
   ELSE <<"arc", <<DMk(m, 0), s, fn, v>>>>
Piece(f, c, m) ==
   CASE f = "sin_rev" -> IF BOdd(m) THEN <<Arc(m, -1, "asin", c[2]), Arc(m, -1, "asin", c[1])>>
                         ELSE <<Arc(m, 1, "asin", c[1]), Arc(m, 1, "asin", c[2])>>
     [] f = "cos_rev" -> IF BOdd(m) THEN <<Arc(m, 1, "acos", Neg(c[1])), Arc(m, 1, "acos", Neg(c[2]))>>
                         ELSE <<Arc(m, 1, "acos", c[2]), Arc(m, 1, "acos", c[1])>>
     [] f = "tan_rev" -> <<Arc(m, 1, "atan", c[1]), Arc(m, 1, "atan", c[2])>>
(* index of a piece not right of the one v lies in, at most one too small *)
Below(v) == BSub(BShr(Quad(v), 1), BOne)
FirstPiece(f, c, v) ==                  \* least m whose piece ends at or right of v
   LET m == Below(v)
   IN  IF TermCmp(Piece(f, c, m)[2], v) >= 0 THEN m
       ELSE IF TermCmp(Piece(f, c, BAdd(m, BOne))[2], v) >= 0 THEN BAdd(m, BOne)
       ELSE IF TermCmp(Piece(f, c, BAdd(m, BOfInt(2)))[2], v) >= 0 THEN BAdd(m, BOfInt(2))
       ELSE BAdd(m, BOfInt(3))
NegC(f, c) == IF f = "cos_rev" THEN c ELSE NegI(c)
(* Least solution in x, as the bound below which a result may not start: the  *)
(* largest number of F not above it; PInf if there is no solution.            *)
LeastSol(F, f, c, x) ==
   IF x[1] = NInf THEN NInf
   ELSE LET t == Piece(f, c, FirstPiece(f, c, x[1]))[1]
        IN  IF TermCmp(t, x[1]) <= 0 THEN RD(F, x[1])
            ELSE IF TermCmp(t, x[2]) > 0 THEN PInf ELSE TermD(F, t)
(* There is a solution within eight units in the last place of v.  Bounds that are   *)
(* too large for the format to tell the periods apart are left alone.                 *)
NearSol(F, f, c, v) ==
   IF ~IsFin(v) \/ Top(v) > F.p - 3 THEN TRUE
   ELSE LET u == DScale(DPow2(IF v = DZero \/ Top(v) - F.p < F.emin THEN F.emin ELSE Top(v) - F.p), 3)
        IN  TermCmp(Piece(f, c, FirstPiece(f, c, DSub(v, u)))[1], DAdd(v, u)) <= 0
PeriodicOk(F, f, c0, x, r) ==
   LET c == IF f = "tan_rev" THEN c0 ELSE Meet(c0, <<MOne, DOne>>)
   IN  IF IsEmpty(c) \/ IsEmpty(x) THEN r = Empty
       ELSE /\ IsEmpty(r) \/ (/\ ValidBare(r) /\ Le(RD(F, x[1]), r[1]) /\ Le(r[2], RU(F, x[2])))
            /\ \* the solutions are symmetric: t solves for c iff -t for the mirrored c
               LET a == IF x[1] = NInf /\ x[2] # PInf THEN NInf ELSE LeastSol(F, f, c, x)
                   b == IF x[2] = PInf /\ x[1] # NInf THEN NInf ELSE LeastSol(F, f, NegC(f, c), NegI(x))
               IN  /\ a = PInf \/ (~IsEmpty(r) /\ Le(r[1], a) /\ Le(Neg(b), r[2]))
                   /\ IsEmpty(r) \/ (/\ r[1] = a \/ NearSol(F, f, c, r[1])
                                     /\ r[2] = Neg(b) \/ NearSol(F, f, c, r[2]))

(* ------------------------------------------------------------------------ *)
(* Construction                                                              *)
(* ------------------------------------------------------------------------ *)
GoodBounds(l, u) == ~IsNaN(l) /\ ~IsNaN(u) /\ Le(l, u) /\ l # PInf /\ u # NInf
Round(F, l, u) == <<RD(F, l), RU(F, u)>>
CapDec(r, d) == <<r[1], r[2], MinI(d, DecCap(r))>>
IsDec(d) == d \in {0, 4, 8, 12, 16}
Construct(e) ==
   LET F == Fmt(e.F) a == e.x
   IN CASE e.op = "nums" ->            \* two numbers
             IF ~GoodBounds(a[1], a[2]) THEN (IF e.k = 0 THEN Empty ELSE NaI)
             ELSE LET r == Round(F, a[1], a[2]) IN IF e.k = 0 THEN r ELSE CapDec(r, Com)
        [] e.op = "nums_dec" ->        \* two numbers and a decoration
             IF ~IsDec(e.n) \/ e.n = Ill \/ ~GoodBounds(a[1], a[2])
                \/ (e.n = Com /\ (a[1] = NInf \/ a[2] = PInf)) THEN NaI
             ELSE CapDec(Round(F, a[1], a[2]), e.n)
        [] e.op = "new_dec" -> LET x == Norm(0, a[1]) r == Conv(F, x)
                               IN  IF ~ValidBare(a[1]) THEN NaI ELSE CapDec(r, Com)
        [] e.op = "set_dec" -> IF ~IsDec(e.n) \/ ~ValidBare(a[1]) \/ e.n = Ill THEN NaI
                               ELSE CapDec(Conv(F, a[1]), e.n)
        [] e.op = "interval_part" -> IF ~ValidDec(a[1]) THEN Empty ELSE Conv(F, Bare(a[1]))
        [] e.op = "convert" ->         \* copy or change of format
             IF e.k = 0 THEN Conv(F, Norm(0, a[1]))
             ELSE LET x == Norm(1, a[1])
                  IN  IF IsNaI(x) THEN NaI ELSE CapDec(Conv(F, Bare(x)), x[3])
        [] e.op = "empty" -> IF e.k = 0 THEN Empty ELSE Trivial(Empty)
        [] e.op = "entire" -> IF e.k = 0 THEN Entire ELSE <<NInf, PInf, Dac>>
        [] e.op = "nai" -> NaI
        [] e.op = "decoration" -> IF ValidDec(a[1]) THEN a[1][3] ELSE Ill
ConstructOps == {"nums", "nums_dec", "new_dec", "set_dec", "interval_part", "convert",
                 "empty", "entire", "nai", "decoration"}

(* ------------------------------------------------------------------------ *)
OverlapCode == [i \in 1..16 |-> 2^(i-1)]
OverlapOf(x, y) == LET s == Overlap(x, y) IN 2^((CHOOSE i \in 1..16 : OverlapNames[i] = s) - 1)

(* value of the operations whose result is determined *)
Value(e) ==
   LET F  == Fmt(e.F)
       op == e.op
       xs == [i \in 1..Len(e.x) |-> Norm(e.k, e.x[i])]
       bs == IF e.k = 0 THEN xs ELSE Bares(xs)
       nai == e.k = 1 /\ AnyNaI(xs)
       bad == \E i \in 1..Len(e.x) : ~Valid(e.k, e.x[i])
       triv(r) == IF e.k = 0 THEN r ELSE IF nai THEN NaI ELSE Trivial(r)
       rx(i) == IF Len(bs) >= i THEN bs[i] ELSE Entire
   IN CASE op \in ForwardOps -> IF e.k = 0 THEN Fwd(F, op, xs, e.n) ELSE FwdDec(F, op, xs, e.n)
        [] op \in SetOps -> IF bad /\ e.k = 0 THEN Empty ELSE triv(SetOp(F, op, bs[1], bs[2]))
        [] op = "cancel_minus" -> IF bad /\ e.k = 0 THEN Empty ELSE triv(CancelMinus(F, bs[1], bs[2]))
        [] op = "cancel_plus" -> IF bad /\ e.k = 0 THEN Empty ELSE triv(CancelPlus(F, bs[1], bs[2]))
        [] op = "sqr_rev" -> triv(SqrRev(F, bs[1], rx(2)))
        [] op = "abs_rev" -> triv(AbsRev(F, bs[1], rx(2)))
        [] op = "cosh_rev" -> triv(CoshRev(F, bs[1], rx(2)))
        [] op = "pown_rev" -> triv(PownRev(F, bs[1], rx(2), e.n))
        [] op = "mul_rev" -> triv(MulRev(F, bs[1], bs[2], rx(3)))
        [] op = "mul_rev_to_pair" -> IF e.k = 0 THEN MulRevPair(F, xs[1], xs[2])
                                     ELSE MulRevPairDec(F, xs[1], xs[2])
        [] op \in Relations -> B2I(~bad /\ ~nai /\ Rel(op, bs[1], bs[2]))
        [] op = "not_equal" -> B2I(~(~bad /\ ~nai /\ Rel("equal", bs[1], bs[2])))
        [] op \in Predicates -> B2I(~bad /\ ~nai /\ Pred1(op, bs[1]))
        [] op = "is_nai" -> B2I(~bad /\ nai)
        [] op = "is_valid" -> B2I(~bad)
        [] op = "overlap" -> IF bad \/ nai THEN 0 ELSE OverlapOf(bs[1], bs[2])
        [] op \in NumFns -> IF bad \/ nai THEN NaN ELSE Num(F, op, bs[1])
        [] op = "mid_rad" -> IF bad \/ nai THEN <<NaN, NaN>> ELSE <<Mid(F, bs[1]), Rad(F, bs[1])>>

Member(e) ==                            \* x = <<number, interval>>
   LET m == e.x[1]  x == Norm(e.k, e.x[2])
   IN  B2I(Valid(e.k, e.x[2]) /\ IsFin(m) /\ In(m, x))

Parsed(e) == LET r == ReadAll(Fmt(e.F), e.txt)
             IN  IF ~r.ok THEN (IF e.k = 0 THEN Empty ELSE NaI) ELSE IF e.k = 0 THEN Bare(r.x) ELSE r.x

Accepts(e, r) ==
   CASE e.op = "text" -> r = Parsed(e)
     [] e.op = "print" -> DenotesOk(Fmt(e.F), e.st, e.k, e.x[1], e.txt, r)
     [] e.op = "longtext" -> r = 1          \* the call returned
     [] e.op = "session" -> SessionOk(e.txt, e.n = 1, 1, e.x, r, 1)
     [] e.op \in PeriodicRev ->
          LET xs == [i \in 1..Len(e.x) |-> Norm(e.k, e.x[i])]
              bs == IF e.k = 0 THEN xs ELSE Bares(xs)
              x  == IF Len(bs) >= 2 THEN bs[2] ELSE Entire
          IN  IF e.k = 1 /\ AnyNaI(xs) THEN r = NaI
              ELSE (e.k = 1 => r[3] = Trv) /\ PeriodicOk(Fmt(e.F), e.op, bs[1], x, Bare(r))
     [] e.op = "cancel_plus" /\ e.k = 0 /\ (\E i \in 1..2 : ~Valid(0, e.x[i])) ->
          \* no operation is asked for: nothing, or what is left of the operands
          r \in {Empty, CancelPlus(Fmt(e.F), Norm(0, e.x[1]), Norm(0, e.x[2]))}
     [] e.op \in ConstructOps -> r = Construct(e)
     [] e.op = "is_member" -> r = Member(e)
     [] e.op \in ReduceOps -> r = Reduced(Fmt(e.F), e.op, e.n, e.x)
     [] OTHER -> r = Value(e)
Determined(e) == e.op \notin PeriodicRev \cup {"session", "longtext", "print"}
Expected(e) == IF e.op = "text" THEN Parsed(e)
               ELSE IF e.op \in ConstructOps THEN Construct(e)
               ELSE IF e.op = "is_member" THEN Member(e)
               ELSE IF e.op \in ReduceOps THEN Reduced(Fmt(e.F), e.op, e.n, e.x)
               ELSE IF Determined(e) THEN Value(e) ELSE "see Accepts"

(* ------------------------------------------------------------------------ *)
(* Exception flags raised by a call                                          *)
(* ------------------------------------------------------------------------ *)
Signals(e) ==
   LET inv(b) == IF b THEN FInv ELSE 0
   IN CASE e.op = "text" -> LET t == ReadAll(Fmt(e.F), e.txt)
                            IN  IF ~t.ok \* a literal of not-an-interval, followed by other text
                                THEN FUndef + (IF e.k = 0 /\ t.x = NaI /\ t.lit THEN FPart ELSE 0)
                                ELSE IF e.k = 0 /\ t.x = NaI THEN FPart ELSE 0
        [] e.op = "session" -> IF SessionNaI(e.txt, 1, e.x, 1) THEN FPart ELSE 0
        [] e.op = "nums" -> IF GoodBounds(e.x[1], e.x[2]) THEN 0 ELSE FUndef
        [] e.op = "nums_dec" -> IF ~IsDec(e.n) THEN FInv
                                ELSE IF Construct(e) = NaI THEN FUndef ELSE 0
        [] e.op = "new_dec" -> inv(~ValidBare(e.x[1]))
        [] e.op = "set_dec" -> inv(~IsDec(e.n) \/ ~ValidBare(e.x[1]))
        [] e.op = "interval_part" -> IF ~ValidDec(e.x[1]) THEN FInv ELSE IF IsNaI(e.x[1]) THEN FPart ELSE 0
        [] e.op = "decoration" -> inv(~ValidDec(e.x[1]))
        [] e.op \in {"empty", "entire", "nai", "longtext", "print"} \cup ReduceOps -> 0
        [] e.op = "is_member" -> inv(~Valid(e.k, e.x[2]))
        [] OTHER -> inv(\E i \in 1..Len(e.x) : ~Valid(e.k, e.x[i]))
=============================================================================
