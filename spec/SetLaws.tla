------------------------------- MODULE SetLaws -------------------------------
(***************************************************************************)
(* Relations, set operations, numeric functions, cancellation, reverse      *)
(* operations and conversion against the points of the operands, for all    *)
(* pairs (and some triples) of intervals of a tiny format.                  *)
(***************************************************************************)
EXTENDS Laws

(* Two intervals with bounds in the format are determined by the numbers and   *)
(* gaps (midpoints, and one point beyond the largest number) they contain.     *)
Cell == Nums \cup Mids \cup {Huge, Neg(Huge)}
C(a) == {p \in Cell : In(p, a)}
Top0 == Huge
Bot0 == Neg(Huge)
Under(p, q) == Lt(p, q) \/ (p = q /\ p \in {Top0, Bot0})      \* p < q for some choice in an unbounded gap
Gap == DScale(DPow2(F.emin), -1)                              \* less than half of any distance of numbers
(* is p an interior point of a? *)
InnerPt(p, a) == p \in {Top0, Bot0} \/ (In(DAdd(p, DScale(Gap, -1)), a) /\ In(DSub(p, DScale(Gap, -1)), a))

Meaning(op) ==
   LET X == C(x) Y == C(y)
       le(P, Q)  == (\A p \in P : \E q \in Q : Le(p, q)) /\ (\A q \in Q : \E p \in P : Le(p, q))
       lt(P, Q)  == (\A p \in P : \E q \in Q : Under(p, q)) /\ (\A q \in Q : \E p \in P : Under(p, q))
   IN CASE op = "equal" -> X = Y
        [] op = "subset" -> X \subseteq Y
        [] op = "superset" -> Y \subseteq X
        [] op = "less" -> le(X, Y)
        [] op = "greater" -> le(Y, X)
        [] op = "precedes" -> \A p \in X, q \in Y : Le(p, q)
        [] op = "succeeds" -> \A p \in X, q \in Y : Le(q, p)
        [] op = "interior" -> \A p \in X : p \in Y /\ InnerPt(p, y)
        [] op = "contains_interior" -> \A p \in Y : p \in X /\ InnerPt(p, x)
        [] op = "strictly_less" -> lt(X, Y)
        [] op = "strictly_greater" -> lt(Y, X)
        [] op = "strictly_precedes" -> \A p \in X, q \in Y : Lt(p, q)
        [] op = "strictly_succeeds" -> \A p \in X, q \in Y : Lt(q, p)
        [] op = "disjoint" -> X \cap Y = {}
RelMeaning == phase = 2 => \A op \in Relations : Rel(op, x, y) <=> Meaning(op)
PredMeaning == phase = 1 => /\ Pred1("is_empty", x) <=> C(x) = {}
                            /\ Pred1("is_entire", x) <=> C(x) = Cell
                            /\ Pred1("is_singleton", x) <=> Cardinality(C(x)) = 1 /\ C(x) \cap {Top0, Bot0} = {}
                            /\ Pred1("is_common_interval", x) <=> C(x) # {} /\ C(x) \cap {Top0, Bot0} = {}

(* exactly one state; the converse for swapped operands *)
OverlapUnique == phase = 2 => Cardinality({s \in DOMAIN OverlapDefs(x, y) : OverlapDefs(x, y)[s]}) = 1
OverlapConverse == phase = 2 => Overlap(y, x) = ConverseName[Overlap(x, y)]
OverlapRel == phase = 2 =>
   LET s == Overlap(x, y)
   IN  /\ s = "equal" => Rel("equal", x, y)
       /\ s \in {"starts", "contained_by", "finishes", "equal"} <=> Rel("subset", x, y) /\ ~IsEmpty(x)
       /\ s \in {"before", "after", "both_empty", "first_empty", "second_empty"} <=> Rel("disjoint", x, y)
       /\ s = "before" => Rel("strictly_precedes", x, y)

(* set operations *)
SetMeaning == phase = 2 => /\ C(Meet(x, y)) = C(x) \cap C(y)
                           /\ C(x) \cup C(y) \subseteq C(Join(x, y))
                           /\ Join(x, y) = Empty \/ \A p \in C(Join(x, y)) :
                                 \E a \in C(x) \cup C(y), b \in C(x) \cup C(y) : Le(a, p) /\ Le(p, b)
                           /\ Sub0(x, SetOp(F, "convex_hull", x, y)) /\ Sub0(y, SetOp(F, "convex_hull", x, y))
                           /\ SetOp(F, "convex_hull", x, y) = Join(y, x) /\ SetOp(F, "intersection", x, y) = Meet(y, x)
                           /\ LET z == SetOp(FineF, "convex_hull", x, y) IN SetOp(F, "convex_hull", x, y) = Conv(F, z)
                           /\ Meet(x, Join(x, y)) = x /\ Join(x, Meet(x, y)) = x
ConvMeaning == \* smallest interval of a coarser format around an interval
   phase = 1 /\ ~IsEmpty(x) =>
      LET K == Fmt("w") z == Conv(K, x)
      IN  /\ Sub0(x, z)
          /\ IsFin(z[1]) => Lt(x[1], Succ(K, z[1]))
          /\ IsFin(z[2]) => Lt(Pred(K, z[2]), x[2])
          /\ (IsFloat(K, x[1]) => z[1] = x[1]) /\ (IsFloat(K, x[2]) => z[2] = x[2])

(* numeric functions *)
NumMeaning == phase = 1 =>
   /\ MidRadOk(F, x)
   /\ ~IsEmpty(x) =>
      LET m == Mid(F, x) r == Rad(F, x)
      IN  /\ In(m, x) /\ IsFloat(F, m)
          /\ \A p \in Pts(x) : Le(Abs(p), Mag(F, x)) /\ Le(Mig(F, x), Abs(p))
          /\ \E p \in Pts(x) : RD(F, Abs(p)) = Mig(F, x)
          /\ IsCommon(x) => /\ \E p \in Pts(x) : Abs(p) = Mag(F, x)
                            /\ \E p \in C(x), q \in C(x) : RU(F, DSub(q, p)) = Wid(F, x)
                            /\ \A p \in C(x), q \in C(x) : Le(DSub(q, p), Wid(F, x))
                            /\ \A v \in Nums : Le(Abs(DSub(DScale(m, 1), DAdd(x[1], x[2]))), Abs(DSub(DScale(v, 1), DAdd(x[1], x[2]))))
                            /\ Le(r, Wid(F, x))
      /\ Inf(F, x) = x[1] /\ Sup(F, x) = x[2]
   /\ IsEmpty(x) => \A op \in NumFns : Num(F, op, x) = (CASE op = "inf" -> PInf [] op = "sup" -> NInf [] OTHER -> NaN)

(* cancellation: z + y covers x and, computed exactly, equals it *)
Width(a) == DSub(a[2], a[1])
CancelMeaning == phase = 2 =>
   LET z == CancelMinus(F, x, y) fine == CancelMinus(FineF, x, y)
   IN  /\ ~IsEmpty(y) /\ ~IsEmpty(x) => Sub0(x, Fwd(F, "add", <<z, y>>, 0))
       /\ (IsCommon(x) /\ IsCommon(y) /\ Le(Width(y), Width(x))) =>
              /\ Fwd(FineF, "add", <<fine, y>>, 0) = x
              /\ z = Conv(F, fine)
       /\ z # Entire /\ ~IsEmpty(z) => IsCommon(x) /\ IsCommon(y) /\ Le(Width(y), Width(x))
       /\ CancelPlus(F, x, y) = CancelMinus(F, x, NegI(y))
       /\ (~Bounded(x) \/ ~Bounded(y)) => z = Entire                        \* by convention of the standard
       /\ (IsEmpty(x) /\ Bounded(y)) => z = Empty
       /\ (IsEmpty(y) /\ ~IsEmpty(x)) => z = Entire

(* ---- reverse operations ----------------------------------------------------- *)
(* solutions among the points of the grid; at most one of the two bounds of the  *)
(* result can be a mere rounding: inside the cell next to it there is a solution  *)
SolPts(op, n) == {p \in Pts(y) : LET v == At1(op, p, n)
                                 IN  v # <<>> /\ ~IsEmpty(x) /\ TermCmp(v[1], x[1]) >= 0 /\ TermCmp(v[1], x[2]) <= 0}
(* does op map a point of the cell [a, b] (no zero inside) into x?  op is monotone there *)
CellHit(op, a, b, n) ==
   LET r == Fwd(Fmt("l"), op, <<<<a, b>>>>, n) IN Rel("disjoint", r, x) = FALSE
(* with a negative exponent 0 is no solution but can be the limit of solutions on  *)
(* either side: the closed hull keeps it                                          *)
Limit0(v, op, n) == op = "pown" /\ n < 0 /\ Zero(<<v, v>>) /\ (CellHit(op, DZero, Succ(F, DZero), n) \/ CellHit(op, Pred(F, DZero), DZero, n))
RevOf(op, n) == CASE op = "sqr" -> SqrRev(F, x, y) [] op = "abs" -> AbsRev(F, x, y)
                  [] op = "cosh" -> CoshRev(F, x, y) [] op = "pown" -> PownRev(F, x, y, n)
RevMeaning == phase = 2 =>
   \A op \in Fns \cap {"sqr", "abs", "cosh", "pown"} : \A n \in Par(op) :
      LET r == RevOf(op, n) s == SolPts(op, n)
      IN  /\ Sub0(r, y)
          /\ \A p \in s : In(p, r)
          /\ ~IsEmpty(r) =>
                /\ IsFin(r[1]) => CellHit(op, r[1], MinX(r[2], Succ(F, r[1])), n) \/ Limit0(r[1], op, n)
                /\ IsFin(r[2]) => CellHit(op, MaxX(r[1], Pred(F, r[2])), r[2], n) \/ Limit0(r[2], op, n)
                /\ r[1] = NInf => r[2] = PInf \/ CellHit(op, NInf, MinX(r[2], Neg(MaxF(F))), n)
                /\ r[2] = PInf => r[1] = NInf \/ CellHit(op, MaxX(r[1], MaxF(F)), PInf, n)
(* two-output division: every point t with b t in c lies in a part, parts are ordered and disjoint up to 0 *)
PairMeaning == phase = 2 =>
   LET z == MulRevPair(F, x, y)
       sol(t) == \E b \in Few(x) : In(DMul(b, t), y)
   IN  /\ \A t \in Nums \cup Extra : sol(t) => In(t, z[1]) \/ In(t, z[2])
       /\ ~IsEmpty(z[2]) => ~IsEmpty(z[1]) /\ Le(z[1][2], z[2][1]) /\ Sgn(x[1]) < 0 /\ Sgn(x[2]) > 0 /\ ~Zero(y)
       /\ (IsEmpty(x) \/ IsEmpty(y)) => IsEmpty(z[1])
       /\ \A i \in 1..2 : ~IsEmpty(z[i]) /\ z[i] # Entire =>
             z[i] = Fwd(F, "div", <<y, IF IsEmpty(z[2]) THEN x ELSE IF (i = 1) = (Sgn(y[1]) > 0) THEN NegPart(x) ELSE PosPart(x)>>, 0)
MulRevMeaning == phase = 2 =>
   \A z \in {Entire, <<DZero, PInf>>, <<NInf, DZero>>, <<MOne, DOne>>, <<DOne, MaxF(F)>>, <<Neg(MaxF(F)), DZero>>} :
      LET r == MulRev(F, x, y, z)
      IN  /\ Sub0(r, z)
          /\ \A t \in {u \in Nums \cup Extra : In(u, z)} : (\E b \in Few(x) : In(DMul(b, t), y)) => In(t, r)
          /\ Sub0(r, Join(MulRevPair(F, x, y)[1], MulRevPair(F, x, y)[2]))
RevDiag == [x |-> x, y |-> y, revs |-> IF phase = 2 THEN {<<op, n, RevOf(op, n), SolPts(op, n)>> : op \in Fns \cap {"sqr", "abs", "cosh", "pown"}, n \in Exps} ELSE {}]
=============================================================================
