---------------------------- MODULE PeriodicLaws ----------------------------
(***************************************************************************)
(* The acceptance rule for reverse sine, cosine and tangent (PeriodicOk)   *)
(* against the points of the constraint interval: x is the target, y the    *)
(* constraint, both over all intervals of a tiny format.                    *)
(***************************************************************************)
EXTENDS SetLaws, Ops

Fn(f) == CASE f = "sin_rev" -> "sin" [] f = "cos_rev" -> "cos" [] f = "tan_rev" -> "tan"
Accepted(f) == {r \in Ivs : PeriodicOk(F, f, x, y, r)}
Sols(f) == {p \in Pts(y) : LET v == At1(Fn(f), p, 0)
                           IN  ~IsEmpty(x) /\ TermCmp(v[1], x[1]) >= 0 /\ TermCmp(v[1], x[2]) <= 0}
(* nothing accepted leaves the constraint or loses a solution *)
PeriodicSound == phase = 2 => \A f \in PeriodicRev : \A r \in Accepted(f) : Sub0(r, y) /\ \A p \in Sols(f) : In(p, r)
(* the whole constraint is an answer unless a bound is far from all solutions, and more is never worse *)
PeriodicUp == phase = 2 => \A f \in PeriodicRev :
   LET acc == Accepted(f)
       least == {r \in acc : \A s \in acc : Sub0(r, s)}
   IN  /\ (~IsEmpty(y) /\ ~IsEmpty(Fwd(Fmt("l"), Fn(f), <<y>>, 0)) /\ ~IsEmpty(x)
             /\ (f = "tan_rev" \/ ~IsEmpty(Meet(x, <<MOne, DOne>>)))
             /\ \A i \in 1..2 : NearSol(F, f, IF f = "tan_rev" THEN x ELSE Meet(x, <<MOne, DOne>>), y[i])) => y \in acc
       /\ Cardinality(least) = 1
       (* the least answer is tight: its outermost cells hold a solution *)
       /\ LET r == CHOOSE s \in least : TRUE
              hit(a, b) == ~Rel("disjoint", Fwd(Fmt("l"), Fn(f), <<<<a, b>>>>, 0), x)
          IN  ~IsEmpty(r) => /\ IsFin(r[1]) => hit(r[1], MinX(r[2], Succ(F, r[1])))
                             /\ IsFin(r[2]) => hit(MaxX(r[1], Pred(F, r[2])), r[2])
PerDiag == [x |-> x, y |-> y, acc |-> IF phase = 2 THEN {<<f, Accepted(f), Sols(f)>> : f \in PeriodicRev} ELSE {}]
SmallIvs == {<<a, b>> \in {NInf, Neg(DInt(2)), MOne, DZero, DOne} \X {MOne, DZero, DOne, DInt(2), PInf} : Le(a, b)} \cup {Empty}
=============================================================================
