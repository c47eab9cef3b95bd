-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The contract of the interval operations (module Interval) against the   *)
(* meaning of sets of reals, on exhaustively enumerated tiny formats.      *)
(*                                                                         *)
(* The definitions of Interval compute with bounds (candidates, limits,    *)
(* clipping).  The laws below never do: they speak about the points of the *)
(* operands.  Every pair of intervals of the format G is a state; a law    *)
(* that fails is a counterexample <<x, y>>.                                *)
(***************************************************************************)
EXTENDS Interval, TLC, FiniteSets

CONSTANTS G,          \* name of the tiny format: "u" or "t"
          Fns         \* operations under consideration

Exps == {0, 1, 2, 3, 4, -1, -2, -3, -5}      \* integer parameters
F == Fmt(G)
FineF == Fmt("v")      \* every number of "u" and "t" below 2^6 is a number of it

(* numbers of a format *)
RECURSIVE UpFrom(_, _)
UpFrom(X, v) == {v} \cup (IF v = MaxF(X) THEN {} ELSE UpFrom(X, Succ(X, v)))
NonNegs == UpFrom(F, DZero)
Nums == NonNegs \cup {Neg(v) : v \in NonNegs}
Ivs == {<<a, b>> \in (Nums \cup {NInf}) \X (Nums \cup {PInf}) : Le(a, b)} \cup {Empty}
Args == Ivs                    \* operands that are enumerated; a configuration may take fewer

(* points between and beyond the numbers of the format: 0 < Dust < all < Huge *)
Huge == DPow2(24)
Dust == DPow2(-24)
Mids == {DScale(DAdd(v, Succ(F, v)), -1) : v \in Nums \ {MaxF(F)}}
Extra == {Huge, Neg(Huge), Dust, Neg(Dust)}
(* points next to the ends of domains and to the poles of tan *)
NearOne == {DAdd(s, d) : s \in {DOne, MOne}, d \in {DPow2(-60), Neg(DPow2(-60))}}
NearPole == {DMul(DInt(k), c) : k \in {1, 3, 5, 7, 9, -1, -3, -5, -7, -9}, c \in {DScale(PiE(40)[1], -1), DScale(PiE(40)[2], -1)}}
FarInts == {DInt(k) : k \in (7..20) \cup {-j : j \in 7..20}}            \* a period beyond the numbers of "u" and "t"
Grid == Nums \cup Mids \cup Extra \cup NearOne \cup NearPole \cup FarInts
Pts(x) == {p \in Grid : In(p, x)}
(* few points for operations of two arguments: bounds, signs, extremes *)
Few(x) == {p \in {x[1], x[2]} : IsFin(p)} \cup {p \in Extra \cup {DZero, DOne, MOne} : In(p, x)}
          \cup (IF IsCommon(x) THEN {DScale(DAdd(x[1], x[2]), -1)} ELSE {})

(* value of an operation at a point of its domain, <<>> outside *)
At1(op, v, n) ==
   IF op \in UnaryFns
   THEN IF op \in {"pos", "neg", "sqr", "abs"}
        THEN <<L(CASE op = "pos" -> v [] op = "neg" -> Neg(v) [] op = "sqr" -> DMul(v, v) [] op = "abs" -> Abs(v))>>
        ELSE IF op \in Steps THEN <<L(StepAt(op, v))>>
        ELSE IF ~Le(DomOf(op)[1], v) \/ ~Le(v, DomOf(op)[2]) \/ (OpenDom(op) /\ v \in {DomOf(op)[1], DomOf(op)[2]})
        THEN <<>> ELSE <<<<op, <<v>>>>>>
   ELSE IF op = "recip" THEN (IF v = DZero THEN <<>> ELSE <<<<"quot", <<DOne, v>>>>>>)
   ELSE \* pown
        IF n = 0 THEN <<L(DOne)>> ELSE IF v = DZero THEN (IF n > 0 THEN <<L(DZero)>> ELSE <<>>)
        ELSE <<<<"pown", <<v, n>>>>>>
At2(op, a, b) ==
   CASE op = "add" -> <<L(DAdd(a, b))>>
     [] op = "sub" -> <<L(DSub(a, b))>>
     [] op = "mul" -> <<L(DMul(a, b))>>
     [] op = "min" -> <<L(MinX(a, b))>>
     [] op = "max" -> <<L(MaxX(a, b))>>
     [] op = "div" -> IF b = DZero THEN <<>> ELSE <<<<"quot", <<a, b>>>>>>
     [] op = "pow" -> IF Sgn(a) > 0 THEN <<<<"pow", <<a, b>>>>>> ELSE IF a = DZero /\ Sgn(b) > 0 THEN <<L(DZero)>> ELSE <<>>
     [] op = "atan2" -> IF a = DZero /\ b = DZero THEN <<>>
                        ELSE IF a = DZero /\ Sgn(b) > 0 THEN <<L(DZero)>> ELSE <<<<"atan2", <<a, b>>>>>>

Un  == Fns \cap (UnaryFns \cup {"recip", "pown"})
Bin == Fns \ (UnaryFns \cup {"recip", "pown"})
Par(op) == IF op = "pown" THEN Exps ELSE {0}

VARIABLES x, y, phase
vars == <<x, y, phase>>
Init == x = Empty /\ y = Empty /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ x' \in Args /\ UNCHANGED y
        \/ phase = 1 /\ Bin # {} /\ phase' = 2 /\ y' \in Args /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

(* ---- tightest enclosure ---------------------------------------------------- *)
Inside(X, t, r) == Le(r[1], TermD(X, t)) /\ Le(TermU(X, t), r[2])
(* r encloses the values v (a set of terms) and each bound is the rounding of a value *)
Tightest(X, r, v) ==
   IF v = {} THEN IsEmpty(r)
   ELSE /\ ~IsEmpty(r)
        /\ \A t \in v : Inside(X, t, r)
        /\ \E t \in v : TermD(X, t) = r[1]
        /\ \E t \in v : TermU(X, t) = r[2]
Vals1(op, n) == {At1(op, p, n)[1] : p \in {q \in Pts(x) : At1(op, q, n) # <<>>}}
Vals2(op) == {At2(op, p[1], p[2])[1] : p \in {q \in Few(x) \X Few(y) : At2(op, q[1], q[2]) # <<>>}}

UnaryTight == phase = 1 => \A op \in Un : \A n \in Par(op) : Tightest(F, Fwd(F, op, <<x>>, n), Vals1(op, n))
BinaryTight == phase = 2 => \A op \in Bin : Tightest(F, Fwd(F, op, <<x, y>>, 0), IF IsEmpty(x) \/ IsEmpty(y) THEN {} ELSE Vals2(op))

(* the values of the step functions, from the integers around a point *)
Round(p) == {i \in {DFloor(p), DAdd(DFloor(p), DOne)} : Le(Abs(DScale(DSub(i, p), 1)), DOne)}     \* nearest integers
StepMeaning == phase = 1 => \A op \in Un \cap Steps : \A p \in Pts(x) :
   LET v == StepAt(op, p)
   IN  CASE op = "sign"  -> v = DInt(Sgn(p))
         [] op = "floor" -> IsInteger(v) /\ Le(v, p) /\ Lt(DSub(p, v), DOne)
         [] op = "ceil"  -> IsInteger(v) /\ Le(p, v) /\ Lt(DSub(v, p), DOne)
         [] op = "trunc" -> IsInteger(v) /\ Le(Abs(v), Abs(p)) /\ Lt(DSub(Abs(p), Abs(v)), DOne) /\ Sgn(v) * Sgn(p) >= 0
         [] op = "rte"   -> v \in Round(p) /\ (Cardinality(Round(p)) = 2 => IsInteger(DScale(v, -1)))
         [] op = "rta"   -> v \in Round(p) /\ \A w \in Round(p) : Le(Abs(w), Abs(v))

(* computing in a finer format first and rounding the result changes nothing *)
DoubleRounding ==
   /\ phase = 1 => \A op \in Un : \A n \in Par(op) : Conv(F, Fwd(FineF, op, <<x>>, n)) = Fwd(F, op, <<x>>, n)
   /\ phase = 2 => \A op \in Bin : Conv(F, Fwd(FineF, op, <<x, y>>, 0)) = Fwd(F, op, <<x, y>>, 0)

(* a larger argument has a larger range *)
Sub0(a, b) == IsEmpty(a) \/ (~IsEmpty(b) /\ Le(b[1], a[1]) /\ Le(a[2], b[2]))
Grow(a) == IF IsEmpty(a) THEN {<<DZero, DZero>>}
           ELSE {<<Pred(F, a[1]), a[2]>>, <<a[1], Succ(F, a[2])>>}
Isotonic ==
   /\ phase = 1 => \A op \in Un : \A n \in Par(op) : \A z \in Grow(x) : Sub0(Fwd(F, op, <<x>>, n), Fwd(F, op, <<z>>, n))
   /\ phase = 2 => \A op \in Bin : \A z \in Grow(x) : Sub0(Fwd(F, op, <<x, y>>, 0), Fwd(F, op, <<z, y>>, 0))

(* ---- decorations ------------------------------------------------------------ *)
(* defined at every sampled point iff the decoration is at least def; the jump of   *)
(* a step function inside the box excludes com                                     *)
Poles == {"tan"}                                 \* undefined at points that are no dyadics
DecDefined ==
   /\ phase = 1 /\ ~IsEmpty(x) =>
        \A op \in Un \ Poles : \A n \in Par(op) :
           (LocalDec(op, <<x>>, n) >= Def) <=> (\A p \in Pts(x) : At1(op, p, n) # <<>>)
   /\ phase = 2 /\ ~IsEmpty(x) /\ ~IsEmpty(y) =>
        \A op \in Bin : (LocalDec(op, <<x, y>>, 0) >= Def) <=> (\A a \in Few(x), b \in Few(y) : At2(op, a, b) # <<>>)
DecContinuous ==
   phase = 1 /\ ~IsEmpty(x) =>
      \A op \in Un \cap Steps :
         LET d == LocalDec(op, <<x>>, 0)
             vals == {StepAt(op, p) : p \in Pts(x)}
             near == Pts(x) \cup {DAdd(p, q) : p \in Pts(x), q \in {Dust, Neg(Dust)}}
         IN  /\ d >= Dac <=> Cardinality(vals) = 1                            \* continuous on the box
             /\ d = Com <=> Cardinality({StepAt(op, p) : p \in near}) = 1      \* and at every point of it
DecBounded ==
   LET ok(r, d) == /\ ValidDec(r) /\ r[3] <= d
                   /\ r[3] = Com => IsCommon(r)
   IN  /\ phase = 1 => \A op \in Un : \A n \in Par(op) : \A d \in {Trv, Def, Dac, Com} :
             ValidDec(<<x[1], x[2], d>>) => ok(FwdDec(F, op, <<<<x[1], x[2], d>>>>, n), d)
       /\ phase = 2 => \A op \in Bin : ok(FwdDec(F, op, <<<<x[1], x[2], DecCap(x)>>, <<y[1], y[2], DecCap(y)>>>>, 0),
                                         MinI(DecCap(x), DecCap(y)))
(* what is wrong in a counterexample *)
Diag == [x |-> x, y |-> y,
         unary |-> {},
         tight |-> IF phase = 1 THEN {op \in Un : \E n \in Par(op) : ~Tightest(F, Fwd(F, op, <<x>>, n), Vals1(op, n))} ELSE {},
         binary |-> IF phase = 2 THEN {<<op, Fwd(F, op, <<x, y>>, 0)>> : op \in {o \in Bin : ~Tightest(F, Fwd(F, o, <<x, y>>, 0), IF IsEmpty(x) \/ IsEmpty(y) THEN {} ELSE Vals2(o))}} ELSE {}]
=============================================================================
