------------------------------ MODULE DecChain ------------------------------
(***************************************************************************)
(* Chains of decorated operations (the fundamental theorem of decorated     *)
(* interval arithmetic, on a tiny format).                                  *)
(*                                                                         *)
(* A state is a box x0, the composition f of the operations applied so far,  *)
(* known by its values on a grid around the box, and the decorated interval  *)
(* xd that the contract of Interval assigns to f(x0).  The invariants say    *)
(* what the decoration promises about f itself - not about the last step.    *)
(***************************************************************************)
EXTENDS Laws

CONSTANT Depth

H == DPow2(-90)                          \* width of the neighbourhood of a grid point: below any slope of the chains
Half == DPow2(-1)
Cores == {DScale(DInt(k), -1) : k \in -8..8}       \* half integers: all jumps of the step functions of small numbers
Grd == {DAdd(c, d) : c \in Cores, d \in {DZero, H, Neg(H)}}
Undef == <<"undefined">>

Ops1 == {"neg", "abs", "sqr", "sign", "ceil", "floor", "trunc", "rte", "rta", "pown3"}
Ops2 == {"add", "sub", "mul", "min", "max"}
Const == {DZero, DOne, MOne, Half}
Guards == {"sqrt0", "log0"}   \* x + 0 * sqrt(x), x + 0 * log(x): the argument where the function is defined

Step1(op, v) ==
   IF v = Undef THEN v
   ELSE CASE op \in {"neg", "abs", "sqr"} -> At1(op, v, 0)[1][2]
          [] op = "pown3" -> DMul(v, DMul(v, v))
          [] op \in Steps -> StepAt(op, v)
          [] op = "sqrt0" -> IF Sgn(v) < 0 THEN Undef ELSE v
          [] op = "log0" -> IF Sgn(v) <= 0 THEN Undef ELSE v
Step2(op, v, w) == IF v = Undef \/ w = Undef THEN Undef ELSE At2(op, v, w)[1][2]

VARIABLES x0,     \* the box
          val,    \* grid point -> value of f
          xd,     \* decorated interval
          n
vars2 == <<x0, val, xd, n, x, y, phase>>

Starts == {z \in Ivs : ~IsEmpty(z)}
Init2 == /\ x0 \in Starts
         /\ val = [p \in Grd |-> p]
         /\ xd = <<x0[1], x0[2], DecCap(x0)>>
         /\ n = 0 /\ x = Empty /\ y = Empty /\ phase = 0
Dec1(op, z) == CASE op = "pown3" -> FwdDec(F, "pown", <<z>>, 3)
                 [] op \in Guards -> LET g == FwdDec(F, IF op = "sqrt0" THEN "sqrt" ELSE "log", <<z>>, 0)
                                         c == FwdDec(F, "mul", <<g, <<DZero, DZero, Com>>>>, 0)
                                     IN  FwdDec(F, "add", <<c, z>>, 0)
                 [] OTHER -> FwdDec(F, op, <<z>>, 0)
Next2 == /\ n < Depth /\ n' = n + 1
         /\ UNCHANGED <<x0, x, y, phase>>
         /\ \/ \E op \in Ops1 \cup Guards : /\ val' = [p \in Grd |-> Step1(op, val[p])]
                                            /\ xd' = Dec1(op, xd)
            \/ \E op \in Ops2 : /\ val' = [p \in Grd |-> Step2(op, val[p], p)]      \* with the variable itself
                                /\ xd' = FwdDec(F, op, <<xd, <<x0[1], x0[2], DecCap(x0)>>>>, 0)
            \/ \E op \in Ops2, c \in Const : /\ val' = [p \in Grd |-> Step2(op, val[p], c)]
                                             /\ xd' = FwdDec(F, op, <<xd, <<c, c, Com>>>>, 0)
Spec2 == Init2 /\ [][Next2]_vars2

InBox == {p \in Grd : In(p, x0)}
Close(a, b) == Le(Abs(DSub(a, b)), DPow2(-6))
(* every value of f lies in the interval *)
Encloses == \A p \in InBox : val[p] # Undef => In(val[p], Bare(xd))
Legal == ValidDec(xd) /\ ~IsNaI(xd)
DefTrue == xd[3] >= Def => \A p \in InBox : val[p] # Undef
DacTrue == xd[3] >= Dac => \A c \in Cores, d \in {H, Neg(H)} :
              LET q == DAdd(c, d) IN {c, q} \subseteq InBox => Close(val[c], val[q])
(* common: bounded, and continuous at the ends of the box too (as a function on its domain) *)
ComTrue == xd[3] = Com => /\ IsCommon(x0) /\ IsCommon(Bare(xd))
                          /\ \A c \in Cores, d \in {H, Neg(H)} :
                               c \in InBox /\ val[DAdd(c, d)] # Undef => Close(val[c], val[DAdd(c, d)])
(* nothing is weakened without a reason along operations that are total and continuous *)
Weaken == \A op \in {"neg", "abs", "sqr"} : LET r == FwdDec(F, op, <<xd>>, 0)
                                            IN  r[3] = MinI(xd[3], DecCap(Bare(r)))
=============================================================================
