-------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* The arithmetic environment (P24).  Numbers are computed by a library       *)
(* whose exponent range is a setting of the thread.  A call evaluates its      *)
(* result under the range it finds when it gets there; between any two steps   *)
(* of a thread the others run.  The guarantee: a completed call has returned   *)
(* the correctly rounded result of its arguments, whatever ran before or       *)
(* beside it.  It holds if every call installs the range of its own format     *)
(* and no other thread can change it; each condition alone is not enough.      *)
(***************************************************************************)
EXTENDS Float, TLC

CONSTANTS Threads, Formats,
          Installs,      \* every call installs the range of its format first
          Private        \* the range belongs to the thread

Values == {DPow2(-2), Neg(DPow2(-5)), DScale(DInt(3), -2), DInt(5), DInt(-11), DScale(DInt(13), -4)}
Dirs == {"d", "u"}

VARIABLES env, pc, done
vars == <<env, pc, done>>

Init == /\ env \in [Threads -> Formats]
        /\ pc = [t \in Threads |-> <<>>] /\ done = <<>>
        /\ ~Private => \A s, t \in Threads : env[s] = env[t]

SetEnv(t, f) == env' = [s \in Threads |-> IF s = t \/ ~Private THEN f ELSE env[s]]

(* what the number library computes: f's precision, the range that is installed *)
Under(f, e) == [p |-> Fmt(f).p, emin |-> Fmt(e).emin, emax |-> Fmt(e).emax]
Eval(f, e, d, v) == Rnd(Fmt(f), d, Rnd(Under(f, e), d, v))

Begin(t) == /\ pc[t] = <<>>
            /\ \E f \in Formats, d \in Dirs, v \in Values :
                  /\ pc' = [pc EXCEPT ![t] = <<f, d, v>>]
                  /\ IF Installs THEN SetEnv(t, f) ELSE UNCHANGED env
            /\ UNCHANGED done
Finish(t) == /\ pc[t] # <<>>
             /\ done' = <<pc[t], Eval(pc[t][1], env[t], pc[t][2], pc[t][3])>>
             /\ pc' = [pc EXCEPT ![t] = <<>>] /\ UNCHANGED env
(* work that leaves another range behind: printing, parsing, a call that fails *)
Foreign(t) == pc[t] = <<>> /\ (\E f \in Formats : SetEnv(t, f)) /\ UNCHANGED <<pc, done>>

Next == \E t \in Threads : Begin(t) \/ Finish(t) \/ Foreign(t)
Spec == Init /\ [][Next]_vars

(* done: the call that was completed last, and its result *)
Correct == done # <<>> => LET c == done[1] IN done[2] = Rnd(Fmt(c[1]), c[2], c[3])
=============================================================================
