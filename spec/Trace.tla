------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a recorded trace of the library against the specification: one   *)
(* step per event.  An event that is no step of P1788 is reported and       *)
(* skipped, so that the rest of the trace is still examined.               *)
(***************************************************************************)
EXTENDS P1788, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
(* compare exception flags of calls (the properties about flags) *)
WithFlags == IOEnv.WITHFLAGS = "1"
VARIABLES l, rejected
vars == <<machine, l, rejected>>

(* A call recorded on its own.  pre: the flags raised before it, cwd: <<control  *)
(* word before, after>>; without these fields nothing was raised and nothing     *)
(* throws.                                                                      *)
Pre(e) == IF "pre" \in DOMAIN e THEN Bits(e.pre) ELSE {}
Cwd(e) == IF "cwd" \in DOMAIN e THEN Bits(e.cwd[1]) ELSE {}
(* of: the number of different results of the same call in different contexts: the   *)
(* operations are functions, also those whose result is not determined here.          *)
CallOk(e) ==
   LET s == Bits(Signals(e))
       thrown == s \cap Cwd(e)
   IN  /\ IF thrown = {} THEN e.ex = 0 /\ Accepts(e, e.r) ELSE e.ex \in thrown
       /\ "of" \in DOMAIN e => e.of = 1
       /\ "cwd" \in DOMAIN e => e.cwd[2] = e.cwd[1]
       \* a call that signals two conditions one after the other is left at the first that throws
       /\ WithFlags => /\ e.fl < 16
                       /\ Bits(e.fl) \subseteq Pre(e) \cup s
                       /\ Pre(e) \cup (IF thrown = {} THEN s ELSE {e.ex}) \subseteq Bits(e.fl)
Ok(e) == CallOk(e)

Init == MachineInit /\ l = 1 /\ rejected = 0
Step == /\ l <= Len(Log)
        /\ LET e == Log[l]
               ok == Ok(e)
           IN  /\ IF ok THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o ToString(Expected(e)) \o " flags " \o ToString(Signals(e)))
               /\ rejected' = rejected + (IF ok THEN 0 ELSE 1)
        /\ l' = l + 1
        /\ UNCHANGED machine
Spec == Init /\ [][Step]_vars
(* every event was examined *)
Complete == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
