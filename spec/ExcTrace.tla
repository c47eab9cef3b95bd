------------------------------ MODULE ExcTrace -------------------------------
(***************************************************************************)
(* Checks a recorded trace of the exception machine: what real threads did  *)
(* and what every one of them saw afterwards.  An event that is no step of  *)
(* Exc is reported; the state then continues from what was observed.        *)
(***************************************************************************)
EXTENDS Exc, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tvars == <<vars, l>>

Ev(e) == [a |-> e.op, t |-> e.t, c |-> e.c]
(* value the call returned; -1 if it threw, -2 if there is nothing to compare *)
RetOk(e, r) == CASE e.ret = -2 -> TRUE
                 [] r[3] # {} -> e.ret = -1
                 [] e.op \in {"signal", "clear", "reset"} -> e.ret = Sum(r[1])
                 [] e.op = "cwd" -> e.ret = Sum(r[2])
                 [] OTHER -> TRUE
(* obs: <<thread, flags, control word, answers of the four queries>> *)
NewFlags(e, r) == [flags EXCEPT ![e.t] = r[1]]
NewCwd(e, r) == [cwd EXCEPT ![e.t] = r[2]]
ObsOk(e, r) == /\ {e.obs[i][1] : i \in 1..Len(e.obs)} = IF e.solo = 1 THEN {e.t} ELSE started \cup {e.t}
               /\ \A i \in 1..Len(e.obs) :
                     LET o == e.obs[i]
                     IN  /\ o[2] = Sum(NewFlags(e, r)[o[1]])
                         /\ o[3] = Sum(NewCwd(e, r)[o[1]])
                         /\ o[4] = o[2]
StepOk(e) == /\ e.op = "start" \/ e.t \in started
             /\ LET r == Effect(Ev(e), flags[e.t], cwd[e.t])
                IN  e.th = Sum(r[3]) /\ RetOk(e, r) /\ ObsOk(e, r)
SeenFlags(e) == [t \in Threads |-> LET s == {i \in 1..Len(e.obs) : e.obs[i][1] = t}
                                   IN  IF s = {} THEN flags[t] ELSE Bits(e.obs[CHOOSE i \in s : TRUE][2])]
SeenCwd(e) == [t \in Threads |-> LET s == {i \in 1..Len(e.obs) : e.obs[i][1] = t}
                                 IN  IF s = {} THEN cwd[t] ELSE Bits(e.obs[CHOOSE i \in s : TRUE][3])]
TInit == Init /\ l = 1
TBegin == /\ flags' = [t \in Threads |-> {}] /\ cwd' = [t \in Threads |-> {}]
          /\ started' = {} /\ UNCHANGED <<thrown, last, hist>>
TNext == /\ l <= Len(Log)
         /\ l' = l + 1
         /\ LET e == Log[l]
            IN  IF e.op = "begin" THEN TBegin
                ELSE IF StepOk(e) THEN Do(Ev(e)) /\ UNCHANGED hist
                ELSE /\ PrintT("REJECT " \o ToString(l) \o " " \o
                               ToString(<<"flags", flags[e.t], "cwd", cwd[e.t], "->", Effect(Ev(e), flags[e.t], cwd[e.t])>>))
                     /\ flags' = SeenFlags(e) /\ cwd' = SeenCwd(e)
                     /\ started' = started \cup {e.t}
                     /\ UNCHANGED <<thrown, last, hist>>
TSpec == TInit /\ [][TNext]_tvars
Complete == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
