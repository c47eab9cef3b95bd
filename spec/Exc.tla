--------------------------------- MODULE Exc ---------------------------------
(***************************************************************************)
(* The exception machine with its actions.  A step is made by one thread t *)
(* and described by a record [a, t, c]; the model explores all steps,       *)
(* checks the guarantees as action properties, and in simulation mode       *)
(* writes behaviours that the driver replays on real threads.               *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, Sequences

CONSTANTS MCConds, Depth
VARIABLES started,      \* threads that exist
          thrown,       \* conditions that left the last step as an exception
          last,         \* the last step [a, t, c]
          hist          \* the steps so far (only in simulation mode, Depth > 0)
vars == <<machine, started, thrown, last, hist>>

(* what the operations of the driver's list signal *)
OpSignals == << {}, {FUndef}, {FPart}, {FInv}, {FInv}, {FInv}, {FUndef}, {FPart}, {FUndef}, {}, {}, {},
                {}, {}, {FInv}, {FUndef}, {FUndef}, {FInv}, {FInv}, {FInv}, {}, {}, {FInv}, {FUndef} >>
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x + Sum(s \ {x})

(* effect of step e on the state of its thread: <<flags, cwd, thrown>> *)
Effect(e, f, c) ==
   CASE e.a = "start" -> <<{}, {}, {}>>             \* a new thread begins with nothing set
     [] e.a = "signal" -> <<f \cup {e.c}, c, {e.c} \cap c>>
     [] e.a = "op" -> <<f \cup OpSignals[e.c], c, OpSignals[e.c] \cap c>>
     [] e.a = "clear" -> <<{}, c, {}>>
     [] e.a = "reset" -> <<f \ {e.c}, c, {}>>       \* state() &= ~bit
     [] e.a = "cwd" -> <<f, Bits(e.c), {}>>
     [] e.a = "none" -> <<f, c, {}>>

Do(e) == LET r == Effect(e, flags[e.t], cwd[e.t])
         IN  /\ flags' = [flags EXCEPT ![e.t] = r[1]]
             /\ cwd' = [cwd EXCEPT ![e.t] = r[2]]
             /\ thrown' = r[3]
             /\ last' = e
             /\ started' = started \cup {e.t}

Steps(t) == {[a |-> "signal", t |-> t, c |-> c] : c \in MCConds}
            \cup {[a |-> "reset", t |-> t, c |-> c] : c \in MCConds}
            \cup {[a |-> "clear", t |-> t, c |-> 0]}
            \cup {[a |-> "cwd", t |-> t, c |-> Sum(c)] : c \in SUBSET MCConds}
            \cup {[a |-> "op", t |-> t, c |-> i] : i \in DOMAIN OpSignals}
            \cup {[a |-> "none", t |-> t, c |-> 0]}
            \cup {[a |-> "start", t |-> t, c |-> 0]}     \* the thread ends, a new one takes its place
Init == /\ MachineInit /\ started = {} /\ thrown = {} /\ hist = <<>>
        /\ last = [a |-> "none", t |-> 1, c |-> 0]
Step == \E t \in Threads :
           \E e \in IF t \in started THEN Steps(t) ELSE {[a |-> "start", t |-> t, c |-> 0]} :
              /\ Do(e)
              /\ hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, <<e.a, e.t, e.c>>)
(* simulation: write the behaviour when it is complete *)
Finish == /\ Depth > 0 /\ Len(hist) = Depth
          /\ PrintT("SCN " \o ToJson(hist))
          /\ hist' = <<>> /\ UNCHANGED <<machine, started, thrown, last>>
Next == Finish \/ (~(Depth > 0 /\ Len(hist) = Depth) /\ Step)
Spec == Init /\ [][Next]_vars

(* ---- guarantees ------------------------------------------------------------- *)
TypeOK == MachineType /\ started \subseteq Threads
(* a flag disappears only when its own thread clears it *)
Sticky == [][\A t \in Threads : flags[t] \subseteq flags'[t]
                                \/ (last'.t = t /\ last'.a \in {"clear", "reset", "start"})]_vars
(* a step of one thread changes nothing of another *)
Private == [][\A t \in Threads : t # last'.t => flags'[t] = flags[t] /\ cwd'[t] = cwd[t]]_vars
(* an exception leaves a step iff its condition is enabled, and then its flag is set *)
Maskable == [][LET s == IF last'.a = "signal" THEN {last'.c}
                        ELSE IF last'.a = "op" THEN OpSignals[last'.c] ELSE {}
               IN  thrown' = s \cap cwd[last'.t] /\ thrown' \subseteq flags'[last'.t]]_vars
(* only the control word operation changes the control word *)
CwdStable == [][\A t \in Threads : cwd'[t] = cwd[t] \/ (last'.t = t /\ last'.a \in {"cwd", "start"})]_vars

View == <<machine, started>>
=============================================================================
