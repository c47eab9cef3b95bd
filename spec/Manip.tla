------------------------------- MODULE Manip --------------------------------
(***************************************************************************)
(* Output streams and their settings.  Every stream has settings of its     *)
(* own; a manipulator changes one setting of one stream, copyfmt copies all  *)
(* settings of one stream to another, inserting a value writes its text      *)
(* (Format) and changes no setting, and the standard manipulators have no    *)
(* effect on the text.                                                      *)
(*                                                                         *)
(* A step is [a, s, f, v]:                                                  *)
(*   set   setting f of stream s becomes v      copy  stream s takes over v   *)
(*   std   standard manipulator v               fresh stream s is replaced    *)
(*   put   value number v is inserted into s    (values are the driver's)     *)
(***************************************************************************)
EXTENDS Format, TLC, Json, FiniteSets

CONSTANTS Streams,      \* stream numbers
          MCFields,     \* settings that are varied
          NVals,        \* values that are inserted
          Depth         \* length of the behaviours written in simulation mode, 0: none
VARIABLES set,          \* set[s]  settings of stream s
          last, hist,
          rnd           \* pseudo-random state (only in simulation mode)
mvars == <<set, last, hist, rnd>>

Fields == DOMAIN DefaultSettings
Range(f) == CASE f \in {"form", "num"} -> 0..3
              [] f = "special" -> 0..2
              [] f = "prec" -> {0, 1, 3, 6, 17}
              [] f = "width" -> {0, 5, 12}
              [] f = "swidth" -> {0, 4, 10, 40}
              [] OTHER -> 0..1
NStd == 8

(* settings after step e *)
After(e, st) ==
   CASE e.a = "set" -> [st EXCEPT ![e.s][e.f] = e.v]
     [] e.a = "copy" -> [st EXCEPT ![e.s] = st[e.v]]
     [] e.a = "fresh" -> [st EXCEPT ![e.s] = DefaultSettings]
     [] OTHER -> st

E(a, s, f, v) == [a |-> a, s |-> s, f |-> f, v |-> v]
StreamSteps(s) == UNION {{E("set", s, f, v) : v \in Range(f)} : f \in MCFields}
            \cup {E("copy", s, "", t) : t \in Streams}
            \cup {E("std", s, "", v) : v \in 1..NStd}
            \cup {E("put", s, "", v) : v \in 1..NVals}
            \cup {E("fresh", s, "", 0)}
MInit == /\ set = [s \in Streams |-> DefaultSettings]
         /\ last = E("fresh", CHOOSE s \in Streams : TRUE, "", 0) /\ hist = <<>>
         /\ rnd \in IF Depth = 0 THEN {0} ELSE 1..5000
Do(e) == set' = After(e, set) /\ last' = e
Step == \E s \in Streams : \E e \in StreamSteps(s) :
           Do(e) /\ UNCHANGED <<hist, rnd>>
(* simulation: one pseudo-random step at a time, the kind of step first *)
Lcg(n) == (n * 75 + 74) % 65537
RECURSIVE Nth(_, _)
Nth(S, n) == LET x == CHOOSE x \in S : TRUE IN IF n = 0 THEN x ELSE Nth(S \ {x}, n - 1)
Pick(S, n) == Nth(S, n % Cardinality(S))
SimStep ==
   LET a == Lcg(rnd)  b == Lcg(a)  c == Lcg(b)  d == Lcg(c)
       k == (a \div 3) % 20
       s == Pick(Streams, b \div 3)
       f == Pick(MCFields, c \div 3)
       e == IF k < 8 THEN E("set", s, f, Pick(Range(f), d \div 3))
            ELSE IF k < 17 THEN E("put", s, "", Pick(1..NVals, d \div 3))
            ELSE IF k = 17 THEN E("copy", s, "", Pick(Streams, d \div 3))
            ELSE IF k = 18 THEN E("std", s, "", Pick(1..NStd, d \div 3))
            ELSE E("fresh", s, "", 0)
   IN  Do(e) /\ hist' = Append(hist, <<e.a, e.s, e.f, e.v>>) /\ rnd' = d
Finish == /\ Depth > 0 /\ Len(hist) = Depth
          /\ PrintT("SCN " \o ToJson(hist))
          /\ hist' = <<>> /\ UNCHANGED <<set, last, rnd>>
MNext == IF Depth = 0 THEN Step ELSE IF Len(hist) = Depth THEN Finish ELSE SimStep
MSpec == MInit /\ [][MNext]_mvars

(* ---- guarantees ---------------------------------------------------------- *)
MTypeOK == \A s \in Streams : DOMAIN set[s] = Fields /\ \A f \in MCFields : set[s][f] \in Range(f)
(* only the stream of the step is affected *)
OwnStream == [][\A s \in Streams : s # last'.s => set'[s] = set[s]]_mvars
(* a manipulator changes its own setting only *)
OwnSetting == [][last'.a = "set" => \A f \in Fields : f # last'.f => set'[last'.s][f] = set[last'.s][f]]_mvars
(* output and standard manipulators change nothing *)
Inert == [][last'.a \in {"put", "std"} => set' = set]_mvars
(* the last manipulator wins *)
Selected == [][last'.a = "set" => set'[last'.s][last'.f] = last'.v]_mvars
MView == set
=============================================================================
