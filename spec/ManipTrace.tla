------------------------------ MODULE ManipTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions of output streams: every text that was written  *)
(* is the text Format gives for the settings of its stream at that point.   *)
(* put events: k 0 bare, 1 decorated, 2 decoration, 3 overlapping state; x    *)
(* the value, txt the text, good whether the stream is still usable.         *)
(***************************************************************************)
EXTENDS Manip, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          fmt       \* fmt[s]  flags, precision, fill and width of stream s: the standard library's own settings
tvars == <<mvars, l, fmt>>
NoFmt == <<-1, 0, 0, 0>>                \* not known yet

(* manipulators and insertions leave the standard settings of every stream alone *)
FmtOk(e) == CASE e.op \in {"set", "put"} -> e.fmt = fmt[e.s]
              [] e.op = "copy" -> e.fmt = fmt[e.v]
              [] OTHER -> TRUE

Ev(e) == E(e.op, e.s, e.f, e.v)
StepOk(e) == FmtOk(e) /\ IF e.op = "put" THEN /\ e.good = 1 /\ TextOk(Fmt(e.F), set[e.s], e.k, e.x, e.txt)
             ELSE TRUE
Want(e) == IF ~FmtOk(e) THEN fmt[IF e.op = "copy" THEN e.v ELSE e.s] ELSE IF e.k = 2 THEN DecText(set[e.s], e.x) ELSE IF e.k = 3 THEN OverlapText(set[e.s], e.x)
           ELSE IF ~(IF e.k = 1 THEN ValidDec(e.x) ELSE ValidBare(e.x)) THEN <<>>
           ELSE IF e.k = 1 THEN DecoratedText(Fmt(e.F), set[e.s], e.x, <<1, 0, 0>>)
           ELSE BareText(Fmt(e.F), set[e.s], e.x, <<1, 0, 0>>)
TInit == MInit /\ l = 1 /\ fmt = [s \in Streams |-> NoFmt]
TNext == /\ l <= Len(Log)
         /\ l' = l + 1
         /\ LET e == Log[l]
            IN  IF e.op = "begin" THEN set' = [s \in Streams |-> DefaultSettings] /\ fmt' = [s \in Streams |-> NoFmt] /\ UNCHANGED <<last, hist, rnd>>
                ELSE /\ IF StepOk(e) THEN TRUE
                        ELSE PrintT("REJECT " \o ToString(l) \o " " \o ToString(Want(e)))
                     /\ Do(Ev(e)) /\ fmt' = [fmt EXCEPT ![e.s] = e.fmt] /\ UNCHANGED <<hist, rnd>>
TSpec == TInit /\ [][TNext]_tvars
Complete == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
