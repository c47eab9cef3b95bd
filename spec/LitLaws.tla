------------------------------ MODULE LitLaws -------------------------------
(***************************************************************************)
(* Laws of reading: all texts of up to Depth tokens behind a head.           *)
(* (The driver of P19 reads the same texts with the library.)                *)
(***************************************************************************)
EXTENDS Text, LitTokens, TLC

CONSTANTS G, Depth
F == Fmt(G)
Fine == [p |-> 3000, emin |-> -200000, emax |-> 200000]

VARIABLES g, t, n
vars == <<g, t, n>>
Init == \E k \in Groups : g = k /\ t \in Heads(k) /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ g' = g /\ \E w \in Tokens(g) : t' = t \o w
Spec == Init /\ [][Next]_vars

R(s) == ReadAll(F, s)
Q(s) == ReadAll(Fine, s)
Same(a, b) == a.ok = b.ok /\ (a.ok => a.x = b.x)
Min2(a, b) == IF a < b THEN a ELSE b
UpperOf(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
Blank == <<32>>

(* whether a text is a literal does not depend on the format; the value is rounded outward, *)
(* and the decoration is what the bounds allow                                              *)
Rounding == LET r == R(t) q == Q(t)
            IN  /\ r.ok = q.ok
                /\ r.ok => IF q.x = NaI THEN r.x = NaI
                           ELSE /\ Bare(r.x) = (IF IsEmpty(Bare(q.x)) THEN Empty ELSE <<RD(F, q.x[1]), RU(F, q.x[2])>>)
                                /\ r.x[3] = Min2(q.x[3], DecCap(Bare(r.x)))
Valid == LET r == R(t) IN r.ok => (ValidDec(r.x) /\ (r.x # NaI => r.x[3] >= Trv))
CaseFree == Same(R(t), R(UpperOf(t))) /\ Same(R(t), R(Lower(t)))
BlankFree == Same(R(t), R(Blank \o t)) /\ Same(R(t), R(t \o Blank \o Blank))
(* blanks next to brackets and commas *)
Inside == LET i == Find(t, 91, 1)  c == Find(t, 44, 1)
          IN  (i > 0 => Same(R(t), R(SubSeq(t, 1, i) \o Blank \o From(t, i + 1))))
              /\ (i > 0 /\ c > 0 => Same(R(t), R(SubSeq(t, 1, c - 1) \o Blank \o <<44>> \o Blank \o From(t, c + 1))))
(* nothing may follow *)
Closed == R(t).ok => \A s \in {<<93>>, <<91>>, <<44>>, <<63, 63, 63>>, <<32, 49>>} : ~R(t \o s).ok
(* decorations *)
Decorated == (R(t).ok /\ Find(t, 95, 1) = 0) =>
   LET d(w) == R(TrimEnd(t) \o <<95>> \o w)
   IN  /\ ~d(DecWords.ill).ok
       /\ IF R(t).x = NaI THEN \A w \in {DecWords.trv, DecWords.def, DecWords.dac, DecWords.com} : ~d(w).ok
          ELSE /\ d(DecWords.trv).ok /\ d(DecWords.trv).x = <<R(t).x[1], R(t).x[2], Trv>>
               /\ d(DecWords.com).ok => d(DecWords.dac).ok
               /\ d(DecWords.dac).ok => d(DecWords.def).ok
               /\ d(DecWords.dac).ok = d(DecWords.def).ok
               /\ d(DecWords.com).ok => Same(d(DecWords.com), R(t))
               /\ (IsCommon(Bare(R(t).x)) => d(DecWords.com).ok)
(* [a, b] is [a] and [b] in order *)
Inner == Strip(t)
Split == LET s == Inner  c == Find(s, 44, 1)
         IN  (c > 0 /\ s[1] = 91 /\ s[Len(s)] = 93 /\ Find(s, 93, 1) = Len(s)) =>
             LET a == Q(SubSeq(s, 1, c - 1) \o <<93>>)
                 b == Q(<<91>> \o From(s, c + 1))
                 num(v) == v.ok /\ v.x # NaI /\ IsCommon(Bare(v.x))
             IN  (num(a) /\ num(b)) =>
                 IF Le(a.x[2], b.x[1]) THEN Q(t).ok /\ Q(t).x[1] = a.x[1] /\ Q(t).x[2] = b.x[2]
                 ELSE Lt(b.x[2], a.x[1]) => ~Q(t).ok
(* a minus sign mirrors an uncertain literal *)
Mirrored == LET neg == <<45>> \o (IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t)
              flip == [i \in 1..Len(neg) |-> IF neg[i] = 117 THEN 100 ELSE IF neg[i] = 100 THEN 117 ELSE neg[i]]
          IN  (g = "uncertain" /\ Find(t, 95, 1) = 0 /\ t # <<>> /\ t[1] # 45) =>
              LET a == R(t) b == R(flip)
              IN  a.ok = b.ok /\ (a.ok => Bare(b.x) = (<<Neg(a.x[2]), Neg(a.x[1])>>))
(* m?r is m?ru and m?rd together *)
Hulls == (g = "uncertain" /\ R(t).ok /\ Find(t, 117, 1) = 0 /\ Find(t, 100, 1) = 0 /\ Find(t, 95, 1) = 0) =>
         LET e == Find(t, 101, 1)
             at(c) == IF e = 0 THEN TrimEnd(t) \o <<c>> ELSE SubSeq(t, 1, e - 1) \o <<c>> \o From(t, e)
             u == R(at(117)) d == R(at(100))
         IN  u.ok /\ d.ok /\ R(t).x[1] = d.x[1] /\ R(t).x[2] = u.x[2]
(* one digit more in a positive exponent: larger in magnitude *)
Grows == (g = "expo" /\ Q(t).ok /\ Find(t, 101, 1) > 0) =>
         LET s == Inner
             more == SubSeq(s, 1, Len(s) - 1) \o <<57, 57, 57, 57, 57, 57, 93>>
             a == Q(t).x  b == Q(more).x  fa == R(t).x  fb == R(more).x
             e == Find(s, 101, 1)
             pos == \A i \in (e + 1)..Len(s) : s[i] # 45
         IN  (s[1] = 91 /\ s[Len(s)] = 93) =>
             /\ Q(more).ok /\ R(more).ok
             /\ IF pos THEN Le(a[2], b[2]) \/ Sgn(a[1]) < 0 ELSE Le(b[1], a[1]) \/ Sgn(a[1]) < 0
             /\ IF pos THEN (Sgn(a[1]) > 0 => fb = <<MaxF(F), PInf, Dac>>) /\ (Sgn(a[2]) < 0 => fb = <<NInf, Neg(MaxF(F)), Dac>>)
                ELSE (Sgn(a[1]) > 0 => fb = <<DZero, MinF(F), Com>>)
=============================================================================
