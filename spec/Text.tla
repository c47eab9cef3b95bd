-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Interval literals.  A text is a sequence of character codes.  The value  *)
(* of a literal is computed exactly; reading it into a format rounds the    *)
(* bounds outward.                                                          *)
(***************************************************************************)
EXTENDS Interval, Naturals, Sequences

Space == {9, 10, 11, 12, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

(* index of the first character from i on that is not in C; Len(s) + 1 if there is none *)
Skip(s, i, C) == IF i > Len(s) THEN i
                 ELSE CHOOSE j \in i..(Len(s) + 1) : (j > Len(s) \/ s[j] \notin C) /\ \A k \in i..(j - 1) : s[k] \in C
(* index of the first c in s at or after i; 0 if there is none *)
Find(s, c, i) == IF \E j \in i..Len(s) : s[j] = c
                 THEN CHOOSE j \in i..Len(s) : s[j] = c /\ \A k \in i..(j - 1) : s[k] # c
                 ELSE 0
SkipWs(s, i) == Skip(s, i, Space)
SkipDigits(s, i) == Skip(s, i, 48..57)
LastNot(s, C) == IF \E j \in 1..Len(s) : s[j] \notin C
                 THEN CHOOSE j \in 1..Len(s) : s[j] \notin C /\ \A k \in (j + 1)..Len(s) : s[k] \in C
                 ELSE 0
TrimEnd(s) == SubSeq(s, 1, LastNot(s, Space))
Strip(s) == TrimEnd(SubSeq(s, SkipWs(s, 1), Len(s)))
From(s, i) == SubSeq(s, i, Len(s))
At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE 0

(* ------------------------------------------------------------------------ *)
(* Numbers: [ok, n, d], value n / d, d > 0                                    *)
(* ------------------------------------------------------------------------ *)
NoNum == [ok |-> FALSE, n |-> BZero, d |-> BOne]
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
RECURSIVE SmallDigits(_, _, _, _, _)
LOCAL SmallDigits(s, b, i, j, acc) == IF i > j THEN acc ELSE SmallDigits(s, b, i + 1, j, acc * b + DigitVal(s[i]))
RECURSIVE DigitsIn(_, _, _, _)
LOCAL DigitsIn(s, b, i, j) ==           \* value of s[i..j]
   IF j - i < 5 THEN BOfInt(SmallDigits(s, b, i, j, 0))
   ELSE LET m == (i + j) \div 2
        IN  BAdd(BMul(DigitsIn(s, b, i, m), BPow(BOfInt(b), j - m)), DigitsIn(s, b, m + 1, j))
DigitsB(s, b) == DigitsIn(s, b, 1, Len(s))
AllDigits(s, b) == s # <<>> /\ \A i \in 1..Len(s) : DigitVal(s[i]) < b

(* digits with at most one point and at least one digit: [ok, m, f], m / b^f *)
Mantissa(s, b) ==
   LET p == Find(s, 46, 1)
       t == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o From(s, p + 1)
   IN  IF AllDigits(t, b) THEN [ok |-> TRUE, m |-> DigitsB(t, b), f |-> IF p = 0 THEN 0 ELSE Len(s) - p]
       ELSE [ok |-> FALSE, m |-> BZero, f |-> 0]

SignVal(s) == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s

FarExp == 100000
(* signed exponent, limited to a value beyond all formats: [ok, e] *)
Exponent(s) ==
   LET u == Unsigned(s)
   IN  IF ~AllDigits(u, 10) THEN [ok |-> FALSE, e |-> 0]
       ELSE LET b == DigitsB(u, 10)
                far == BCmp(b, BOfInt(FarExp)) > 0
            IN  [ok |-> TRUE, e |-> SignVal(s) * (IF far THEN FarExp ELSE BToInt(b))]

Ratio(m, b, e) ==                  \* m * b^e
   IF e >= 0 THEN [ok |-> TRUE, n |-> BMul(m, BPow(BOfInt(b), e)), d |-> BOne]
   ELSE [ok |-> TRUE, n |-> m, d |-> BPow(BOfInt(b), -e)]
Signed(s, m) == IF SignVal(s) < 0 THEN BNeg(m) ELSE m

IsHex(u) == Len(u) >= 2 /\ u[1] = 48 /\ u[2] = 120
(* s in lower case, without white space around it *)
Number(s) ==
   LET u == Unsigned(s)
       slash == Find(u, 47, 1)
   IN  IF slash > 0
       THEN LET n == TrimEnd(SubSeq(u, 1, slash - 1))
                d == From(u, SkipWs(u, slash + 1))
            IN  IF AllDigits(n, 10) /\ AllDigits(d, 10) /\ DigitsB(d, 10) # BZero
                THEN [ok |-> TRUE, n |-> Signed(s, DigitsB(n, 10)), d |-> DigitsB(d, 10)]
                ELSE NoNum
       ELSE IF IsHex(u)
       THEN LET p == Find(u, 112, 1)
                x == Exponent(From(u, p + 1))
                a == Mantissa(SubSeq(u, 3, p - 1), 16)
            IN  IF p = 0 \/ ~x.ok \/ ~a.ok THEN NoNum
                ELSE Ratio(Signed(s, a.m), 2, x.e - 4 * a.f)
       ELSE LET p == Find(u, 101, 1)
                x == IF p = 0 THEN [ok |-> TRUE, e |-> 0] ELSE Exponent(From(u, p + 1))
                a == Mantissa(IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1), 10)
            IN  IF ~x.ok \/ ~a.ok THEN NoNum
                ELSE Ratio(Signed(s, a.m), 10, x.e - a.f)

RatCmp(a, b) == BCmp(BMul(a.n, b.d), BMul(b.n, a.d))
RatDyadic(F, q) == DDivS(DMk(q.n, 0), DMk(q.d, 0), F.p + 3)
RatRD(F, q) == RD(F, RatDyadic(F, q))
RatRU(F, q) == RU(F, RatDyadic(F, q))

(* ------------------------------------------------------------------------ *)
(* Literals.  [kind, x, cap]: kind "bad", "nai" or "ok", x the interval in   *)
(* the format F, cap the strongest decoration that may be written behind it  *)
(* ------------------------------------------------------------------------ *)
Bad == [kind |-> "bad", x |-> Empty, cap |-> 0]
Lit(x, cap) == [kind |-> "ok", x |-> x, cap |-> cap]
Word(s, w) == s = w
W_empty == <<101, 109, 112, 116, 121>>
W_entire == <<101, 110, 116, 105, 114, 101>>
W_nai == <<110, 97, 105>>
W_inf == <<105, 110, 102>>
W_infinity == <<105, 110, 102, 105, 110, 105, 116, 121>>

(* between the brackets *)
InfSup(F, text) ==
   LET s == Lower(text)
       comma == Find(s, 44, 1)
   IN IF comma = 0
      THEN LET a == Strip(s)
           IN IF a = <<>> \/ a = W_empty THEN Lit(Empty, Trv)
              ELSE IF a = W_entire THEN Lit(Entire, Dac)
              ELSE IF a = W_nai THEN [kind |-> "nai", x |-> Empty, cap |-> 0]
              ELSE LET q == Number(a)
                   IN  IF q.ok THEN Lit(<<RatRD(F, q), RatRU(F, q)>>, Com) ELSE Bad
      ELSE LET a == Strip(SubSeq(s, 1, comma - 1))
               b == Strip(From(s, comma + 1))
               la == a = <<>> \/ (a[1] = 45 /\ Tail(a) \in {W_inf, W_infinity})
               ub == b = <<>> \/ (IF b[1] = 43 THEN Tail(b) ELSE b) \in {W_inf, W_infinity}
               p == IF la THEN NoNum ELSE Number(a)
               q == IF ub THEN NoNum ELSE Number(b)
           IN  IF ~(la \/ p.ok) \/ ~(ub \/ q.ok) THEN Bad
               ELSE LET r == <<IF la THEN NInf ELSE RatRD(F, p), IF ub THEN PInf ELSE RatRU(F, q)>>
                        cap == IF la \/ ub THEN Dac ELSE Com
                    IN  \* (two huge exponents in one literal are not told apart)
                        IF la \/ ub THEN Lit(r, cap)
                        ELSE IF RatCmp(p, q) <= 0 THEN Lit(r, cap) ELSE Bad

(* end of the token of an uncertain form that starts at i *)
NumEnd(t, i) == Skip(t, i, (48..57) \cup {43, 45, 46})
(* [ok, next, ...] *)
Uncertain(F, t, i) ==
   LET q  == NumEnd(t, i)                       \* the question mark
       s  == SubSeq(t, i, q - 1)
       m  == Mantissa(Unsigned(s), 10)
       inf == At(t, q + 1) = 63
       re == IF inf THEN q + 2 ELSE SkipDigits(t, q + 1)
       rad == SubSeq(t, q + 1, re - 1)
       dir == LowerC(At(t, re))
       de == IF dir \in {100, 117} THEN re + 1 ELSE re
       hasE == LowerC(At(t, de)) = 101
       xs == IF hasE /\ At(t, de + 1) \in {43, 45} THEN de + 2 ELSE de + 1
       xe == IF hasE THEN SkipDigits(t, xs) ELSE de
       x == IF hasE THEN Exponent(SubSeq(t, de + 1, xe - 1)) ELSE [ok |-> TRUE, e |-> 0]
       \* in tenths of the last place
       c == BMul(Signed(s, m.m), BOfInt(10))
       r == IF rad = <<>> THEN BOfInt(5) ELSE BMul(DigitsB(rad, 10), BOfInt(10))
       at(v) == Ratio(v, 10, x.e - m.f - 1)
       lo == IF dir = 117 THEN RatRD(F, at(c)) ELSE IF inf THEN NInf ELSE RatRD(F, at(BSub(c, r)))
       hi == IF dir = 100 THEN RatRU(F, at(c)) ELSE IF inf THEN PInf ELSE RatRU(F, at(BAdd(c, r)))
   IN  IF At(t, q) # 63 \/ ~m.ok \/ ~x.ok THEN [lit |-> Bad, next |-> q]
       ELSE [lit |-> Lit(<<lo, hi>>, IF inf THEN Dac ELSE Com), next |-> xe]

(* ------------------------------------------------------------------------ *)
(* Reading from a stream                                                     *)
(* ------------------------------------------------------------------------ *)
DecWords == [ill |-> <<105, 108, 108>>, trv |-> <<116, 114, 118>>, def |-> <<100, 101, 102>>,
             dac |-> <<100, 97, 99>>, com |-> <<99, 111, 109>>]
(* decoration at i: [ok, d, next] *)
ReadDec(t, i0, skip) ==
   LET i == IF skip THEN SkipWs(t, i0) ELSE i0
       no == [ok |-> FALSE, d |-> 0, next |-> i]
   IN  IF IsDigit(At(t, i))
       THEN LET j == SkipDigits(t, i)
                b == DigitsB(SubSeq(t, i, j - 1), 10)
            IN  IF BCmp(b, BOfInt(16)) <= 0 /\ BToInt(b) \in {0, 4, 8, 12, 16}
                THEN [ok |-> TRUE, d |-> BToInt(b), next |-> j] ELSE no
       ELSE LET w == Lower(SubSeq(t, i, i + 2))
                is(k) == w = DecWords[k]
            IN  IF i + 2 > Len(t) THEN no
                ELSE IF is("ill") THEN [ok |-> TRUE, d |-> Ill, next |-> i + 3]
                ELSE IF is("trv") THEN [ok |-> TRUE, d |-> Trv, next |-> i + 3]
                ELSE IF is("def") THEN [ok |-> TRUE, d |-> Def, next |-> i + 3]
                ELSE IF is("dac") THEN [ok |-> TRUE, d |-> Dac, next |-> i + 3]
                ELSE IF is("com") THEN [ok |-> TRUE, d |-> Com, next |-> i + 3]
                ELSE no

(* decorated interval at position i0 of the text t: [ok, x, next]             *)
CapD(x, d) == <<x[1], x[2], IF d < DecCap(x) THEN d ELSE DecCap(x)>>
ReadInterval(F, t, i0, skip) ==
   LET i == IF skip THEN SkipWs(t, i0) ELSE i0
       no == [ok |-> FALSE, x |-> NaI, next |-> i]
       c == At(t, i)
       close == Find(t, 93, i)
       u == IF c = 91 THEN [lit |-> IF close = 0 THEN Bad ELSE InfSup(F, SubSeq(t, i + 1, close - 1)), next |-> close + 1]
            ELSE IF IsDigit(c) \/ c \in {43, 45, 46} THEN Uncertain(F, t, i)
            ELSE [lit |-> Bad, next |-> i]
   IN  IF u.lit.kind = "bad" THEN no
       ELSE IF At(t, u.next) # 95        \* no decoration
       THEN [ok |-> TRUE, x |-> IF u.lit.kind = "nai" THEN NaI ELSE CapD(u.lit.x, Com), next |-> u.next]
       ELSE IF u.lit.kind = "nai" THEN no
       ELSE LET d == ReadDec(t, u.next + 1, skip)
            IN  IF ~d.ok \/ d.d = Ill \/ d.d > u.lit.cap THEN no
                ELSE [ok |-> TRUE, x |-> CapD(u.lit.x, d.d), next |-> d.next]

(* the whole text is one literal, white space aside; lit: it starts with one *)
ReadAll(F, t) ==
   LET r == ReadInterval(F, t, 1, TRUE)
   IN  [ok |-> r.ok /\ SkipWs(t, r.next) > Len(t), lit |-> r.ok, x |-> r.x]

(* A session: a sequence of extractions from one stream.  A step is             *)
(* <<k, F, skip, init>>: k 0 bare, 1 decorated, 2 decoration; init what the       *)
(* target holds before.  Outcomes <<ok, target, characters left>> up to the      *)
(* first failure; characters left are only compared after a success.             *)
(* A source that breaks (brk) does so when it is asked for more than the text.   *)
OneRead(t, pos, s) ==                     \* [ok, val, next]
   IF s[1] = 2
   THEN LET w == ReadDec(t, pos, s[3] = 1) IN [ok |-> w.ok, val |-> w.d, next |-> w.next]
   ELSE LET r == ReadInterval(Fmt(s[2]), t, pos, s[3] = 1)
        IN  [ok |-> r.ok, val |-> IF s[1] = 0 THEN Bare(r.x) ELSE r.x, next |-> r.next]
(* the end of the step that ends at j is known without looking behind it: it ends with a *)
(* decoration in letters                                                                  *)
EndsInWord(s, t, j) ==
   j > 3 /\ (s[1] = 2 \/ At(t, j - 4) = 95 \/ At(t, j - 4) \in Space)
         /\ Lower(SubSeq(t, j - 3, j - 1)) \in {DecWords[k] : k \in DOMAIN DecWords}
RECURSIVE SessionOk(_, _, _, _, _, _)
SessionOk(t, brk, pos, steps, outs, i) ==
   IF i > Len(steps) THEN Len(outs) = Len(steps)
   ELSE LET s == steps[i]
            w == OneRead(t, pos, s)
            ends == brk /\ w.ok /\ w.next > Len(t)
            taken == /\ outs[i][1] = 1 /\ outs[i][2] = w.val /\ outs[i][3] = Len(t) - w.next + 1
                     /\ SessionOk(t, brk, w.next, steps, outs, i + 1)
            failed == Len(outs) = i /\ outs[i][1] = 0 /\ outs[i][2] = s[4]
        IN  IF i > Len(outs) THEN FALSE
            ELSE IF ~w.ok THEN failed
            ELSE IF ~ends THEN taken
            ELSE failed \/ (EndsInWord(s, t, w.next) /\ taken)
(* the interval part of not-an-interval is taken *)
RECURSIVE SessionNaI(_, _, _, _)
SessionNaI(t, pos, steps, i) ==
   IF i > Len(steps) THEN FALSE
   ELSE LET s == steps[i]
            w == OneRead(t, pos, s)
        IN  IF ~w.ok THEN FALSE
            ELSE (s[1] = 0 /\ ReadInterval(Fmt(s[2]), t, pos, s[3] = 1).x = NaI) \/ SessionNaI(t, w.next, steps, i + 1)
=============================================================================
