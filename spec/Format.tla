------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The text written for intervals, decorations and overlapping states under *)
(* given settings of a stream.  Numbers are rounded exactly: lower bounds    *)
(* downward, upper bounds upward, to the requested number of digits.         *)
(*                                                                         *)
(* Settings are a record                                                    *)
(*   form   0 inf-sup  1 uncertain  2 uncertain upward  3 uncertain downward *)
(*   num    0 decimal-scientific  1 decimal  2 scientific  3 hexadecimal     *)
(*   prec, width, swidth   (0: default)                                     *)
(*   upper, nopunct, uexp, decnum, ovlnum   0 or 1                           *)
(*   special  0 text  1 bounds  2 no bounds                                  *)
(***************************************************************************)
EXTENDS Text

DefaultSettings == [form |-> 0, num |-> 0, prec |-> 0, width |-> 0, swidth |-> 0, upper |-> 0,
                    nopunct |-> 0, uexp |-> 0, decnum |-> 0, ovlnum |-> 0, special |-> 0]

UpperC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> UpperC(s[i])]
Cased(st, s) == IF st.upper = 1 THEN Upper(s) ELSE s
Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Blanks(n) == Rep(32, n)
PadLeft(s, w) == Blanks(w - Len(s)) \o s

(* ---- digits -------------------------------------------------------------- *)
RECURSIVE Small(_, _)
LOCAL Small(n, k) == IF k = 0 THEN <<>> ELSE Small(n \div 10, k - 1) \o <<48 + (n % 10)>>
RECURSIVE Digs(_, _)
LOCAL Digs(b, k) ==                     \* the last k digits of b
   IF k <= 4 THEN Small(BToInt(b), k)
   ELSE LET h == k \div 2  p == BPow(BOfInt(10), h)  q == BDiv(b, p)
        IN  Digs(q, k - h) \o Digs(BSub(b, BMul(q, p)), h)
DropZeros(s) == SubSeq(s, Skip(s, 1, {48}), Len(s))
Dec(b) == IF b[1] = 0 THEN <<48>>       \* of |b|
          ELSE DropZeros(Digs(BAbs(b), (Top(DMk(b, 0)) * 302) \div 1000 + 2))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexC(_, _)
LOCAL HexC(b, acc) == IF b[1] = 0 THEN acc
                      ELSE LET q == BShr(b, 4) IN HexC(q, <<HexDigit(BToInt(BSub(b, BShl(q, 4))))>> \o acc)
Hex(b) == IF b[1] = 0 THEN <<48>> ELSE HexC(BAbs(b), <<>>)
ZeroPad(s, n) == Rep(48, n - Len(s)) \o s
IntStr(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(BOfInt(n))
(* exponent with sign and at least k digits *)
ExpStr(n, k) == (IF n < 0 THEN <<45>> ELSE <<43>>) \o ZeroPad(Dec(BOfInt(n)), k)

(* |x| * b^k rounded to an integer; dir: "d", "u" of the signed number, "n" *)
Scaled(x, b, k, dir) ==
   IF x[3][1] = 0 THEN BZero
   ELSE LET m == BAbs(x[3])
            n == BShl(BMul(m, BPow(BOfInt(b), IF k > 0 THEN k ELSE 0)), IF x[2] > 0 THEN x[2] ELSE 0)
            d == BShl(BPow(BOfInt(b), IF k < 0 THEN -k ELSE 0), IF x[2] < 0 THEN -x[2] ELSE 0)
            q == BDiv(n, d)
            r == BSub(n, BMul(q, d))
            c == BCmp(BShl(r, 1), d)
            away == IF dir = "n" THEN c > 0 \/ (c = 0 /\ BOdd(q)) ELSE r[1] # 0 /\ ((dir = "u") = (x[3][1] > 0))
        IN  IF away THEN BAdd(q, BOne) ELSE q

(* largest X with b^X <= |x|, x # 0 *)
LOCAL GePow(x, b, k) ==
   BCmp(BShl(BMul(BAbs(x[3]), BPow(BOfInt(b), IF k < 0 THEN -k ELSE 0)), IF x[2] > 0 THEN x[2] ELSE 0),
        BShl(BPow(BOfInt(b), IF k > 0 THEN k ELSE 0), IF x[2] < 0 THEN -x[2] ELSE 0)) >= 0
RECURSIVE Fit(_, _, _)
LOCAL Fit(x, b, k) == IF ~GePow(x, b, k) THEN Fit(x, b, k - 1) ELSE IF GePow(x, b, k + 1) THEN Fit(x, b, k + 1) ELSE k
Mag10(x) == Fit(x, 10, ((Top(x) - 1) * 3010) \div 10000)
Mag16(x) == (Top(x) - 1) \div 4

(* significant digits: [m, e], |x| ~ m * b^(e - k), k digits after the first *)
Sig(x, b, k, dir) ==
   IF x[3][1] = 0 THEN [m |-> BZero, e |-> 0]
   ELSE LET X == IF b = 10 THEN Mag10(x) ELSE Mag16(x)
            m == Scaled(x, b, k - X, dir)
        IN  IF BCmp(m, BPow(BOfInt(b), k + 1)) >= 0 THEN [m |-> Scaled(x, b, k - X - 1, dir), e |-> X + 1]
            ELSE [m |-> m, e |-> X]

(* ---- numbers ---------------------------------------------------------------- *)
LOCAL Sgn1(neg) == IF neg THEN <<45>> ELSE <<>>
Pointed(s, p) == IF p = 0 THEN s        \* the last p digits of s behind a point
                 ELSE SubSeq(s, 1, Len(s) - p) \o <<46>> \o SubSeq(s, Len(s) - p + 1, Len(s))
Fixed(x, neg, p, dir) == Sgn1(neg) \o Pointed(ZeroPad(Dec(Scaled(x, 10, p, dir)), p + 1), p)
SciOf(s, neg, p) == Sgn1(neg) \o Pointed(ZeroPad(Dec(s.m), p + 1), p) \o <<101>> \o ExpStr(s.e, 2)
Sci(x, neg, p, dir) == SciOf(Sig(x, 10, p, dir), neg, p)
DropTrail(s) == LET n == LastNot(s, {48}) IN IF s[n] = 46 THEN SubSeq(s, 1, n - 1) ELSE SubSeq(s, 1, n)
NoTrail(s) == IF Find(s, 46, 1) = 0 THEN s ELSE DropTrail(s)
Gen(x, neg, p, dir) ==                  \* p significant digits
   LET s == Sig(x, 10, p - 1, dir)
   IN  IF s.e < -4 \/ s.e >= p
       THEN Sgn1(neg) \o NoTrail(Pointed(ZeroPad(Dec(s.m), p), p - 1)) \o <<101>> \o ExpStr(s.e, 2)
       ELSE NoTrail(Fixed(x, neg, p - 1 - s.e, dir))
HexNum(x, neg, p, dir) ==               \* p = 0: as many digits as needed
   LET X == IF x[3][1] = 0 THEN 0 ELSE Mag16(x)
       need == IF x[3][1] = 0 THEN 0 ELSE (IF x[2] - 4 * X >= 0 THEN 0 ELSE (4 * X - x[2] + 3) \div 4)
       k == IF p = 0 THEN need ELSE p
       s == Sig(x, 16, k, dir)
   IN  Sgn1(neg) \o <<48, 120>> \o Pointed(ZeroPad(Hex(s.m), k + 1), k) \o <<112>> \o ExpStr(4 * s.e, 1)

(* x a number or infinity; neg tells the sign of a zero *)
NumText(st, x, neg0, dir) ==
   LET neg == Sgn(x) < 0 \/ (x = DZero /\ neg0)
       p == IF st.prec = 0 THEN 6 ELSE st.prec
       s == IF IsInf(x) THEN Sgn1(neg) \o W_inf
            ELSE CASE st.num = 1 -> Fixed(x, neg, p, dir)
                   [] st.num = 2 -> Sci(x, neg, p, dir)
                   [] st.num = 3 -> HexNum(x, neg, st.prec, dir)
                   [] OTHER -> Gen(x, neg, p, dir)
   IN  PadLeft(Cased(st, s), st.width)

(* ---- intervals ----------------------------------------------------------------- *)
(* uncertain form; z: zeros written with a minus sign, lower bound, upper bound, midpoint *)
UncertainText(F, st, x, z) ==
   LET p == IF st.prec = 0 THEN 6 ELSE st.prec
       ex == st.uexp = 1
       digits(v, dir) == IF ex THEN Sig(v, 10, p, dir) ELSE [m |-> Scaled(v, 10, p, dir), e |-> 0]
       head(s, neg) == Sgn1(neg) \o Pointed(ZeroPad(Dec(s.m), p + 1), p)
       tail(s) == IF ex THEN <<101>> \o ExpStr(s.e, 2) ELSE <<>>
       m == Mid(F, x)
       sl == digits(x[1], "d")  su == digits(x[2], "u")  sm == digits(m, "n")
       sv(s, v) == IF Sgn(v) < 0 THEN BNeg(s.m) ELSE s.m
       \* in units of the last digit of c, outward
       low(c)  == LET k == sl.e - c.e  v == sv(sl, x[1])
                  IN  IF k >= 0 THEN BMul(v, BPow(BOfInt(10), k)) ELSE BDiv(v, BPow(BOfInt(10), -k))
       high(c) == LET k == su.e - c.e  v == sv(su, x[2])
                  IN  IF k >= 0 THEN BMul(v, BPow(BOfInt(10), k)) ELSE BNeg(BDiv(BNeg(v), BPow(BOfInt(10), -k)))
       nl == Sgn(x[1]) < 0 \/ (x[1] = DZero /\ z[1] = 1)
       nu == Sgn(x[2]) < 0 \/ (x[2] = DZero /\ z[2] = 1)
       maxB(a, b) == IF BCmp(a, b) >= 0 THEN a ELSE b
       rad(c, v) == LET cv == sv(c, v) IN Dec(maxB(BSub(cv, low(c)), BSub(high(c), cv)))
       s == CASE x = Entire -> head(digits(DZero, "n"), FALSE) \o <<63, 63>> \o tail(digits(DZero, "n"))
              [] x[1] = NInf -> head(su, nu) \o <<63, 63, 100>> \o tail(su)
              [] x[2] = PInf -> head(sl, nl) \o <<63, 63, 117>> \o tail(sl)
              [] st.form = 1 -> head(sm, Sgn(m) < 0 \/ (m = DZero /\ z[3] = 1)) \o <<63>> \o rad(sm, m) \o tail(sm)
              [] st.form = 2 -> head(sl, nl) \o <<63>> \o rad(sl, x[1]) \o <<117>> \o tail(sl)
              [] OTHER -> head(su, nu) \o <<63>> \o rad(su, x[2]) \o <<100>> \o tail(su)
   IN  PadLeft(Cased(st, s), st.swidth)

(* parts 1 to n put together; the missing width is split between the gaps *)
Max0(n) == IF n > 0 THEN n ELSE 0
Framed(st, p1, p2, p3, p4, p5) ==
   LET w == Max0(st.swidth - Len(p1) - Len(p2) - Len(p3) - Len(p4) - Len(p5))
   IN  p1 \o Blanks(w \div 2) \o p2 \o p3 \o Blanks(w - w \div 2) \o p4 \o p5
Open(st) == IF st.nopunct = 1 THEN <<>> ELSE <<91>>
Close(st) == IF st.nopunct = 1 THEN <<>> ELSE <<93>>
Comma(st) == IF st.nopunct = 1 THEN <<32>> ELSE <<44>>
(* blanks around a word that stands for two numbers and a comma *)
Around(st, w) == LET n == Len(w) - 1 IN <<Blanks(st.width - n \div 2), Blanks(st.width - (n - n \div 2))>>

BareText(F, st, x, z) ==
   IF st.form # 0 /\ ~IsEmpty(x) THEN UncertainText(F, st, x, z)
   ELSE IF (IsEmpty(x) \/ x = Entire) /\ st.special # 1
   THEN LET w == IF st.special = 2 /\ st.nopunct = 0 THEN (IF IsEmpty(x) THEN <<32>> ELSE <<44>>)
                 ELSE Cased(st, IF IsEmpty(x) THEN W_empty ELSE W_entire)
            b == Around(st, w)
        IN  Framed(st, Open(st), b[1], w, b[2], Close(st))
   ELSE IF IsEmpty(x) THEN Framed(st, Open(st), NumText(st, PInf, FALSE, "d"), Comma(st), NumText(st, NInf, FALSE, "u"), Close(st))
   ELSE Framed(st, Open(st), NumText(st, x[1], z[1] = 1, "d"), Comma(st), NumText(st, x[2], z[2] = 1, "u"), Close(st))

DecWord(d) == CASE d = 0 -> DecWords.ill [] d = 4 -> DecWords.trv [] d = 8 -> DecWords.def
                [] d = 12 -> DecWords.dac [] d = 16 -> DecWords.com
DecText(st, d) == IF st.decnum = 1 THEN Dec(BOfInt(d)) ELSE Cased(st, DecWord(d))

DecoratedText(F, st, x, z) ==
   IF IsNaI(x)
   THEN LET w == Cased(st, W_nai)
            b == Around(st, w)
            g == Max0(st.swidth - Len(Open(st)) - Len(Close(st)) - Len(b[1]) - Len(b[2]) - Len(w))
        IN  Open(st) \o b[1] \o Blanks(g \div 2) \o w \o Blanks(g - g \div 2) \o b[2] \o Close(st)
   ELSE IF IsEmpty(Bare(x)) THEN BareText(F, st, Empty, z)
   ELSE LET d == (IF st.nopunct = 1 THEN <<32>> ELSE <<95>>) \o DecText(st, x[3])
        IN  BareText(F, [st EXCEPT !.swidth = @ - Len(d)], Bare(x), z) \o d

OverlapWords == <<
   <<98, 111, 116, 104, 95, 101, 109, 112, 116, 121>>,
   <<102, 105, 114, 115, 116, 95, 101, 109, 112, 116, 121>>,
   <<115, 101, 99, 111, 110, 100, 95, 101, 109, 112, 116, 121>>,
   <<98, 101, 102, 111, 114, 101>>,
   <<109, 101, 101, 116, 115>>,
   <<111, 118, 101, 114, 108, 97, 112, 115>>,
   <<115, 116, 97, 114, 116, 115>>,
   <<99, 111, 110, 116, 97, 105, 110, 101, 100, 95, 98, 121>>,
   <<102, 105, 110, 105, 115, 104, 101, 115>>,
   <<101, 113, 117, 97, 108>>,
   <<102, 105, 110, 105, 115, 104, 101, 100, 95, 98, 121>>,
   <<99, 111, 110, 116, 97, 105, 110, 115>>,
   <<115, 116, 97, 114, 116, 101, 100, 95, 98, 121>>,
   <<111, 118, 101, 114, 108, 97, 112, 112, 101, 100, 95, 98, 121>>,
   <<109, 101, 116, 95, 98, 121>>,
   <<97, 102, 116, 101, 114>>>>
W_undefined == <<117, 110, 100, 101, 102, 105, 110, 101, 100>>
RECURSIVE Log2(_)
LOCAL Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
OverlapText(st, o) == IF st.ovlnum = 1 THEN Dec(BOfInt(o))
                      ELSE Cased(st, IF o = 0 THEN W_undefined ELSE OverlapWords[Log2(o) + 1])

(* ------------------------------------------------------------------------ *)
(* What a written text denotes.  Without brackets the words of the text are   *)
(* the parts of a literal.  The bounds of the empty set are not a literal.    *)
(* ------------------------------------------------------------------------ *)
WordEnd(t, i) == IF \E j \in i..Len(t) : t[j] \in Space THEN CHOOSE j \in i..Len(t) : t[j] \in Space /\ \A k \in i..(j - 1) : t[k] \notin Space
                 ELSE Len(t) + 1
RECURSIVE WordsAt(_, _)
WordsAt(t, i0) == LET i == SkipWs(t, i0) IN
                  IF i > Len(t) THEN <<>> ELSE <<SubSeq(t, i, WordEnd(t, i) - 1)>> \o WordsAt(t, WordEnd(t, i))
Words(t) == WordsAt(t, 1)
RECURSIVE Concat(_)
Concat(w) == IF w = <<>> THEN <<>> ELSE w[1] \o Concat(Tail(w))
MinusInf == <<45>> \o W_inf
EmptyBounds(st, k, x) == st.special = 1 /\ IsEmpty(Bare(x)) /\ ~(k = 1 /\ IsNaI(x))
Readable(st, k, x) == st.nopunct = 0 /\ ~EmptyBounds(st, k, x)
Literal(st, k, x, t) ==
   IF EmptyBounds(st, k, x)
   THEN LET w == Words(Lower(t))
            \* (padding is allowed everywhere)
            s == IF st.nopunct = 1 THEN IF w = <<W_inf, MinusInf>> THEN W_empty ELSE <<0>>
                 ELSE IF Concat(w) = <<91>> \o W_inf \o <<44>> \o MinusInf \o <<93>> THEN W_empty ELSE <<0>>
        IN  <<91>> \o s \o <<93>>
   ELSE IF st.nopunct = 0 THEN t
   ELSE LET w == Words(t)
            deco == k = 1 /\ ~IsEmpty(Bare(x))
            n == Len(w) - (IF deco THEN 1 ELSE 0)
            body == IF n = 1 THEN IF st.form # 0 /\ ~IsEmpty(Bare(x)) THEN w[1] ELSE <<91>> \o w[1] \o <<93>>
                    ELSE IF n = 2 THEN <<91>> \o w[1] \o <<44>> \o w[2] \o <<93>> ELSE <<0>>
        IN  IF deco /\ n >= 1 THEN body \o <<95>> \o w[n + 1] ELSE body

Encloses(y, x) == IsEmpty(x) \/ (~IsEmpty(y) /\ Le(y[1], x[1]) /\ Le(x[2], y[2]))
(* far finer than the digits that are written *)
Fine == [p |-> 3000, emin |-> -200000, emax |-> 200000]
(* The text t written for x denotes an interval that contains x, with the      *)
(* decoration of x; hexadecimal output without a precision denotes x itself.   *)
(* back: what the library reads from it, <<success, value>>                    *)
DenotesOk(F, st, k, x, t, back) ==
   LET b == IF k = 1 THEN Bare(x) ELSE x
       d == ReadAll(Fine, Literal(st, k, x, t))
       r == ReadAll(F, t)
       exact == st.num = 3 /\ st.prec = 0 /\ (st.form = 0 \/ IsEmpty(b))
   IN  /\ d.ok
       /\ (k = 1) => ((d.x = NaI) = IsNaI(x) /\ d.x[3] = x[3])
       /\ Encloses(Bare(d.x), b) /\ (IsEmpty(b) => IsEmpty(Bare(d.x)))
       /\ exact => Bare(d.x) = b
       /\ Readable(st, k, x) =>
             /\ back[1] = 1
             /\ back[2] = IF k = 1 THEN r.x ELSE Bare(r.x)
             /\ Encloses(Bare(back[2]), b) /\ (IsEmpty(b) => IsEmpty(Bare(back[2])))
             /\ exact => back[2] = x

(* ------------------------------------------------------------------------ *)
(* All texts for x: the sign of a zero is not specified in the uncertain forms *)
(* ------------------------------------------------------------------------ *)
Signs(x) == {z \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>} :
               (z[1] = 1 => x[1] = DZero) /\ (z[2] = 1 => x[2] = DZero)}
TextOk(F, st, k, x, t) ==
   IF k = 2 THEN t = DecText(st, x)
   ELSE IF k = 3 THEN t = OverlapText(st, x)
   ELSE IF ~(IF k = 1 THEN ValidDec(x) ELSE ValidBare(x)) THEN t = <<>>
   ELSE LET text(z) == IF k = 1 THEN DecoratedText(F, st, x, z) ELSE BareText(F, st, x, z)
        IN  t = text(<<1, 0, 0>>) \/ (\E z \in Signs(x) : t = text(z))
=============================================================================
