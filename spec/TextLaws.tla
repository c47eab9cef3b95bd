------------------------------ MODULE TextLaws -------------------------------
(***************************************************************************)
(* What is written (Format) against what is read (Text): every decorated    *)
(* interval of a tiny format, every combination of stream settings.          *)
(***************************************************************************)
EXTENDS Format, TLC, FiniteSets

CONSTANTS G, Forms, Nums10, Precs, Widths, SWidths
F == Fmt(G)
RECURSIVE UpFrom(_, _)
UpFrom(X, v) == {v} \cup (IF v = MaxF(X) THEN {} ELSE UpFrom(X, Succ(X, v)))
NonNegs == UpFrom(F, DZero)
Nums == NonNegs \cup {Neg(v) : v \in NonNegs}
FewNums == {DInt(-6), DPow2(-2), DScale(DInt(-3), -2), DZero, DScale(DInt(3), -1)}      \* of the format u
Used == Nums                   \* bounds that occur; a configuration may take fewer
Ivs == {<<a, b>> \in (Used \cup {NInf}) \X (Used \cup {PInf}) : Le(a, b)} \cup {Empty}
DecIvs == {<<b[1], b[2], d>> : b \in Ivs, d \in {Trv, Def, Dac, Com}} \cup {NaI}
Legal(x) == x = NaI \/ x[3] <= DecCap(x)

VARIABLES x, st, phase
vars == <<x, st, phase>>
Init == x = NaI /\ st = DefaultSettings /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ x' \in {v \in DecIvs : Legal(v)} /\ UNCHANGED st
        \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED x
           /\ \E fo \in Forms, nu \in Nums10, pr \in Precs, wi \in Widths, sw \in SWidths, sp \in 0..2 :
                 \E up \in {0, 1}, np \in {0, 1}, ue \in IF fo = 0 THEN {0} ELSE {0, 1} :
                    st' = [DefaultSettings EXCEPT !.form = fo, !.num = nu, !.prec = pr, !.width = wi, !.swidth = sw,
                                                  !.special = sp, !.upper = up, !.nopunct = np, !.uexp = ue,
                                                  !.decnum = (IF up = 1 THEN 1 - np ELSE np)]
Spec == Init /\ [][Next]_vars

T(z) == DecoratedText(F, st, x, z)
TB(z) == BareText(F, st, Bare(x), z)
Zs == {<<0, 0, 0>>, <<1, 0, 0>>} \cap Signs(x) 
R(t) == ReadAll(F, t)

(* the text denotes an interval around x with the decoration of x, and can be read *)
Denotes == phase = 2 => \A z \in Zs : LET t == T(z) IN DenotesOk(F, st, 1, x, t, <<1, R(t).x>>)
DenotesBare == (phase = 2 /\ x # NaI) =>
   \A z \in Zs : LET t == TB(z) IN DenotesOk(F, st, 0, Bare(x), t, <<1, Bare(R(t).x)>>)
(* the requested widths are reached; nothing is cut off *)
Width == phase = 2 => /\ Len(T(<<1, 0, 0>>)) >= st.swidth
                      /\ (x # NaI) => Len(TB(<<1, 0, 0>>)) >= st.swidth
(* padding changes nothing but blanks *)
Unpad(t) == SelectSeq(t, LAMBDA c : c # 32)
PadOnly == phase = 2 => Unpad(T(<<1, 0, 0>>)) = Unpad(DecoratedText(F, [st EXCEPT !.width = 0, !.swidth = 0], x, <<1, 0, 0>>))
(* case changes nothing but case *)
CaseOnly == phase = 2 => Lower(T(<<1, 0, 0>>)) = Lower(DecoratedText(F, [st EXCEPT !.upper = 1 - @], x, <<1, 0, 0>>))
(* a number in d digits is at most one unit of the last of them away: the bound    *)
(* itself is written if it has no more digits (tiny numbers have few digits)        *)
Short == (phase = 2 /\ st.form = 0 /\ st.num \in {0, 1, 2} /\ (st.prec = 0 \/ st.prec >= 5) /\ Readable(st, 1, x)) =>
   Bare(ReadAll(Fine, T(<<1, 0, 0>>)).x) = Bare(x)
(* one digit more never gives a wider interval *)
Finer == (phase = 2 /\ st.prec \in 1..8 /\ Readable(st, 1, x)) =>
   Encloses(Bare(ReadAll(Fine, Literal(st, 1, x, T(<<1, 0, 0>>))).x),
            IF st.form # 0 THEN Bare(x)
            ELSE Bare(ReadAll(Fine, DecoratedText(F, [st EXCEPT !.prec = @ + 1], x, <<1, 0, 0>>)).x))
=============================================================================
