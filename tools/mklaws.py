#!/usr/bin/env python3
"""Writes spec/laws/: the TLC configurations of the design models Laws, SetLaws and
PeriodicLaws for each property (Q: quick, T: thorough)."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "laws")
os.makedirs(D, exist_ok=True)
UN = "UnaryTight DoubleRounding Isotonic DecDefined DecContinuous DecBounded"
BI = "UnaryTight BinaryTight DoubleRounding Isotonic DecDefined DecBounded"
FN = {
 "P01": ("neg pos recip sqr sqrt add sub mul div", BI),
 "P02": ("pown pow", BI),
 "P03": ("exp exp2 exp10 log log2 log10", UN),
 "P04": ("sin cos tan asin acos atan atan2", BI),
 "P05": ("sinh cosh tanh asinh acosh atanh", UN),
 "P06": ("sign ceil floor trunc rte rta abs min max", BI + " DecContinuous StepMeaning"),
}
SET = {
 "P08": "RelMeaning PredMeaning", "P09": "OverlapUnique OverlapConverse OverlapRel", "P10": "SetMeaning",
 "P11": "NumMeaning", "P14": "CancelMeaning", "P15": "PairMeaning", "P16": "RevMeaning MulRevMeaning",
}
def w(name, fmt, fns, inv, extra=""):
    open(os.path.join(D, name + ".cfg"), "w").write(
        'CONSTANTS G = "%s"\n Fns = {%s}\n%sSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
        % (fmt, ",".join('"%s"' % f for f in fns.split()), extra, inv))
for p, (f, inv) in FN.items():
    un = p in ("P03", "P05")
    w(p + "Q", "u" if un else "w", f, inv)
    w(p + "T", "t" if un else "u", f, inv)
for p, inv in SET.items():
    f = "sqr abs pown cosh add" if p == "P16" else "" if p == "P11" else "add"
    w(p + "Q", "u" if p == "P11" else "w", f, inv)
    w(p + "T", "t" if p == "P11" else "u", f, inv)
w("P13Q", "u", "", "ConvMeaning")
w("P13T", "u", "add mul div", "ConvMeaning DoubleRounding")
w("P17Q", "w", "add", "PeriodicSound PeriodicUp", " Args <- SmallIvs\n")
w("P17T", "w", "add", "PeriodicSound PeriodicUp")
TXT = """CONSTANTS G = "u"
 Used <- FewNums
 Forms = {0, 1, 2, 3}
 Nums10 = {%s}
 Precs = {%s}
 Widths = {%s}
 SWidths = {%s}
SPECIFICATION Spec
INVARIANTS Denotes DenotesBare Width PadOnly CaseOnly Short Finer
CHECK_DEADLOCK FALSE
"""
open(os.path.join(D, "P20Q.cfg"), "w").write(TXT % ("0, 3", "0, 1", "7", "25"))
open(os.path.join(D, "P20T.cfg"), "w").write(TXT % ("0, 1, 2, 3", "0, 1, 3", "0, 7", "0, 25"))
for k, n in (("Q", 3), ("T", 4)):
    open(os.path.join(D, "P19%s.cfg" % k), "w").write("""CONSTANTS G = "t"
 Depth = %d
SPECIFICATION Spec
INVARIANTS Rounding Valid CaseFree BlankFree Inside Closed Decorated Split Mirrored Hulls Grows
CHECK_DEADLOCK FALSE
""" % n)
