#!/usr/bin/env python3
"""Are the design models vacuous?  Each entry changes one definition of the specification in a scratch
copy; the model of the property has to find a counterexample.   spec_mutants.py [property ...]"""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
M = [  # property, file, old, new
 ("P01", "Interval", "Hull(F, r) == IF r[1] = <<>> THEN Empty ELSE <<MinTermD", "Hull(F, r) == IF r[1] = <<>> THEN Empty ELSE <<MinTermU_"),
 ("P01", "Interval", "MinX(TermD(F, s[i]), MinTermD(F, s, i + 1))", "MaxX(TermD(F, s[i]), MinTermD(F, s, i + 1))"),
 ("P01", "Interval", "MulC(x, y) == <<L(Mul(x[1], y[1])), L(Mul(x[1], y[2])),", "MulC(x, y) == <<L(Mul(x[1], y[1])), L(Mul(x[1], y[1])),"),
 ("P01", "Interval", "IF b = DZero THEN (IF Sgn(a) = 0 THEN <<L(DZero)>> ELSE", "IF b = DZero THEN (IF Sgn(a) >= 0 THEN <<L(DZero)>> ELSE"),
 ("P01", "Interval", 'LET c == <<L(Mul(x[1], x[1])), L(Mul(x[2], x[2]))>>\n                               IN  Rg(IF Zero(x)', 'LET c == <<L(Mul(x[1], x[1])), L(Mul(x[2], x[2]))>>\n                               IN  Rg(IF FALSE'),
 ("P02", "Interval", "sg == IF n % 2 = 0 THEN 1", "sg == IF TRUE THEN 1"),
 ("P02", "Interval", "IN  IF n % 2 = 1 THEN Rg(<<c[1]>>, <<c[2]>>)", "IN  IF n % 2 = 0 THEN Rg(<<c[1]>>, <<c[2]>>)"),
 ("P02", "Interval", "ELSE <<PowAt(x[1], y[2]), PowAt(x[2], y[1])>>", "ELSE <<PowAt(x[1], y[2])>>"),
 ("P03", "Interval", '[] fn \\in Increasing -> Rg(<<T1(fn, x[1])>>, <<T1(fn, x[2])>>)', '[] fn \\in Increasing -> Rg(<<T1(fn, x[1])>>, <<T1(fn, x[1])>>)'),
 ("P04", "Interval", 'top == HasM(x, IF fn = "sin" THEN 1 ELSE 0, 4)', 'top == HasM(x, IF fn = "sin" THEN 1 ELSE 2, 4)'),
 ("P04", "Interval", "MHi(x) == Quad(x[2])", "MHi(x) == BSub(Quad(x[2]), BOne)"),
 ("P04", "Interval", "Sgn(x[1]) < 0 /\\ Sgn(y[1]) < 0 /\\ Sgn(y[2]) >= 0", "Sgn(x[1]) < 0 /\\ Sgn(y[1]) < 0 /\\ Sgn(y[2]) > 0"),
 ("P05", "Interval", "IF Le(Abs(x[1]), Abs(x[2])) THEN <<T1(fn, x[2])>> ELSE <<T1(fn, x[1])>>)", "<<T1(fn, x[2])>>)"),
 ("P06", "Interval", "up == c > 0 \\/ (c = 0 /\\ (~even", "up == c >= 0 \\/ (c = 0 /\\ (~even"),
 ("P06", "Interval", "THEN (IF StepAt(op, x[1]) # StepAt(op, x[2]) THEN Def ELSE Com)", "THEN Com"),
 ("P07", "Interval", "THEN Com ELSE MinI(xs[i][3], MinDec(xs, i + 1))", "THEN Com ELSE MinI(xs[Len(xs)][3], MinDec(xs, i + 1))"),
 ("P07", "Interval", "                               DecCap(r))>>", "                               Com)>>"),
 ("P07", "Interval", 'IN CASE op \\in Steps -> IF StepAt(op, x[1])', 'IN CASE op = "log" -> Com [] op \\in Steps -> IF StepAt(op, x[1])'),
 ("P08", "Interval", '[] op = "interior" -> ex \\/ (~ey /\\ LtInf(y[1], x[1], NInf)', '[] op = "interior" -> ex \\/ (~ey /\\ Lt(y[1], x[1])'),
 ("P08", "Interval", '[] op = "precedes" -> ex \\/ ey \\/ Le(x[2], y[1])', '[] op = "precedes" -> ex \\/ ey \\/ Lt(x[2], y[1])'),
 ("P09", "Interval", None, None),
 ("P10", "Interval", "SetOp(F, op, x, y) == Conv(F, IF op = \"intersection\" THEN Meet(x, y) ELSE Join(x, y))", "SetOp(F, op, x, y) == Conv(F, IF op = \"intersection\" THEN Meet(x, y) ELSE IF IsEmpty(x) THEN Empty ELSE Join(x, y))"),
 ("P11", "Interval", "ELSE LET m == Mid(F, x) IN RU(F,", "ELSE LET m == Mid(F, x) IN RN(F,"),
 ("P11", "Interval", "LET m == RN(F, DScale(DAdd(x[1], x[2]), -1))", "LET m == RD(F, DScale(DAdd(x[1], x[2]), -1))"),
 ("P13", "Interval", "Conv(F, x) == IF IsEmpty(x) THEN Empty ELSE <<RD(F, x[1]), RU(F, x[2])>>", "Conv(F, x) == IF IsEmpty(x) THEN Empty ELSE <<RD(F, x[1]), RN(F, x[2])>>"),
 ("P14", "Interval", "ELSE IF DCmp(DSub(x[2], x[1]), DSub(y[2], y[1])) < 0 THEN Entire", "ELSE IF DCmp(RU(F, DSub(x[2], x[1])), RU(F, DSub(y[2], y[1]))) < 0 THEN Entire"),
 ("P14", "Interval", "IF IsEmpty(x) THEN (IF IsEmpty(y) \\/ IsCommon(y) THEN Empty ELSE Entire)", "IF IsEmpty(x) THEN Empty"),
 ("P15", "Interval", "ELSE IF Sgn(c[1]) > 0 THEN <<rn, rp>> ELSE <<rp, rn>>", "ELSE <<rn, rp>>"),
 ("P15", "Interval", "ELSE IF Zero(b) /\\ Zero(c) THEN", "ELSE IF Zero(b) /\\ In(DZero, <<c[1], c[2]>>) /\\ Sgn(c[1]) < 0 THEN"),
 ("P16", "Interval", "TermCmp(a, x[2]) > 0 \\/ TermCmp(b, x[1]) < 0 THEN Empty", "TermCmp(a, x[2]) >= 0 \\/ TermCmp(b, x[1]) < 0 THEN Empty"),
 ("P16", "Interval", "PosRoots(c, n) == IF n > 0 THEN", "PosRoots(c, n) == IF TRUE THEN"),
 ("P16", "Interval", "IF Len(s) >= 2 THEN part(2) ELSE Empty)", "Empty)"),
 ("P19", "Text", "RatRU(F, q) == RU(F,", "RatRU(F, q) == RN(F,"),
 ("P19", "Text", "IF far THEN FarExp ELSE BToInt(b)", "IF far THEN 0 ELSE BToInt(b)"),
 ("P19", "Text", "lo == IF dir = 117 THEN RatRD(F, at(c))", "lo == IF dir = 117 THEN RatRD(F, at(BSub(c, r)))"),
 ("P20", "Format", "NumText(st, x[1], z[1] = 1, \"d\"), Comma(st)", "NumText(st, x[1], z[1] = 1, \"n\"), Comma(st)"),
 ("P20", "Format", "maxB(BSub(cv, low(c)), BSub(high(c), cv))", "BSub(high(c), cv)"),
 ("P20", "Format", "need == IF x[3][1] = 0 THEN 0 ELSE (IF x[2] - 4 * X >= 0", "need == IF x[3][1] = 0 THEN 0 ELSE (IF x[2] - 4 * X >= -1"),
 ("P21", "Manip", '[] e.a = "copy" -> [st EXCEPT ![e.s] = st[e.v]]', '[] e.a = "copy" -> [st EXCEPT ![e.v] = st[e.s]]'),
 ("P21", "Manip", 'CASE e.a = "set" -> [st EXCEPT ![e.s][e.f] = e.v]', 'CASE e.a = "set" -> [s \\in DOMAIN st |-> [st[s] EXCEPT ![e.f] = e.v]]'),
 ("P22", "Exc", "<<f \\cup {e.c}, c, {e.c} \\cap c>>", "<<{e.c}, c, {e.c} \\cap c>>"),
 ("P22", "Exc", "flags' = [flags EXCEPT ![e.t] = r[1]]", "flags' = [t \\in Threads |-> r[1]]"),
]
def one(run, i, m):
    prop, f, old, new = m
    d = os.path.join(run.dir, "s%d" % i); shutil.copytree(check.SPEC, d)
    p = os.path.join(d, f + ".tla"); s = open(p).read()
    if old is None:      # overlap states: a shared lower bound
        t = s.replace("starts       |-> ~ee /\\ a = c /\\ Lt(b, d)", "starts       |-> ~ee /\\ a = c /\\ Le(b, d)")
        if t == s: return m, "PATTERN"
    else:
        if s.count(old) != 1: return m, "PATTERN %d" % s.count(old)
        t = s.replace(old, new.replace("MinTermU_", "MaxTermU"))
    open(p, "w").write(t)
    c = check.PROPS[prop]["models"][0]
    meta = os.path.join(d, "meta")
    cmd = ["java", "-Xss512m", "-Xmx2g", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigIntOverrides", "-cp",
           ":".join([check.TLAJAR, check.CMJAR, run.cls]), "tlc2.TLC", "-workers", "2", "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(d, c["cfg"]), os.path.join(d, c["module"] + ".tla")]
    rc, out = check.sh(cmd, 600, cwd=d)
    r = re.search(r"Invariant (\w+) is violated|Action property (\w+)|(Evaluating invariant \w+ failed)|(No error has been found)", out)
    shutil.rmtree(d)
    return m, (r.group(0) if r else "?? " + out[-300:])
run = check.Run("P01", "quick", 1)
try:
    run.javac()
    sel = [m for m in M if not sys.argv[1:] or m[0] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(4) as ex:
        for m, r in ex.map(lambda a: one(run, *a), enumerate(sel)):
            print(m[0], r, "|", (m[2] or "")[:70].replace("\n", " "), flush=True)
finally: shutil.rmtree(run.dir)
