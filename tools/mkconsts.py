"""Writes spec/Consts.tla: fixed point literals of pi, ln 2 and ln 10.
ConstCheck.tla recomputes every literal from its series inside TLC."""
import mpmath
def limbs(n):
    r=[]
    while n: r.append(n & 32767); n >>= 15
    return r
def lit(n):
    return "<<1," + ",".join(map(str, limbs(n))) + ">>"
def wrap(s):
    out=[];line=""
    for part in s.replace(",", ", ").split(" "):
        if len(line)+len(part)>100: out.append(line); line="     "
        line += " "+part if line.strip() else line+part if not line else line+part
    out.append(line); return "\n".join(out)
CW, HW = 2400, 17600
mpmath.mp.prec = HW + 200
def fx(v, w): return int(mpmath.floor(mpmath.ldexp(v, w)))
pi, l2, l10 = +mpmath.pi, mpmath.log(2), mpmath.log(10)
with open("/verif/spec/Consts.tla", "w") as f:
    f.write("------------------------------- MODULE Consts -------------------------------\n"
"(* Generated by tools/mkconsts.py.  floor(pi 2^HW), floor(pi 2^CW),            *)\n"
"(* floor(ln(2) 2^CW), floor(ln(10) 2^CW) as BigInts; ConstCheck.tla recomputes *)\n"
"(* them from their series.                                                     *)\n")
    f.write("CW == %d\nHW == %d\n" % (CW, HW))
    for nm, v in (("PiHuge", fx(pi,HW)),("PiC",fx(pi,CW)),("Ln2C",fx(l2,CW)),("Ln10C",fx(l10,CW))):
        f.write("%s ==\n" % nm + wrap("  " + lit(v)) + "\n")
    f.write("=============================================================================\n")
