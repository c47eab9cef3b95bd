#!/usr/bin/env python3
"""One table of literal heads and tokens, written as a TLA+ module (spec/LitTokens.tla) and as a C++
header (driver/littokens.hpp): the states of LitLaws are the texts that the driver reads."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
GROUPS = [
 ("bounds",    ["["], ["1", "2.5", "-", "+", ",", "]", "inf", " ", "/"]),
 ("uncertain", ["1", "-2.5", "+3.", ".", ""], ["?", "7", "u", "d", "e", "-", "0", "_com"]),
 ("hex",       ["[0x", "[-0X", "[0x1p2,"], ["1", "a.", "p", "P-", "3", "0x", "]", ","]),
 ("deco",      ["[1,2]", "[.5]", "[ ]", "[empty", "[nai", "[entire", "5?", "[1,inf]", "5??", "[-1e9,1/3]", "7??u"],
               ["]", "_", "com", "dac", "trv", "def", "ill", "4", "16", " ", "0"]),
 ("expo",      ["[", "[-1e"], ["1", "e", "E+", "-", ".", "0", "]"]),
]
def q(s): return "<<" + ", ".join(str(ord(c)) for c in s) + ">>"
with open(os.path.join(R, "spec/LitTokens.tla"), "w") as f:
    f.write("----------------------------- MODULE LitTokens ------------------------------\n"
            "(* written by tools/mklits.py: heads and tokens of the enumerated literals *)\n"
            "Groups == {" + ", ".join('"%s"' % g for g, h, t in GROUPS) + "}\n")
    for name, k in (("Heads", 1), ("Tokens", 2)):
        f.write("%s(g) == CASE " % name + "\n     [] ".join('g = "%s" -> {%s}' % (g[0], ", ".join(q(s) for s in g[k])) for g in GROUPS) + "\n")
    f.write("=============================================================================\n")
with open(os.path.join(R, "driver/littokens.hpp"), "w") as f:
    f.write("// written by tools/mklits.py\nstruct LitGroup { std::vector<std::string> heads, tokens; };\n"
            "static std::vector<LitGroup> const lit_groups = {\n")
    for g, h, t in GROUPS:
        f.write("    { { %s }, { %s } },\n" % (", ".join('"%s"' % s for s in h), ", ".join('"%s"' % s for s in t)))
    f.write("};\n")
