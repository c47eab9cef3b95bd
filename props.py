# What the check of each property runs.
def D(src, **k):
    d = {"src": src}; d.update(k); return d

PROPS = {
    "P01": {"drivers": [D("p_arith.cpp")]},
}
for p in ("P02", "P03", "P04", "P05", "P06"):
    PROPS[p] = {"drivers": [D("p_fun.cpp", flags=["-O0", "-D" + p])]}
for p in ("P14", "P15", "P16", "P17"):
    PROPS[p] = {"drivers": [D("p_rev.cpp", flags=["-O0", "-D" + p])]}
for p in ("P08", "P09", "P10", "P11"):
    PROPS[p] = {"drivers": [D("p_bool.cpp", flags=["-O0", "-D" + p])]}
PROPS["P07"] = {"drivers": [D("p_dec.cpp", flags=["-O0", "-DPART=%d" % i], tag="_%d" % i, shards=3) for i in range(3)]}
PROPS["P13"] = {"drivers": [D("p_mixed.cpp", flags=["-O0", "-DPART=%d" % i], tag="_%d" % i, shards=1) for i in range(8)]}
PROPS["P12"] = {"drivers": [D("p_ctor.cpp")], "flags": True}
PROPS["P18"] = {"drivers": [D("p_red.cpp")]}
PROPS["P19"] = {"flags": True, "drivers": [D("p_text.cpp")]}
PROPS["P20"] = {"drivers": [D("p_out.cpp")]}
PROPS["P23"] = {"flags": True, "drivers": [D("p_flags.cpp", flags=["-O0", "-DPART=%d" % i], tag="_%d" % i, shards=1) for i in range(8)]}
PROPS["P24"] = {"drivers": [D("p_ctx.cpp", flags=["-O0", "-DPART=%d" % i], tag="_%d" % i, shards=1) for i in range(9)]}
PROPS["P22"] = {"trace": "ExcTrace", "whole": True,
    "models": [{"module": "Exc", "cfg": "Exc.cfg", "thorough_cfg": "ExcThorough.cfg"}],
    "scenarios": [{"module": "Exc", "cfg": "ExcSim.cfg", "out": "scenarios.txt",
                   "args": ["-simulate", "num=200", "-depth", "43", "-seed", "@"],
                   "args_thorough": ["-simulate", "num=4000", "-depth", "43", "-seed", "@"]}],
    "drivers": [D("p_exc.cpp", more=["p_exc2.cpp"], env={"SCENARIOS": "@/scenarios.txt"})]}
PROPS["P21"] = {"trace": "ManipTrace", "whole": True,
    "models": [{"module": "Manip", "cfg": "Manip.cfg"}],
    "scenarios": [{"module": "Manip", "cfg": "ManipSim.cfg", "out": "scenarios.txt",
                   "args": ["-simulate", "num=400", "-depth", "63", "-seed", "@"],
                   "args_thorough": ["-simulate", "num=4000", "-depth", "63", "-seed", "@"]}],
    "drivers": [D("p_manip.cpp", more=["p_manip2.cpp"], env={"SCENARIOS": "@/scenarios.txt"})]}
# design models: the contract against the points of the operands, on tiny formats (tools/mklaws.py)
for p in PROPS:
    mod = "Laws" if p <= "P06" else "SetLaws" if p in ("P08", "P09", "P10", "P11", "P13", "P14", "P15", "P16") else "PeriodicLaws" if p == "P17" else None
    if mod:
        PROPS[p]["models"] = [{"module": mod, "cfg": "laws/%sQ.cfg" % p, "thorough_cfg": "laws/%sT.cfg" % p}]
PROPS["P19"]["models"] = [{"module": "LitLaws", "cfg": "laws/P19Q.cfg", "thorough_cfg": "laws/P19T.cfg"}]
PROPS["P20"]["models"] = [{"module": "TextLaws", "cfg": "laws/P20Q.cfg", "thorough_cfg": "laws/P20T.cfg"}]
PROPS["P24"]["models"] = [{"module": "Env", "cfg": "Env.cfg", "thorough_cfg": "EnvThorough.cfg"}] + \
    [{"module": "Env", "cfg": "Env%s.cfg" % k, "negative": True} for k in ("NoInstall", "Shared")]
PROPS["P07"]["models"] = [{"module": "DecChain", "cfg": "DecChainQ.cfg", "thorough_cfg": "DecChainT.cfg"}]
NOTES = {}
