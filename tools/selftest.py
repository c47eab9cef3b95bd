#!/usr/bin/env python3
"""Corrupted events: records a trace of every property's driver, changes one thing in a sample of
its events, and counts how many of the corrupted events the specification rejects.

  selftest.py [P01 ...]      (development tool; no registered check uses it)"""
import json, os, random, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check, shutil

def leaves(v, path=()):
    if isinstance(v, list):
        for i, w in enumerate(v): yield from leaves(w, path + (i,))
    elif isinstance(v, int): yield path
def bump(v, path, rnd):
    w = v
    for i in path[:-1]: w = w[i]
    if len(path) > 1 and path[-2:] == (2, 0) and w[0] in (-1, 1): w[0] = -w[0]   # the sign of a number
    else: w[path[-1]] += rnd.choice((-1, 1))
def corrupt(ev, kind, rnd):
    ev = json.loads(json.dumps(ev))
    if kind == "result":
        p = list(leaves(ev["r"]))
        if not p: return None
        box = [ev["r"]]
        bump(box, (0,) + rnd.choice(p), rnd); ev["r"] = box[0]
    elif kind == "text":
        if "st" not in ev or not ev.get("txt"): return None
        i = rnd.randrange(len(ev["txt"])); ev["txt"][i] = 57 if ev["txt"][i] != 57 else 56
    elif kind == "flag": ev["fl"] ^= 1 << rnd.randrange(4)
    elif kind == "thrown": ev["ex"] = 32 if ev["ex"] == 0 else 0
    return ev

for prop in sys.argv[1:] or [p for p in sorted(check.PROPS) if not check.PROPS[p].get("whole")]:
    run = check.Run(prop, "quick", 1)
    try:
        run.version_header(); run.dictionary(); run.javac()
        d = run.conf["drivers"][0]; exe = run.compile(d)
        t = os.path.join(run.dir, "t.ndjson")
        rc, out = run.record(exe, dict(d, shards=8, scale=0.3), 1, t, 600)
        evs = [json.loads(l) for l in open(t)]
        rnd = random.Random(7); rnd.shuffle(evs)
        res = []
        for kind in ("result", "text", "flag", "thrown"):
            if kind == "flag" and not run.conf.get("flags"): continue
            bad = [c for c in (corrupt(e, kind, rnd) for e in evs[:400]) if c]
            if not bad: continue
            p = os.path.join(run.dir, kind)
            with open(p, "w") as f:
                for b in bad: f.write(json.dumps(b, separators=(",", ":")) + "\n")
            try:
                rej, _, _ = run.check_trace(p, 600)
                hit = {i for i, _ in rej}
                missed = [b for i, b in enumerate(bad, 1) if i not in hit]
                res.append("%s %d/%d" % (kind, len(hit), len(bad)))
                if os.environ.get("SHOW"):
                    for b in missed[:int(os.environ["SHOW"])]: print("   accepted:", json.dumps(b)[:400])
            except check.Broken as x: res.append("%s: %s" % (kind, str(x)[-int(os.environ.get("TAIL", 300)):]))
        print(prop, "; ".join(res), flush=True)
    finally: shutil.rmtree(run.dir, ignore_errors=True)
