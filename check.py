#!/usr/bin/env python3
"""Decides one property: records traces of the library built from /repo's working tree and
checks them with TLC against the TLA+ specification in /verif/spec; also model-checks the
design-level modules of the property.

  check.py P01 [--tier quick|thorough] [--keep]

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; else: error."""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
sys.path.insert(0, HERE)
from props import PROPS

class Broken(Exception):
    pass

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = PROPS[prop]
        self.thorough = tier == "thorough"
        self.budget = 3 * 3600 if self.thorough else 600
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.cls = os.path.join(self.dir, "cls")
        self.tlc_n = 0
        self.unread = None
        self.states = self.trans = 0
        self.models = []

    # ---- building ---------------------------------------------------------
    def javac(self):
        os.makedirs(self.cls)
        rc, out = sh(["javac", "-cp", TLAJAR, "-d", self.cls, os.path.join(HERE, "java", "BigIntOverrides.java")], 300)
        if rc: raise Broken("javac failed:\n" + out)

    def version_header(self):
        d = os.path.join(self.dir, "inc", "p1788")
        os.makedirs(d)
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        txt = open(os.path.join(REPO, "p1788", "version.hpp.in")).read()
        for m in set(re.findall(r"@(\w+)@", txt)):
            v = re.search(r"set\s*\(\s*%s\s+\"?([\w.]+)\"?\s*\)" % m, cm, re.I)
            txt = txt.replace("@%s@" % m, v.group(1) if v else "0")
        open(os.path.join(d, "version.hpp"), "w").write(txt)

    def dictionary(self):
        """The numbers written in the sources: special values for the generators of arguments."""
        res = set()
        for f in glob.glob(os.path.join(REPO, "p1788", "**", "*.hpp"), recursive=True):
            txt = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\\n]|\\.)*\"", " ", open(f, errors="replace").read(), flags=re.S)
            txt = re.sub(r"^\s*#\s*(include|define|ifndef|endif)[^\n]*", " ", txt, flags=re.M)
            for m in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F.]+(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", txt):
                res.add(re.sub(r"^0[bB].*", "2", m))
        open(os.path.join(self.dir, "dict.txt"), "w").write("".join(x + "\n" for x in sorted(res)))

    def compile(self, drv):
        src = os.path.join(HERE, "driver", drv["src"])
        exe = os.path.join(self.dir, drv["src"].replace(".cpp", "") + drv.get("tag", ""))
        cmd = ["g++", "-std=c++11", "-w", "-I", REPO, "-I", os.path.join(self.dir, "inc"), "-I", os.path.join(HERE, "driver")]
        cmd += drv.get("flags", ["-O0"]) + [src] + [os.path.join(HERE, "driver", s) for s in drv.get("more", [])]
        cmd += ["-o", exe, "-Wl,-z,muldefs", "-lmpfr", "-lgmp", "-lpthread"]
        rc, out = sh(cmd, 600)
        if rc: raise Broken("cannot compile the driver:\n" + out[-4000:])
        return exe

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env, timeout, workers=1, heap="2g", extra=()):
        self.tlc_n += 1
        meta = os.path.join(self.dir, "meta_%d_%s" % (self.tlc_n, random.random()))
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-DTLA-Library=" + SPEC,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigIntOverrides",
               "-cp", ":".join([TLAJAR, CMJAR, self.cls]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout, env, cwd=self.dir)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def tlc_stats(self, out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m.group(2)), int(m.group(1))) if m else (0, 0)

    def check_trace(self, path, timeout):
        """-> list of (line number, expected)"""
        rc, out = self.tlc(self.conf.get("trace", "Trace"), self.conf.get("trace", "Trace") + ".cfg",
                           {"TRACE": path, "WITHFLAGS": "1" if self.conf.get("flags") else "0"}, timeout)
        if rc != 0 or "Model checking completed. No error" not in out:
            out = "\n".join(x for x in out.split("\n") if not re.match(r"Parsing|Semantic|Linting|\d+\. Line", x))
            # what was rejected before counts; if nothing was, there is no verdict
            self.unread = "TLC could not evaluate the trace %s (exit %s):\n%s" % (path, rc, out[:6000])
        s, t = self.tlc_stats(out)
        return [(int(a), b) for a, b in re.findall(r'^"REJECT (\d+) (.*)"$', out, re.M)], s, t

    # ---- traces --------------------------------------------------------------
    def record(self, exe, drv, shard, out, timeout):
        env = {k: v.replace("@", self.dir) for k, v in drv.get("env", {}).items()}
        env["VERIF_DICT"] = os.path.join(self.dir, "dict.txt")
        rc, txt = sh([exe, self.prop, str(self.seed), self.tier, str(shard), str(drv.get("shards", NCPU)), out, str(drv.get("scale", 1))],
                     timeout, env, cwd=self.dir)
        return rc, txt

def known():
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                res.append(json.loads(line))
    return res

KEYS = ("op", "k", "F", "A", "x", "n", "txt", "set")
def key(ev):
    return json.dumps({k: ev[k] for k in KEYS if k in ev}, sort_keys=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    run = Run(a.prop, a.tier, seed)
    try:
        code = decide(run, t0)
    except Broken as b:
        print("ERROR: " + str(b))
        code = 2
    finally:
        if a.keep: print("kept " + run.dir)
        else: shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(code)

def decide(run, t0):
    conf, tier = run.conf, run.tier
    left = lambda: max(30, run.budget - (time.time() - t0))
    drvs = conf["drivers"]
    drvs = [d for d in drvs if not d.get("tier") or d["tier"] == tier]
    pool = cf.ThreadPoolExecutor(NCPU)
    run.version_header()
    run.dictionary()
    jf = pool.submit(run.javac)
    cfs = [pool.submit(run.compile, d) for d in drvs]
    jf.result()

    # design-level model checking, in parallel with everything else
    def model(m):
        cfg = m.get("cfg", m["module"] + ".cfg")
        if run.thorough and m.get("thorough_cfg"): cfg = m["thorough_cfg"]
        rc, out = run.tlc(m["module"], cfg, m.get("env", {}), left(), workers=m.get("workers", 5 if run.thorough else 2), heap=m.get("heap", "3g"))
        return m, cfg, rc, out
    mfs = [pool.submit(model, m) for m in conf.get("models", [])]
    exes = [f.result() for f in cfs]

    # scenarios generated by TLC, replayed by the driver
    scen = []
    for g in conf.get("scenarios", []):
        path = os.path.join(run.dir, g["out"])
        rc, out = run.tlc(g["module"], g.get("thorough_cfg" if run.thorough else "cfg", g["cfg"]), {"OUT": path, "VERIF_SEED": str(run.seed)},
                          left(), workers=1, heap="3g", extra=[a.replace("@", str(run.seed)) for a in g.get("args_thorough" if run.thorough else "args", [])])
        lines = list(dict.fromkeys(re.findall(r'^"?SCN (.*?)"?$', out, re.M)))
        if rc != 0 or not lines: raise Broken("scenario generation failed (%s):\n%s" % (rc, out[-3000:]))
        open(path, "w").write("\n".join(l.replace('\\"', '"') for l in lines) + "\n")
        s, t = run.tlc_stats(out)
        run.states += s; run.trans += t
        scen.append({"module": g["module"], "scenarios": len(lines)})

    # recording
    jobs = []
    for d, exe in zip(drvs, exes):
        for s in range(d.get("shards", NCPU)):
            out = os.path.join(run.dir, "%s_%d.ndjson" % (os.path.basename(exe), s))
            jobs.append((d, exe, s, out, pool.submit(run.record, exe, d, s, out, 240 if not run.thorough else 3000)))
    violations = []       # (summary, replay dict)
    traces = []
    for d, exe, s, out, f in jobs:
        rc, txt = f.result()
        if rc != 0:
            rc2, txt2 = run.record(exe, d, s, out, 240 if not run.thorough else 3000)
            if rc2 == 0: raise Broken("the driver failed once (%s) and then succeeded:\n%s" % (rc, txt[-2000:]))
            if rc2 == 2: raise Broken("driver usage error:\n" + txt2[-2000:])
            violations.append(("the library crashed or hung while the driver exercised it (exit %s)" % rc2,
                               {"command": [d["src"], run.prop, run.seed, tier, s, NCPU], "output": txt2[-3000:]}))
        traces.append(out)
    # split long traces so that all cores are used, and check them
    parts = []
    maxlines = 20000
    for t in traces:
        if not os.path.exists(t): continue
        with open(t, "rb") as fh: lines = fh.read().split(b"\n")
        complete = lines[:-1]          # a crash may leave half a line
        if not complete: continue
        if conf.get("whole"): parts.append((t, t, 0, len(complete))); continue
        for i in range(0, len(complete), maxlines):
            p = t + ".part%d" % (i // maxlines)
            with open(p, "wb") as fh: fh.write(b"\n".join(complete[i:i + maxlines]) + b"\n")
            parts.append((t, p, i, min(maxlines, len(complete) - i)))
    if not parts and not violations: raise Broken("no events were recorded")
    rejected = []
    ops, events, samples, distinct = {}, 0, [], set()
    futs = [(p, pool.submit(run.check_trace, p[1], left())) for p in parts]
    for (t, p, off, n), f in futs:
        rej, s, tr = f.result()
        run.states += s; run.trans += tr
        with open(p) as fh:
            evs = fh.read().splitlines()
        events += n
        for line in evs:
            m = re.match(r'\{"op":"(\w+)"', line)
            o = m.group(1) if m else "?"
            ops[o] = ops.get(o, 0) + 1
        rnd = random.Random(run.seed)
        if len(samples) < 5 and evs:
            samples.append(json.loads(rnd.choice(evs)))
        for i, exp in rej:
            rejected.append((json.loads(evs[i - 1]), exp, p if conf.get("whole") else None, i))

    # a rejection counts only if it repeats
    if rejected:
        confirmed = []
        if conf.get("whole"):
            seen = {}
            for ev, exp, p, i in rejected: seen.setdefault(p, []).append((ev, exp, i))
            for p, lst in seen.items():
                rej, _, _ = run.check_trace(p, left())
                again = {i for i, _ in rej}
                confirmed += [(ev, exp, p) for ev, exp, i in lst if i in again]
        else:
            p = os.path.join(run.dir, "confirm.ndjson")
            head = rejected[:3000]
            with open(p, "w") as fh:
                for ev, exp, _, _ in head: fh.write(json.dumps(ev, separators=(",", ":")) + "\n")
            rej, _, _ = run.check_trace(p, left())
            again = {i for i, _ in rej}
            confirmed = [(ev, exp, None) for n, (ev, exp, _, _) in enumerate(head, 1) if n in again]
        if not confirmed: raise Broken(run.unread or "rejections did not repeat: %s" % rejected[:3])
        kf = [k for k in known() if k["property"] == run.prop]
        keyed = {key(k["event"]): k for k in kf if "event" in k}
        hit, fresh = {}, []
        for ev, exp, p in confirmed:
            k = keyed.get(key(ev))
            if k and k.get("r", ev.get("r")) == ev.get("r"): hit[key(ev)] = k
            else: fresh.append((ev, exp, p))
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (run.prop, k["what"]))
        for ev, exp, p in fresh:
            rep = {"event": ev, "expected": exp}
            if p: rep["trace"] = [json.loads(x) for x in open(p).read().splitlines()][:4000]
            violations.append(("event is no step of the specification: %s; expected %s" % (json.dumps(ev)[:600], exp[:400]), rep))

    if run.unread and not violations: raise Broken(run.unread)

    for m, cfg, rc, out in [f.result() for f in mfs]:
        # a negative model has to fail: the guarantee depends on the condition that it drops
        if m.get("negative"): bad = "is violated" not in out
        else: bad = rc != 0 or "Model checking completed. No error" not in out
        if bad:
            raise Broken("design model %s/%s failed (exit %s):\n%s" % (m["module"], cfg, rc, out[-4000:]))
        s, t = run.tlc_stats(out)
        run.states += s; run.trans += t
        run.models.append({"module": m["module"], "config": cfg, "distinct_states": s, "states_generated": t,
                           **({"expected": "violated"} if m.get("negative") else {})})

    ev = {"property": run.prop, "tier": tier, "seed": run.seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.trans,
                       "traces_validated_against_impl": len(parts),
                       "events_validated": events, "events_by_operation": dict(sorted(ops.items())),
                       "events_rejected": len(rejected), "design_models": run.models, "scenario_generation": scen,
                       "samples": samples},
          "assumptions": conf.get("assumptions", []) + [
              "TLC, the Java big-integer overrides (compared with the TLA+ definitions by tools/bigint_check.sh) and the exact encoding of the trace driver are trusted"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", run.prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    print("%s: %d events in %d traces, %d rejected; %d states; %.1f s" % (run.prop, events, len(parts), len(rejected), run.states, time.time() - t0))
    if violations:
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % run.prop)
        with open(path, "w") as fh:
            json.dump({"property": run.prop, "seed": run.seed, "tier": tier, "count": len(violations),
                       "violations": [dict(r, summary=s) for s, r in violations[:50]]}, fh, indent=1)
        for s, r in violations[:10]: print("  " + s)
        print("VIOLATION property=%s replay=%s" % (run.prop, path))
        return 1
    return 0

if __name__ == "__main__":
    main()
