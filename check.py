#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current source.

exit 0: no violation; 1: VIOLATION lines; 2: the analysis could not be carried out.
"""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from sa import front
from sa.prog import Program


class Ctx:
    """What a rule reports into."""

    def __init__(self, P, tier, outdir):
        self.P = P
        self.tier = tier
        self.out = outdir
        self.violations = {}
        self.undecided = []
        self.samples = []
        self.count = {}
        self.assumptions = []
        self.rule = ""

    def violation(self, key, text):
        self.violations.setdefault(key, text)

    def inc(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


class NoAnswer(Exception):
    pass


def known(prop):
    """[(key, what)] of findings recorded for this property."""
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append((d["key"], d["what"]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        d, info = front.dump()
        print("front end ready:", info)
        return 0
    prop = a.property
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        d, info = front.dump()
        P = Program(d)
        P.dumpdir = d
        ctx = Ctx(P, a.tier, d)
        mod = importlib.import_module("sa.rules." + prop.lower())
    except Exception as e:
        traceback.print_exc()
        print("NO-ANSWER property=%s %s" % (prop, e))
        return 2
    try:
        mod.check(ctx)
    except Exception as e:
        # what was found so far stands; the rest is undecided, and the floors below tell whether anything was analysed at all
        traceback.print_exc()
        ctx.undecided.append("the analysis stopped early: %s: %s" % (type(e).__name__, str(e)[:200]))
    floors = getattr(mod, "FLOORS", {})
    lost = ["%s: %d analysed, at least %d expected" % (k, ctx.count.get(k, 0), n) for k, n in floors.items() if ctx.count.get(k, 0) < n]
    kn = known(prop)
    new = []
    for key, text in sorted(ctx.violations.items()):
        hit = [w for k, w in kn if k == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            new.append((key, text))
    cov = {
        "explanation": mod.EXPLAIN,
        "rule": ctx.rule or mod.RULE,
        "analysed": ctx.count,
        "crates": len(P.crates),
        "functions_in_program": len(P.bodies),
        "samples": ctx.samples,
        "undecided": ctx.undecided[:40],
    }
    ev_doc = {
        "property": prop, "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "what": t} for k, t in new],
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUME", [])),
    }
    rp = os.path.join(ev, prop + ".violations.txt")
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(ev_doc, f, indent=1, default=str)
    for u in ctx.undecided[:10]:
        print("UNDECIDED property=%s %s" % (prop, u))
    if new:
        with open(rp, "w") as f:
            for k, t in new:
                f.write("%s\n    key: %s\n" % (t, k))
        for k, t in new:
            print("  " + t)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if lost and ctx.undecided and any(ctx.count.get(k) for k in getattr(mod, "FLOORS", {})):
        # part of the obligations are named above as undecided, and in the evidence; nothing analysed breaks the property
        print("PARTIAL property=%s %s" % (prop, "; ".join(lost)))
    elif lost:
        print("NO-ANSWER property=%s the analysis lost its subject: %s" % (prop, "; ".join(lost)))
        return 2
    print("%s: held; analysed %s in %.1f s" % (prop, ", ".join("%s=%s" % kv for kv in sorted(ctx.count.items())), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
