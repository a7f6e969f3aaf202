#!/usr/bin/env python3
"""check.py <property> -- decides one property from /repo's current source."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vx import facts
from vx.cfg import compute_noret

KNOWN = os.path.join(HERE, "known_findings.txt")


def known(pid):
    out = {}
    for ln in open(KNOWN):
        ln = ln.strip()
        if ln.startswith("finding: property=%s key=" % pid):
            k, _, what = ln[len("finding: property=%s key=" % pid):].partition(" ")
            out[k] = what
    return out


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self._p = {}
        self.viol = []
        self.cov = {}
        self.notes = []
        self.assumptions = []

    def program(self, mode="graph"):
        if mode not in self._p:
            P = facts.load(mode)
            compute_noret(P)
            self._p[mode] = P
        return self._p[mode]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n, least=1):
        """what was analysed; fewer than confirmed by hand means the analysis is broken"""
        self.cov[name] = n
        if n < least:
            raise facts.AnalysisBroken("%s: only %d (at least %d expected): the rule no longer finds what it is about" % (name, n, least))

    def violation(self, file, line, rule, instance, msg):
        """instance: identifies the construct, without line numbers"""
        key = ("%s/%s/%s" % (rule, file, instance)).replace(" ", "_")
        for v in self.viol:
            if v["key"] == key and v["line"] == line and v["msg"] == msg:
                return
        self.viol.append({"key": key, "file": file, "line": line, "rule": rule, "instance": instance, "msg": msg})


def main():
    pid = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(pid)
    mod = importlib.import_module("rules." + pid.lower())
    ev = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        mod.run(ctx)
    except facts.AnalysisBroken as x:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
        for v in ctx.viol:
            print("  (found so far) %s:%d: [%s] %s" % (v["file"], v["line"], v["rule"], v["msg"]))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        sys.exit(3)
    kn = known(pid)
    new, old = [], []
    for v in ctx.viol:
        (old if v["key"] in kn else new).append(v)
    cov = dict(ctx.cov)
    cov["explanation"] = mod.EXPLAIN.strip()
    cov["rules"] = [r.strip() for r in mod.RULES]
    if ctx.notes:
        cov["notes"] = ctx.notes
    rec = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
           "assumptions": list(getattr(mod, "ASSUME", [])) + ctx.assumptions,
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if ctx.viol:
        rec["reports"] = [{k: v[k] for k in ("key", "file", "line", "rule", "msg")} for v in ctx.viol]
    tmp = ev + ".tmp"
    with open(tmp, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    os.rename(tmp, ev)
    for k in sorted({v["key"] for v in old}):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[k], k))
    for v in new:
        print("%s:%d: [%s] %s: %s  key=%s" % (v["file"], v["line"], v["rule"], v["instance"], v["msg"], v["key"]))
    print("%s: analysed %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in ctx.cov.items() if isinstance(v, int))))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, ev))
        sys.exit(1)
    print("%s: holds on everything analysed (%.1f s)" % (pid, time.time() - t0))


if __name__ == "__main__":
    main()
