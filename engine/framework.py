"""Driver shared by every check: obligations, reports, known findings, evidence, exit status."""
import json, os, sys, time, traceback
from ir import Broken, VERIF, REPO

OUT = os.path.join(VERIF, "out")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = []        # (key, ok, where, text)
        self.scope = {}
        self.notes = []
        self.selftests = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    # an obligation is one instance the rule decided
    def ob(self, key, ok, where="", text=""):
        self.obl.append((key, bool(ok), where, text))
        return ok

    def add(self, kind, *items):
        self.scope.setdefault(kind, [])
        for i in items:
            if i not in self.scope[kind]:
                self.scope[kind].append(i)

    def selftest(self, name, fired):
        """a planted positive the rule must flag on every run"""
        self.selftests.append((name, bool(fired)))
        if not fired:
            raise Broken("self-test did not fire: " + name)

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == pid and k.get("status") == "open"}


def main(pid, title, run, level="other", rule="", assumptions=()):
    ctx = Ctx(pid)
    try:
        run(ctx)
        if not ctx.obl:
            raise Broken("no instance analysed")
        status = None
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    kf = known(pid)
    bad = [o for o in ctx.obl if not o[1]]
    new = [o for o in bad if o[0] not in kf]
    seen = set()
    for o in bad:
        if o[0] in kf and o[0] not in seen:
            seen.add(o[0])
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o[0], kf[o[0]]["what"]))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(OUT, pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s: %s\nrule: %s\n" % (pid, title, rule))
        for k, v in ctx.scope.items():
            f.write("%s (%d):\n" % (k, len(v)))
            for x in v:
                f.write("   %s\n" % (x,))
        f.write("obligations: %d, not discharged: %d (known: %d)\n" % (len(ctx.obl), len(bad), len(bad) - len(new)))
        for o in new:
            f.write("VIOLATED %s\n   at %s\n   %s\n" % (o[0], o[2], o[3]))
        f.write("\nall obligations:\n")
        for o in ctx.obl:
            f.write("%s %s  [%s]\n" % ("ok  " if o[1] else "FAIL", o[0], o[2]))
        f.write("\nreplay: cd /verif && python3 check.py %s\n" % pid)
    cov = {
        "explanation": rule,
        "obligations": len(ctx.obl),
        "discharged": len(ctx.obl) - len(bad),
        "analysed": {k: (len(v)) for k, v in ctx.scope.items()},
        "analysed_sample": {k: [str(x) for x in v[:40]] for k, v in ctx.scope.items()},
        "samples": [{"obligation": o[0], "at": o[2], "ok": o[1]} for o in ctx.obl[:12]],
        "selftests": [n for n, _ in ctx.selftests],
        "checker_cmd": "python3 check.py " + pid,
        "trusted_base": ["clang 18 front end and the LLVM 18 canonicalisation passes", "engine/vg.py, engine/poly.py, the rule file"],
    }
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for o in new[:40]:
        print("  %s: %s\n      %s" % (o[2], o[0], o[3][:1500]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("property %s holds: %d obligations discharged, %d known findings, %.1f s" %
          (pid, len(ctx.obl) - len(bad), len(bad), time.time() - ctx.t0))
    return 0
