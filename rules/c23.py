import itertools
import ir, vg
from ir import VERIF
from c21 import entry
TITLE = "Satellite lookup is by constellation and id"
TECH = "value graph of a SatelliteManager witness, evaluated for every pattern of equal and different satellites (LLVM IR)"
RULE = """Witnesses deliver two ephemerides of each constellation in an interleaved order, and more satellites than the manager keeps, then ask for one satellite. With the satellite numbers chosen in every pattern of
equal and different, the value graph of the witness folds to its outcome: a known constellation and number must give the satellite with exactly that constellation and number, holding exactly the ephemerides
delivered for it; every other request must give an error and no satellite. After more satellites than fit, only the satellites delivered first may be unknown (the latest 29 must be found). No fatal check may fail."""
ASSUME = ("behaviour depends on satellite numbers only through comparisons (evaluated for each pattern of equal and different numbers)", "calls through a virtual destructor end an element and do nothing else")
WHERE = "core/sat_manager.cxx"
G = {"GPS": 0, "Glonass": 6, "Galileo": 2}


def run(ctx):
    m = ir.load([VERIF + "/harness/mgr.cxx", "core/sat_manager.cxx", "common/satellite/satellite.cxx", "common/utctime.cxx"], ["^vm_"],
                inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx|^(void read|ask|full)\b"], extra=["-fstandalone-debug", "-fno-access-control"])
    Q = {n: (o, s) for n, o, s, _ in m.fields("Query")}
    B = {n: o for n, o, _, _ in m.fields("mc::ephemeris::EphBase")}

    def indirect(g, st, ins, args):
        fp = g.val(ins["fp"])
        if fp.op == "fn" and "D2Ev" in str(fp.a) or fp.op == "fn" and "D1Ev" in str(fp.a) or fp.op == "fn" and "D0Ev" in str(fp.a):
            return vg.c(0, 32)
        return NotImplemented

    def outcome(g, a, what):
        """('error', None) or ('sat', (gnss, num, size, first, last)); None with a reason when undecided"""
        for e in g.events:
            if e.kind == "check" and e.guard is not vg.FALSE and e.args[0] is not vg.TRUE:
                return None, "fatal check %s" % (e.where(),)
        v = {n: g.mem(g.final, a, o, s, "p" if n in ("err", "sat") else 8 * s) for n, (o, s) in Q.items()}
        er = v["err"]
        if er.op == "bitcast":
            er = er.a[0]
        if er.op == "null":
            r = [v[n] for n in ("gnss", "num", "size", "first", "last")]
            if all(x.op == "c" for x in r):
                return "sat", tuple(x.a[0] for x in r)
        elif er.op == "ptr" and er.a[0][0] == "glob":
            return "error", v["sat"]
        return None, "result %s" % {n: vg.show(x)[:60] for n, x in v.items()}
    f = m.find(r"^vm_empty\b")
    g = vg.VG(m, f)
    ctx.add("functions", "SatelliteManager::getSat, ephCb")
    ctx.ob("empty manager", g.ret is not None and g.ret.op == "c" and g.ret.a[0] == 0, WHERE + " getSat", "a request to an empty manager gives %s" % vg.show(g.ret)[:100])
    f = m.find(r"^vm_mixed\b")
    kinds = [0, 0, 6, 6, 2, 2]
    n = 0
    bad, wrong, lost, und = [], [], [], []
    for pat in [*itertools.product((0, 1), repeat=5), (2, 0, 2, 0, 2), (0, 2, 2, 1, 0)]:
        # numbers of the six ephemerides: the first is 3; the others are equal to an earlier one or new
        nums = [3] + [(3, 5, 200)[x] for x in pat]
        known = {}
        for i, (k, s) in enumerate(zip(kinds, nums)):
            a = ("arg", i)
            known |= {(a, B["gnssID"], 1): k, (a, B["sat"], 1): s, (a, B["toe"], 8): 1000 + i, (a, B["toe"] + 8, 8): 7}
        for gi, si in [(gn, s) for gn in (0, 6, 2) for s in (3, 5, 200)] + [(0, 4), (0, 259), (6, 259), (2, 259), (2, -253), (1, 3), (3, 3), (-1, 3), (256, 3), (7, 5)]:
            if (gi, si) not in zip(kinds, nums) and sum(pat) % 4:
                continue
            g = vg.VG(m, f, entry=entry(known), args={6: vg.c(gi, 32), 7: vg.c(si, 32)}, summaries=[("<indirect>", indirect)])
            n += 1
            got, v = outcome(g, ("arg", 8), "")
            mine = [1000 + i for i, x in enumerate(zip(kinds, nums)) if x == (gi, si)]
            msg = "delivered GPS %s, Glonass %s, Galileo %s; asked for constellation %d satellite %d: " % (nums[:2], nums[2:4], nums[4:], gi, si)
            if got is None:
                und.append(msg + v)
            elif not mine:
                if got != "error" or v.op != "null":
                    bad.append(msg + "got %s" % (vg.show(v) if got == "error" else "satellite (constellation, number) %s" % (v[:2],)))
            elif got == "error":
                lost.append(msg + "error")
            elif v[:2] != (gi, si):
                wrong.append(msg + "got satellite %s" % (v[:2],))
            elif v[2:] != (len(mine), mine[0], mine[-1]):
                wrong.append(msg + "its %d ephemerides have reference times %d..%d, delivered %s" % (v[2], v[3], v[4], mine))
    ctx.add("patterns", "%d deliveries and requests" % n)
    ctx.ob("unknown gives an error", not bad, WHERE + " getSat", "; ".join(bad[:2]))
    ctx.ob("known is found", not lost, WHERE + " getSat", "; ".join(lost[:2]))
    ctx.ob("exactly the satellite asked for", not wrong, WHERE, "; ".join(wrong[:2]))
    ctx.ob("decided", not und, WHERE, "; ".join(und[:2]))
    f = m.find(r"^vm_many\b")
    a = ("arg", 0)
    known = {(a, B["gnssID"], 1): 0, (a, B["toe"] + 8, 8): 7}
    bad = []
    n = 0
    for cnt in (2, 28, 29, 30, 31, 33, 63):
        for si in sorted({1, 2, 3, cnt - 29, cnt - 28, cnt - 1, cnt, cnt + 1}):
            if si < 1:
                continue
            g = vg.VG(m, f, entry=entry(known), args={1: vg.c(cnt, 32), 2: vg.c(si, 32)}, summaries=[("<indirect>", indirect)])
            n += 1
            got, v = outcome(g, ("arg", 3), "")
            msg = "%d satellites delivered, asked for number %d: " % (cnt, si)
            if got is None:
                bad.append(msg + v)
            elif got == "sat" and v != (0, si, 1, 1000 + si, 1000 + si):
                bad.append(msg + "got satellite %d of constellation %d with %d ephemerides of reference times %d..%d" % (v[1], v[0], v[2], v[3], v[4]))
            elif got == "sat" and si > cnt:
                bad.append(msg + "found")
            elif got == "error" and cnt - 29 < si <= cnt:
                bad.append(msg + "error")
    ctx.add("patterns", "%d requests around the manager's capacity" % n)
    ctx.ob("capacity", not bad, WHERE, "; ".join(bad[:2]))
