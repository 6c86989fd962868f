import ir, vg, pit
from pit import D
from orblib import Orb, eccentric
from c82 import Kepler
TITLE = "Stale ephemerides are refused and clock terms use the clock epoch"
TECH = "value graph of eph2Sat: constant propagation of the age, algebraic identity testing with derivatives for the clock terms (LLVM IR)"
RULE = """eph2Sat (Keplerian) is analysed with each of 16 ages of the ephemeris, from -1e9 s to 1e9 s and just inside and outside two hours: an age beyond two hours must fail the fatal check, or return an error with the state as it
was; any other must pass and return no error. Its clock offset must equal the broadcast polynomial in the time since toc less the relativistic term, and its clock rate that polynomial's derivative. The GLONASS clock must be
-taun + gamn (t - toe) with rate gamn. Both must set the state's time to the time asked for."""
ASSUME = ("the relativistic correction's own rate is not part of the clock rate, as in the interface documents", "random evaluation in a prime field decides equality of terms")
W = "common/satellite/satellite_state.cxx eph2Sat"
LIM = 7200


def run(ctx):
    o = Orb(ctx, r"eph2Sat\(.*Kepler")
    g = o.g
    clk = [o.out("clk", i) for i in (0, 1)]
    es = eccentric(g, clk[:1])
    ctx.ob("kepler/one anomaly", len(es) == 1, W + "(Keplerian)", "candidates for the eccentric anomaly in the relativistic term: %s" % [vg.show(e)[:100] for e in es])
    if len(es) == 1:
        def both(seed):
            m = Kepler(o, es[0], seed)
            return m.p(clk[0]) == m.poly - m.rel, m.p(clk[1]) == m.poly.rate()
        rs = pit.points(3, both)
        ctx.ob("kepler/clock offset", all(a for a, _ in rs), W + "(Keplerian)", "clock offset is %s" % vg.show(clk[0], 12)[:300])
        ctx.ob("kepler/clock rate", all(b for _, b in rs), W + "(Keplerian)", "clock rate is %s, not the derivative of the polynomial" % vg.show(clk[1], 12)[:300])
    time(ctx, o, "kepler")
    age(ctx, o)
    q = Orb(ctx, r"eph2Sat\(.*Glonass", m=o.m)
    clk = [q.out("clk", i) for i in (0, 1)]

    def glo(seed):
        p = pit.Point(seed)
        dt, rev = p(q.since("toe")), vg.mk("sym", (("secs", ((q.E, q.eph["toe"][0]), (q.T, 0))), 0), "f")
        p.atom = lambda t: -dt if t is rev else None
        return p(clk[0]) == p(q.par("gamn")) * dt - p(q.par("taun")), p(clk[1]) == p(q.par("gamn"))
    rs = pit.points(3, glo)
    ctx.ob("glonass/clock offset", all(a for a, _ in rs), W + "(Glonass)", "clock offset is %s" % vg.show(clk[0], 12)[:300])
    ctx.ob("glonass/clock rate", all(b for _, b in rs), W + "(Glonass)", "clock rate is %s" % vg.show(clk[1], 12)[:300])
    time(ctx, q, "glonass")


def time(ctx, o, name):
    t = o.st["t"][0]
    g = o.g
    ok = all(vg.rewrite(g.mem(g.final, o.S, t + k, 8, 64), o.known.get, {}) == g.initial(vg.State(), o.T, k, 8, 64) for k in (0, 8))
    ctx.ob(name + "/state time", ok, W, "the state's time is not the time it was computed for")


def age(ctx, o0):
    toe = o0.eph["toe"][0]
    bad, und = [], []
    n = 0
    for ns in (0, 100000000, -100000000, 500000000):
        for s in (0, 1, -1, 3600, LIM - 1, LIM, -LIM, LIM + 1, -LIM - 1, 2 * LIM, -2 * LIM, 86400, -86400, 604800, -604800, 10 ** 9, -(10 ** 9)):
            if ns and abs(s) != LIM:
                continue
            n += 1
            dt = s + ns * 1e-9
            a, b = 2000000000 * 10 ** 9 + s * 10 ** 9 + ns, 2000000000 * 10 ** 9
            st = vg.State()
            for (ob, off), v in (((o0.T, 0), a), ((o0.E, toe), b)):
                st.wcells(ob)[off] = (8, vg.c(v // 10 ** 9, 64))
                st.wcells(ob)[off + 8] = (8, vg.c(v % 10 ** 9, 64))
            x, y = (o0.T, 0), (o0.E, toe)
            o = Orb(ctx, r"eph2Sat\(.*Kepler", m=o0.m, consts={(x, y): dt, (y, x): -dt}, entry=st, unroll=0)
            g = o.g
            dead = any(e.kind == "check" and e.guard is vg.TRUE and e.args[0].op == "c" and e.args[0].a[0] & 1 == 0 for e in g.events)
            open_ = [e for e in g.events if e.kind == "check" and not (e.guard.op == "c" and e.args[0].op == "c")]
            ret = g.ret
            failed = None if ret is None or ret.op not in ("ptr", "null", "c") else ret.op == "ptr" or ret.op == "c" and ret.a[0] != 0
            msg = "ephemeris %.1f s old: " % dt
            if dead:
                if abs(dt) <= LIM:
                    bad.append(msg + "fails the fatal check")
            elif open_ or failed is None:
                und.append(msg + "undecided: %s" % [vg.show(e.args[0], 5)[:100] for e in open_] + ("" if ret is None else vg.show(ret, 5)[:100]))
            elif failed != (abs(dt) > LIM):
                bad.append(msg + ("refused" if failed else "accepted"))
            elif failed:
                for nm, (off, sz) in o.st.items():
                    if any(unb(g.mem(g.final, o.S, off + k, 8, 64)) != unb(g.initial(vg.State(), o.S, off + k, 8, 64)) for k in range(0, sz, 8)):
                        bad.append(msg + "%s of the state is changed though an error is returned" % nm)
    ctx.add("ages", "%d ages of the ephemeris" % n)
    ctx.ob("kepler/age", not bad, W + "(Keplerian)", "; ".join(bad[:4]))
    ctx.ob("kepler/age decided", not und, W + "(Keplerian)", "; ".join(und[:2]))


def unb(t):
    return t.a[0] if t.op == "bitcast" else t
