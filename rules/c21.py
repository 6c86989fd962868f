import signal
import itertools
import ir, vg, prop
from ir import VERIF
TITLE = "A satellite's ephemeris list stays sorted, unique and its own"
TECH = "value graph of Satellite<> with symbolic lists, decided over all order types of the reference times (LLVM IR)"
RULE = """Satellite<> is instantiated with a small ephemeris type. For lists of 0 to 3 symbolic ephemerides the value graph of addEph gives the list left behind; it is evaluated for every order type of the
(seconds, nanoseconds) pairs with the list sorted: equal time replaces that entry, any other time is inserted at its sorted position, nothing else changes. For another constellation or satellite number the call
must end in the fatal check, or leave the list as it was and return an error. findClosestEphemeris and getState must use a listed ephemeris with the smallest |t - toe|, getState returning that evaluation's
error; the same for sorted lists of 7, 12 and 25 entries with the time before, on, between and after them. carrierWavelength must come from a listed ephemeris; an empty list must fail the fatal check."""
ASSUME = ("the list operations act alike for every length (evaluated for lengths 0..3 with every order, 7, 12 and 25 with every position)", "std::vector of the installed standard library is analysed as inlined")
WHERE = "common/satellite/satellite.h Satellite<>::"
TABLES = [((0, 1, 2, 3), (0, 1, 2, 3)), ((0, 2, 7000, 700000), (0, 1, 1000, 999999999)), ((5, 6, 8, 1000000), (1, 300000000, 500000000, 999999998))]


def weak_orders(n):
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            out.append(r)
    return out


def fold(t, known):
    def f(x):
        if x.op == "init":
            v = known.get((x.a[0], x.a[1], x.a[2]))
            if v is not None:
                return vg.c(v, 8 * x.a[2]) if not isinstance(v, vg.T) else v
        return None
    return vg.rewrite(t, f, {})


def entry(known):
    """an entry state that holds the given values"""
    st = vg.State()
    for (o, a, n), v in known.items():
        st.wcells(o)[a] = (n, vg.c(v, 8 * n) if not isinstance(v, vg.T) else v)
    return st


class Slow(Exception):
    pass


def general(m, f):
    """the value graph for all times at once; None if it grows too large (then every order type gets its own)"""
    def stop(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(15)
    try:
        return vg.VG(m, f)
    except Slow:
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run(ctx):
    m = ir.load([VERIF + "/harness/sats.cxx", "common/utctime.cxx"], ["^vs_"],
                inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx|\bMini|^void (add|state)<|^long closest<"], extra=["-fstandalone-debug", "-fno-access-control"])
    SZ = m.type("Mini")["size"]
    off = {n: o for n, o, _, _ in m.fields("Mini")} | {n: o for n, o, _, _ in m.fields("mc::ephemeris::EphBase")}
    T, GN, SAT, TAG = off["toe"], off["gnssID"], off["sat"], off["tag"]
    IN, E, OUT, N, ERR = (("arg", i) for i in range(5))

    def times(sec, nsec, obj, i):
        return {(obj, i * SZ + T, 8): sec, (obj, i * SZ + T + 8, 8): nsec}

    def ids(obj, i, g=1, s=7):
        return {(obj, i * SZ + GN, 1): g, (obj, i * SZ + SAT, 1): s}

    def checks(g, known):
        """True: every fatal check passes; False: one fails; None: undecided"""
        for e in g.events:
            if e.kind != "check":
                continue
            gd, c = fold(e.guard, known), fold(e.args[0], known)
            if gd.op == "c" and gd.a[0] == 0:
                continue
            if gd.op != "c" or c.op != "c":
                return None
            if c.a[0] & 1 == 0:
                return False
        return True
    def outs(g, n):
        col = lambda o: [g.mem(g.final, OUT, i * SZ + o, 8, 64) for i in range(n + 1)]
        return g.mem(g.final, N, 0, 8, 64), g.mem(g.final, ERR, 0, 8, 64), col(T), col(T + 8), col(TAG)
    foreign = set()
    for n in range(4):
        f = m.find(r"^vs_add%d\b" % n)
        g = general(m, f)
        foreign |= calls(g) if g else set()
        lab = {(IN, i * SZ + TAG, 8): i for i in range(n)} | {(E, TAG, 8): 99}
        bad, und, k = [], [], 0
        for so in weak_orders(n + 1):
            for no in weak_orders(n + 1):
                if any((so[i], no[i]) >= (so[i + 1], no[i + 1]) for i in range(n - 1)):
                    continue
                for ts, tn in TABLES if n < 3 else TABLES[:1]:
                    key = [(ts[a], tn[b]) for a, b in zip(so, no)]
                    known = dict(lab) | ids(E, 0)
                    for i in range(n):
                        known |= times(*key[i], IN, i) | ids(IN, i)
                    known |= times(*key[n], E, 0)
                    k += 1
                    want = [(key[i], i) for i in range(n) if key[i] != key[n]] + [(key[n], 99)]
                    want.sort()
                    for G in (g, None) if g else (None,):
                        if G is None:
                            G = vg.VG(m, f, entry=entry(known))
                            foreign |= calls(G)
                        cnt, err, secs, nsecs, tags = outs(G, n)
                        ok = checks(G, known)
                        c = fold(cnt, known)
                        e = fold(err, known)
                        got = []
                        if ok and c.op == "c":
                            for i in range(min(len(want), n + 1)):
                                r = [fold(x[i], known) for x in (secs, nsecs, tags)]
                                got.append(((r[0].a[0], r[1].a[0]), r[2].a[0]) if all(x.op == "c" for x in r) else None)
                        if ok is not None and c.op == "c" and None not in got and e.op in ("null", "ptr", "c"):
                            break
                    msg = "list with times %s, new time %s: " % (key[:n], key[n])
                    if not ok or c.op != "c" or None in got or e.op not in ("null", "ptr", "c"):
                        und.append(msg + ("the fatal check fails" if ok is False else "undecided"))
                    elif c.a[0] != len(want) or got != want:
                        bad.append(msg + "entries become %s (times, label; the new one is 99), %d listed" % (got, c.a[0]))
                    elif e.op != "null" and not (e.op == "c" and e.a[0] == 0):
                        bad.append(msg + "an error is returned")
        ctx.add("order types", "addEph on %d entries: %d" % (n, k))
        ctx.ob("addEph/%d entries/result" % n, not bad, WHERE + "addEph", "%d cases, e.g. %s" % (len(bad), bad[:1]))
        ctx.ob("addEph/%d entries/decided" % n, not und, WHERE + "addEph", "%d cases, e.g. %s" % (len(und), und[:1]))
        # a stranger's ephemeris
        bad = []
        for gi, si in ((2, 7), (1, 8), (2, 8), (0, 7), (1, 0)):
            known = dict(lab) | ids(E, 0, gi, si) | times(3, 5, E, 0)
            for i in range(n):
                known |= times(2 * i, 7, IN, i) | ids(IN, i)
            G = vg.VG(m, f, entry=entry(known))
            ok = checks(G, known)
            if ok is False:
                continue
            cnt, err, secs, nsecs, tags = outs(G, n)
            c, e = fold(cnt, known), fold(err, known)
            same = c.op == "c" and c.a[0] == n and all(fold(tags[i], known) == vg.c(i, 64) for i in range(n))
            failed = e.op == "ptr" or e.op == "c" and e.a[0] != 0
            if ok is None or not same or not failed:
                bad.append("ephemeris of constellation %d satellite %d offered to constellation 1 satellite 7" % (gi, si))
        ctx.ob("addEph/%d entries/stranger" % n, not bad, WHERE + "addEph", "accepted: " + "; ".join(bad))
        # nearest
        for fn, what in (("closest", "findClosestEphemeris"), ("state", "getState")):
            f = m.find(r"^vs_%s%d\b" % (fn, n))
            g = general(m, f) if n else None
            foreign |= calls(g, "eph2Sat") if g else set()
            if n == 0:
                g = vg.VG(m, f, entry=entry({}))
                foreign |= calls(g, "eph2Sat")
                ctx.ob(what + "/empty list", checks(g, {}) is False, WHERE + what, "an empty list does not fail the fatal check")
                continue
            TM = ("arg", 1)
            bad, k = [], 0
            ev0, g0 = [e for e in g.events if "eph2Sat" in e.dem] if g else [], g
            ev = ev0
            if fn == "state" and g:
                ctx.need(ev, "eph2Sat is not called by getState")
            for unit in (1, 500000000, 10 ** 9, 3600 * 10 ** 9):
                for xs in itertools.combinations(range(6), n):
                    for t in range(-1, 7):
                        known = {k2: v for i in range(n) for k2, v in (times(*divmod(xs[i] * unit + 10 ** 9 * 9, 10 ** 9), IN, i) | ids(IN, i)).items()}
                        known |= {(IN, i * SZ + TAG, 8): i for i in range(n)}
                        s, ns = divmod(t * unit + 10 ** 9 * 9, 10 ** 9)
                        known |= {(TM, 0, 8): s, (TM, 8, 8): ns}
                        k += 1
                        g, ev = g0, ev0
                        msg = "reference times %s, t = %d (x %g s)" % (xs, t, unit * 1e-9)
                        if g is None or checks(g, known) is None or fn == "closest" and fold(g.ret, known).op != "c":
                            g = vg.VG(m, f, entry=entry(known))
                            foreign |= calls(g, "eph2Sat")
                            ev = [e for e in g.events if "eph2Sat" in e.dem]
                        if not checks(g, known):
                            bad.append(msg + ": undecided or fatal check")
                            continue
                        if fn == "closest":
                            r = fold(g.ret, known)
                            i = r.a[0] if r.op == "c" else None
                        else:
                            on = [e for e in ev if fold(e.guard, known) != vg.FALSE]
                            i = None
                            if len(on) != 1 or fold(on[0].guard, known) != vg.TRUE:
                                g = vg.VG(m, f, entry=entry(known))
                                ev = [e for e in g.events if "eph2Sat" in e.dem]
                                on = [e for e in ev if fold(e.guard, known) != vg.FALSE]
                            if len(on) == 1 and fold(on[0].guard, known) == vg.TRUE:
                                e = on[0]
                                a = [x for x in e.args if isinstance(x, vg.T)]
                                ps = [fold(x, known) for x in a]
                                hit = [p for p in ps if p.op == "ptr" and p.a[0] not in (TM, ("arg", 2), ("arg", 3)) and p.a[1] % SZ == 0 and not p.a[2]]
                                tt = [p for p in ps if p.op == "ptr" and (p.a[0], p.a[1]) == (TM, 0)]
                                if tt and hit:
                                    q = g.mem(e.state, hit[0].a[0], hit[0].a[1] + TAG, 8, 64)
                                    q = fold(q, known)
                                    i = q.a[0] if q.op == "c" else None
                                er = fold(g.mem(g.final, ("arg", 3), 0, 8, "p"), known)
                                er = er.a[0] if er.op == "bitcast" else er
                                if e.ret is not None and er != fold(e.ret, known):
                                    bad.append(msg + ": the evaluation's error is not what is returned")
                        if i is None or not 0 <= i < n:
                            bad.append(msg + ": undecided")
                        elif abs(xs[i] - t) > min(abs(x - t) for x in xs):
                            bad.append(msg + ": uses the one at %d" % xs[i])
            ctx.add("order types", "%s on %d entries: %d" % (what, n, k))
            ctx.ob("%s/%d entries" % (what, n), not bad, WHERE + what, "%d cases, e.g. %s" % (len(bad), bad[:2]))
    # longer lists: concrete sorted times, the new or asked time before, between, on and after them
    for n in (7, 12, 25):
        lab = {(IN, i * SZ + TAG, 8): i for i in range(n)} | {(E, TAG, 8): 99}
        base = {k: v for i in range(n) for k, v in (times(20 + 2 * i, 5, IN, i) | ids(IN, i)).items()} | lab
        f = m.find(r"^vs_add%d\b" % n)
        bad, k = [], 0
        for t in range(19, 20 + 2 * n):
            for ns in (5, 4) if t in (20, 18 + 2 * n) else (5,):
                g = vg.VG(m, f, entry=entry(base | ids(E, 0) | times(t, ns, E, 0)))
                cnt, err, secs, nsecs, tags = outs(g, n)
                key = [(20 + 2 * i, 5) for i in range(n)] + [(t, ns)]
                want = sorted([(key[i], i) for i in range(n) if key[i] != key[n]] + [(key[n], 99)])
                got = [tuple(x[i].a[0] if x[i].op == "c" else None for x in (secs, nsecs, tags)) for i in range(len(want))]
                k += 1
                if not checks(g, {}) or cnt != vg.c(len(want), 64) or got != [(a, b, c) for (a, b), c in want] or err.op != "null" and err != vg.c(0, 64):
                    bad.append("new time %d.%09d into %d entries from 20 to %d" % (t, ns, n, 18 + 2 * n))
        ctx.add("order types", "addEph on %d entries: %d" % (n, k))
        ctx.ob("addEph/%d entries/result" % n, not bad, WHERE + "addEph", "%d cases, e.g. %s" % (len(bad), bad[:1]))
        TM = ("arg", 1)
        f = m.find(r"^vs_closest%d\b" % n)
        bad, k = [], 0
        for t2 in range(38, 2 * (20 + 2 * n) + 1):
            g = vg.VG(m, f, entry=entry(base | {(TM, 0, 8): t2 // 2, (TM, 8, 8): 5 + (t2 % 2) * 500000000}))
            k += 1
            i = g.ret.a[0] if g.ret.op == "c" and checks(g, {}) else None
            if i is None or not 0 <= i < n or abs(40 + 4 * i - t2) > min(abs(40 + 4 * j - t2) for j in range(n)):
                bad.append("at %g among %d entries from 20 to %d: uses %s" % (t2 / 2, n, 18 + 2 * n, i))
        ctx.add("order types", "findClosestEphemeris on %d entries: %d" % (n, k))
        ctx.ob("findClosestEphemeris/%d entries" % n, not bad, WHERE + "findClosestEphemeris", "%d cases, e.g. %s" % (len(bad), bad[:2]))
    f = m.find(r"^vs_wave")
    g = vg.VG(m, f)
    foreign |= calls(g)
    F = g.env[f["args"][1]["id"]]
    r = g.ret
    ok = any(r == vg.mk("sitofp", (vg.binop("add", g.initial(vg.State(), IN, i * SZ + TAG, 8, 64), vg.cast("sext", F, 64)),), "f") for i in range(2))
    ctx.ob("carrierWavelength", ok, WHERE + "carrierWavelength", "value %s is not from a listed ephemeris" % vg.show(r)[:200])
    ctx.ob("self-contained", not foreign, WHERE, "calls %s" % sorted(foreign)[:5])


OKCALL = ("operator new", "operator delete", "basic_string", "basic_format_args", "source_location", "mc::check", "llvm.", "__throw_", "mc::weak_check")


def calls(g, *ok):
    return {e.dem[:120] for e in g.events if e.kind == "call" and not any(x in e.dem for x in OKCALL + ok)}
