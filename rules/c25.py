import ir, vg, estlib, modlib
from estlib import *
TITLE = "Each observation carries its constellation to the filter"
TECH = "value graphs of the estimator: origin of every field handed to the measurement model, and of the satellite looked up for it (LLVM IR)"
RULE = """For bundles of zero to three observations (arriving alone, late, or replayed) every record handed to update<obsMeas> holds, at its place, that observation's pseudorange and Doppler, its constellation, and the satellite
state obtained for its time, constellation and satellite. That state is the one kept for (constellation, satellite), brought to that time, the antenna's position and the satellite the manager returns for exactly that pair; an
ephemeris makes a place for its own constellation and satellite only when there is none, and goes to the manager. The position is the antenna's in ECEF by the state's pose and frame."""
ASSUME = ("exact arithmetic in the antenna's position", "standard containers behave")
PLACE = r"unordered_map<int, mc::satellite::SatelliteCache.*::try_emplace|_Map_base<int, .*::operator\[\]\("
WHERE = "RtkEkfEstimator::handleObsMeas"


def run(ctx):
    m = estlib.load()
    lay = Lay(m)
    U = UNIT
    for h, t, ks in ((((0,), ()), U, "alone"), (((0, U, 2 * U), ((U, "pp"), (2 * U, "obs"))), U, "late"), (((0, 2 * U), ((2 * U, "obs"),)), U, "between"), (((0, U), ((U, "obs"),)), U + 20_000, "same time")):
        for n in (0, 1, 2, 3):
            c = Case(m, lay, h, t, "obs", nobs=n)
            key = "%s/%d" % (ks, n)
            if c.err:
                ctx.ob(key, False, WHERE, "%s: %s" % (c.text, c.err))
                continue
            if not c.s.nobs == n:
                raise ir.Broken("scene")
            seen = 0
            for e in c.s.log:
                if e[0] != "update" or e[1] != "obs":
                    continue
                seen += 1
                size, el = e[3]
                ctx.ob(key + "/size", len(el) == n, WHERE, "%d records for %d observations" % (len(el), n))
                for j, (a, b, sat, gid) in enumerate(el):
                    who = a.a[0][1] if a.op == "arg" and isinstance(a.a[0], tuple) else None
                    f = lambda name, w: mk("arg", (("payload", who, j, name),), w)
                    k = "%s/%d" % (key, j)
                    ctx.ob(k + "/range", a == f("pseudorange", "f"), WHERE, "%s: record %d's range is %s" % (c.text, j, vg.show(a, 3)))
                    ctx.ob(k + "/doppler", b == f("doppler", "f"), WHERE, "%s: record %d's Doppler is %s" % (c.text, j, vg.show(b, 3)))
                    ctx.ob(k + "/constellation", widened(gid, f("gnss_id", 8)), WHERE, "%s: record %d's constellation is %s" % (c.text, j, vg.show(gid, 3)))
                    asked = c.s.caches.get(sat[0]) if sat[1] == 0 else None
                    mt = c.t if who == 99 else h[1][who][0] if who is not None and who < len(h[1]) else None
                    ctx.ob(k + "/satellite", asked is not None and asked[0] == mt and widened(asked[1], f("gnss_id", 8)) and widened(asked[2], f("sat_num", 8)), WHERE,
                           "%s: record %d's satellite state is that of %s" % (c.text, j, asked and (asked[0], vg.show(asked[1], 3), vg.show(asked[2], 3))))
            ctx.ob(key, seen >= 1, WHERE, c.text + ": no update with the observations")
    lookup(ctx, m, lay)
    ephemerides(ctx, m, lay)
    position(ctx, m, lay)


def widened(x, f):
    return x == f or x == vg.cast("zext", f, x.w) if isinstance(x.w, int) else False


def ident(x, gid, sat):
    """(constellation << 8) | satellite, in any of its forms, for numbers below 256"""
    forms = [vg.binop(op, *s) for op in ("or", "add", "xor") for q in [vg.binop("shl", gid, c(8, 32))] for s in ((q, sat), (sat, q))]
    return x in forms


def lookup(ctx, m, lay):
    fn = m.find(r"RtkEkfEstimator::getCache\(")
    key, got, ups = [], [], []
    place, sat = ("heap", "place", 0), ("heap", "sat", 0)

    def at(g, st, ins, args):
        key.append((args[0], g.load(st, args[1], 4, 32)))
        return PTR(place)

    def get(g, st, ins, args):
        got.append(args)
        g.store(st, args[3], 8, PTR(sat))
        return ("ev", NULL)

    def pos(g, st, ins, args):
        for i in range(3):
            g.store(st, g.ptr_add(args[0], 8 * i, []), 8, mk("arg", (("pecef", i),), "f"))
        return ("ev", None)

    def upd(g, st, ins, args):
        ups.append((args, tuple(g.load(st, g.ptr_add(args[2], 8 * i, []), 8, "f") for i in range(3))))
        return ("ev", None)
    g = vg.VG(m, fn, summaries=[(r"_Map_base<.*::at\(|_Hashtable<.*::at\(", at), (r"SatelliteManager::getSat", get), (r"::p_ecef\(", pos), (r"SatelliteCache::update", upd)])
    w = "RtkEkfEstimator::getCache"
    a = lambda i: mk("arg", (i,), 32)
    ctx.ob("lookup/place", len(key) >= 1 and all(ident(k, a(2), a(3)) and p == PTR(E, lay.cache) for p, k in key), w, "the satellite's place is looked up as %s" % [vg.show(k, 4) for p, k in key])
    ctx.ob("lookup/manager", len(got) == 1 and got[0][1] == a(2) and got[0][2] == a(3), w, "the manager is asked for %s" % [[vg.show(x, 3) for x in y[1:3]] for y in got])
    ctx.ob("lookup/update", len(ups) == 1 and ups[0][0][0] == PTR(place) and ups[0][0][1] == PTR(("arg", 1)) and ups[0][0][3] == PTR(sat) and [x.a[0] for x in ups[0][1] if x.op == "arg"] == [("pecef", i) for i in range(3)],
           w, "the kept state is not brought to this time, position and satellite: %s" % [[vg.show(x, 3) for x in y[0]] for y in ups])
    ctx.ob("lookup/result", g.ret == PTR(place), w, "returns another satellite's state")


def ephemerides(ctx, m, lay):
    for k, name, num in (("gps", "GPSEphemeris", 0), ("gal", "GalileoEphemeris", 2), ("glo", "GlonassEphemeris", 6)):
        fn = m.find("^vn_eph_%s$" % k)
        so = next(o for n, o, s, i in m.fields("mc::ephemeris::EphBase") if n == "sat")
        for known in (False, True):
            asked, ins_, cb = [], [], []

            def find(g, st, ins, args):
                asked.append(g.load(st, args[1], 4, 32))
                return PTR(("heap", "known", 0)) if known else NULL

            def count(g, st, ins, args):
                asked.append(g.load(st, args[1], 4, 32))
                return vg.c(int(known), 64)

            def insert(g, st, ins, args):
                ins_.append((args[0], g.load(st, args[1], 4, 32)))
                return NotImplemented
            g = vg.VG(m, fn, summaries=[(r"_Hashtable<.*::find\(", find), (r"std::_Hashtable<.*::(_M_insert|_M_emplace|insert|emplace)", insert), (PLACE, insert), (r"_Hashtable<int, .*::count\(", count), (r"SatelliteManager::ephCb", lambda g, st, ins, args: cb.append(args) or ("ev", None)),
                                        (r"SatelliteCache::SatelliteCache", lambda g, st, ins, args: ("ev", None))])
            w = "RtkEkfEstimator::ephCb"
            size = next(s for n, o, s, i in m.fields("mc::ephemeris::EphBase") if n == "sat")
            e = g.mem(vg.State(), ("arg", 1), so, size, 8 * size)
            e = vg.cast("zext", e, 32) if size < 4 else e
            right = lambda x: ident(x, c(num, 32), e) or ident(x, e, c(num, 32)) or x in [vg.binop(o, *p) for o in ("or", "add", "xor") for p in ((c(num << 8, 32), e), (e, c(num << 8, 32)))]
            if not num:
                right = lambda x: x == e
            ctx.ob("%s/%s/asked" % (k, known), all(right(x) for x in asked), w, "looks for %s" % [vg.show(x, 4) for x in asked])
            ctx.ob("%s/%s/place" % (k, known), (known or len(ins_) == 1) and all(right(x) and p == PTR(E, lay.cache) for p, x in ins_), w, "%s satellite: makes places %s" % ("known" if known else "new", [vg.show(x, 4) for p, x in ins_]))
            ctx.ob("%s/%s/manager" % (k, known), len(cb) == 1 and cb[0][1] == PTR(("arg", 1)), w, "the manager does not get the ephemeris")


def position(ctx, m, lay):
    """the antenna's position: the terms over the newest state, with the state moved to an object of its own, against the reference"""
    import ekflib, ekfeq, pit
    from modref import FieldAlg
    el = ekflib.Layout(m)
    for slot in (0, 99):
        s = Scene(m, lay, (0, UNIT), (), slot=slot)
        base = s.first[-1]
        g = vg.VG(m, m.find(r"RtkEkfEstimator::p_ecef\("), summaries=list(modlib.EIGEN), entry=el.entry([(E, "State", base)], s.st), args={0: PTR(("out",)), 1: PTR(E)}, unroll=1000)

        def own(t):
            if t.op == "init" and t.a[0] == E:
                return mk("init", (ekfeq.X, t.a[1] - base) + t.a[2:], t.w)
            return None
        res = [vg.rewrite(g.mem(g.final, ("out",), 8 * i, 8, "f"), own) for i in range(3)]

        def build(seed):
            p = pit.Point(seed, snap=ekfeq.SNAP)
            w = ekfeq.World(m, el, p, FieldAlg(p), 2, u=4)
            return [a == p(b) for a, b in zip(w.antenna()[0], res)]
        ok = pit.points(1, build)[0]
        ctx.ob("antenna/%d" % slot, all(ok), "RtkEkfEstimator::p_ecef", "components %s of the antenna's position differ" % [i for i, x in enumerate(ok) if not x])
