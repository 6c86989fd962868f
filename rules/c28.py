import ir, vg, estlib
from estlib import *
TITLE = "Rejected measurements leave the filter untouched"
TECH = "abstract interpretation of the estimator over the order of arrival times, table lookups and sizes: value graphs of addMeasurement, with every memory cell compared before and after (LLVM IR)"
RULE = """Every arrival older than the oldest state (beyond tolerance), every bundle with an unknown satellite, an observation of another time or too many observations, and every fix-and-hold measurement of invalid size must return an error
with no predict, no update, and every cell of the estimator and its histories as before; every other arrival is accepted, inserted, and leaves both histories sorted. The satellite asked for is that of the observation; only satellites
whose ephemeris arrived are known."""
ASSUME = ("estimator code touches times only through arithmetic and comparison (one representative per order of times)",)
WHERE = "RtkEkfEstimator::addMeasurement"


def run(ctx):
    m = estlib.load()
    lay = Lay(m)
    jobs = list(transitions())
    ctx.add("arrivals", "%d arrivals at histories of up to three" % len(jobs))

    def work(j):
        h, t, k, slot = j
        return verdict(Case(m, lay, h, t, k, slot=slot), True)
    report(ctx, jobs, work, WHERE)
    # what makes a measurement invalid whatever its time
    U = UNIT
    h = ((0, U, 2 * U), ((U, "imu"), (2 * U, "pp")))
    for t in (0, U, U + 20_000, 2 * U, 3 * U):
        for n in (0, 1, 2, 3, 29, 30, 31, 61):
            for unknown in (None, 0, n - 1):
                if unknown is not None and not 0 <= unknown < n or n > 3 and unknown == 0:
                    continue
                c = Case(m, lay, h, t, "obs", nobs=n, known=lambda key, u=unknown: u is None or not has(key, u))
                put(ctx, c, "obs/%d/%s/%g" % (n, unknown, t), verdict(c, n <= 30 and unknown is None))
                for w, key in c.s.asked:
                    ctx.ob("obs/%d/%s/%g/asked" % (n, unknown, t), w[0] == E and asks(key, len(c.s.asked), n), "RtkEkfEstimator::hasCache", "looks up %s" % vg.show(key, 5))
            if n:
                for late in {0, n - 1}:
                    ts = [t] * n
                    ts[late] += 1
                    c = Case(m, lay, h, t, "obs", nobs=n, obs_t=ts)
                    put(ctx, c, "obs time/%d/%d/%g" % (n, late, t), verdict(c, False))
        for sd in (0, 1, 2, 29, 30, 31):
            for n in {0, sd - 1, sd, sd + 1, 30, 31} - {-1}:
                c = Case(m, lay, h, t, "fh", nfh=n, num_sd=sd)
                put(ctx, c, "fh/%d/%d/%g" % (n, sd, t), verdict(c, n == sd and n <= 30))


def has(key, j):
    return any(x.op == "arg" and isinstance(x.a[0], tuple) and len(x.a[0]) == 4 and x.a[0][2] == j for x in vg.subterms(key))


def asks(key, k, n):
    """(constellation << 8) | satellite of one observation"""
    for j in range(n):
        x = lambda f: vg.cast("zext", mk("arg", (("payload", 99, j, f),), 8), 32)
        if key == vg.binop("or", vg.binop("shl", x("gnss_id"), c(8, 32)), x("sat_num")) or key == vg.binop("add", vg.binop("shl", x("gnss_id"), c(8, 32)), x("sat_num")) or \
                key == vg.binop("or", x("sat_num"), vg.binop("shl", x("gnss_id"), c(8, 32))):
            return True
    return False


def put(ctx, c, key, v):
    ctx.ob(key, v[1], WHERE, "%s: %s" % (v[0], v[2]))


def verdict(c, valid):
    if c.err:
        return c.text, False, "not decided: " + c.err
    if c.ret is None:
        return c.text, False, "accepts or refuses depending on more than times, sizes and known satellites: " + vg.show(c.g.ret, 5)[:200]
    if not (c.ok and valid):
        if c.ret:
            return c.text, False, "accepted"
        if c.s.log:
            return c.text, False, "refused after %s" % c.s.log[0][0]
        d = c.touched()
        if d:
            return c.text, False, "refused but the estimator's memory differs at %s" % (d[:3],)
        return c.text, True, ""
    if not c.ret:
        return c.text, False, "refused"
    key = [(a, KINDS.index(b) if b else -1) for _, a, b in c.M]
    if None in [a for a, b in key] or key != sorted(key):
        return c.text, False, "retained measurements unsorted: %s" % key
    s = [b for a, b in c.S]
    if s != sorted(s):
        return c.text, False, "states unsorted: %s" % s
    if c.M != c.ref.M or not c.count:
        return c.text, False, "retained measurements afterwards: %s instead of %s" % ([x[1:] for x in c.M], [x[1:] for x in c.ref.M])
    return c.text, True, ""
