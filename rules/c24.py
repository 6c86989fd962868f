import ir, vg, estlib
from estlib import *
TITLE = "No measurement timing can abort the estimator"
TECH = "abstract interpretation of the estimator over the order of arrival times: value graphs of addMeasurement folded for every history of bounded length; every fatal check on the way must hold (LLVM IR)"
RULE = """For every history of up to three arrivals at times before, within tolerance of and after each other, and every next arrival (each kind; ring at different places; ring full): no fatal check or exception of the estimator is reachable,
predict is only called with a time its own precondition (newer than the state by more than the tolerance) accepts and never in place, its precondition is that comparison and nothing stricter about times, and a state is always left."""
ASSUME = ("estimator code touches times only through arithmetic and comparison (one representative per order of times)", "states, inputs and covariances are finite")
WHERE = "RtkEkfEstimator::addMeasurement"


def run(ctx):
    m = estlib.load()
    lay = Lay(m)
    jobs = list(transitions())
    ctx.add("arrivals", "%d arrivals at histories of up to three" % len(jobs))

    def work(j):
        h, t, k, slot = j
        c = Case(m, lay, h, t, k, slot=slot)
        if c.err:
            return c.text, False, "not decided by the order of times: " + c.err
        for e in c.checks:
            if e.args[0] is not vg.TRUE:
                return c.text, False, "%s: check may fail: %s" % (e.where(), vg.show(e.args[0], 5)[:200])
        for e in c.g.events:
            if e.kind == "call" and e.guard is not vg.FALSE and re.search(r"^(__cxa_throw|abort|std::terminate|std::__throw)", e.dem or ""):
                return c.text, False, "%s: %s is reached" % (e.where(), e.dem)
        for e in c.s.log:
            if e[0] == "predict":
                if e[2] is None or e[7] is None or not e[2] - e[7] > TOL:
                    return c.text, False, "predict from %s to %s: its time precondition fails" % (e[7], e[2])
                if e[1] == e[6]:
                    return c.text, False, "predict in place"
        if c.ret and not c.S:
            return c.text, False, "no state is left"
        if c.S and any(b is None for a, b in c.S):
            return c.text, False, "a retained state has no time"
        return c.text, True, ""
    report(ctx, jobs, work, WHERE)
    precondition(ctx, lay)


def precondition(ctx, lay):
    """predict's own checks: the times alone refuse a step exactly when it is not after the state by more than the tolerance"""
    d = ir.ekf_dir() + "/core/ekf/"
    m = ir.load([H, d + "rtk_ekf.cxx", "common/utctime.cxx", "common/quantized_time.cxx"], [r"^mc::ekf::predict\(", r"^vn_less"], inline=ir.DEFAULT_INLINE + [r"^mc::ekf::predict\("], gen=True,
                keep=[r"dynamics|Dynamics", r"isFinite", r"Eigen::|propagate", r"mc::ekf::(State|Snapshot|Covariance|update)", r"_Rb_tree|_Hashtable|std::|SatelliteManager|RtkEkfEstimator|fmt::"], extra=["-fno-access-control", "-fstandalone-debug"])
    f = m.find(r"^mc::ekf::predict\(")
    for dt in (-UNIT, -80_000, 0, 20_000, 80_000, UNIT, 15 * UNIT):
        st = vg.State()
        put_time(st.wcells(("arg", 0)), lay.t, 5 * UNIT)
        put_time(st.wcells(("arg", 1)), 0, 5 * UNIT + dt)
        g = vg.VG(m, f, entry=st, unroll=0)
        ch = [e for e in g.events if e.kind == "check" and e.guard is not vg.FALSE]
        no = [e for e in ch if e.args[0] is vg.FALSE]
        ctx.ob("predict/precondition/%d" % dt, bool(ch) and (not no) == (dt > TOL), no[0].where() if no else WHERE, "predict %s a step of %g s" % ("refuses" if no else "accepts", dt / 1e9))
