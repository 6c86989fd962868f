import ir, vg, estlib
from estlib import *
TITLE = "Late measurements replay every affected measurement exactly once"
TECH = "abstract interpretation of the estimator over the order of arrival times: value graphs of addMeasurement folded for every history of bounded length, compared with the replay the property prescribes (LLVM IR)"
RULE = """For every history of up to three arrivals at times before, within tolerance of and after each other, and every next arrival (each kind; ring at different places; ring full), addMeasurement must pop exactly the states later than the
arrival and then apply, in time order and each once, the arrival and every retained measurement later than the state: predict from the newest state to a new one with that measurement's input (or the state's own), update that state with that
measurement's values, covariance and input; the state history and the measurements afterwards must be the prescribed ones."""
ASSUME = ("estimator code touches times only through arithmetic and comparison (one representative per order of times)", "calls to predict and update are summarised by what they are given")
WHERE = "RtkEkfEstimator::addMeasurement"


def run(ctx):
    m = estlib.load()
    lay = Lay(m)
    jobs = list(transitions())
    ctx.add("arrivals", "%d arrivals at histories of up to three" % len(jobs))

    def work(j):
        h, t, k, slot = j
        c = Case(m, lay, h, t, k, slot=slot)
        if c.err:
            return c.text, False, "not decided by the order of times: " + c.err
        if not c.ok:
            return None
        if not c.ret:
            return c.text, False, "refused although a state not after it is retained"
        got = c.got()
        if got != c.ref.log:
            i = next((i for i, (a, b) in enumerate(zip(got, c.ref.log)) if a != b), min(len(got), len(c.ref.log)))
            return c.text, False, "step %d is %s instead of %s" % (i + 1, say(got, i), say(c.ref.log, i))
        if c.S != c.ref.S:
            return c.text, False, "states afterwards: %s instead of %s" % (c.S, c.ref.S)
        if c.M != c.ref.M or not c.count:
            return c.text, False, "retained measurements afterwards: %s instead of %s" % ([x[1:] for x in c.M], [x[1:] for x in c.ref.M])
        return c.text, True, ""
    report(ctx, jobs, work, WHERE)


def say(l, i):
    return str(l[i]) if i < len(l) else "missing"
