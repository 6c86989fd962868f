from cblib import *
TITLE = "Circular buffer never reads or destroys dead elements"
TECH = "typestate analysis of slot lifetimes over all reachable container states (LLVM IR value graphs)"
RULE = """For capacities 2 to 5 every state reachable through the public interface is enumerated; in each, every operation's value graph (all branches and loops decided by the state) gives
the exact sequence of element constructions, copies, assignments, destructions and uses, which must respect slot lifetimes: construct only dead slots, destroy, assign, read only live ones,
and leave exactly the elements that remain (none after clear and destruction)."""
ASSUME = ("arguments passed to push/emplace are not elements of the same buffer", "capacities 2..5 stand for all capacities (the code is uniform in N)")


class Visit:
    def __init__(self, n):
        self.n, self.bad, self.ops = n, {}, {}

    def problem(self, what, op, text, size):
        self.bad.setdefault((what, op), "capacity %d, %d elements: %s" % (self.n - 1, size, text))

    def state(self, m, st, dq):
        full = len(dq) == self.n - 1
        out = []

        def op(name, expect_dead, expect_new, public, order):
            g = m.run(name, st)
            L = Life(dq).do(g)
            self.ops[public] = self.ops.get(public, 0) + 1
            for e in L.err:
                self.problem("life", public, e, len(dq))
            dead = [s for s in dq if s not in L.live]
            new = [s for s in L.live if s not in dq]
            again = [s for k, s, _ in L.log if k in ("copy", "construct") and s in dq]
            if not L.err:
                if sorted(dead + [s for s in again]) != sorted(expect_dead) and sorted(dead) != sorted(expect_dead):
                    self.problem("count", public, "destroys %d elements %s, should destroy %s" % (len(dead), dead, list(expect_dead)), len(dq))
                if len(new) + len(again) != expect_new:
                    self.problem("count", public, "creates %d elements instead of %d" % (len(new) + len(again), expect_new), len(dq))
            if L.err:
                return
            nd = order(new + again)
            if nd is not None:
                out.append((g.final, tuple(nd)))
        rest = list(dq)
        op("clear", rest, 0, "clear", lambda n: ())
        op("dtor", rest, 0, "destruction", lambda n: None)
        if dq:
            op("pop_front", rest[:1], 0, "pop_front", lambda n: rest[1:])
            op("pop_back", rest[-1:], 0, "pop_back", lambda n: rest[:-1])
        for nm in ("push_back", "emplace_back"):
            op(nm, rest[:1] if full else [], 1, nm, lambda n: (rest[1:] if full else rest) + n)
        for nm in ("push_front", "emplace_front"):
            op(nm, rest[-1:] if full else [], 1, nm, lambda n: n + (rest[:-1] if full else rest))
        # observers must not touch dead slots either
        for nm in ("fwd", "cfwd", "rev", "crev"):
            L = Life(dq).do(m.run(nm, st))
            self.ops["iteration"] = self.ops.get("iteration", 0) + 1
            for e in L.err:
                self.problem("life", "iteration", e, len(dq))
            if not L.err and sorted(L.live) != sorted(dq):
                self.problem("count", "iteration", "creates or destroys elements", len(dq))
        return out


def run(ctx):
    ops = ("construction", "destruction", "clear", "pop_front", "pop_back", "push_back", "push_front", "emplace_back", "emplace_front", "iteration")
    for n in (2, 3, 4, 5):
        v = Visit(n)
        m, seen = explore(n, v)
        ctx.add("states", *["capacity %d: %d reachable states" % (n - 1, len(seen))])
        ctx.add("operation instances", "capacity %d: %d" % (n - 1, m.calls))
        for o in ops:
            ctx.ob("N=%d/%s/lifetimes" % (n, o), ("life", o) not in v.bad, WHERE, v.bad.get(("life", o), ""))
            ctx.ob("N=%d/%s/element count" % (n, o), ("count", o) not in v.bad, WHERE, v.bad.get(("count", o), ""))
