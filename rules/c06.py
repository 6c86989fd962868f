from cblib import *
TITLE = "Circular buffer keeps order, bounds and wraparound"
TECH = "refinement against an abstract bounded deque over all reachable container states (LLVM IR value graphs)"
RULE = """For capacities 1 to 5 every state reachable through the public interface is enumerated together with the abstract double-ended queue it stands for. In each state the value graph of every
operation must reduce (constant propagation over the state) to exactly what the deque prescribes: pushes add the copied or constructed argument at the named end and, on a full buffer, drop the
opposite element; pops drop the named end; size, empty, full, capacity, front, back, indexing, iteration in both directions, and iterator addition, subtraction, distance and comparison for
every pair of positions give the deque's answers."""
ASSUME = ("iterator positions stay within begin..end and indices within the elements held", "capacities 1..5 stand for all capacities (the code is uniform in N)")


class Visit:
    def __init__(self, n):
        self.n, self.bad, self.seen = n, {}, {}

    def problem(self, what, op, text, size=0):
        self.bad.setdefault(op, text)

    def expect(self, op, got, want, text):
        self.seen[op] = self.seen.get(op, 0) + 1
        if got != want:
            self.bad.setdefault(op, "capacity %d, %s: gives %s instead of %s" % (self.n - 1, text, got, want))

    def state(self, m, st, dq):
        dq = list(dq)
        n, k = self.n, len(dq)
        pos = "%d elements, first in slot %s" % (k, dq[0] // 16 if dq else "-")
        out = []

        def val(t):
            if t is None:
                return None
            return t.a[0] if t.op == "c" else vg.show(t)[:200]

        def ret(name, *a):
            return m.run(name, st, a).ret

        def truth(name, want, pub, *a):
            v = val(ret(name, *a))
            self.expect(pub, bool(v) if isinstance(v, int) else v, want, pos + (", positions %s" % (a,) if a else ""))

        def place(name, want, pub, *a):
            r = ret(name, *a)
            s = slot(r)
            self.expect(pub, s if s is not None else vg.show(r)[:200], want, pos + (", positions %s" % (a,) if a else ""))
        # observers
        self.expect("size", val(ret("size")), k, pos)
        self.expect("max_size", val(ret("maxsize")), n - 1, pos)
        self.expect("capacity", val(ret("capacity")), n - 1, pos)
        truth("empty", k == 0, "empty")
        truth("full", k == n - 1, "full")
        if k:
            for nm in ("front", "cfront"):
                place(nm, dq[0], "front")
            for nm in ("back", "cback"):
                place(nm, dq[-1], "back")
        for i in range(k):
            for nm, pub in (("at", "at"), ("cat", "at"), ("idx", "operator[]"), ("cidx", "operator[]")):
                place(nm, dq[i], pub, i)
            for nm in ("arrow", "carrow"):
                place(nm, dq[i], "iterator ->", i)
        for nm, want in (("fwd", dq), ("cfwd", dq), ("rev", dq[::-1]), ("crev", dq[::-1])):
            g = m.run(nm, st)
            self.expect("iteration", visits(g), want, pos + " (%s)" % nm)
        for i in range(k + 1):
            for j in range(k + 1):
                self.expect("iterator distance", val(ret("dist", i, j)), j - i, pos + ", positions %s" % ((i, j),))
                for nm, pub, w in (("lt", "iterator <", i < j), ("gt", "iterator >", i > j), ("le", "iterator <=", i <= j),
                                   ("ge", "iterator >=", i >= j), ("eq", "iterator ==", i == j), ("ne", "iterator !=", i != j)):
                    truth(nm, w, pub, i, j)
                if i + j < k:
                    place("plus", dq[i + j], "iterator +", i, j)
                    place("pluseq", dq[i + j], "iterator +=", i, j)
                if 0 <= i - j < k:
                    place("minus", dq[i - j], "iterator -", i, j)
                    place("cminus", dq[i - j], "iterator -", i, j)
                    place("minuseq", dq[i - j], "iterator -=", i, j)
            if i:
                place("fromend", dq[k - i], "iterator -", i)
        # modifiers
        full = k == n - 1

        def mod(name, rest, end, isnew):
            g = m.run(name, st)
            L = Life(dq).do(g)
            self.seen[name] = self.seen.get(name, 0) + 1
            made = [(kd, s, a) for kd, s, a in L.log if kd in ("copy", "construct", "assign") and s is not None]
            order = None
            if isnew and name.startswith("push"):
                ok = len(made) == 1 and len(made[0][2]) == 1 and made[0][2][0] == vg.mk("ptr", (("arg", 1), 0, ()), "p")
                self.expect(name, "a copy of the argument" if ok else "%s" % ([(a, b) for a, b, _ in made],), "a copy of the argument", pos)
            elif isnew:
                a = made[0][2] if len(made) == 1 else []
                ok = len(a) == 2 and a[0].op == "arg" and a[1].op == "arg" and a[0].a[0] == 1 and a[1].a[0] == 2
                self.expect(name, "an element built from the arguments" if ok else "%s" % ([(a, b) for a, b, _ in made],), "an element built from the arguments", pos)
            else:
                self.expect(name, len(made), 0, pos + " (elements written)")
            if isnew and len(made) != 1:
                return
            new = [made[0][1]] if isnew else []
            nd = (rest + new) if end == "back" else (new + rest)
            # what the next state shows must be that deque
            g2 = m.run("fwd", g.final)
            self.expect(name, visits(g2), nd, pos + ", then iterating")
            if visits(g2) == nd and len(set(nd)) == len(nd):
                out.append((g.final, tuple(nd)))
        mod("clear", [], "back", False)
        if k:
            mod("pop_front", dq[1:], "back", False)
            mod("pop_back", dq[:-1], "back", False)
        for nm in ("push_back", "emplace_back"):
            mod(nm, dq[1:] if full else dq, "back", True)
        for nm in ("push_front", "emplace_front"):
            mod(nm, dq[:-1] if full else dq, "front", True)
        return out


def visits(g):
    r = []
    for e in g.events:
        if kind(e) == "use":
            if e.loops or e.guard is not vg.TRUE:
                return "a visit under an undetermined condition"
            r.append(slot(e.args[0]))
    return r


def run(ctx):
    for n in (2, 3, 4, 5, 6):
        v = Visit(n)
        m, seen = explore(n, v)
        ctx.add("states", "capacity %d: %d reachable states" % (n - 1, len(seen)))
        ctx.add("operation instances", "capacity %d: %d value graphs" % (n - 1, m.calls))
        for o in sorted(set(v.seen) | set(v.bad)):
            ctx.ob("N=%d/%s" % (n, o), o not in v.bad, WHERE, v.bad.get(o, ""))
        ctx.need(len(seen) >= n * (n - 1), "capacity %d: only %d states reached" % (n - 1, len(seen))) if not v.bad else None
