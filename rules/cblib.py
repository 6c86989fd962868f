"""Circular buffer: exploration of every reachable state of the container with concrete end positions.
The element type's life-cycle functions are external, so every construction, destruction, assignment and use of a slot is an event of the value graph.
States are reached only through the public interface (constructor first), whatever the representation."""
import re
import ir, vg
from ir import VERIF, Broken

CB = ("arg", 0)
WHERE = "common/circular_buffer.h"


def quiet(g, st, ins, args):
    return ("ev", None if ins["t"] == "void" else args[0])


class Machine:
    def __init__(self, n):
        self.n = n
        self.m = ir.load([VERIF + "/harness/cbuf.cxx"], [r"^vh_"], extra=["-DCBN=%d" % n])
        self.memo = {}
        self.calls = 0

    def run(self, name, st, ints=()):
        f = self.m.find(r"^vh_%s\(" % name)
        args = {1 + i: vg.c(v, 64 if f["args"][1 + i]["t"] == "i64" else 32) for i, v in enumerate(ints)}
        g = vg.VG(self.m, f, summaries=[(r"^Probe::|^vh_use", quiet)], args=args, entry=st.copy() if st else None)
        self.calls += 1
        return g


def slot(p):
    """identity of the slot a pointer denotes"""
    if isinstance(p, vg.T) and p.op == "ptr" and p.a[0] == CB and not p.a[2]:
        return p.a[1]
    return None


def kind(e):
    d = e.dem
    if re.match(r"Probe::~Probe", d):
        return "destroy"
    if re.match(r"Probe::Probe\(", d):
        return "copy" if "Probe const&" in d or "Probe&&" in d else "construct"
    if re.match(r"Probe::operator=", d):
        return "assign"
    if d.startswith("vh_use"):
        return "use"
    return None


class Life:
    """typestate simulation of one operation"""
    def __init__(self, live):
        self.live, self.err, self.log = list(live), [], []

    def do(self, g):
        for e in g.events:
            k = kind(e)
            if k is None:
                self.err.append("calls %s" % e.dem[:100])
                continue
            if e.loops:
                self.err.append("%s inside a loop whose trip count is not determined by the state" % k)
                continue
            if e.guard is not vg.TRUE:
                self.err.append("%s happens only under %s, undetermined by the state" % (k, str(e.guard)[:200]))
                continue
            s = slot(e.args[0])
            self.log.append((k, s, [slot(a) if slot(a) is not None else a for a in e.args[1:]]))
            if s is None and not (k in ("copy", "use") and False):
                # temporaries outside the buffer are the operation's own business
                o = e.args[0].a[0][0] if e.args[0].op == "ptr" else "?"
                if o != "alloca":
                    self.err.append("%s of %s" % (k, str(e.args[0])[:100]))
                continue
            if k in ("copy", "construct"):
                if s in self.live:
                    self.err.append("constructs over the live element in slot %d" % s)
                else:
                    self.live.append(s)
            elif k == "destroy":
                if s not in self.live:
                    self.err.append("destroys slot at byte %d, which holds no element" % s)
                else:
                    self.live.remove(s)
            elif s not in self.live:
                self.err.append("%ss slot at byte %d, which holds no element" % (k, s))
            for a in e.args[1:]:
                q = slot(a)
                if q is not None and q not in self.live:
                    self.err.append("reads slot at byte %d, which holds no element" % q)
        return self


def key(g_or_state):
    """representation state: everything stored in the object outside element slots"""
    st = g_or_state
    return tuple(sorted((o, s, t.id) for o, (s, t) in st.cells(CB).items() if t.op != "undef"))


def explore(n, visit, limit=400):
    """visit(machine, state, deque) for every reachable state; deque lists the live slots front to back.
    Transition problems are reported through visit.problem(kind, op, text)."""
    m = Machine(n)
    g = m.run("ctor", None)
    L = Life([]).do(g)
    if L.err or L.live:
        visit.problem("life", "construction", "; ".join(L.err) or "constructs elements", 0)
    start = (g.final, ())
    seen = {(key(g.final), ())}
    todo = [start]
    while todo:
        st, dq = todo.pop()
        for nxt in visit.state(m, st, dq):
            k = (key(nxt[0]), nxt[1])
            if k not in seen:
                if len(seen) > limit:
                    raise Broken("the buffer's state space does not close after %d states" % limit)
                seen.add(k)
                todo.append(nxt)
    return m, seen
