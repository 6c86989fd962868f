"""Forward dataflow over the SSA dump producing a hash-consed, gated value graph.

 * every SSA value is a term; control joins become ite(edge-condition, a, b)
 * memory is field-sensitive with strong updates; objects are named by provenance
   (argument, alloca, global, pointee of a loaded pointer, heap site)
 * loops that the optimiser did not unroll are summarised: header phis and memory cells the body
   changes become fresh loop symbols whose (init, next) terms are recorded
 * calls that stay calls are ordered events (trace) with guards
Nothing is executed and no solver is involved: rules evaluate terms in abstract domains.
"""
import copy, re, sys
from fractions import Fraction
from ir import Broken

sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "w", "id", "__weakref__")

    def __repr__(self):
        return show(self, 6)


_tab = {}


def mk(op, a=(), w=None):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w, t.id = op, a, w, len(_tab)
        _tab[k] = t
    return t


def show(t, d=30):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return str(t.a[0])
    if t.op == "cf":
        return repr(float.fromhex(t.a[0]) if isinstance(t.a[0], str) else t.a[0])
    if d <= 0:
        return "…"
    if t.op == "ptr":
        s = "&" + showobj(t.a[0], d - 1) + "+%d" % t.a[1]
        for v, k in t.a[2]:
            s += "+%d*%s" % (k, show(v, d - 1))
        return s
    if t.op in ("init", "undef", "hav"):
        return t.op + "<" + ",".join(showobj(x, d - 1) if i == 0 else str(x) for i, x in enumerate(t.a)) + ">"
    return t.op + "(" + ", ".join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a) + ")"


def showobj(o, d=10):
    if isinstance(o, tuple):
        return "[" + " ".join(show(x, d) if isinstance(x, T) else showobj(x, d) for x in o) + "]"
    return str(o)


# ------------------------------------------------------------------ constants / simple folding
def c(v, w):
    m = 1 << w
    v &= m - 1
    if w > 1 and v >> (w - 1):
        v -= m
    return mk("c", (v,), w)


TRUE, FALSE = mk("c", (1,), 1), mk("c", (0,), 1)


def b(x):
    return TRUE if x else FALSE


def cf(x):
    return mk("cf", (float(x).hex(),), "f")


def fval(t):
    return float.fromhex(t.a[0])


def unsigned(v, w):
    return v & ((1 << w) - 1)


def is_c(t):
    return t.op == "c"


def NOT(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "icmp":
        inv = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
               "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
        if x.a[0] in ("slt", "sle", "ult", "ule"):
            return mk("icmp", ({"slt": "sle", "sle": "slt", "ult": "ule", "ule": "ult"}[x.a[0]], x.a[2], x.a[1]), 1)
        if x.a[0] == "eq":
            return mk("not", (x,), 1)
        return icmp(inv[x.a[0]], x.a[1], x.a[2])
    return mk("not", (x,), 1)


def AND(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE or x is y:
        return x
    if NOT(x) is y:
        return FALSE
    # absorb: x and (x and z)
    if y.op == "band" and x in y.a:
        return y
    if x.op == "band" and y in x.a:
        return x
    return mk("band", (x, y), 1)


def OR(x, y):
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE or x is y:
        return x
    if NOT(x) is y:
        return TRUE
    # (p and q) or (p and not q) -> p
    xs = set(x.a) if x.op == "band" else {x}
    ys = set(y.a) if y.op == "band" else {y}
    com = xs & ys
    if com:
        dx, dy = xs - com, ys - com
        if not dx or not dy:
            r = TRUE
        elif len(dx) == 1 and len(dy) == 1:
            r = OR(next(iter(dx)), next(iter(dy)))
        else:
            r = None
        if r is not None:
            for k in sorted(com, key=lambda t: t.id):
                r = AND(k, r)
            return r
    # x or (not x and y) -> x or y
    nx = NOT(x)
    if y.op == "band" and nx in y.a:
        return OR(x, y.a[1] if y.a[0] is nx else y.a[0])
    ny = NOT(y)
    if x.op == "band" and ny in x.a:
        return OR(y, x.a[1] if x.a[0] is ny else x.a[0])
    return mk("bor", (x, y), 1)


def ITE(k, x, y):
    if k is TRUE:
        return x
    if k is FALSE:
        return y
    if x is y:
        return x
    if x.op == "undef":
        return y
    if y.op == "undef":
        return x
    if k.op == "not":
        return ITE(k.a[0], y, x)
    if x.w == 1 and y.w == 1:
        if x is TRUE and y is FALSE:
            return k
        if x is FALSE and y is TRUE:
            return NOT(k)
        if x is TRUE:
            return OR(k, y)
        if y is FALSE:
            return AND(k, x)
        if x is FALSE:
            return AND(NOT(k), y)
        if y is TRUE:
            return OR(NOT(k), x)
    if x.op == "ite" and x.a[0] is k:
        x = x.a[1]
    if y.op == "ite" and y.a[0] is k:
        y = y.a[2]
    if x is y:
        return x
    return mk("ite", (k, x, y), x.w if x.w is not None else y.w)


def sdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def icmp(pred, x, y):
    if x.op == "c" and y.op == "c":
        w = x.w
        a, bb = x.a[0], y.a[0]
        ua, ub = unsigned(a, w), unsigned(bb, w)
        return b({"eq": a == bb, "ne": a != bb, "slt": a < bb, "sle": a <= bb, "sgt": a > bb, "sge": a >= bb,
                  "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}[pred])
    if x is y:
        return b(pred in ("eq", "sle", "sge", "ule", "uge"))
    if x.op == "ptr" or y.op == "ptr" or x.op == "null" or y.op == "null":
        r = ptr_eq(x, y)
        if r is not None and pred in ("eq", "ne"):
            return b(r == (pred == "eq"))
        if x.op == "ptr" and y.op == "ptr" and x.a[0] == y.a[0] and x.a[2] == y.a[2] and pred not in ("eq", "ne"):
            p, q = x.a[1], y.a[1]
            return b({"lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q}[pred[1:]])
    if pred in ("sgt", "sge", "ugt", "uge"):  # canonical: less-than forms
        return icmp({"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule"}[pred], y, x)
    if pred in ("eq", "ne"):
        if x.op == "ite" and is_leafc(y) and (is_leafc(x.a[1]) or is_leafc(x.a[2])):
            return ITE(x.a[0], icmp(pred, x.a[1], y), icmp(pred, x.a[2], y))
        if y.op == "ite" and is_leafc(x) and (is_leafc(y.a[1]) or is_leafc(y.a[2])):
            return ITE(y.a[0], icmp(pred, x, y.a[1]), icmp(pred, x, y.a[2]))
        if x.w == 1:
            r = ITE(x, y, NOT(y))
            return r if pred == "eq" else NOT(r)
        if x.op in ("c", "null") or (y.op not in ("c", "null") and x.id > y.id):
            x, y = y, x
        if pred == "ne":
            return NOT(mk("icmp", ("eq", x, y), 1))
    return mk("icmp", (pred, x, y), 1)


def is_leafc(t):
    return t.op in ("c", "null", "ptr")


def ptr_eq(x, y):
    """True/False/None"""
    if x.op == "null" and y.op == "null":
        return True
    for p, q in ((x, y), (y, x)):
        if p.op == "null" and q.op == "ptr":
            o = q.a[0]
            if o[0] in ("alloca", "glob", "heap", "ref"):
                return False
    if x.op == "ptr" and y.op == "ptr":
        if x.a[0] == y.a[0] and not x.a[2] and not y.a[2]:
            return x.a[1] == y.a[1]
        if x.a[0] != y.a[0] and x.a[0][0] in ("alloca", "glob", "heap") and y.a[0][0] in ("alloca", "glob", "heap", "arg", "ref"):
            return False
    return None


BIN = {"add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "lshr", "ashr", "and", "or", "xor"}
COMM = {"add", "mul", "and", "or", "xor"}


def binop(op, x, y):
    w = x.w
    if w == 1 and op in ("and", "or", "xor", "add", "sub", "mul"):
        if op in ("and", "mul"):
            return AND(x, y)
        if op == "or":
            return OR(x, y)
        return ITE(x, NOT(y), y)
    if x.op == "c" and y.op == "c":
        a, bb = x.a[0], y.a[0]
        ua, ub = unsigned(a, w), unsigned(bb, w)
        try:
            if op == "add": return c(a + bb, w)
            if op == "sub": return c(a - bb, w)
            if op == "mul": return c(a * bb, w)
            if op == "sdiv": return c(sdiv(a, bb), w)
            if op == "srem": return c(a - bb * sdiv(a, bb), w)
            if op == "udiv": return c(ua // ub, w)
            if op == "urem": return c(ua % ub, w)
            if op == "shl": return c(ua << ub, w) if ub < w else mk("undef", (("poison",),), w)
            if op == "lshr": return c(ua >> ub, w)
            if op == "ashr": return c(a >> ub, w)
            if op == "and": return c(a & bb, w)
            if op == "or": return c(a | bb, w)
            if op == "xor": return c(a ^ bb, w)
        except ZeroDivisionError:
            return mk("undef", (("poison",),), w)
    if op in COMM and x.op == "c":
        x, y = y, x
    if y.op == "c":
        v = y.a[0]
        if v == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return x
        if v == 0 and op in ("mul", "and"):
            return y
        if v == 1 and op in ("mul", "sdiv", "udiv"):
            return x
        if v == -1 and op == "and":
            return x
    if x is y and op in ("sub", "xor"):
        return c(0, w)
    if op == "sub" and x.op == "ptrtoint" and y.op == "ptrtoint" and x.a[0].op == "ptr" and y.a[0].op == "ptr" \
            and x.a[0].a[0] == y.a[0].a[0] and x.a[0].a[2] == y.a[0].a[2]:
        return c(x.a[0].a[1] - y.a[0].a[1], w)
    if x is y and op in ("and", "or"):
        return x
    if op in COMM and y.op != "c" and x.id > y.id:
        x, y = y, x
    if x.op == "ite" and y.op == "c" and (x.a[1].op == "c" and x.a[2].op == "c"):
        return ITE(x.a[0], binop(op, x.a[1], y), binop(op, x.a[2], y))
    return mk(op, (x, y), w)


def cast(op, x, w):
    if op == "trunc":
        if x.w == w:
            return x
        if x.op == "c":
            return c(x.a[0], w)
        if x.op in ("zext", "sext"):
            i = x.a[0]
            if i.w == w:
                return i
            if i.w > w:
                return cast("trunc", i, w)
            return cast(x.op, i, w)
        if w == 1 and x.op == "ite":
            return ITE(x.a[0], cast("trunc", x.a[1], 1), cast("trunc", x.a[2], 1))
        return mk("trunc", (x,), w)
    if op == "zext":
        if x.w == w:
            return x
        if x.op == "c":
            return c(unsigned(x.a[0], x.w), w)
        if x.w == 1:
            return mk("ite", (x, c(1, w), c(0, w)), w)
        if x.op == "zext":
            return cast("zext", x.a[0], w)
        return mk("zext", (x,), w)
    if op == "sext":
        if x.w == w:
            return x
        if x.op == "c":
            return c(-1 if (x.w == 1 and x.a[0]) else x.a[0], w)
        if x.w == 1:
            return mk("ite", (x, c(-1, w), c(0, w)), w)
        if x.op in ("sext",):
            return cast("sext", x.a[0], w)
        return mk("sext", (x,), w)
    raise Broken("cast " + op)


def fcmp(pred, x, y):
    if x.op == "cf" and y.op == "cf":
        a, bb = fval(x), fval(y)
        un = a != a or bb != bb
        r = {"eq": a == bb, "ne": a != bb, "lt": a < bb, "le": a <= bb, "gt": a > bb, "ge": a >= bb}.get(pred[1:])
        if pred in ("ord", "uno"):
            return b(un == (pred == "uno"))
        if r is not None:
            return b((r and not un) if pred[0] == "o" else (r or un))
    elif (x.op == "cf" or y.op == "cf") and pred not in ("true", "false"):
        v = fval(x if x.op == "cf" else y)
        if v != v:
            return b(pred == "uno" or pred[0] == "u")
    if pred in ("true", "false"):
        return b(pred == "true")
    if pred[1:] in ("gt", "ge"):
        return fcmp(pred[0] + {"gt": "lt", "ge": "le"}[pred[1:]], y, x)
    # canonical: ordered forms; unordered = not ordered inverse
    if pred[0] == "u" and pred != "uno":
        inv = {"eq": "one", "ne": "oeq", "lt": "oge", "le": "ogt"}[pred[1:]]
        return NOT(fcmp(inv, x, y))
    if pred in ("oeq", "one", "uno", "ord") and x.id > y.id:
        x, y = y, x
    if pred == "ord":
        return NOT(fcmp("uno", x, y))
    return mk("fcmp", (pred, x, y), 1)

def fbin(op, x, y):
    if x.op == "cf" and y.op == "cf":
        try:
            a, bb = fval(x), fval(y)
            return cf({"fadd": lambda: a + bb, "fsub": lambda: a - bb, "fmul": lambda: a * bb,
                       "fdiv": lambda: a / bb}[op]())
        except (ZeroDivisionError, KeyError, OverflowError):
            pass
    if op in ("fadd", "fmul") and x.id > y.id:
        x, y = y, x
    return mk(op, (x, y), "f")


# ------------------------------------------------------------------ memory
def obj_local(o):
    return o[0] in ("alloca", "heap")


class State:
    """objects: obj -> dict(off -> (size, term)); 'gen': obj -> generation tag of the background"""
    __slots__ = ("mem", "gen", "own")

    def __init__(self):
        self.mem = {}
        self.gen = {}
        self.own = set()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.gen = dict(self.gen)
        s.own = set()
        self.own = set()
        return s

    def cells(self, o):
        return self.mem.get(o) or {}

    def wcells(self, o):
        if o not in self.own:
            self.mem[o] = dict(self.mem.get(o) or {})
            self.own.add(o)
        return self.mem[o]


class Ev:
    __slots__ = ("kind", "name", "dem", "args", "ret", "guard", "state", "ins", "block", "seq", "loops", "post")

    def __repr__(self):
        return "<ev %s(%s) if %s>" % (self.dem, ", ".join(show(a, 3) for a in self.args), show(self.guard, 3))

    def where(self):
        return where(self.ins)


def where(ins):
    l = ins.get("loc") or []
    for f, n, fn in l:
        if "/repo/" in f and not f.startswith("/usr"):
            return "%s:%d" % (f.replace("/repo/", ""), n)
    return "%s:%d" % (l[0][0], l[0][1]) if l else "?"


class Loop:
    def __init__(self, h, blocks):
        self.h, self.blocks = h, blocks
        self.phis, self.cells, self.tag = {}, {}, None
        self.parent = None


class VG:
    """Analyse one function of a Module.  Results: .ret, .final (State), .events, .loops, .guard[block]"""

    def __init__(self, mod, fn, summaries=(), args=None, pre=None, mutable_const=False, globals_const=True,
                 const_args=True, init_hook=None, entry=None, unroll=300):
        self.unroll, self._lo, self.loopruns = unroll, {}, []
        self.m, self.f = mod, fn
        self.summ = [(re.compile(r), h) for r, h in summaries]
        self.events = []
        self.osz = {}
        self.accesses = []       # every load, store and block copy: (r|w, pointer, size, condition, instruction)
        self.env = {}
        self.loops = {}
        self.uid = 0
        self.guard = {}
        self.rets = []
        self.assumes = []
        self.init_hook = init_hook
        self.unreach = []
        self.blocks = fn["blocks"]
        self.entry = entry or State()
        self.const_args = const_args
        for i, a in enumerate(fn["args"]):
            if args and i in args:
                v = args[i]
            elif a["t"] == "ptr":
                v = mk("ptr", (("arg", i), 0, ()), "p")
            else:
                v = mk("arg", (i,), self.width(a["t"]))
            self.env[a["id"]] = v
        self._cfg()
        self._run()

    # ---- types
    @staticmethod
    def width(t):
        if t == "ptr":
            return "p"
        if t[0] == "i" and t[1:].isdigit():
            return int(t[1:])
        if t in ("double", "float", "x86_fp80"):
            return "f"
        return t

    # ---- CFG
    def _succ(self, bi):
        t = self.blocks[bi][-1]
        out = []
        for o in t.get("ops", []):
            if o.get("k") == "b":
                out.append(o["v"])
        return out

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self._succ(i) for i in range(n)]
        self.pred = [[] for _ in range(n)]
        seen, order, stack = set(), [], [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        back = set()
        while stack:
            u, it = stack[-1]
            for v in it:
                if v in onstack:
                    back.add((u, v))
                if v not in seen:
                    seen.add(v)
                    onstack.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                onstack.discard(u)
                stack.pop()
        self.rpo = order[::-1]
        self.rank = {x: i for i, x in enumerate(self.rpo)}
        for u in self.rpo:
            for v in dict.fromkeys(self.succ[u]):
                self.pred[v].append(u)
        # idom
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in self.rpo[1:]:
                new = None
                for p in self.pred[u]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, p, new)
                if idom.get(u) != new:
                    idom[u] = new
                    ch = True
        self.idom = idom
        loops = {}
        for u, h in back:
            if not self.dominates(h, u):
                raise Broken("irreducible control flow in " + self.f["dem"])
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(self.pred[x])
        self.back = back
        self.loops = {h: Loop(h, bl) for h, bl in loops.items()}
        for h, L in self.loops.items():
            cands = [L2 for h2, L2 in self.loops.items() if h2 != h and h in L2.blocks]
            L.parent = min(cands, key=lambda x: len(x.blocks)) if cands else None
        self.inloop = {}
        for u in self.rpo:
            cands = [L for L in self.loops.values() if u in L.blocks]
            self.inloop[u] = min(cands, key=lambda x: len(x.blocks)) if cands else None

    def _isect(self, idom, a, bb):
        while a != bb:
            while self.rank[a] > self.rank[bb]:
                a = idom[a]
            while self.rank[bb] > self.rank[a]:
                bb = idom[bb]
        return a

    def dominates(self, a, bb):
        while True:
            if a == bb:
                return True
            if bb == 0:
                return False
            bb = self.idom[bb]

    # ---- values
    def fresh(self, tag, w, *extra):
        self.uid += 1
        return mk("sym", (tag, self.uid) + extra, w)

    def val(self, o):
        k = o["k"]
        if k == "v":
            if o["v"] not in self.env:
                return mk("undef", (("use-before-def", o["v"]),), None)
            return self.env[o["v"]]
        return self.const(o)

    def const(self, o):
        k = o["k"]
        if k == "i":
            return c(int(o["v"]), o["w"])
        if k == "f":
            v = o["v"]
            return mk("cf", (float.fromhex(v).hex() if v not in ("nan", "-nan", "inf", "-inf") else v,), "f")
        if k == "n":
            return mk("null", (), "p")
        if k == "u":
            return mk("undef", (("poison",),), self.width(o["t"]))
        if k == "g":
            return mk("ptr", (("glob", o["v"]), o["o"], ()), "p")
        if k == "fn":
            return mk("fn", (o["v"],), "p")
        if k == "z":
            if o.get("t", "").startswith("{") or o.get("t", "").startswith("%"):
                return mk("aggz", (o["t"],), None)
            return mk("zero", (o.get("t"),), None)
        if k == "agg":
            return mk("agg", tuple(self.const(x) for x in o["a"]), o["t"])
        if k == "ce":
            return mk("ce", (o["op"],) + tuple(self.const(x) for x in o["a"]), self.width(o["t"]))
        if k == "md":
            return mk("md", (), None)
        raise Broken("operand kind %s in %s" % (k, self.f["dem"]))

    # ---- pointers
    def ptr_add(self, p, off, var):
        if p.op == "ptr":
            vs = list(p.a[2])
            for i, (v, k) in enumerate(var):
                if v.op not in ("c", "init", "sext", "zext", "arg", "loop", "phi"):
                    t = const_tree(v)
                    if t is not None and t.op == "ite":
                        rest = list(var[:i]) + list(var[i + 1:])
                        return ITE(t.a[0], self.ptr_add(p, off, rest + [(t.a[1], k)]), self.ptr_add(p, off, rest + [(t.a[2], k)]))
                    v = t if t is not None else v
                if v.op == "c":
                    off += v.a[0] * k
                else:
                    if v.op == "sext" or v.op == "zext":
                        pass
                    vs.append((v, k))
            vs = self._normvar(vs)
            return mk("ptr", (p.a[0], p.a[1] + off, vs), "p")
        if p.op == "ite":
            return ITE(p.a[0], self.ptr_add(p.a[1], off, var), self.ptr_add(p.a[2], off, var))
        if p.op == "undef":
            return p
        if p.op == "null":
            return mk("ptr", (("nullobj",), off, tuple(var)), "p") if (off or var) else p
        return self.ptr_add(self.deref(p), off, var)

    @staticmethod
    def _normvar(vs):
        d = {}
        for v, k in vs:
            d[v] = d.get(v, 0) + k
        return tuple(sorted(((v, k) for v, k in d.items() if k), key=lambda x: x[0].id))

    def deref(self, p):
        """pointer value term -> ptr term naming its pointee object"""
        if p.op == "ptr":
            return p
        return mk("ptr", (("deref", p), 0, ()), "p")

    def initial(self, st, o, off, size, w):
        if o[0] == "alloca":
            g = st.gen.get(o, 0)
            if not g:
                return mk("undef", (("uninit", o, off, size),), w)
        if o[0] == "glob":
            g = self.m.globals.get(o[1])
            if g and g["const"] and "init" in g:
                r = self.const_load(g, off, size, w)
                if r is not None:
                    return r
        if self.init_hook:
            r = self.init_hook(o, off, size, w, st.gen.get(o, 0))
            if r is not None:
                return r
        return mk("init", (o, off, size, st.gen.get(o, 0)), w)

    def const_load(self, g, off, size, w):
        bytes_ = {}
        for o, s, v in g["init"]:
            if o == off and s == size and v["k"] != "z":
                return self.const(v)
            if v["k"] == "z":
                for i in range(s):
                    bytes_[o + i] = 0
            elif v["k"] == "i":
                x = unsigned(int(v["v"]), 8 * s)
                for i in range(s):
                    bytes_[o + i] = (x >> (8 * i)) & 255
        if isinstance(w, int) and all((off + i) in bytes_ for i in range(size)):
            return c(sum(bytes_[off + i] << (8 * i) for i in range(size)), w)
        if w == "f" and all(bytes_.get(off + i) == 0 for i in range(size)):
            return cf(0.0)
        if w == "p" and all(bytes_.get(off + i) == 0 for i in range(size)):
            return mk("null", (), "p")
        return None

    def load(self, st, p, size, w, ins=None):
        p = p if p.op in ("ptr", "ite") else self.deref(p)
        if p.op == "ite":
            return ITE(p.a[0], self.load(st, p.a[1], size, w), self.load(st, p.a[2], size, w))
        o, off, var = p.a
        cells = st.cells(o)
        if var:
            return self.vload(st, o, off, var, size, w)
        hit = cells.get(off)
        if hit and hit[0] == size:
            return self.conv(hit[1], w, size)
        if isinstance(w, str) and w not in ("f", "p"):
            # aggregate load
            return mk("aggload", (o, off, size, self._snap(st, o)), w)
        # overlapping?
        over = [(k, s, t) for k, (s, t) in cells.items() if k < off + size and off < k + s]
        if not over:
            return self.initial(st, o, off, size, w)
        # zero-fill region
        for k, s, t in over:
            if k <= off and off + size <= k + s:
                if t.op == "zero":
                    return c(0, w) if isinstance(w, int) else (cf(0.0) if w == "f" else mk("null", (), "p"))
                iv = self.asint(t, s * 8)
                r = cast("trunc", binop("lshr", iv, c((off - k) * 8, s * 8)), size * 8)
                return self.conv(r, w, size)
        # compose bytewise
        acc = None
        pos = off
        parts = []
        for k, s, t in sorted(over, key=lambda x: x[0]):
            if k > pos:
                parts.append((pos, k - pos, self.initial(st, o, pos, k - pos, (k - pos) * 8)))
                pos = k
            e = min(k + s, off + size)
            if t.op == "zero":
                iv = c(0, (e - pos) * 8)
            else:
                iv = self.asint(t, s * 8)
                iv = cast("trunc", binop("lshr", iv, c((pos - k) * 8, s * 8)), (e - pos) * 8)
            parts.append((pos, e - pos, iv))
            pos = e
        if pos < off + size:
            parts.append((pos, off + size - pos, self.initial(st, o, pos, off + size - pos, (off + size - pos) * 8)))
        W = size * 8
        acc = c(0, W)
        for po, s, t in parts:
            acc = binop("or", acc, binop("shl", cast("zext", t, W), c((po - off) * 8, W)))
        return self.conv(acc, w, size)

    def _snap(self, st, o):
        return tuple(sorted((k, s, t) for k, (s, t) in st.cells(o).items())) + (st.gen.get(o, 0),)

    def vload(self, st, o, off, var, size, w):
        snap = tuple(sorted(((k, s, t) for k, (s, t) in st.cells(o).items()), key=lambda x: x[0]))
        return mk("vload", (o, off, var, size, st.gen.get(o, 0), snap), w)

    def asint(self, t, w):
        if t.w == w:
            return t
        if isinstance(t.w, int):
            return cast("zext", t, w) if t.w < w else cast("trunc", t, w)
        if t.op == "cf" and w == 64:
            import struct
            return c(struct.unpack("<q", struct.pack("<d", fval(t)))[0], 64)
        if t.op == "bitcast" and t.a[0].w == w:
            return t.a[0]
        return mk("bitcast", (t,), w)

    def conv(self, t, w, size):
        if t.w == w or t.op == "undef":
            return t
        if t.op == "zero":
            return c(0, w) if isinstance(w, int) else (cf(0.0) if w == "f" else (mk("null", (), "p") if w == "p" else t))
        if isinstance(w, int):
            if isinstance(t.w, int):
                return cast("trunc", t, w) if t.w > w else cast("zext", t, w)
            if t.op == "null":
                return c(0, w)
            return self.asint(t, w)
        if w == "f":
            if t.op == "c" and size == 8:
                import struct
                return cf(struct.unpack("<d", struct.pack("<q", t.a[0]))[0])
            if t.op == "bitcast" and t.a[0].w == "f":
                return t.a[0]
            if t.op == "ite":
                return ITE(t.a[0], self.conv(t.a[1], w, size), self.conv(t.a[2], w, size))
            return mk("bitcast", (t,), "f")
        if w == "p":
            if t.op == "c" and t.a[0] == 0:
                return mk("null", (), "p")
            if t.op == "bitcast" and t.a[0].w == "p":
                return t.a[0]
            return mk("bitcast", (t,), "p")
        return t

    def store(self, st, p, size, v, guard=None):
        p = p if p.op in ("ptr", "ite") else self.deref(p)
        if p.op == "ite":
            for q, g in ((p.a[1], p.a[0]), (p.a[2], NOT(p.a[0]))):
                old = self.load(st, q, size, v.w) if q.op in ("ptr", "ite") else None
                if q.op == "null" or q.op == "undef":
                    continue
                if old is None:
                    old = self.load(st, q, size, v.w)
                self.store(st, q, size, ITE(g, v, old))
            return
        if p.op == "undef":
            return
        o, off, var = p.a
        if var:
            # variable index: everything in the object becomes unknown except provably disjoint cells
            rng = self._range_of(var, off)
            cells = st.wcells(o)
            if rng is None:
                for k in list(cells):
                    del cells[k]
            else:
                for k in list(cells):
                    if k < rng[1] + size and rng[0] < k + cells[k][0]:
                        del cells[k]
            self.uid += 1
            st.gen[o] = ("vst", self.uid)
            return
        cells = st.wcells(o)
        for k in [k for k, (s, t) in cells.items() if k < off + size and off < k + s and not (k == off and s == size)]:
            s, t = cells.pop(k)
            # keep non-overlapped remainders
            if k < off:
                cells[k] = (off - k, self._part(t, s, 0, off - k))
            if k + s > off + size:
                d = off + size - k
                cells[off + size] = (s - d, self._part(t, s, d, s - d))
        cells[off] = (size, v)

    def _range_of(self, var, off):
        return None

    def _part(self, t, s, d, n):
        if t.op in ("zero", "undef"):
            return t if t.op == "zero" else mk("undef", t.a, n * 8)
        iv = self.asint(t, s * 8)
        return cast("trunc", binop("lshr", iv, c(d * 8, s * 8)), n * 8)

    def havoc(self, st, o, why):
        self.uid += 1
        st.mem[o] = {}
        st.own.add(o)
        st.gen[o] = ("hav", why, self.uid)

    # ---- merging
    def merge(self, items):
        """items: [(cond, State)], conds relative to the idom; last cond may be ignored"""
        if len(items) == 1:
            return items[0][1].copy()
        out = items[-1][1].copy()
        for cond, st in items[-2::-1]:
            objs = set(out.mem) | set(st.mem) | set(out.gen) | set(st.gen)
            for o in objs:
                a, bb = st.mem.get(o) or {}, out.mem.get(o) or {}
                ga, gb = st.gen.get(o, 0), out.gen.get(o, 0)
                if (a is bb or a == bb) and ga == gb:
                    continue
                if ga != gb:
                    # background differs: merge cells; the rest becomes a merged generation
                    ng = ("mrg", cond, ga, gb)
                else:
                    ng = ga
                new = {}
                keys = set(a) | set(bb)
                # split to common refinement only for exact offsets/sizes
                for k in sorted(keys):
                    x, y = a.get(k), bb.get(k)
                    if x and y and x[0] == y[0]:
                        new[k] = (x[0], ITE(cond, self._coerce(x[1], y[1], x[0]), self._coerce(y[1], x[1], x[0])))
                    else:
                        for e, src, oth, side in ((x, a, out, 0), (y, bb, st, 1)):
                            if not e:
                                continue
                            s, t = e
                            othst = out if side == 0 else st
                            w = t.w if t.w is not None else s * 8
                            if t.op == "zero":
                                # refine to the other side's granularity
                                ov = self._zero_refine(t, k, s, othst.cells(o))
                                for kk, ss in ov:
                                    if kk in new:
                                        continue
                                    ot = othst.cells(o).get(kk)
                                    ww = ot[1].w if ot and ot[1].w is not None else None
                                    if ww is None:
                                        old = self._bg(othst, o, kk, ss)
                                        new[kk] = (ss, mk("zero", (None,), None) if old.op == "zero" else
                                                   ITE(cond, c(0, ss * 8), old) if side == 0 else ITE(cond, old, c(0, ss * 8)))
                                    else:
                                        zv = self.conv(t, ww, ss)
                                        new[kk] = (ss, ITE(cond, zv, ot[1]) if side == 0 else ITE(cond, ot[1], zv))
                                continue
                            old = self.load(othst, mk("ptr", (o, k, ()), "p"), s, w)
                            if k in new and new[k][0] == s:
                                continue
                            new[k] = (s, ITE(cond, t, old) if side == 0 else ITE(cond, old, t))
                out.mem[o] = self._dedupe(new)
                out.own.add(o)
                if ng != 0:
                    out.gen[o] = ng
        return out

    def _bg(self, st, o, k, s):
        return self.load(st, mk("ptr", (o, k, ()), "p"), s, s * 8)

    def _zero_refine(self, t, k, s, cells):
        cuts = {k, k + s}
        for kk, (ss, tt) in cells.items():
            for e in (kk, kk + ss):
                if k < e < k + s:
                    cuts.add(e)
        cuts = sorted(cuts)
        return [(a, bb - a) for a, bb in zip(cuts, cuts[1:])]

    def _dedupe(self, new):
        out = {}
        end = None
        for k in sorted(new, key=lambda k: (k, -new[k][0])):
            if end is not None and k < end:
                continue  # nested inside a previous wider cell
            out[k] = new[k]
            end = k + new[k][0]
        return out

    def _coerce(self, t, other, size):
        if t.w == other.w or t.op == "undef":
            return t
        if t.op == "zero" and other.w is not None:
            return self.conv(t, other.w, size)
        if t.op == "zero":
            return t
        if other.op == "zero" or other.op == "undef":
            return t
        return self.asint(t, size * 8)

    # ---- run
    def _run(self):
        self.inst = {}      # block -> State on exit edges: (pred, succ) -> (cond, State)
        self.edge = {}
        self.relreach = {}
        self.process(self.rpo, 0, self.entry)
        if self.rets:
            if len(self.rets) == 1:
                self.final, self.ret = self.rets[0][1], self.rets[0][2]
            else:
                items = [(g, s) for g, s, _ in self.rets]
                self.final = self.merge(items)
                r = self.rets[-1][2]
                for g, _, v in self.rets[-2::-1]:
                    if v is not None:
                        r = ITE(g, v, r)
                self.ret = r
        else:
            self.final, self.ret = None, None

    def process(self, order, entry, st0):
        """blocks of `order` in reverse post order; a loop is handled as one unit at its header"""
        done = set()
        for u in order:
            if u in done:
                continue
            if u in self.loops and not self.loops[u].__dict__.get("active"):
                L = self.loops[u]
                self.do_loop(L, st0 if u == entry and u == 0 else None)
                done |= L.blocks
                L.active = False
                continue
            self.block(u, st0 if u == 0 else None)

    def entry_state(self, u, st0=None, skip_back=True):
        """merge incoming forward edges; returns (State, guard, [(cond, pred)])"""
        ins = [(p, self.edge[(p, u)]) for p in self.pred[u] if (p, u) in self.edge and (p, u) not in self.back]
        if u == 0 and not ins:
            return (st0 or self.entry).copy(), TRUE, []
        ins = [(p, e) for p, e in ins if e[0] is not FALSE]
        if not ins:
            return None, FALSE, []
        d = self.idom[u]
        conds = [(self.rel(p, d, e[1]), p) for p, e in ins]
        st = self.merge([(cd, e[2]) for (cd, p), (_, e) in zip(conds, ins)])
        # absolute guard: guard(idom) and OR(rel)
        g = FALSE
        for cd, _ in conds:
            g = OR(g, cd)
        self.relreach[u] = g
        return st, AND(self.guard.get(d, TRUE), g), conds

    def rel(self, p, d, econd):
        """condition to reach the edge (p -> u) from block d (d dominates p)"""
        r = econd
        x = p
        while x != d:
            r = AND(self.relreach.get(x, TRUE), r)
            x = self.idom[x]
        return AND(self.blockassume.get(d, TRUE), r) if False else r

    blockassume = {}

    def do_loop(self, L, st0):
        pre, g, conds = self.entry_state(L.h, st0)
        if pre is None:
            for u in [x for x in self.rpo if x in L.blocks]:
                self.guard[u] = FALSE
                for v in self.succ[u]:
                    self.edge.pop((u, v), None)
            return
        L.active = True
        L.guard = g
        L.pre = pre
        L.unrolled = 0
        changed = {}      # obj -> set((off,size)) or None = whole object
        phis = [i for i in self.blocks[L.h] if i["op"] == "phi"]
        self.uid += 1
        L.tag = (self.f["name"], L.h, self.uid)
        L.init = {}
        for ph in phis:
            iv = None
            for cd, p in conds[::-1]:
                for o, bb in ph["inc"]:
                    if bb == p:
                        v = self.val(o)
                        iv = v if iv is None else ITE(cd, v, iv)
            if L.h == 0 or iv is None:
                iv = mk("undef", (("noinit",),), None)
            L.init[ph["id"]] = iv
        ev0 = len(self.events)
        rets0, un0 = len(self.rets), len(self.unreach)
        uid0 = self.uid
        L.unrolling = True
        if self.unroll and self.try_unroll(L, pre, g, phis):
            return
        L.unrolling = False
        del self.events[ev0:]
        del self.rets[rets0:]
        del self.unreach[un0:]
        for it in range(12):
            del self.events[ev0:]
            del self.rets[rets0:]
            del self.unreach[un0:]
            self.uid = uid0  # deterministic naming on every pass
            st = pre.copy()
            L.cells = {}
            for o, cs in changed.items():
                if cs is None:
                    st.mem[o] = {}
                    st.own.add(o)
                    st.gen[o] = ("loop", L.tag, 0)
                else:
                    for off, s in cs:
                        old = pre.cells(o).get(off)
                        w = old[1].w if old and old[0] == s and old[1].w is not None else (self._cw.get((o, off, s), s * 8))
                        v = mk("lmem", (L.tag, o, off, s), w)
                        self.store(st, mk("ptr", (o, off, ()), "p"), s, v)
                        L.cells[(o, off, s)] = v
            for ph in phis:
                iv = L.init[ph["id"]]
                w = self.width(ph["t"])
                v = mk("lphi", (L.tag, ph["id"]), w)
                if w == "p":
                    # keep pointee identity when the phi walks inside a single object
                    base = iv
                    if base.op == "ptr":
                        v = mk("ptr", (base.a[0], base.a[1], self._normvar(list(base.a[2]) + [(mk("lphi", (L.tag, ph["id"]), 64), 1)])), "p") \
                            if self._ptrphi_ok.get((L.tag[0], L.h, ph["id"]), True) else v
                self.env[ph["id"]] = v
            for e in list(self.edge):
                if e[0] in L.blocks:
                    del self.edge[e]
            self.guard[L.h] = g
            self.block(L.h, None, preset=st)
            self.process([x for x in self.rpo if x in L.blocks and x != L.h], L.h, None)
            backs = [(p, self.edge[(p, L.h)]) for p in self.pred[L.h] if (p, L.h) in self.back and (p, L.h) in self.edge]
            again = False
            for p, e in backs:
                bst = e[2]
                for o in set(bst.mem) | set(bst.gen):
                    if bst.gen.get(o, 0) != st.gen.get(o, 0):
                        if changed.get(o, 0) is not None:
                            changed[o] = None
                            again = True
                        continue
                    if changed.get(o, 0) is None:
                        continue
                    a, bb = bst.mem.get(o) or {}, self._hst.get(L.h, st).mem.get(o) or {}
                    for k in set(a) | set(bb):
                        x, y = a.get(k), bb.get(k)
                        if x != y:
                            s = x[0] if x else y[0]
                            cs = changed.setdefault(o, set())
                            if (k, s) not in cs:
                                # overlapping different granularity -> whole object
                                if any(kk < k + s and k < kk + ss and (kk, ss) != (k, s) for kk, ss in cs):
                                    changed[o] = None
                                    again = True
                                    break
                                cs.add((k, s))
                                if x and x[1].w is not None:
                                    self._cw[(o, k, s)] = x[1].w
                                again = True
            # pointer phis that change object
            for ph in phis:
                if self.width(ph["t"]) == "p" and self._ptrphi_ok.get((L.tag[0], L.h, ph["id"]), True):
                    iv = L.init[ph["id"]]
                    if iv.op != "ptr":
                        continue
                    for p, e in backs:
                        nv = self._phiin(ph, p)
                        if nv is not None and not (nv.op == "ptr" and nv.a[0] == iv.a[0]):
                            self._ptrphi_ok[(L.tag[0], L.h, ph["id"])] = False
                            again = True
            if not again:
                break
        else:
            raise Broken("loop summary did not stabilise in " + self.f["dem"])
        # record next values
        L.next, L.nextcells = {}, {}
        for ph in phis:
            nv = None
            for p, e in backs:
                v = self._phiin(ph, p)
                nv = v if nv is None else ITE(self.rel(p, L.h, e[1]), v, nv)
            L.next[ph["id"]] = nv
        if backs:
            mst = self.merge([(self.rel(p, L.h, e[1]), e[2]) for p, e in backs])
            for (o, off, s), v in L.cells.items():
                L.nextcells[(o, off, s)] = self.load(mst, mk("ptr", (o, off, ()), "p"), s, v.w)
            L.bst = mst
        L.changed = changed
        L.initcells = {k: self.load(pre, mk("ptr", (k[0], k[1], ()), "p"), k[2], v.w) for k, v in L.cells.items()}
        L.exits = [((p, s), self.edge[(p, s)]) for (p, s) in self.edge if p in L.blocks and s not in L.blocks]
        L.backs = [(p, self.rel(p, L.h, e[1])) for p, e in backs]
        self.loopruns.append(copy.copy(L))

    def try_unroll(self, L, pre, g, phis):
        """exact peeling while the loop's own control folds to constants (a trip count the analysis knows);
        data-dependent early exits are merged.  False: summarise instead."""
        vals = {ph["id"]: L.init[ph["id"]] for ph in phis}
        st = pre.copy()
        reach = TRUE          # condition, relative to the header's first entry, to start this iteration
        exits = {}            # (p, s) -> [(cond, State)]
        envs = []             # [(exit condition, env of loop values)]
        body = [x for x in self.rpo if x in L.blocks and x != L.h]
        live = self._liveout(L)
        guards = {}
        for it in range(self.unroll):
            L.iter = it
            for k, v in vals.items():
                self.env[k] = v
            for e in [e for e in self.edge if e[0] in L.blocks]:
                del self.edge[e]
            for u in L.blocks:
                self.guard[u] = FALSE
            self.guard[L.h] = AND(g, reach)
            self.block(L.h, None, preset=st)
            self.process(body, L.h, None)
            for u in L.blocks:
                guards[u] = OR(guards.get(u, FALSE), self.guard.get(u, FALSE))
            ex, bk = [], []
            for (p, s), e in self.edge.items():
                if p in L.blocks and e[0] is not FALSE:
                    cd = self.rel(p, L.h, e[1])
                    if cd is FALSE or self.guard.get(p, FALSE) is FALSE:
                        continue
                    if s == L.h and (p, s) in self.back:
                        bk.append((p, cd, e[2]))
                    elif s not in L.blocks:
                        ex.append(((p, s), cd, e[2]))
            if it == 0 and bk and not (ex == [] or any(cd is TRUE for _, cd, _ in bk)) and not self._const_ctl(L):
                return False
            xc = FALSE
            for k, cd, s2 in ex:
                exits.setdefault(k, []).append((AND(reach, cd), s2))
                xc = OR(xc, cd)
            if ex:
                envs.append((AND(reach, xc), {v: self.env[v] for v in live if v in self.env}))
            if not bk:
                break
            vals = {}
            for ph in phis:
                nv = None
                for p, cd, _ in bk[::-1]:
                    x = self._phiin(ph, p)
                    nv = x if nv is None else ITE(cd, x, nv)
                vals[ph["id"]] = nv
            st = self.merge([(cd, s2) for _, cd, s2 in bk])
            bc = FALSE
            for _, cd, _ in bk:
                bc = OR(bc, cd)
            reach = AND(reach, bc)
        else:
            return False
        L.unrolled = it + 1
        L.exits, L.backs, L.next, L.nextcells, L.cells, L.initcells = [], [], {}, {}, {}, {}
        for e in [e for e in self.edge if e[0] in L.blocks]:
            del self.edge[e]
        self.guard.update(guards)
        for u in L.blocks:
            if u != L.h:
                self.relreach[u] = TRUE
        for (p, s), its in exits.items():
            cond = FALSE
            for cd, _ in its:
                cond = OR(cond, cd)
            st2 = self.merge(its)
            self.edge[(p, s)] = (cond, cond, st2)
        L.xrel = {k: v[0] for k, v in self.edge.items() if k[0] in L.blocks}
        for v in live:
            val = None
            for cd, env in envs[::-1]:
                if v in env:
                    val = env[v] if val is None else ITE(cd, env[v], val)
            if val is not None:
                self.env[v] = val
        return True

    def _const_ctl(self, L):
        """some exit test of the first iteration folded to a constant: the loop counts something known"""
        for p in L.blocks:
            t = self.blocks[p][-1]
            if t["op"] in ("br", "switch") and any(s not in L.blocks for s in self.succ[p]) and \
                    any(s in L.blocks for s in self.succ[p]):
                for s in self.succ[p]:
                    e = self.edge.get((p, s))
                    if e is not None and (e[0] is FALSE or e[0] is TRUE):
                        return True
                if t["op"] == "br" and self._part_ctl(L, t["ops"][0]):
                    return True
        return False

    def _part_ctl(self, L, o):
        """one of the tests combined in an exit condition is a comparison that folded to a constant"""
        if o["k"] != "v":
            return False
        ins = next((i for u in L.blocks for i in self.blocks[u] if i.get("id") == o["v"]), None)
        if ins is None:
            return False
        if ins["op"] == "icmp":
            v = self.env.get(ins["id"])
            return v is not None and v.op == "c"
        return ins["op"] in ("select", "and", "or") and any(self._part_ctl(L, x) for x in ins.get("ops", []))

    def _liveout(self, L):
        key = L.h
        if key not in self._lo:
            defs = set()
            for u in L.blocks:
                for i in self.blocks[u]:
                    if "id" in i:
                        defs.add(i["id"])
            used = set()
            for u in self.rpo:
                if u in L.blocks:
                    continue
                for i in self.blocks[u]:
                    for o in i.get("ops", []):
                        if isinstance(o, dict) and o.get("k") == "v" and o["v"] in defs:
                            used.add(o["v"])
                    for o in i.get("inc", []):
                        if o[0].get("k") == "v" and o[0]["v"] in defs:
                            used.add(o[0]["v"])
            self._lo[key] = used
        return self._lo[key]

    _cw = {}
    _ptrphi_ok = {}

    def _phiin(self, ph, p):
        for o, bb in ph["inc"]:
            if bb == p:
                return self.val(o)
        return None

    _hst = {}

    def block(self, u, st0, preset=None):
        if preset is not None:
            st = preset
            self._hst = dict(self._hst)
            self._hst[u] = preset.copy()
            conds = []
        else:
            st, g, conds = self.entry_state(u, st0)
            self.guard[u] = g
            if st is None:
                return
            for ph in self.blocks[u]:
                if ph["op"] != "phi":
                    break
                v = None
                for cd, p in conds[::-1]:
                    x = self._phiin(ph, p)
                    v = x if v is None else ITE(cd, x, v)
                self.env[ph["id"]] = v
        self.cur = u
        self.curassume = TRUE
        for ins in self.blocks[u]:
            if ins["op"] == "phi":
                continue
            self.step(u, ins, st)
        # terminator
        t = self.blocks[u][-1]
        g = AND(self.guard[u], self.curassume)
        if self.curassume is not TRUE:
            pass
        A = self.curassume
        op = t["op"]
        if op == "ret":
            v = self.val(t["ops"][0]) if t.get("ops") else None
            self.rets.append((g, st, v))
        elif op == "br":
            ops = t["ops"]
            if len(ops) == 1:
                self.setedge(u, ops[0]["v"], A, st)
            else:
                cnd = self.val(ops[0])
                # LLVM operand order: cond, false, true
                f, tr = ops[1]["v"], ops[2]["v"]
                if f == tr:
                    self.setedge(u, f, A, st)
                else:
                    self.setedge(u, tr, AND(A, cnd), st)
                    self.setedge(u, f, AND(A, NOT(cnd)), st)
        elif op == "switch":
            ops = t["ops"]
            x = self.val(ops[0])
            dflt = ops[1]["v"]
            acc = {}
            allc = FALSE
            for i in range(2, len(ops), 2):
                k = icmp("eq", x, self.const(ops[i]))
                acc[ops[i + 1]["v"]] = OR(acc.get(ops[i + 1]["v"], FALSE), k)
                allc = OR(allc, k)
            acc[dflt] = OR(acc.get(dflt, FALSE), NOT(allc))
            for tgt, k in acc.items():
                self.setedge(u, tgt, AND(A, k), st)
        elif op == "unreachable":
            self.unreach.append((g, u))
        else:
            raise Broken("terminator %s in %s" % (op, self.f["dem"]))

    def setedge(self, u, v, cond, st):
        self.edge[(u, v)] = (cond, cond, st)

    # ---- instructions
    def step(self, u, ins, st):
        op = ins["op"]
        if op in ("br", "switch", "ret", "unreachable"):
            return
        V = lambda i: self.val(ins["ops"][i])
        w = self.width(ins["t"])
        if op in BIN:
            x, y = V(0), V(1)
            if isinstance(w, str) and w.startswith("<"):
                r = mk("v" + op, (x, y), w)
            elif x.op == "undef" or y.op == "undef":
                r = mk("undef", (("arith", op),) , w) if x.op == "undef" and y.op == "undef" else mk(op, (x, y), w)
            else:
                r = binop(op, x, y)
        elif op == "icmp":
            r = icmp(ins["pred"], V(0), V(1))
        elif op == "fcmp":
            r = self.fcmp(ins["pred"], V(0), V(1))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            r = self.fbin(op, V(0), V(1))
        elif op == "fneg":
            x = V(0)
            r = cf(-fval(x)) if x.op == "cf" else (x.a[0] if x.op == "fneg" else mk("fneg", (x,), "f"))
        elif op in ("trunc", "zext", "sext"):
            r = cast(op, V(0), w) if V(0).op != "undef" else mk("undef", V(0).a, w)
        elif op in ("sitofp", "uitofp"):
            x = V(0)
            if x.op == "c":
                r = cf(float(x.a[0] if op == "sitofp" else unsigned(x.a[0], x.w)))
            else:
                r = mk(op, (x,), "f") if ins["t"] == "double" else mk(op + "32", (x,), "f")
        elif op in ("fptosi", "fptoui"):
            r = mk(op, (V(0),), w)
        elif op in ("fpext",):
            r = V(0)
        elif op == "fptrunc":
            r = mk("fptrunc", (V(0),), "f")
        elif op == "bitcast":
            r = self.conv(V(0), w, ins.get("sz", 8))
        elif op in ("ptrtoint", "inttoptr"):
            x = V(0)
            if op == "inttoptr" and x.op == "ptrtoint":
                r = x.a[0]
            elif op == "ptrtoint" and x.op == "inttoptr":
                r = x.a[0]
            elif op == "ptrtoint" and x.op == "null":
                r = c(0, w)
            elif op == "inttoptr" and x.op == "bitcast" and x.a[0].w == "p":
                r = x.a[0]
            else:
                r = mk(op, (x,), w)
        elif op == "select":
            k, x, y = V(0), V(1), V(2)
            r = ITE(k, x, y)
        elif op == "freeze":
            r = V(0)
        elif op == "alloca":
            r = mk("ptr", (("alloca", self.f["name"], ins["id"]), 0, ()), "p")
            o = r.a[0]
            self.osz[o] = ins.get("size") if ins.get("size", -1) > 0 else None
            st.mem[o] = {}
            st.own.add(o)
            st.gen.pop(o, None)
        elif op == "getelementptr":
            if "off" not in ins:
                raise Broken("odd gep in " + self.f["dem"])
            r = self.ptr_add(V(0), ins["off"], [(self.val(v), k) for v, k in ins["var"]])
        elif op == "load":
            self.accesses.append(("r", V(0), ins["sz"], AND(self.guard[u], self.curassume), ins))
            r = self.load(st, V(0), ins["sz"], w, ins)
        elif op == "store":
            v = V(0)
            sw = self.width(ins["st"])
            if v.op == "zero" or v.w != sw:
                v = self.conv(v, sw, ins["ssz"]) if v.op != "agg" else v
            self.accesses.append(("w", V(1), ins["ssz"], AND(self.guard[u], self.curassume), ins))
            self.store(st, V(1), ins["ssz"], v)
            return
        elif op == "extractvalue":
            r = V(0)
            for i in ins["idx"]:
                if r.op == "agg":
                    r = r.a[i]
                elif r.op == "aggz":
                    r = self.conv(mk("zero", (None,), None), w, 8)
                elif r.op == "ite":
                    k = r.a[0]
                    r = ITE(k, self._ext(r.a[1], i, w), self._ext(r.a[2], i, w))
                else:
                    r = mk("extract", (r, i), w)
        elif op == "insertvalue":
            base, v = V(0), V(1)
            n = self._aggn(ins["t"])
            parts = list(base.a) if base.op == "agg" else [self._ext(base, i, None) if base.op not in ("undef",) else mk("undef", (("poison",),), None) for i in range(n)]
            if len(ins["idx"]) == 1:
                parts[ins["idx"][0]] = v
                r = mk("agg", tuple(parts), ins["t"])
            else:
                r = mk("insert", (base, v, tuple(ins["idx"])), w)
        elif op in ("call", "invoke"):
            r = self.call(u, ins, st)
            if r is None:
                return
        elif op in ("shufflevector", "extractelement", "insertelement"):
            r = mk(op, tuple(self.val(o) for o in ins["ops"]) + (tuple(ins.get("mask", ())),), w)
        elif op in ("atomicrmw", "cmpxchg", "fence"):
            r = self.fresh(op, w)
        else:
            raise Broken("opcode %s in %s at %s" % (op, self.f["dem"], where(ins)))
        self.env[ins["id"]] = r

    def _aggn(self, t):
        d, n = 0, 1
        body = t.strip()
        for ch in body[1:-1]:
            if ch in "{[<":
                d += 1
            elif ch in "}]>":
                d -= 1
            elif ch == "," and d == 0:
                n += 1
        return n

    def _ext(self, r, i, w):
        if r.op == "agg":
            return r.a[i]
        if r.op == "undef":
            return mk("undef", r.a, w)
        if r.op == "aggz":
            return mk("zero", (None,), None)
        if r.op == "ite":
            return ITE(r.a[0], self._ext(r.a[1], i, w), self._ext(r.a[2], i, w))
        return mk("extract", (r, i), w)

    def fcmp(self, pred, x, y):
        return fcmp(pred, x, y)

    def fbin(self, op, x, y):
        return fbin(op, x, y)

    # ---- calls
    PURE = re.compile(r"^(sin|cos|tan|asin|acos|atan|atan2|sqrt|exp|log|log10|pow|fmod|floor|ceil|round|fabs|trunc|sincos|cbrt|hypot)f?$")

    def call(self, u, ins, st):
        name = ins.get("callee")
        w = self.width(ins["t"])
        dem_ = ins.get("cdem", name or "<indirect>")
        args = [self.val(o) for o in ins["ops"]]
        if name:
            if name.startswith("llvm."):
                return self.intrinsic(name, ins, args, st, w)
            if self.PURE.match(name):
                return mk("call", (name.rstrip("f") if name in ("sinf", "cosf") else name,) + tuple(args), w)
        for rx, h in self.summ:
            if rx.search(dem_):
                r = h(self, st, ins, args)
                if r is not NotImplemented:
                    if isinstance(r, tuple) and r[0] == "ev":
                        self.event(u, ins, st, args, r[1])
                        return r[1]
                    return r
        if re.match(r"^mc::check\(", dem_):
            self.event(u, ins, st, args, None, kind="check")
            self.curassume = AND(self.curassume, args[0])
            return None
        if name in ("_Znwm", "_Znam", "malloc"):
            self.uid += 1
            o = ("heap", self.f["name"], ins["id"])
            L, it = self.inloop[u], ()
            while L is not None:
                if L.__dict__.get("unrolling"):
                    it += (L.__dict__.get("iter", 0),)
                L = L.parent
            if any(it):
                o += it
            self.event(u, ins, st, args, None)
            return mk("ptr", (o, 0, ()), "p")
        ret = None if ins["t"] == "void" else self.fresh("call:" + dem_, w)
        e = self.event(u, ins, st, args, ret)
        self.clobber(ins, dem_, args, st)
        e.post = st.copy()
        if ins.get("noreturn"):
            self.curassume = FALSE
        return ret

    def clobber(self, ins, dem_, args, st):
        if ins.get("pure") or ins.get("ro"):
            return
        cm = const_mask(dem_, len(args), ins.get("sret"))
        for i, a in enumerate(args):
            if i in ins.get("byval", []):
                continue
            if cm[i] and self.const_args:
                continue
            for o in self.pointees(a):
                if o[0] == "fnobj":
                    continue
                self.havoc(st, o, dem_)

    def pointees(self, a):
        if a.op == "ptr":
            return [a.a[0]]
        if a.op == "ite" and a.w == "p":
            return self.pointees(a.a[1]) + self.pointees(a.a[2])
        if a.w == "p" and a.op not in ("null", "undef", "fn", "md"):
            return [("deref", a)]
        return []

    def event(self, u, ins, st, args, ret, kind="call"):
        e = Ev()
        e.kind, e.name, e.dem = kind, ins.get("callee"), ins.get("cdem", ins.get("callee") or "<indirect>")
        if e.name is None:
            e.args = [self.val(ins["fp"])] + args
        else:
            e.args = args
        e.ret, e.ins, e.block = ret, ins, u
        e.guard = AND(self.guard[u], self.curassume)
        e.state = st.copy()
        e.post = None
        e.seq = len(self.events)
        e.loops = []
        L = self.inloop[u]
        while L is not None:
            if not L.__dict__.get("unrolling"):
                e.loops.append(L.h)
            L = L.parent
        self.events.append(e)
        return e

    def intrinsic(self, name, ins, args, st, w):
        if name.startswith("llvm.expect"):
            return args[0]
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.prefetch", "llvm.invariant.start", "llvm.invariant.end", "llvm.var.annotation")):
            if name.startswith("llvm.lifetime.start"):
                o = args[1].a[0] if args[1].op == "ptr" else None
                if o and o[0] == "alloca":
                    st.mem[o] = {}
                    st.own.add(o)
                    st.gen.pop(o, None)
            return None
        if name.startswith("llvm.assume"):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = args[0], args[1], args[2]
            gd = AND(self.guard[self.cur], self.curassume)
            self.accesses.append(("r", s, n.a[0] if n.op == "c" else n, gd, ins))
            self.accesses.append(("w", d, n.a[0] if n.op == "c" else n, gd, ins))
            if n.op == "c" and d.op == "ptr" and s.op == "ptr" and not d.a[2] and not s.a[2]:
                self.copy_range(st, d, s, n.a[0])
            elif self.split_copy(st, d, s, n):
                pass
            else:
                self.event(self.cur, ins, st, args, None, kind="memcpy")
                for o in self.pointees(d):
                    self.havoc(st, o, "memcpy")
            return None
        if name.startswith("llvm.memset"):
            d, v, n = args[0], args[1], args[2]
            d = d if d.op == "ptr" else (self.deref(d) if d.op != "ite" else d)
            if n.op == "c" and d.op == "ptr" and not d.a[2]:
                N = n.a[0]
                if N <= 0:
                    return None
                if v.op == "c" and v.a[0] == 0:
                    self.store(st, d, N, mk("zero", (None,), None))
                    if N > 8:
                        pass
                elif v.op == "c":
                    for i in range(N):
                        self.store(st, self.ptr_add(d, i, []), 1, v)
                else:
                    for i in range(min(N, 4096)):
                        self.store(st, self.ptr_add(d, i, []), 1, v)
            else:
                self.event(self.cur, ins, st, args, None, kind="memset")
                for o in self.pointees(d):
                    self.havoc(st, o, "memset")
            return None
        base = name.split(".")[1]
        if base in ("smax", "smin", "umax", "umin"):
            p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[base]
            return ITE(icmp(p, args[0], args[1]), args[0], args[1])
        if base == "abs" and w != "f":
            return ITE(icmp("slt", args[0], c(0, w)), binop("sub", c(0, w), args[0]), args[0])
        if base in ("fshl", "fshr"):
            a, bb, s = args
            if s.op == "c":
                k = s.a[0] % w
                if base == "fshr":
                    k = (w - k) % w
                    if k == 0:
                        return bb
                if k == 0:
                    return a
                return binop("or", binop("shl", a, c(k, w)), binop("lshr", bb, c(w - k, w)))
        if base == "bswap":
            n = w // 8
            r = c(0, w)
            for i in range(n):
                byte = binop("and", binop("lshr", args[0], c(8 * i, w)), c(255, w))
                r = binop("or", r, binop("shl", byte, c(8 * (n - 1 - i), w)))
            return r
        if base == "fmuladd":
            return self.fbin("fadd", self.fbin("fmul", args[0], args[1]), args[2])
        if base == "fabs":
            return cf(abs(fval(args[0]))) if args[0].op == "cf" else mk("call", ("fabs", args[0]), w)
        if base in ("is", "ctpop", "ctlz", "cttz", "sqrt", "sin", "cos", "floor", "ceil", "round", "trunc", "pow", "exp", "log",
                    "copysign", "minnum", "maxnum", "rint", "nearbyint", "bitreverse"):
            return mk("call", (base if base != "is" else "is." + name.split(".")[2],) + tuple(a for a in args), w)
        if base in ("umul", "sadd", "uadd", "smul", "ssub", "usub"):
            kind = {"u": "u", "s": "s"}[base[0]]
            opn = base[1:]
            aw = args[0].w
            if name.split(".")[2] == "with":
                return mk("agg", (binop(opn, args[0], args[1]), mk("ovf", (base, args[0], args[1]), 1)), ins["t"])
            return mk("sat", (base, args[0], args[1]), aw)
        if base in ("trap", "ubsantrap"):
            self.curassume = FALSE
            return None
        if base in ("stacksave", "stackrestore", "va", "annotation", "launder", "strip"):
            return args[0] if args and base in ("launder", "strip") else (None if ins["t"] == "void" else self.fresh(name, w))
        if base == "threadlocal":
            return args[0]
        if base == "objectsize":
            return c(-1, w)
        raise Broken("intrinsic " + name)

    def split_copy(self, st, d, s, n):
        """copy whose ends or length depend on decisions: one copy per combination of those decisions"""
        leaves = split_ites((d, s, n), 64)
        if leaves is None or any(n1.op != "c" or d1.op != "ptr" or s1.op != "ptr" or d1.a[2] or s1.a[2] for _, (d1, s1, n1) in leaves):
            return False
        items = []
        for gd, (d1, s1, n1) in leaves:
            s2 = st.copy()
            if n1.a[0] > 0:
                self.copy_range(s2, d1, s1, n1.a[0])
            items.append((gd, s2))
        r = self.merge(items)
        st.mem, st.gen, st.own = r.mem, r.gen, r.own
        return True

    def copy_range(self, st, d, s, n):
        so, soff, _ = s.a
        do, doff, _ = d.a
        src = st.cells(so)
        ents = sorted((k, sz, t) for k, (sz, t) in src.items() if k < soff + n and soff < k + sz) if False else \
            sorted(((k, sz, t) for k, (sz, t) in src.items() if k < soff + n and soff < k + sz), key=lambda x: x[0])
        plan = []
        pos = soff
        for k, sz, t in ents:
            a, e = max(k, soff), min(k + sz, soff + n)
            if a > pos:
                plan.append((pos, a - pos, None))
            if a == k and e == k + sz:
                plan.append((a, e - a, t))
            elif t.op == "zero":
                plan.append((a, e - a, t))
            else:
                plan.append((a, e - a, self._part(t, sz, a - k, e - a)))
            pos = e
        if pos < soff + n:
            plan.append((pos, soff + n - pos, None))
        for a, sz, t in plan:
            if t is None:
                # background copied lazily in natural units when small, else as a block term
                lay = self.layout_hint(so, a, sz)
                for off, ls, lw in lay:
                    self.store(st, mk("ptr", (do, doff + off - soff, ()), "p"), ls, self.initial(st, so, off, ls, lw))
            else:
                self.store(st, mk("ptr", (do, doff + a - soff, ()), "p"), sz, t)

    def layout_hint(self, o, off, n):
        out = []
        while n > 0:
            s = 8
            while s > n or off % s:
                s //= 2
            out.append((off, s, s * 8))
            off += s
            n -= s
        return out

    # ---- helpers for rules
    def mem(self, st, o, off, size, w):
        return self.load(st, mk("ptr", (o, off, ()), "p"), size, w)

    def objsize(self, o):
        return self.osz.get(o)

    def calls(self, rx):
        r = re.compile(rx)
        return [e for e in self.events if e.kind in ("call", "check") and r.search(e.dem)]


def split_params(dem_):
    """parameter type list of a demangled signature, and whether it is a const method"""
    # find last top-level '(' ... ')'
    d = 0
    end = dem_.rfind(")")
    if end < 0:
        return [], False
    i = end
    while i >= 0:
        if dem_[i] == ")":
            d += 1
        elif dem_[i] == "(":
            d -= 1
            if d == 0:
                break
        i -= 1
    inner = dem_[i + 1:end]
    isconst = dem_[end + 1:].strip().startswith("const")
    out, cur, d = [], "", 0
    for ch in inner:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, isconst


def const_mask(dem_, n, sret):
    params, isc = split_params(dem_)
    params = [p for p in params if p != "void"]
    mask = [False] * n
    extra = n - len(params) - (1 if sret is not None else 0)
    pos = 0
    if sret is not None:
        pos += 1
    if extra >= 1:  # this
        if pos < n:
            mask[pos] = isc
        pos += 1
    for p in params:
        if pos >= n:
            break
        q = p.rstrip()
        if q.endswith("&") or q.endswith("*"):
            base = q[:-1].rstrip()
            mask[pos] = base.endswith("const")
        pos += 1
    return mask


def split_ites(ts, limit):
    """[(guard, terms without ite)] over the decisions inside the terms, None when there are too many"""
    leaves, work = [], [(TRUE, tuple(ts))]
    while work:
        gd, ts = work.pop()
        if len(leaves) + len(work) > limit:
            return None
        k = min((x.a[0] for t in ts for x in subterms(t) if x.op == "ite"), key=lambda x: x.id, default=None)
        if k is None:
            leaves.append((gd, ts))
            continue
        for lit, g2 in ((TRUE, AND(gd, k)), (FALSE, AND(gd, NOT(k)))):
            if g2 is FALSE:
                continue
            memo = {}
            work.append((g2, tuple(rewrite(t, lambda x: lit if x is k else None, memo) for t in ts)))
    return leaves


_ctree = {}


def const_tree(v):
    """the term as a choice between constants, None when it is not one"""
    r = _ctree.get(v, 0)
    if r == 0:
        r = None
        if any(x.op == "ite" for x in subterms(v)):
            l = split_ites((v,), 32)
            if l and all(t.op == "c" for _, (t,) in l):
                r = l[-1][1][0]
                for g, (t,) in l[-2::-1]:
                    r = ITE(g, t, r)
        _ctree[v] = r
    return r


def subterms(t, seen=None):
    """every term inside t, in a fixed order"""
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen[x] = None
        for a in x.a:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                _tup(a, st)
    return seen


def _tup(a, st):
    for x in a:
        if isinstance(x, T):
            st.append(x)
        elif isinstance(x, tuple):
            _tup(x, st)


def rewrite(t, f, memo=None):
    """bottom-up rewriting with a leaf substitution f(term)->term or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            if x.op == "ptr" and x.a[2]:
                o, off, vs = x.a
                nv = []
                for v, k in vs:
                    v2 = go(v)
                    if v2.op == "c":
                        off += v2.a[0] * k
                    else:
                        nv.append((v2, k))
                na = (o, off, VG._normvar(nv))
            else:
                na = tuple(go(a) if isinstance(a, T) else a for a in x.a)
            r = x if na == x.a else rebuild(x, na)
        memo[x] = r
        return r
    return go(t)


def rebuild(x, na):
    if x.op in BIN:
        return binop(x.op, *na)
    if x.op in ("trunc", "zext", "sext"):
        return cast(x.op, na[0], x.w)
    if x.op == "ite":
        return ITE(*na)
    if x.op == "band":
        return AND(*na)
    if x.op == "bor":
        return OR(*na)
    if x.op == "not":
        return NOT(na[0])
    if x.op == "icmp":
        return icmp(*na)
    if x.op == "fcmp":
        return fcmp(*na)
    if x.op in ("fadd", "fsub", "fmul", "fdiv"):
        return fbin(x.op, *na)
    if x.op in ("sitofp", "uitofp") and na[0].op == "c":
        return cf(float(na[0].a[0] if x.op == "sitofp" else unsigned(na[0].a[0], na[0].w)))
    if x.op == "fneg" and na[0].op == "cf":
        return cf(-fval(na[0]))
    if x.op == "call" and na[0] == "fabs" and na[1].op == "cf":
        return cf(abs(fval(na[1])))
    return mk(x.op, na, x.w)
