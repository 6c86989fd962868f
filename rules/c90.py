import ast, builtins, os
import ir
TITLE = "Generated filter source depends on nothing but its configuration"
TECH = "dataflow over Python's syntax trees: unordered values (sets) tracked through variables, attributes, calls and returns to order-sensitive uses; ban on other sources of variation"
RULE = """In every module of the code generator, a value that may be a set (display, comprehension, set operation, or anything such a value flows to through assignment, attribute, argument, return or container element) is used only where its
order cannot be seen: membership, size, comparison, set operations, sorted, min, max, any, all, sum, or iteration whose result is again such. Nothing takes hash or identity values, times, random numbers, environment variables, process
numbers or directory listings (unless sorted)."""
ASSUME = ("dictionaries iterate in insertion order; numerical and template libraries are deterministic",)
DIR = "core/ekf/ekf_gen"
SAFE = {"len", "sorted", "set", "frozenset", "min", "max", "any", "all", "sum", "bool", "isinstance"}
KEEP = {"union", "intersection", "difference", "symmetric_difference", "copy"}
MUT = {"add", "update", "discard", "remove", "clear", "difference_update", "intersection_update", "issubset", "issuperset", "isdisjoint", "symmetric_difference_update"}
BANNED_CALL = {"id": "object identities", "hash": "hash values", "urandom": "random numbers"}
BANNED_MODULE = {"random": "random numbers", "time": "times", "datetime": "times", "uuid": "random numbers", "secrets": "random numbers", "socket": "the host", "getpass": "the user", "platform": "the host"}
BANNED_ATTR = {("os", "environ"): "the environment", ("os", "getenv"): "the environment", ("os", "getpid"): "process numbers", ("np", "random"): "random numbers", ("numpy", "random"): "random numbers"}
LISTING = {"listdir", "scandir", "glob", "iglob", "iterdir", "rglob", "walk"}


class Program:
    def __init__(self, files):
        self.mods = {f: ast.parse(s, f) for f, s in files.items()}
        self.sets = set()           # keys of things that may hold a set
        self.holds = set()          # ... that may hold containers with sets in them
        self.fns = {}
        for f, t in self.mods.items():
            for n in ast.walk(t):
                for c in ast.iter_child_nodes(n):
                    c.parent = n
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.fns.setdefault(n.name, []).append((f, n))
        self.scopes = {}
        self.cls = None
        for f, t in self.mods.items():
            self.scope(f, t, (f,))
        n = -1
        nodes = [x for t in self.mods.values() for x in ast.walk(t)]
        while n != (len(self.sets), len(self.holds)):
            n = (len(self.sets), len(self.holds))
            for x in nodes:
                self.flow(x)

    def scope(self, f, node, at):
        node.scope = at
        for c in ast.iter_child_nodes(node):
            inner = isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp))
            self.scope(f, c, at + (("c", c.lineno, c.col_offset, getattr(c, "name", "")),) if inner else at)

    def owner(self, node, name):
        """the innermost enclosing scope that binds the name"""
        for k in range(len(node.scope), 0, -1):
            if name in self.bound(node.scope[:k]):
                return node.scope[:k]
        return None

    def bound(self, at):
        if not self.scopes:
            for t in self.mods.values():
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.scopes.setdefault(x.scope, set()).add(x.id)
                    if isinstance(x, ast.arg):
                        self.scopes.setdefault(x.scope, set()).add(x.arg)
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        self.scopes.setdefault(x.scope[:-1], set()).add(x.name)
        return self.scopes.get(at, ())

    def key(self, n):
        if isinstance(n, ast.Name):
            return ("var", self.owner(n, n.id), n.id)
        if isinstance(n, ast.Attribute):
            return ("attr", n.attr)
        if isinstance(n, ast.Subscript):
            return None
        if isinstance(n, ast.Starred):
            return self.key(n.value)
        return None

    def params(self, fn):
        a = fn.args
        return [x.arg for x in a.posonlyargs + a.args]

    def callee(self, call):
        f = call.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return name

    def is_set(self, e):
        """may the expression be an unordered value?"""
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            n = self.callee(e)
            if n in ("set", "frozenset") and isinstance(e.func, ast.Name):
                return True
            if isinstance(e.func, ast.Attribute) and n in KEEP and self.is_set(e.func.value):
                return True
            if n in ("reduce",):
                return any(self.is_set(a) or self.elem(a) for a in e.args) and n not in self.fns or ("ret", n) in self.sets
            if n in ("keys", "items") and isinstance(e.func, ast.Attribute):
                return ("dictof", self.key(e.func.value)) in self.sets
            if n in ("deepcopy", "copy") and e.args and self.is_set(e.args[0]):
                return True
            if n == "get" and isinstance(e.func, ast.Attribute) and self.elem(e.func.value):
                return True
            if n in ("iter", "enumerate", "zip", "reversed", "map", "filter", "list", "tuple", "chain") and isinstance(e.func, (ast.Name, ast.Attribute)) and n not in self.fns:
                return any(self.is_set(a) for a in e.args)
            if n in ("fromkeys",):
                return any(self.is_set(a) for a in e.args)
            return ("ret", n) in self.sets
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor, ast.Add)) and (self.is_set(e.left) or self.is_set(e.right))
        if isinstance(e, ast.BoolOp):
            return any(self.is_set(x) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.is_set(e.value)
        if isinstance(e, ast.Subscript):
            return self.elem(e.value) or (isinstance(e.slice, ast.Slice) and self.is_set(e.value))
        if isinstance(e, ast.Starred):
            return self.is_set(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return any(self.is_set(g.iter) for g in e.generators)       # in the order of the set
        if isinstance(e, ast.DictComp):
            return any(self.is_set(g.iter) for g in e.generators)
        k = self.key(e)
        return k in self.sets if k else False

    def elem(self, e):
        """may the expression be a container whose elements are unordered values?"""
        if isinstance(e, (ast.List, ast.Tuple)):
            return any(self.is_set(x) or self.elem(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return any(x is not None and (self.is_set(x) or self.elem(x)) for x in e.values)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.is_set(e.elt) or self.elem(e.elt)
        if isinstance(e, ast.DictComp):
            return self.is_set(e.value) or self.elem(e.value)
        if isinstance(e, ast.Call):
            n = self.callee(e)
            if n in ("values", "items", "list", "tuple", "sorted", "reversed", "enumerate", "zip", "copy", "deepcopy", "defaultdict"):
                if n == "defaultdict" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("set", "frozenset"):
                    return True
                return any(self.elem(a) for a in e.args) or isinstance(e.func, ast.Attribute) and self.elem(e.func.value)
            return ("ret", n) in self.holds
        if isinstance(e, ast.Subscript):
            return self.elem(e.value)
        if isinstance(e, ast.BinOp):
            return self.elem(e.left) or self.elem(e.right)
        if isinstance(e, ast.IfExp):
            return self.elem(e.body) or self.elem(e.orelse)
        k = self.key(e)
        return k in self.holds if k else False

    def bind(self, target, s, h):
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.bind(t, h, h)
            return
        if isinstance(target, ast.Subscript):
            k = self.key(target.value)
            if k and (s or h):
                self.holds.add(k)
            return
        k = self.key(target)
        if k:
            if s:
                self.sets.add(k)
            if h:
                self.holds.add(k)

    def flow(self, x):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts):
                    for a, b in zip(t.elts, x.value.elts):
                        self.bind(a, self.is_set(b), self.elem(b))
                else:
                    self.bind(t, self.is_set(x.value), self.elem(x.value))
        elif isinstance(x, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            if x.value is not None:
                self.bind(x.target, self.is_set(x.value) and not isinstance(x, ast.AugAssign) or isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Add)) and self.is_set(x.value), self.elem(x.value))
        elif isinstance(x, (ast.For, ast.comprehension)):
            self.bind(x.target, self.elem(x.iter), False)
            if self.elem(x.iter) and isinstance(x.target, ast.Name):
                self.holds.add(self.key(x.target))
        elif isinstance(x, (ast.Return, ast.Yield)) and x.value is not None:
            f = self.enclosing(x)
            if f is not None and isinstance(x, ast.Return):
                if self.is_set(x.value):
                    self.sets.add(("ret", f.name))
                if self.elem(x.value):
                    self.holds.add(("ret", f.name))
        elif isinstance(x, ast.Lambda):
            pass
        elif isinstance(x, ast.Call):
            n = self.callee(x)
            if isinstance(x.func, ast.Attribute) and n in ("append", "extend", "insert", "setdefault") and any(self.is_set(a) for a in x.args):
                k = self.key(x.func.value)
                if k:
                    self.holds.add(k)
            for f, d in self.fns.get(n, []):
                ps = self.params(d)
                if isinstance(x.func, ast.Attribute) and ps[:1] == ["self"] or n == "__init__":
                    ps = ps[1:]
                for p, a in list(zip(ps, x.args)) + [(k.arg, k.value) for k in x.keywords if k.arg]:
                    self.pass_(d, p, a)
            for c in self.classes(n):
                for d in c.body:
                    if isinstance(d, ast.FunctionDef) and d.name == "__init__":
                        for p, a in list(zip(self.params(d)[1:], x.args)) + [(k.arg, k.value) for k in x.keywords if k.arg]:
                            self.pass_(d, p, a)
                    if isinstance(d, ast.AnnAssign) and isinstance(d.target, ast.Name):
                        for k in x.keywords:
                            if k.arg == d.target.id and self.is_set(k.value):
                                self.sets.add(("attr", k.arg))

    def pass_(self, fn, p, a):
        for q in ast.walk(fn.args):
            if isinstance(q, ast.arg) and q.arg == p:
                if self.is_set(a):
                    self.sets.add(("var", q.scope, p))
                if self.elem(a):
                    self.holds.add(("var", q.scope, p))

    def classes(self, n):
        if self.cls is None:
            self.cls = {}
            for t in self.mods.values():
                for c in ast.walk(t):
                    if isinstance(c, ast.ClassDef):
                        self.cls.setdefault(c.name, []).append(c)
        return self.cls.get(n, [])

    def enclosing(self, x):
        while x is not None and not isinstance(x, (ast.FunctionDef, ast.Module)):
            x = getattr(x, "parent", None)
        return x if isinstance(x, ast.FunctionDef) else None

    def blind(self, e):
        """is the expression used where its order cannot be seen (or where it is tracked further)?"""
        p = e.parent
        if isinstance(p, ast.Starred):
            return False
        if isinstance(p, ast.Call):
            n = self.callee(p)
            if e is p.func:
                return True
            if n in SAFE and isinstance(p.func, ast.Name):
                return n != "sorted" or not any(k.arg == "key" for k in p.keywords) or self.total(p)
            if isinstance(p.func, ast.Attribute) and n in KEEP | MUT:
                return True
            if n in ("append", "setdefault", "deepcopy", "copy"):
                return True
            if n in ("iter", "enumerate", "zip", "reversed", "map", "filter", "list", "tuple", "chain", "fromkeys", "reduce") and n not in self.fns:
                return True             # in the order of the set: tracked further
            return n in self.fns or bool(self.classes(n))
        if isinstance(p, ast.keyword):
            c = p.parent
            return self.callee(c) in self.fns or bool(self.classes(self.callee(c)))
        if isinstance(p, ast.Attribute):
            return p.attr in KEEP | MUT or p.attr in ("items", "keys", "values") or not self.real(e)
        if isinstance(p, ast.comprehension):
            return True                 # the result is tracked
        if isinstance(p, ast.For):
            return e is not p.iter or self.pure(p)
        if isinstance(p, ast.Compare):
            return True
        if isinstance(p, (ast.FormattedValue, ast.JoinedStr)):
            return False
        if isinstance(p, ast.Subscript):
            return e is not p.value or not self.real(e)
        if isinstance(p, ast.Assign) and e is p.value:
            return not any(isinstance(t, (ast.Tuple, ast.List)) for t in p.targets)
        return isinstance(p, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr, ast.Return, ast.BinOp, ast.BoolOp, ast.IfExp, ast.UnaryOp, ast.If, ast.While, ast.Assert, ast.Expr, ast.List, ast.Tuple, ast.Dict, ast.Index if hasattr(ast, "Index") else ast.If,
                              ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))

    def real(self, e):
        return True

    def total(self, call):
        """sorted by a key: equal keys keep the set's order, unless the key is the text of the element"""
        for k in call.keywords:
            if k.arg == "key":
                return isinstance(k.value, ast.Name) and k.value.id in ("str", "repr")
        return True

    def pure(self, loop):
        """a loop whose effect does not depend on the order: it only adds to sets, tests, counts or overwrites by key"""
        for s in loop.body + loop.orelse:
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    n = self.callee(x)
                    if isinstance(x.func, ast.Attribute) and n in {"add", "discard", "update"} and self.is_set(x.func.value):
                        continue
                    if n in SAFE or hasattr(builtins, n or "") and n in ("str", "int", "abs"):
                        continue
                    return False
                if isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.Raise, ast.Await)):
                    return isinstance(x, ast.Raise) and False
                if isinstance(x, ast.Assign) and not all(isinstance(t, ast.Name) for t in x.targets):
                    return False
                if isinstance(x, ast.AugAssign) and not isinstance(x.op, (ast.BitOr, ast.BitAnd)) and not isinstance(x.value, ast.Constant):
                    return False
        return True


def check(files):
    p = Program(files)
    bad, n = [], 0
    for f, t in p.mods.items():
        for x in ast.walk(t):
            if isinstance(x, ast.expr) and hasattr(x, "parent"):
                if isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)):
                    continue
                if p.is_set(x):
                    n += 1
                    e = x
                    seq = isinstance(e.parent, ast.Call) and e in e.parent.args
                    if not p.blind(x):
                        bad.append((f, x.lineno, "the order of an unordered value is used: %s" % ast.unparse(x.parent if not isinstance(x.parent, ast.For) else x)[:100], fn(p, x)))
                    elif isinstance(x, ast.Call) and p.callee(x) == "pop" and p.is_set(x.func.value):
                        bad.append((f, x.lineno, "an arbitrary element of a set", fn(p, x)))
            if isinstance(x, ast.Call):
                c = p.callee(x)
                if c in ("pop", "next") and (isinstance(x.func, ast.Attribute) and c == "pop" and p.is_set(x.func.value) or c == "next" and x.args and p.is_set(x.args[0])):
                    bad.append((f, x.lineno, "an arbitrary element of an unordered value: %s" % ast.unparse(x)[:80], fn(p, x)))
                if isinstance(x.func, ast.Name) and c in BANNED_CALL and c not in p.fns:
                    d = p.enclosing(x)
                    if not (c == "hash" and d is not None and d.name == "__hash__"):
                        bad.append((f, x.lineno, BANNED_CALL[c], fn(p, x)))
                if c in LISTING and not (isinstance(x.parent, ast.Call) and p.callee(x.parent) == "sorted") and c not in p.fns:
                    bad.append((f, x.lineno, "directory order", fn(p, x)))
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    m = (x.module if isinstance(x, ast.ImportFrom) else a.name) or ""
                    if m.split(".")[0] in BANNED_MODULE:
                        bad.append((f, x.lineno, "%s (module %s)" % (BANNED_MODULE[m.split(".")[0]], m), ""))
                    if (m, a.name) in BANNED_ATTR or (m == "os" and a.name in ("environ", "getenv", "urandom")):
                        bad.append((f, x.lineno, "the environment", ""))
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and (x.value.id, x.attr) in BANNED_ATTR:
                bad.append((f, x.lineno, BANNED_ATTR[x.value.id, x.attr], fn(p, x)))
    return p, bad, n


def fn(p, x):
    d = p.enclosing(x)
    return d.name if d is not None else "module"


TESTS = [
    ("iteration into text", "def f(xs):\n    s = {x for x in xs}\n    return ', '.join(s)\n", True),
    ("through a call", "def g(a):\n    return ' '.join(x for x in a)\ndef f(xs):\n    return g(set(xs))\n", True),
    ("through an attribute", "class A:\n    def __init__(self, s):\n        self.s = s\n    def t(self):\n        return [x for x in self.s][0]\ndef f(xs):\n    return A(frozenset(xs)).t()\n", True),
    ("through a return", "def g(xs):\n    return {x for x in xs}\ndef f(xs):\n    out = []\n    for x in g(xs):\n        out.append(x)\n    return out\n", True),
    ("pop", "def f(xs):\n    s = set(xs)\n    return s.pop()\n", True),
    ("hash", "def f(x):\n    return 'v%d' % hash(x)\n", True),
    ("sorted", "def f(xs):\n    return ', '.join(sorted({x for x in xs}))\n", False),
    ("membership", "def f(xs, y):\n    seen = set()\n    out = []\n    for x in xs:\n        if x not in seen:\n            seen.add(x)\n            out.append(x)\n    return out\n", False),
    ("length", "def f(xs):\n    return len(set(xs)) == len(xs)\n", False),
]


def run(ctx):
    d = os.path.join(ir.REPO, DIR)
    files = {n: open(os.path.join(d, n)).read() for n in sorted(os.listdir(d)) if n.endswith(".py") and not n.endswith("_test.py") and n != "__init__.py"}
    ctx.need("ekf_gen.py" in files and len(files) > 4, "generator modules vanished")
    for name, src, want in TESTS:
        got = bool(check({"t.py": src})[1])
        ctx.selftest(name, got == want)
    p, bad, n = check(files)
    fns = [(f, x.name) for f, t in p.mods.items() for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]
    ctx.add("modules", *files)
    ctx.add("functions", *("%s:%s" % x for x in fns))
    ctx.add("unordered values", "%d expressions may be unordered" % n)
    for f, name in fns:
        mine = [b for b in bad if b[0] == f and b[3] == name]
        ctx.ob("%s:%s" % (f, name), not mine, "%s/%s %s" % (DIR, f, name), "; ".join("line %d: %s" % (b[1], b[2]) for b in mine[:3]))
    for f in files:
        mine = [b for b in bad if b[0] == f and b[3] in ("", "module")]
        ctx.ob("%s:module" % f, not mine, "%s/%s" % (DIR, f), "; ".join("line %d: %s" % (b[1], b[2]) for b in mine[:3]))
