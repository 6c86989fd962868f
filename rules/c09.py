import ast
from loglib import *
TITLE = "Log readers and writers agree on type codes"
TECH = "type code table of the writer (value graph of the header builder per scalar type) compared with the reader's table (Python syntax tree with name resolution)"
RULE = """The code the header builder emits for each of the ten scalar types is read off its value graph. The reader's table is resolved from the Python syntax tree (literals, dict(), later stores and
update calls, aliases of numpy names). Both must map the same codes to the same kind and byte size, in the machine's (little endian) byte order, and the table may only be indexed with the header's own type code."""
ASSUME = ("numpy's documented type names",)
READER = "common/logging/log_reader.py"
NP = {"float64": ("f", 8), "double": ("f", 8), "float_": ("f", 8), "float32": ("f", 4), "single": ("f", 4), "float16": ("f", 2), "half": ("f", 2), "longdouble": ("f", 16),
      "int64": ("i", 8), "int32": ("i", 4), "int16": ("i", 2), "int8": ("i", 1), "intc": ("i", 4), "short": ("i", 2), "byte": ("i", 1), "longlong": ("i", 8), "int_": ("i", 8), "intp": ("i", 8),
      "uint64": ("u", 8), "uint32": ("u", 4), "uint16": ("u", 2), "uint8": ("u", 1), "uintc": ("u", 4), "ushort": ("u", 2), "ubyte": ("u", 1), "ulonglong": ("u", 8), "uint": ("u", 8), "uintp": ("u", 8),
      "bool_": ("u", 1), "d": ("f", 8), "f": ("f", 4), "e": ("f", 2), "q": ("i", 8), "i": ("i", 4), "h": ("i", 2), "b": ("i", 1), "Q": ("u", 8), "I": ("u", 4), "H": ("u", 2), "B": ("u", 1), "l": ("i", 8), "L": ("u", 8)}


class Py:
    def __init__(self, path):
        self.tree = ast.parse(open(path).read())
        self.env, self.np = {}, set()
        for n in self.tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "numpy":
                        self.np.add(a.asname or "numpy")
            if isinstance(n, ast.ImportFrom) and n.module == "numpy":
                for a in n.names:
                    self.env[a.asname or a.name] = ast.Attribute(ast.Name("numpy"), a.name)
                    self.np.add("numpy")
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.env[n.targets[0].id] = n.value
            if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.env[n.target.id] = n.value

    def dtype(self, n, deep=0):
        if deep > 8:
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.np:
            return NP.get(n.attr) if len(n.attr) > 1 else None
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            s = n.value
            end = s[:1] if s[:1] in "<>=|" else "="
            s = s.lstrip("<>=|")
            q = re.fullmatch(r"([fiu])(\d+)", s)
            r = (q.group(1), int(q.group(2))) if q else NP.get(s)
            return r if r is None or end != ">" or r[1] == 1 else (r[0] + " big endian", r[1])
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.dtype(self.env[n.id], deep + 1)
            return {"float": ("f", 8), "int": ("i", 8)}.get(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "dtype" and len(n.args) == 1:
            return self.dtype(n.args[0], deep + 1)
        return None

    def const(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name) and n.id in self.env:
            return self.const(self.env[n.id])
        return None

    def table(self, name):
        v = self.env.get(name)
        out, err = [], []
        if isinstance(v, ast.Dict):
            out = [(self.const(k), e) for k, e in zip(v.keys, v.values)]
        elif isinstance(v, (ast.List, ast.Tuple)):
            out = list(enumerate(v.elts))
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict",) and len(v.args) == 1 and isinstance(v.args[0], ast.Call) and getattr(v.args[0].func, "id", "") == "enumerate":
            out = list(enumerate(v.args[0].args[0].elts))
        else:
            return None, None
        d = {}
        for k, e in out:
            d[k] = self.dtype(e)
        return d, err


def run(ctx):
    m = module()
    cd = codes(m)
    py = Py(ir.REPO + "/" + READER)
    names = [n for n in py.env if re.search("TYPE", n.upper()) and py.table(n)[0]]
    ctx.need(len(names) == 1, "the reader's type table is not found (%s)" % names)
    name = names[0]
    tab, _ = py.table(name)
    for code, ts in sorted(cd.items()):
        for n, ks in ts:
            ctx.add("scalar types", "%s=%d" % (n, code))
            ctx.ob("%s/code %d" % (n, code), tab.get(code) == ks, READER, "the writer's code %d is a %s (%s%d); the reader takes it for %s" % (code, n, ks[0], 8 * ks[1], tab.get(code)))
        ctx.ob("code %d/unambiguous" % code, len(ts) == 1, "common/logging/log_format.h", "code %d is used for %s" % (code, [a for a, _ in ts]))
    # every other use of the table
    load = 0
    for f in ast.walk(py.tree):
        tg = f.targets if isinstance(f, (ast.Assign, ast.Delete)) else [f.target] if isinstance(f, ast.AugAssign) else []
        for t in tg:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                ctx.ob("table rewritten", False, "%s:%d" % (READER, t.lineno), "the type table is changed after its definition")
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and isinstance(f.func.value, ast.Name) and f.func.value.id == name and f.func.attr not in ("get", "keys", "values", "items"):
            ctx.ob("table rewritten", False, "%s:%d" % (READER, f.lineno), "the type table is changed by .%s()" % f.func.attr)
        if isinstance(f, ast.Subscript) and isinstance(f.ctx, ast.Load) and isinstance(f.value, ast.Name) and f.value.id == name:
            load += 1
            arith = [x for x in ast.walk(f.slice) if isinstance(x, (ast.BinOp, ast.UnaryOp))]
            ctx.ob("lookup %d" % load, not arith, "%s:%d" % (READER, f.lineno), "the table is looked up with a modified code")
        if isinstance(f, ast.Attribute) and f.attr == "newbyteorder":
            ctx.ob("byte order", False, "%s:%d" % (READER, f.lineno), "changes the byte order")
