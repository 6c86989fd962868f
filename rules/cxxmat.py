"""an interpreter of the generated filter's C++ in the domain of matrices over a prime field: every scalar is a residue, memory that was never written holds
   arbitrary residues, storage is bounds-checked, and sizes are integers.  What a statement or expression means is Eigen's documented meaning."""
import random, re
import numpy as np
import ir
P = (1 << 61) - 1
TOK = re.compile(r"\s*(?:(//[^\n]*|/\*.*?\*/|\#[^\n]*)|(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+|\d+)[uUlLfF]*|(\"(?:[^\"\\]|\\.)*\")|([A-Za-z_]\w*)|(::|->|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|&=|\|=|\+\+|--|[-+*/%<>=!&|^~?:;,.(){}\[\]]))", re.S)
HALF = pow(2, P - 2, P)


class Bad(Exception):
    """the code does something no filter may do: out of its storage, wrong sizes"""


def inv(x):
    return pow(int(x) % P, P - 2, P)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if not s[i:].strip():
                break
            raise ir.Broken("cannot read generated code at: " + s[i:i + 60])
        i = m.end()
        if m.group(1) is not None:
            continue
        for k, g in (("num", 2), ("str", 3), ("id", 4), ("op", 5)):
            if m.group(g) is not None:
                out.append((k, m.group(g)))
    return out


def balanced(s, i, o="{", c="}"):
    d = 0
    for j in range(i, len(s)):
        if s[j] == o:
            d += 1
        elif s[j] == c:
            d -= 1
            if not d:
                return j
    raise ir.Broken("unbalanced " + o)


def strip(s):
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)


class M:
    """a matrix: a view of storage (an object array of residues)"""
    __slots__ = ("a", "name")

    def __init__(self, a, name=None):
        self.a, self.name = a, name

    @property
    def shape(self):
        return self.a.shape


class Obj:
    """an object with members and the accessors its class declares"""

    def __init__(self, cls=None, name=None, **f):
        self.cls, self.name, self.f = cls, name, dict(f)


class Cls:
    """a class of the generated headers: members (type, name, zero?) in order, accessors name -> [(parameters, body tokens)], constants"""

    def __init__(self, name, body):
        self.name, self.members, self.acc, self.const, self.alias, self.inner = name, [], {}, {}, {}, {}
        for m in list(re.finditer(r"\b(?:class|struct)\s+(\w+)\s*\{", body)):
            if depth(body, m.start()):
                continue
            e = balanced(body, m.end() - 1)
            self.inner[m.group(1)] = Cls(m.group(1), body[m.end():e])
        flat = body
        for m in re.finditer(r"\b(?:class|struct)\s+\w+\s*\{", body):
            if depth(body, m.start()):
                continue
            e = balanced(body, m.end() - 1)
            flat = flat[:m.start()] + " " * (e + 1 - m.start()) + flat[e + 1:]
        for m in re.finditer(r"(?:inline\s+)?(?:const\s+)?auto\s*&?\s*(\w+)\s*\(([^()]*)\)\s*(?:const)?\s*\{\s*return\s+([^;]*);\s*\}", flat):
            ps = [re.search(r"(\w+)\s*$", p).group(1) for p in m.group(2).split(",") if p.strip()]
            self.acc.setdefault(m.group(1), []).append((ps, m.group(3)))
        for m in re.finditer(r"static\s+constexpr\s+\w+\s+(\w+)\s*=\s*([^;]+);", flat):
            self.const[m.group(1)] = m.group(2)
        for m in re.finditer(r"using\s+(\w+)\s*=\s*([^;]+);", flat):
            self.alias[m.group(1)] = m.group(2).strip()
        self.fields = []
        for m in re.finditer(r"(?:^|[;{}]|(?:public|private|protected)\s*:|EIGEN_MAKE_ALIGNED_OPERATOR_NEW)\s*([A-Za-z_][\w:<>, ]*?[>\w&])\s+(\w+)\s*(?:=[^;]*)?(?=;)", flat):
            if not re.match(r"(using|static|friend|return|typedef)\b", m.group(1)):
                self.fields.append((m.group(1), m.group(2)))
        for m in re.finditer(r"(?:^|[;{}]|(?:public|private|protected)\s*:|EIGEN_MAKE_ALIGNED_OPERATOR_NEW)\s*((?:Mat\s*<[^<>]*>|Vec\s*<[^<>]*>|Vec\d|std::array\s*<.*?>\s*>|size_t|int|Eigen::Matrix\s*<[^<>]*>|State|Covariance|Input|math::DQuat<double>|DQuat<double>|\w*Time))\s+(\w+)\s*(=[^;()]*(?:\([^;]*\))?[^;]*)?(?=;)", flat):
            if m.group(1) in ("return",):
                continue
            self.members.append((re.sub(r"\s", "", m.group(1)), m.group(2), bool(m.group(3) and re.search(r"Zero\(\)", m.group(3)))))


def depth(s, i):
    return s.count("{", 0, i) - s.count("}", 0, i)


def classes(text):
    text = strip(text)
    out = {}
    i = 0
    for m in re.finditer(r"\b(?:class|struct)\s+(\w+)\s*(?::[^{;]*)?\{", text):
        if m.start() < i:
            continue
        i = balanced(text, m.end() - 1)
        out[m.group(1)] = Cls(m.group(1), text[m.end():i])
    return out


def dims(t):
    """rows and columns of a matrix type"""
    t = re.sub(r"\s", "", t)
    m = re.match(r"(?:Mat|Eigen::Matrix)<(?:double,)?(\d+),(\d+)", t)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.match(r"(?:\w+::)*Vec<?(\d+)>?$", t)
    if m:
        return int(m.group(1)), 1
    return None


def functions(text, name):
    """[(template argument or None, parameter names, body text)] of the definitions of a function (or qualified member function)"""
    text = strip(text)
    out = []
    for m in re.finditer(r"\b" + re.escape(name) + r"\s*(<[^<>()]*>)?\s*\(", text):
        e = balanced(text, m.end() - 1, "(", ")")
        q = re.match(r"\s*(const)?\s*\{", text[e + 1:])
        if not q:
            continue
        b = e + 1 + q.end() - 1
        ps, d, cur = [], 0, ""
        for ch in text[m.end():e] + ",":
            d += (ch in "<(") - (ch in ">)")
            if ch == "," and not d:
                ps.append(cur)
                cur = ""
            else:
                cur += ch
        names = [re.search(r"(\w+)\s*$", p).group(1) for p in ps if p.strip()]
        out.append((m.group(1) and m.group(1)[1:-1].strip(), names, text[b + 1:balanced(text, b)]))
    return out


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Run:
    """env: names; call(name, template argument, arguments) for functions; hook(cond) decides conditions that are not integers"""

    def __init__(self, seed, cls, call, const=lambda n: None, types=()):
        self.rnd, self.cls, self.call, self.const = random.Random(seed), cls, call, const
        self.checked, self.env, self.gates = [], {}, []
        self.types, self.this = dict(types), None

    # ---- storage
    def junk(self, r, c):
        a = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                a[i, j] = self.rnd.randrange(P)
        return a

    def fresh(self, cls, name=None):
        """an object of a generated class as its constructor leaves it"""
        o = Obj(cls, name)
        for t, n, zero in cls.members:
            d = dims(t)
            if d:
                o.f[n] = M(np.zeros(d, dtype=object) if zero else self.junk(*d), n)
            elif t in self.cls:
                o.f[n] = self.fresh(self.cls[t], n)
        return o

    def method(self, this, text, env):
        """the body of a member function of this"""
        save, self.this = self.this, this
        try:
            return self.body(text, dict({k: v for k, v in this.f.items() if isinstance(v, (M, Obj))}, **env))
        finally:
            self.this = save

    # ---- statements
    def body(self, text, env):
        save, self.env = self.env, dict(env)
        old = getattr(self, "t", None), getattr(self, "i", None)
        self.t, self.i = tokens(text), 0
        try:
            while self.i < len(self.t):
                self.statement(True)
            return None
        except Return as r:
            return r.v
        finally:
            self.env_after, self.env = self.env, save
            self.t, self.i = old

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def eat(self, v=None):
        x = self.t[self.i] if self.i < len(self.t) else (None, None)
        if v is not None and x[1] != v:
            raise ir.Broken("generated code: expected %s before %s" % (v, " ".join(y[1] for y in self.t[self.i:self.i + 12])))
        self.i += 1
        return x[1]

    def skip_statement(self):
        if self.peek() == "{":
            d = 0
            while True:
                x = self.eat()
                d += (x == "{") - (x == "}")
                if not d:
                    return
        if self.peek() == "if":
            self.eat()
            if self.peek() == "constexpr":
                self.eat()
            self.skip_parens()
            self.skip_statement()
            if self.peek() == "else":
                self.eat()
                self.skip_statement()
            return
        if self.peek() == "for":
            self.eat()
            self.skip_parens()
            self.skip_statement()
            return
        d = 0
        while True:
            x = self.eat()
            if x is None:
                raise ir.Broken("generated code ends early")
            d += (x in ("(", "{")) - (x in (")", "}"))
            if x == ";" and not d:
                return

    def skip_parens(self):
        self.eat("(")
        d = 1
        while d:
            x = self.eat()
            d += (x == "(") - (x == ")")

    def statement(self, run=True):
        p = self.peek()
        if p == ";":
            self.eat()
        elif p == "{":
            self.eat()
            while self.peek() != "}":
                self.statement()
            self.eat("}")
        elif p == "if":
            self.eat()
            if self.peek() == "constexpr":
                self.eat()
            self.eat("(")
            c = self.truth(self.expr())
            self.eat(")")
            if c:
                self.statement()
            else:
                self.skip_statement()
            if self.peek() == "else":
                self.eat()
                if c:
                    self.skip_statement()
                else:
                    self.statement()
        elif p == "for":
            self.loop()
        elif p == "return":
            self.eat()
            v = None if self.peek() == ";" else self.val(self.expr())
            raise Return(v)
        elif p == "(" and self.peek(1) == "void":
            self.skip_statement()
        elif p in ("static_assert",):
            self.skip_statement()
        else:
            self.simple()
            self.eat(";")

    def loop(self):
        self.eat("for")
        self.eat("(")
        self.simple()
        self.eat(";")
        at = self.i
        n = 0
        while True:
            self.i = at
            c = self.truth(self.expr())
            self.eat(";")
            step = self.i
            d = 1
            while d:
                x = self.eat()
                d += (x == "(") - (x == ")")
            if not c:
                self.skip_statement()
                return
            self.statement()
            end = self.i
            self.i = step
            self.simple()
            n += 1
            if n > 5000:
                raise ir.Broken("loop in generated code does not end")

    def declared(self):
        """the type of a declaration starting here: (type text, tokens to skip), or None"""
        i, t = self.i, self.t
        j = i
        while t[j][1] in ("const", "constexpr", "static", "typename", "auto", "unsigned"):
            j += 1
        if j > i and t[j - 1][1] in ("auto", "unsigned") and (t[j][0] == "id" or t[j][1] == "&"):
            ty = t[j - 1][1]
            if ty == "unsigned" and t[j][1] in ("int", "long"):
                j += 1
        else:
            if t[j][0] != "id":
                return None
            ty = t[j][1]
            j += 1
            while j < len(t) and t[j][1] in ("::", "<"):
                if t[j][1] == "::":
                    ty += "::" + t[j + 1][1]
                    j += 2
                else:
                    d, k = 0, j
                    while True:
                        if t[k][1] in (";", "{") or k - j > 40:
                            return None
                        d += (t[k][1] == "<") - (t[k][1] == ">")
                        k += 1
                        if not d:
                            break
                    ty += "".join(x[1] for x in t[j:k])
                    j = k
        ref = False
        while j < len(t) and t[j][1] in ("&", "*", "const"):
            ref = ref or t[j][1] == "&"
            j += 1
        if j + 1 < len(t) and t[j][0] == "id" and t[j + 1][1] in ("=", ";", "(", "{"):
            return ty, ref, j
        return None

    def simple(self):
        d = self.declared()
        if d:
            ty, ref, j = d
            name = self.t[j][1]
            nxt = self.t[j + 1][1]
            if nxt == "(" and ty in ("Eigen::MatrixXd", "Eigen::VectorXd", "MatrixXd", "VectorXd"):
                self.i = j + 1
                a = [self.val(x) for x in self.args()]
                if min(a) < 0:
                    raise Bad("a matrix of negative size")
                self.env[name] = M(self.junk(a[0], a[1] if len(a) > 1 else 1), name)
                return
            if nxt == "(" and ty not in self.types and dims(ty) is None:
                d = None
            else:
                self.i = j + 1
                self.declare(ty, ref, name)
                return
        if self.peek() in ("++", "--"):
            p, lhs = self.eat(), self.expr()
            self.setvar(lhs, self.val(lhs) + (1 if p == "++" else -1))
            return
        lhs = self.expr()
        p = self.peek()
        if p in ("&=", "|="):
            self.eat()
            v, c = self.truth(self.expr()), self.truth(lhs)
            self.setvar(lhs, (c and v) if p == "&=" else (c or v))
        elif p in ("=", "+=", "-=", "*=", "/="):
            self.eat()
            self.assign(lhs, p, self.expr())
        elif p in ("++", "--"):
            self.eat()
            self.setvar(lhs, self.val(lhs) + (1 if p == "++" else -1))

    def declare(self, ty, ref, name):
        t = re.sub(r"\s", "", self.types.get(ty, ty))
        p = self.peek()
        if p == ";":
            v = self.make(t)
        elif p in ("=", "(", "{"):
            close = {"=": None, "(": ")", "{": "}"}[self.eat()]
            if close and self.peek() == close:
                v = self.make(t)
            elif close == ")" and dims(t) and dims(t)[0] * dims(t)[1] > 2:
                v = [self.val(self.expr())]
                while self.peek() == ",":
                    self.eat()
                    v.append(self.val(self.expr()))
                if len(v) == 2 and all(isinstance(x, int) for x in v):
                    if tuple(v) != dims(t):
                        raise Bad("a %s is given size %s" % (t, v))
                    v = self.make(t)
                elif len(v) == 1:
                    v = self.own(t, v[0])
                else:
                    raise ir.Broken("generated code: constructor of " + t)
            else:
                v = self.expr()
                if not ref and not isinstance(v, Var):
                    v = self.own(t, v)
                elif not ref:
                    v = self.own(t, self.val(v))
            if close:
                self.eat(close)
        self.env[name] = v

    def make(self, t):
        d = dims(t)
        if d:
            return M(self.junk(*d), None)
        c = self.find(t)
        if c:
            return self.fresh(c)
        if t in ("int", "size_t", "unsigned"):
            return 0
        if t == "double":
            return Sc(self.rnd.randrange(P))
        raise ir.Broken("generated code declares a " + t)

    def find(self, t):
        c = None
        for part in re.sub(r"<.*", "", t).split("::"):
            n = (c.inner.get(part) if c else None) or self.cls.get(part)
            if n:
                c = n
        return c

    def own(self, t, v):
        """a copy of a value as a variable of this type"""
        v = self.val(v)
        d = dims(t)
        if d:
            if not isinstance(v, M) or v.a.shape != d:
                raise Bad("a %s is initialised with something of size %s" % (t, getattr(v, "shape", v)))
            return M(v.a.copy())
        if isinstance(v, M):
            return M(v.a.copy())
        if t == "int" and isinstance(v, Sc):
            raise ir.Broken("a real number becomes an integer")
        if t == "double" and isinstance(v, int):
            return Sc(v)
        if isinstance(v, Obj):
            return v if v.name in ("opaque", "error") else copy(v)
        return v

    def setvar(self, lhs, v):
        if isinstance(lhs, Var):
            lhs.set(v)
            return
        raise ir.Broken("generated code assigns to something that is no variable")

    def assign(self, lhs, op, v):
        v = self.val(v)
        if isinstance(lhs, Elem):
            x = self.scalar(v)
            cur = lhs.get()
            lhs.set({"=": x, "+=": cur + x, "-=": cur - x, "*=": cur * x, "/=": cur * inv(x)}[op] % P)
            return
        tgt = self.val(lhs)
        if isinstance(tgt, Tri):
            x = dense(v).copy()
            if op != "=" or x.shape != tgt.a.shape:
                raise Bad("sizes differ in an assignment to a triangle")
            tgt.a[tgt.mask] = x[tgt.mask]
            return
        if isinstance(tgt, M):
            if op in ("*=", "/=") and not isinstance(v, M):
                s = self.scalar(v)
                tgt.a[...] = (tgt.a * (s if op == "*=" else inv(s))) % P
                return
            if isinstance(v, Diag):
                v = M(v.dense())
            if not isinstance(v, M):
                raise ir.Broken("a matrix becomes a scalar")
            if v.a.shape != tgt.a.shape:
                raise Bad("sizes differ in an assignment: %s and %s" % (tgt.a.shape, v.a.shape))
            x = v.a.copy()
            tgt.a[...] = x % P if op == "=" else (tgt.a + x) % P if op == "+=" else (tgt.a - x) % P
            return
        if isinstance(tgt, Obj) and op == "+=":
            self.call("+=", None, [tgt, v])
            return
        if isinstance(lhs, Var):
            if op != "=":
                v = self.arith(op[0], lhs.get(), v)
            lhs.set(copy(v) if isinstance(v, Obj) and not v.name == "opaque" else v)
            return
        raise ir.Broken("generated code: assignment to %r" % (lhs,))

    # ---- expressions
    def expr(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.eat()
            t = self.truth(c)
            a = self.expr()
            self.eat(":")
            b = self.expr()
            return a if t else b
        return c

    PREC = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%")]

    def binary(self, lv):
        if lv == len(self.PREC):
            return self.unary()
        x = self.binary(lv + 1)
        while self.peek() in self.PREC[lv]:
            op = self.eat()
            if op in ("&&", "||"):
                l = self.truth(x)
                i = self.i
                y = self.binary(lv + 1)
                x = (l and self.truth(y)) if op == "&&" else (l or self.truth(y))
                continue
            y = self.binary(lv + 1)
            x = self.arith(op, self.val(x), self.val(y))
        return x

    def unary(self):
        p = self.peek()
        if p == "-":
            self.eat()
            return self.arith("-", 0, self.val(self.unary()), True)
        if p == "+":
            self.eat()
            return self.unary()
        if p == "!":
            self.eat()
            v = self.unary()
            return not self.truth(v) if not isinstance(v, Gate) else v.neg()
        if p == "&":
            self.eat()
            return self.unary()
        if p == "*":
            self.eat()
            return self.unary()
        return self.postfix()

    def args(self):
        self.eat("(")
        out = []
        while self.peek() != ")":
            if self.peek() == "[":
                raise ir.Broken("generated code: lambda")
            out.append(self.expr())
            if self.peek() == ",":
                self.eat()
            if self.peek() == "...":
                self.eat()
        self.eat(")")
        return out

    def template(self):
        """<...> here: its text, or None"""
        if self.peek() != "<":
            return None
        j, d, s = self.i, 0, ""
        while j < len(self.t):
            x = self.t[j][1]
            if x in (";", "{", "}", "&&", "||", "=") or self.t[j][0] == "str":
                return None
            d += (x == "<") - (x == ">")
            if x == "(":
                return None
            s += x
            j += 1
            if not d:
                break
        return (s[1:-1], j)

    def postfix(self):
        k, p = self.kind(), self.peek()
        if k == "num":
            self.eat()
            x = int(p) if re.fullmatch(r"\d+", p) else Sc(real(p))
        elif k == "str":
            x = self.eat()
        elif p == "(":
            self.eat()
            x = self.expr()
            self.eat(")")
        elif k == "id":
            name = self.eat()
            if name in ("static_cast",):
                t, self.i = self.template()
                self.eat("(")
                x = self.val(self.expr())
                self.eat(")")
                if t == "double" and isinstance(x, int):
                    x = Sc(x)
            else:
                targ = None
                while True:
                    if self.peek() == "::":
                        self.eat()
                        name += "::" + self.eat()
                        continue
                    if self.peek() == "<":
                        tt = self.template()
                        if tt and tt[1] < len(self.t) and self.t[tt[1]][1] in ("::", "(") and name not in self.env:
                            targ, self.i = tt
                            if self.peek() == "::":
                                name += "<" + targ + ">"
                                targ = None
                            continue
                    break
                x = self.primary(name, targ)
        else:
            raise ir.Broken("generated code: unexpected %s" % p)
        while self.peek() in (".", "->", "[", "("):
            p = self.eat()
            if p == "[":
                i = self.val(self.expr())
                self.eat("]")
                x = self.element(self.val(x), i, 0)
            elif p == "(":
                self.i -= 1
                a = [self.val(y) for y in self.args()]
                x = self.element(self.val(x), *a) if len(a) == 2 else self.element(self.val(x), a[0], 0)
            else:
                if self.peek() == "template":
                    self.eat()
                n = self.eat()
                targ = None
                tt = self.template()
                if tt and self.t[tt[1]][1] == "(":
                    targ, self.i = tt
                x = self.member(self.val(x), n, targ)
        return x

    def element(self, m, i, j):
        if not isinstance(m, M):
            raise ir.Broken("generated code indexes something that is no matrix")
        if not (0 <= i < m.a.shape[0] and 0 <= j < m.a.shape[1]):
            raise Bad("element (%d, %d) of a %s matrix" % ((i, j) + (m.a.shape,)))
        return Elem(m.a, i, j)

    def primary(self, name, targ):
        if name in self.env:
            return Var(self.env, name)
        if name in ("true", "false"):
            return name == "true"
        if self.peek() == "(":
            if self.this is not None and name in self.this.cls.acc:
                return self.member(self.this, name, targ)
            a = self.args()
            return self.function(name, targ, a)
        c = self.const(name)
        if c is not None:
            return c
        if "::" in name:
            cn, f = name.rsplit("::", 1)
            k = self.find(cn)
            if k and f in k.const:
                e = k.const[f]
                if e in ("true", "false"):
                    return e == "true"
                if re.fullmatch(r"\d+", e):
                    return int(e)
                return Named(name)
        raise ir.Broken("generated code: unknown name " + name)

    def function(self, name, targ, a):
        m = re.match(r"(.*)::(Identity|Zero|Ones|Random)$", name)
        if m and dims(m.group(1)):
            d = dims(m.group(1))
            if m.group(2) == "Random":
                return M(self.junk(*d))
            return M(np.array([[int(i == j) if m.group(2) == "Identity" else int(m.group(2) == "Ones") for j in range(d[1])] for i in range(d[0])], dtype=object).reshape(d))
        m = re.match(r"(?:Eigen::)?MatrixXd::(Identity|Zero)$", name)
        if m:
            r, c = (self.val(x) for x in a)
            return M(np.array([[int(i == j and m.group(1) == "Identity") for j in range(c)] for i in range(r)], dtype=object).reshape((r, c)))
        if name.split("::")[-1] in ("check",):
            v = a[0]
            if isinstance(v, bool) and not v:
                raise Bad("a fatal check fails: %s" % (a[1] if len(a) > 1 else ""))
            return None
        if name.split("::")[-1] == "isFinite":
            self.checked.append(self.val(a[0]))
            return True
        return self.call(name, targ, [x for x in a])

    def member(self, o, n, targ):
        if isinstance(o, M):
            if self.peek() != "(":
                raise ir.Broken("generated code: matrix member " + n)
            a = [self.val(x) for x in self.args()]
            return self.matrix(o, n, targ, a)
        if isinstance(o, Diag):
            raise ir.Broken("generated code: member of a diagonal")
        if isinstance(o, Obj):
            if n in o.f:
                if self.peek() == "(" and callable(o.f[n]):
                    return o.f[n](*[self.val(x) for x in self.args()])
                v = o.f[n]
                return Var(o.f, n)
            if o.cls and n in o.cls.acc:
                a = [self.val(x) for x in self.args()]
                forms = [x for x in o.cls.acc[n] if len(x[0]) == len(a)]
                if not forms:
                    raise ir.Broken("accessor %s takes other arguments" % n)
                res = []
                for ps, e in forms:
                    env = {k: v for k, v in o.f.items()}
                    env.update(zip(ps, a))
                    t, i, en = self.t, self.i, self.env
                    self.t, self.i, self.env = tokens(e), 0, env
                    try:
                        res.append(self.val(self.expr()))
                    finally:
                        self.t, self.i, self.env = t, i, en
                if len(res) == 2 and isinstance(res[0], M) and not (res[0].a.shape == res[1].a.shape and np.shares_memory(res[0].a, res[1].a) == bool(res[0].a.size) and same_start(res[0].a, res[1].a)):
                    raise Bad("the const and non-const forms of %s differ" % n)
                return res[0]
            if self.peek() == "(":
                return self.call("." + n, targ, [o] + [self.val(x) for x in self.args()])
            raise ir.Broken("generated code: no member %s in %s" % (n, o.name or (o.cls and o.cls.name)))
        if isinstance(o, (Sc, int)) and n in ("toSec",):
            self.args()
            return o
        raise ir.Broken("generated code: member %s" % n)

    def matrix(self, m, n, targ, a):
        r, c = m.a.shape
        def part(i, j, h, w):
            if min(i, j, h, w) < 0 or i + h > r or j + w > c:
                raise Bad("%s(%s) of a %d x %d matrix%s" % (n, ", ".join(map(str, a)), r, c, " (%s)" % m.name if m.name else ""))
            return M(m.a[i:i + h, j:j + w], m.name)
        t = [int(x) for x in targ.split(",")] if targ and re.fullmatch(r"[\d,\s]+", targ) else None
        if n == "transpose":
            return M(m.a.T, m.name)
        if n in ("eval", "noalias", "matrix", "array", "derived"):
            return m
        if n == "block":
            return part(a[0], a[1], *(t or a[2:4]))
        if n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            h, w = t or a[:2]
            return part(0 if "top" in n else r - h, 0 if "Left" in n else c - w, h, w)
        if n in ("head", "topRows"):
            k = t[0] if t else a[0]
            return part(0, 0, k, c) if c == 1 or n == "topRows" else part(0, 0, 1, k)
        if n in ("tail", "bottomRows"):
            k = t[0] if t else a[0]
            return part(r - k, 0, k, c) if c == 1 or n == "bottomRows" else part(0, c - k, 1, k)
        if n == "leftCols":
            k = t[0] if t else a[0]
            return part(0, 0, r, k)
        if n == "rightCols":
            k = t[0] if t else a[0]
            return part(0, c - k, r, k)
        if n == "middleRows":
            return part(a[0], 0, t[0] if t else a[1], c)
        if n == "middleCols":
            return part(0, a[0], r, t[0] if t else a[1])
        if n == "segment":
            k = t[0] if t else a[1]
            return part(a[0], 0, k, 1) if c == 1 else part(0, a[0], 1, k)
        if n == "col":
            return part(0, a[0], r, 1)
        if n == "row":
            return part(a[0], 0, 1, c)
        if n in ("setZero", "setIdentity", "setRandom"):
            m.a[...] = 0 if n == "setZero" else self.junk(r, c)
            if n == "setIdentity":
                for i in range(r):
                    for j in range(c):
                        m.a[i, j] = int(i == j)
            return m
        if n == "replicate":
            x, y = t or a
            return M(np.tile(m.a, (x, y)))
        if n == "asDiagonal":
            if 1 not in m.a.shape:
                raise Bad("asDiagonal of a matrix")
            return Diag(m.a.reshape(-1))
        if n == "diagonal":
            return M(np.array([[m.a[i, i]] for i in range(min(r, c))], dtype=object).reshape((min(r, c), 1)))
        if n in ("llt", "ldlt", "partialPivLu", "fullPivLu", "lu", "householderQr", "colPivHouseholderQr", "fullPivHouseholderQr"):
            return Obj(None, "solver", solve=lambda b_: M(dotp(inverse(m.a), dense(b_))), inverse=lambda: M(inverse(m.a)))
        if n == "inverse":
            return M(inverse(m.a))
        if n == "dot":
            return Sc(int(sum(int(x) * int(y) for x, y in zip(m.a.reshape(-1), a[0].a.reshape(-1)))) % P)
        if n == "rows":
            return r
        if n == "cols":
            return c
        if n == "size":
            return r * c
        if n == "cwiseProduct":
            return M(m.a * a[0].a % P)
        if n == "triangularView" and targ and targ.split("::")[-1] in ("Lower", "StrictlyLower", "Upper", "StrictlyUpper"):
            k = targ.split("::")[-1]
            return Tri(m.a, np.array([[(i > j or (i == j and "Strictly" not in k)) if "Lower" in k else (i < j or (i == j and "Strictly" not in k)) for j in range(c)] for i in range(r)], dtype=bool).reshape((r, c)))
        if n == "template":
            raise ir.Broken("generated code: template")
        raise ir.Broken("generated code: matrix operation " + n)

    def val(self, x):
        if isinstance(x, Var):
            return self.val(x.get())
        if isinstance(x, Elem):
            return Sc(x.get())
        return x

    def scalar(self, v):
        if isinstance(v, Sc):
            return v.v
        if isinstance(v, M) and v.a.shape == (1, 1):
            return int(v.a[0, 0])
        if isinstance(v, bool) or not isinstance(v, int):
            raise ir.Broken("generated code: %r is no number" % (v,))
        return v % P

    def arith(self, op, x, y, neg=False):
        if isinstance(x, Obj) or isinstance(y, Obj):
            return self.call(op, None, [x, y])
        if isinstance(x, (Gate, Named)) or isinstance(y, (Gate, Named)) or (op in ("<", ">", "<=", ">=") and (isinstance(x, (Sc, M)) or isinstance(y, (Sc, M)))):
            return Gate(op, x, y)
        if isinstance(x, int) and isinstance(y, int):
            if op == "/":
                return int(x / y) if y else 0
            if op == "%":
                return x % y
            return {"+": x + y, "-": x - y, "*": x * y, "==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        xm, ym = isinstance(x, (M, Diag)), isinstance(y, (M, Diag))
        if not xm and not ym:
            a, b_ = self.scalar(x), self.scalar(y)
            if op in ("==", "!="):
                return (a == b_) == (op == "==")
            return Sc({"+": a + b_, "-": a - b_, "*": a * b_, "/": a * inv(b_) if op == "/" else 0}[op] % P)
        if neg:
            return M((-dense(y)) % P) if not isinstance(y, Diag) else Diag((-y.d) % P)
        if op == "*":
            if not xm or not ym:
                s, m = (x, y) if ym else (y, x)
                s = self.scalar(s)
                return Diag(m.d * s % P) if isinstance(m, Diag) else M(m.a * s % P)
            a, b_ = dense(x), dense(y)
            if a.shape[1] != b_.shape[0]:
                if 1 == a.shape[0] == a.shape[1]:
                    return M(b_ * int(a[0, 0]) % P)
                raise Bad("product of %s and %s matrices" % (a.shape, b_.shape))
            return M(dotp(a, b_))
        if op == "/":
            return M(dense(x) * inv(self.scalar(y)) % P)
        if op in ("+", "-"):
            if not (xm and ym):
                if xm and x.a.shape == (1, 1) or ym and y.a.shape == (1, 1):
                    return self.arith(op, Sc(self.scalar(x)), Sc(self.scalar(y)))
                raise Bad("sum of a matrix and a number")
            a, b_ = dense(x), dense(y)
            if a.shape != b_.shape:
                raise Bad("sum of %s and %s matrices" % (a.shape, b_.shape))
            return M((a + b_ if op == "+" else a - b_) % P)
        raise ir.Broken("generated code: %s of matrices" % op)

    def truth(self, c):
        c = self.val(c)
        if isinstance(c, Gate):
            return self.gate(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, Obj) and c.name == "ok":
            return True
        raise ir.Broken("generated code: condition %r" % (c,))

    def gate(self, g):
        raise ir.Broken("generated code: condition on a real number")


def same_start(a, b):
    return a.__array_interface__["data"][0] == b.__array_interface__["data"][0] or not a.size


def copy(o):
    n = Obj(o.cls, o.name)
    for k, v in o.f.items():
        n.f[k] = M(v.a.copy(), v.name) if isinstance(v, M) else copy(v) if isinstance(v, Obj) else v
    return n


def dense(x):
    return x.dense() if isinstance(x, Diag) else x.a


def dotp(a, b_):
    if not a.shape[1]:
        return np.zeros((a.shape[0], b_.shape[1]), dtype=object)
    return np.dot(a, b_) % P


def real(t):
    m = re.match(r"(\d*)\.?(\d*)(?:[eE]([-+]?\d+))?$", t)
    i, f, e = m.group(1), m.group(2), int(m.group(3) or 0)
    return int(i + f or "0") * (pow(10, e - len(f), P) if e >= len(f) else inv(pow(10, len(f) - e, P))) % P


def inverse(a):
    n = a.shape[0]
    if a.shape != (n, n):
        raise Bad("inverse of a %s matrix" % (a.shape,))
    w = np.concatenate([a.copy() % P, np.array([[int(i == j) for j in range(n)] for i in range(n)], dtype=object).reshape((n, n))], axis=1) if n else a.copy()
    for i in range(n):
        k = next((k for k in range(i, n) if w[k, i]), None)
        if k is None:
            raise ZeroDivisionError
        if k != i:
            w[[i, k]] = w[[k, i]]
        w[i] = w[i] * inv(w[i, i]) % P
        for k in range(n):
            if k != i and w[k, i]:
                w[k] = (w[k] - w[i] * w[k, i]) % P
    return w[:, n:]


class Sc:
    """a real scalar"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = int(v) % P


class Diag:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @property
    def a(self):
        return self.dense()

    def dense(self):
        n = len(self.d)
        a = np.zeros((n, n), dtype=object)
        for i in range(n):
            a[i, i] = self.d[i]
        return a


class Tri:
    """part of a matrix"""

    def __init__(self, a, mask):
        self.a, self.mask = a, mask


class Elem:
    __slots__ = ("m", "i", "j")

    def __init__(self, m, i, j):
        self.m, self.i, self.j = m, i, j

    def get(self):
        return int(self.m[self.i, self.j])

    def set(self, v):
        self.m[self.i, self.j] = int(v) % P


class Var:
    __slots__ = ("d", "n")

    def __init__(self, d, n):
        self.d, self.n = d, n

    def get(self):
        return self.d[self.n]

    def set(self, v):
        if isinstance(self.d[self.n], Var):
            self.d[self.n].set(v)
        else:
            self.d[self.n] = v


class Named:
    """a constant that is only compared"""

    def __init__(self, n):
        self.n = n


class Gate:
    """a comparison of real numbers"""

    def __init__(self, op, x, y, n=False):
        self.op, self.x, self.y, self.n = op, x, y, n

    def neg(self):
        return Gate(self.op, self.x, self.y, not self.n)
