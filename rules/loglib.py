"""Log serialisation: byte streams and YAML trees read off value graphs.
ostream::write / istream::read and the node operations of the yaml stand-in (harness/stubyaml) are the only events; their handlers interpret them."""
import re
import ir, vg
from ir import VERIF, Broken
from vg import c, mk

UNITS = ["common/logging/log_format.cxx", "common/logging/serialize.cxx", "common/utctime.cxx", "common/quantized_time.cxx", "common/ephemeris/glonass.cxx"]
# size and kind of the C++ type behind each loggable scalar
SCALARS = {"double": ("f", 8), "float": ("f", 4), "int64": ("i", 8), "int32": ("i", 4), "int16": ("i", 2), "int8": ("i", 1),
           "uint64": ("u", 8), "uint32": ("u", 4), "uint16": ("u", 2), "uint8": ("u", 1)}
BASE = {"double": ("f", 8), "float": ("f", 4), "long": ("i", 8), "long int": ("i", 8), "int": ("i", 4), "short": ("i", 2), "signed char": ("i", 1), "char": ("i", 1), "unsigned long": ("u", 8),
        "unsigned int": ("u", 4), "unsigned short": ("u", 2), "unsigned char": ("u", 1), "bool": ("u", 1)}
TYPES = {"UTCTime": "mc::UTCTime", "QuantizedTime": "mc::QuantizedTime", "GPSEphemeris": "mc::ephemeris::GPSEphemeris", "GalileoEphemeris": "mc::ephemeris::GalileoEphemeris",
         "GlonassEphemeris": "mc::ephemeris::GlonassEphemeris", "ImuSample": "mc::meas::ImuSample", "GnssObservation": "mc::meas::GnssObservation", "Quat": "mc::math::Quat<double>",
         "DQuat": "mc::math::DQuat<double>", "Jet": "mc::math::Jet<double>", "TwoJet": "mc::math::TwoJet<double>", "TangentVector": "mc::math::DQuat<double>::TangentVector"}
PLAIN = dict({k: (v, 1) for k, v in SCALARS.items()}, Vec3=(("f", 8), 3), Vec3f=(("f", 4), 3), Mat96=(("f", 8), 54), Mat10f=(("f", 4), 100), array=(("f", 8), 7))
WHERE = "common/logging/serialize.cxx"

_m = None


def module():
    global _m
    if _m is None:
        _m = ir.load([VERIF + "/harness/ser.cxx"] + UNITS, [r"^vh_"], inline=ir.DEFAULT_INLINE + [r"^YAML::"], keep=(r"^vs_",),
                     extra=["-I" + VERIF + "/harness/stubyaml", "-fstandalone-debug"])
    return _m


class Tree:
    """a YAML document under construction"""
    def __init__(self):
        self.nodes, self.err = {}, []

    def new(self):
        k = len(self.nodes) + 1
        self.nodes[k] = {"kind": None, "kids": []}       # kids: [(key, node)] in insertion order
        return k

    def node(self, t):
        if t.op != "c" or t.a[0] not in self.nodes:
            self.err.append("operation on an undetermined node " + vg.show(t)[:80])
            return None
        k = t.a[0]
        while self.nodes[k].get("alias"):
            k = self.nodes[k]["alias"]
        return k

    def index(self, n, key):
        d = self.nodes[n]
        for k, v in d["kids"]:
            if k == key:
                return v
        v = self.new()
        d["kind"] = "map"
        d["kids"].append((key, v))
        return v


def text_of(m, t):
    """contents of the C string a term points to"""
    if t.op == "ptr" and t.a[0][0] == "glob" and not t.a[2]:
        gl = m.globals.get(t.a[0][1])
        if gl is not None and gl.get("const") and gl.get("init") is not None:
            b = bytearray(gl["size"])
            for o, n, v in gl["init"]:
                if v["k"] != "i" or n != 1:
                    return None
                b[o] = int(v["v"]) & 255
            return bytes(b)[t.a[1]:].split(b"\0")[0].decode("utf8", "replace")
    return None


def yaml_run(m, fn, root_arg=0, strings=None):
    """(tree of the node built in *arg0) ; strings names opaque std::string keys by (object, offset)"""
    T = Tree()

    def chk(e_guard, ins, what):
        pass

    def h_new(g, st, ins, args):
        return ("ev", c(T.new(), 64))

    def h_index(g, st, ins, args):
        n = T.node(args[0])
        k = text_of(m, args[1])
        if k is None:
            T.err.append("key is not a literal: " + vg.show(args[1])[:80])
            k = "?%d" % len(T.nodes)
        return ("ev", c(T.index(n, k) if n else 0, 64))

    def h_index_s(g, st, ins, args):
        n = T.node(args[0])
        p = args[1]
        k = (p.a[0], p.a[1]) if p.op == "ptr" and not p.a[2] else vg.show(p)[:80]
        return ("ev", c(T.index(n, k) if n else 0, 64))

    def h_set(g, st, ins, args):
        n, q = T.node(args[0]), T.node(args[1])
        if n and q and n != q:
            T.nodes[n]["alias"] = q
        return ("ev", None)

    def h_int(g, st, ins, args):
        n = T.node(args[0])
        if n:
            T.nodes[n].update(kind="int", value=args[1])
        return ("ev", None)

    def h_other(g, st, ins, args):
        n = T.node(args[0])
        if n:
            T.nodes[n].update(kind="other", value=args[1])
        return ("ev", None)
    g = vg.VG(m, fn, summaries=[(r"^vs_new", h_new), (r"^vs_index\b", h_index), (r"^vs_index_s\b", h_index_s), (r"^vs_set\b", h_set), (r"^vs_int\b", h_int),
                                (r"^vs_(real|text|str)\b", h_other), (r"^mc::check", lambda g, st, i, a: ("ev", None))])
    for e in g.events:
        if e.dem.startswith("vs_"):
            if e.loops:
                T.err.append("node operation inside a loop with an undetermined trip count")
            if e.guard is not vg.TRUE:
                T.err.append("node operation under a condition")
    if g.final is None:
        raise Broken("no return: " + fn["dem"])
    r = g.mem(g.final, ("arg", root_arg), 0, 8, 64)
    k = T.node(r)
    return T, k


def flatten(T, k, path=""):
    """[(path, type code, count)] of a node tree"""
    while T.nodes[k].get("alias"):
        k = T.nodes[k]["alias"]
    d = T.nodes[k]
    names = [q for q, _ in d["kids"]]
    if "type" in names:
        v = {}
        for q, s in d["kids"]:
            while T.nodes[s].get("alias"):
                s = T.nodes[s]["alias"]
            x = T.nodes[s]
            if x.get("kind") != "int" or x["value"].op != "c":
                T.err.append("%s.%s is not a constant" % (path, q))
                return []
            v[q] = x["value"].a[0]
        extra = [q for q in names if q not in ("type", "rows", "cols")]
        if extra:
            T.err.append("%s mixes a scalar description with fields %s" % (path, extra))
        return [(path, v["type"], v.get("rows", 1) * v.get("cols", 1))]
    if not d["kids"]:
        T.err.append("%s describes nothing" % (path or "header"))
    out = []
    for q, s in d["kids"]:
        out += flatten(T, s, (path + "." if path else "") + str(q))
    return out


def codes(m):
    """type code -> (kind, size), from the program's own mapping for the ten scalar types"""
    out = {}
    for n, ks in SCALARS.items():
        T, k = yaml_run(m, m.find(r"^vh_fmt_%s\(" % n))
        f = flatten(T, k)
        if T.err or len(f) != 1 or f[0][2] != 1:
            raise Broken("cannot read the type code of %s: %s" % (n, T.err))
        out.setdefault(f[0][1], []).append((n, ks))
    return out


def writes(m, fn, stream=0):
    """[(pointer, size)] written to the stream, and problems"""
    g = vg.VG(m, fn)
    out, err = [], []
    for e in g.events:
        if re.match(r"std::(basic_)?ostream(<[^>]*>)?::write\(", e.dem):
            if e.loops or e.guard is not vg.TRUE:
                err.append("a write happens only under a condition or in an undetermined loop")
            if e.args[0] != mk("ptr", (("arg", stream), 0, ()), "p"):
                err.append("writes to another stream")
            if e.args[2].op != "c":
                err.append("write of undetermined size " + vg.show(e.args[2])[:60])
                continue
            out.append((e.args[1], e.args[2].a[0], e.state))
        else:
            err.append("calls " + e.dem[:90])
    return g, out, err


def roundtrip(m, fn):
    """run deserialize-then-serialize: (cells read [(pos, size)], writes [(pos, size, [terms])], problems)"""
    cells, outs, err = [], [], []
    pos = [0, 0]

    def rd(g, st, ins, args):
        if args[2].op != "c":
            err.append("read of undetermined size")
            return ("ev", None)
        n, k = args[2].a[0], 0
        p = args[1]
        if not (p.op == "ptr" and not p.a[2]):
            err.append("reads into an undetermined place")
            return ("ev", None)
        while k < n:
            s = 8 if n - k >= 8 else 4 if n - k >= 4 else 2 if n - k >= 2 else 1
            g.store(st, mk("ptr", (p.a[0], p.a[1] + k, ()), "p"), s, mk("in", (pos[0],), s * 8))
            cells.append((pos[0], s))
            pos[0] += s
            k += s
        return ("ev", args[0])

    def wr(g, st, ins, args):
        if args[2].op != "c":
            err.append("write of undetermined size")
            return ("ev", None)
        n, p = args[2].a[0], args[1]
        if not (p.op == "ptr" and not p.a[2]):
            err.append("writes from an undetermined place")
            return ("ev", None)
        k = 0
        while k < n:
            q = pos[1]
            s = next((z for a, z in cells if a == q), None)
            if s is None or k + s > n:
                err.append("bytes %d.. written do not line up with the fields read" % q)
                pos[1] += n - k
                break
            outs.append((q, s, g.load(st, mk("ptr", (p.a[0], p.a[1] + k, ()), "p"), s, s * 8)))
            pos[1] += s
            k += s
        return ("ev", args[0])
    g = vg.VG(m, fn, summaries=[(r"^std::(basic_)?istream(<[^>]*>)?::read\(", rd), (r"^std::(basic_)?ostream(<[^>]*>)?::write\(", wr)])
    for e in g.events:
        if not re.match(r"std::(basic_)?[io]stream(<[^>]*>)?::(read|write)\(", e.dem):
            err.append("calls " + e.dem[:90])
        if e.loops or e.guard is not vg.TRUE:
            err.append("input or output happens only under a condition or in an undetermined loop")
    if pos[0] != pos[1]:
        err.append("%d bytes are read but %d written" % (pos[0], pos[1]))
    return cells, outs, err


class Poly(dict):
    """polynomials with rational coefficients over opaque symbols: {sorted tuple of symbols: coefficient}"""
    def plus(self, o, k=1):
        r = Poly(self)
        for m, v in o.items():
            r[m] = r.get(m, 0) + k * v
            if r[m] == 0:
                del r[m]
        return r

    def times(self, o):
        r = Poly()
        for a, x in self.items():
            for b, y in o.items():
                m = tuple(sorted(a + b))
                r[m] = r.get(m, 0) + x * y
        return Poly({k: v for k, v in r.items() if v})


def poly(t, atom):
    """polynomial of a floating-point term over the reals, None if it is not one"""
    from fractions import Fraction
    memo = {}

    def go(t):
        if t.id in memo:
            return memo[t.id]
        r = go1(t)
        memo[t.id] = r
        return r

    def go1(t):
        a = atom(t)
        if a is not None:
            return Poly({(a,): Fraction(1)})
        if t.op == "cf":
            v = Fraction(vg.fval(t))
            return Poly({(): v}) if v else Poly()
        if t.op in ("fadd", "fsub", "fmul"):
            x, y = go(t.a[0]), go(t.a[1])
            if x is None or y is None:
                return None
            return x.times(y) if t.op == "fmul" else x.plus(y, 1 if t.op == "fadd" else -1)
        if t.op == "fneg":
            x = go(t.a[0])
            return None if x is None else Poly().plus(x, -1)
        return None
    return go(t)


def base_of(info):
    t = re.sub(r"\bconst\b", "", info["t"] or "").strip()
    if t in BASE:
        return BASE[t], 1
    q = re.match(r"Eigen::Matrix<(\w+), (\d+), (\d+)", t)
    if q and q.group(1) in BASE:
        return BASE[q.group(1)], int(q.group(2)) * int(q.group(3))
    return None, None


def dataleaves(m, tn):
    """value-carrying leaves (path, offset, size, kind, count)"""
    out = []
    for n, o, s, i in m.leaves(tn):
        b, k = base_of(i)
        out.append((n, o, s, b[0] if b else None, k if b else None, b[1] if b else None))
    return sorted(out, key=lambda x: x[1])


QUATS = {"Quat": [("deref", 32)], "DQuat": [("deref", 32), ("temp", 24)]}


def written_fields(m, n):
    """[(path, kind, element size, count)] that serialize(X) writes, in order; problems"""
    fn = m.find(r"^vh_ser_%s\(" % n)
    g, w, err = writes(m, fn)
    if n in PLAIN:
        (k, s), cnt = PLAIN[n]
        tot = sum(z for _, z, _ in w)
        pos = 0
        for p, z, _ in w:
            if not (p.op == "ptr" and p.a[0] == ("arg", 1) and p.a[1] == pos and not p.a[2]):
                err.append("writes %s where byte %d of the value is due" % (vg.show(p)[:60], pos))
            pos += z
        if tot != s * cnt:
            err.append("writes %d of %d bytes" % (tot, s * cnt))
        return [("", k, s, cnt)], err
    out = []
    leaves = dataleaves(m, TYPES[n]) if n not in ("Quat", "DQuat", "TangentVector") else []
    if n in ("Jet", "TwoJet"):
        leaves = [l for l in leaves if not l[0].startswith("x.")]
        leaves = [(re.sub(r"\.m_storage.*", "", l[0]),) + tuple(l[1:]) for l in leaves]
    i = 0
    while i < len(w):
        p, z, _ = w[i]
        i += 1
        if n == "TangentVector":
            if not (p.op == "ptr" and p.a[0] == ("arg", 1) and z == 48):
                err.append("does not write the six components")
            out += [("angular", "f", 8, 3), ("linear", "f", 8, 3)]
            continue
        if n in ("Quat", "DQuat", "Jet", "TwoJet") and not (p.op == "ptr" and p.a[0] == ("arg", 1)):
            pre = "" if n in ("Quat", "DQuat") else "x."
            if p.op == "ptr" and p.a[0][0] == "alloca" and z == 24 and n != "Quat":
                out.append((pre + "trans", "f", 8, 3))
            elif z == 32 and not (p.op == "ptr" and p.a[0][0] == "alloca"):
                out += [(pre + ("" if n == "Quat" else "rot.") + k, "f", 8, 1) for k in "wxyz"]
            else:
                err.append("writes %d bytes from %s" % (z, vg.show(p)[:60]))
            continue
        if not (p.op == "ptr" and p.a[0] == ("arg", 1) and not p.a[2]):
            err.append("writes %d bytes from %s, which is no field of the value" % (z, vg.show(p)[:60]))
            continue
        a, e = p.a[1], p.a[1] + z
        ls = [l for l in leaves if l[1] >= a and l[1] + l[2] <= e]
        if sum(l[2] for l in ls) != z:
            err.append("bytes %d..%d of the value are not exactly its fields %s" % (a, e, [l[0] for l in ls]))
        for nm, o, s, k, cnt, es in ls:
            if n in ("Jet", "TwoJet"):
                out += [(nm + ".angular", "f", 8, 3), (nm + ".linear", "f", 8, 3)]
            else:
                out.append((nm, k, es or s, cnt or 1))
    return out, err


def norm(p):
    return re.sub(r"_", "", p).lower()
