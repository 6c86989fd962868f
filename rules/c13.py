import glob, os, re
from concurrent.futures import ThreadPoolExecutor
import ir
TITLE = "Logged records match the stream's declared types"
TECH = "call-site type agreement over the type-checked program: template arguments of initStream and log instances joined by key provenance (LLVM IR)"
RULE = """Every program that can reach the log writer is compiled; at every call of Logger::initStream<T...> and Logger::log<U...>/logStamped<U...> the template arguments are the types the type checker
chose. The key of a call is traced to constants through casts, selections, parameters (at every caller) and data members (at every store). For each key a record is logged with, the same
program must declare a stream for that key, and U... must equal every T... declared for it, in number and order; a stream must be declared under the same number of names as types."""
ASSUME = ("a key that cannot be traced to constants is required to agree with some stream the program declares", "one program = one translation unit with the logging call sites")
CALL = re.compile(r"mc::logging::Logger::(initStream|log|logStamped)<(.*)>\(int, ")


def includes(f, seen):
    if f in seen or not os.path.exists(f):
        return seen
    seen.add(f)
    for i in re.findall(r'^\s*#\s*include\s+"([^"]+)"', open(f, errors="replace").read(), re.M):
        includes(os.path.join(ir.REPO, i), seen)
    return seen


def units():
    out = []
    for f in sorted(glob.glob(ir.REPO + "/**/*.cxx", recursive=True)):
        r = os.path.relpath(f, ir.REPO)
        b = os.path.basename(f)
        if r.startswith(("_build", "build", "third_party")) or re.search(r"(^|_)(test|bench|benchmark)(_|\.)", b) or r == "common/logging/log_writer.cxx":
            continue
        if ir.REPO + "/common/logging/log_writer.h" in includes(f, set()) and not r.startswith("common/logging/"):
            out.append(r)
    return out


def targs(d):
    """Template arguments of the logging call named by a demangled symbol."""
    m = re.search(r"mc::logging::Logger::(initStream|log|logStamped)<", d)
    if not m:
        return None
    out, cur, depth = [], "", 1
    for c in d[m.end():]:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
            if depth == 0:
                break
        if c == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return m.group(1), tuple(out)


class Keys:
    def __init__(self, m):
        self.m = m
        self.callers, self.stores, self.defs = {}, {}, {}
        for fn in m.functions.values():
            d = self.defs[fn["name"]] = {i["id"]: (i, b) for b in fn["blocks"] for i in b if "id" in i}
            for i, _ in d.values():
                if i["op"] in ("call", "invoke") and i.get("cdem"):
                    self.callers.setdefault(i["cdem"], []).append((fn, i))
                if i["op"] == "store":
                    k = self.field(fn, i["ops"][1])
                    if k:
                        self.stores.setdefault(k, []).append((fn, i["ops"][0]))

    def field(self, fn, o):
        """(struct, offset) of an address, or the local it is."""
        if o["k"] != "v" or o["v"] not in self.defs[fn["name"]]:
            return None
        i, _ = self.defs[fn["name"]][o["v"]]
        if i["op"] == "getelementptr" and "off" in i and len([x for x in i["ops"] if x["k"] == "v"]) == 1:
            return (i["et"], i["off"])
        if i["op"] == "alloca":
            return (i["et"], 0) if "class.anon" in i["et"] else (fn["name"], o["v"])
        return None

    def consts(self, fn, o, seen=()):
        """Set of constants an operand can have, None when it cannot be told."""
        if o["k"] == "i":
            return {int(o["v"])}
        if o["k"] == "z":
            return {0}
        if o["k"] != "v" or (fn["name"], o["v"]) in seen:
            return set() if o["k"] == "v" else None
        seen = seen + ((fn["name"], o["v"]),)
        ent = self.defs[fn["name"]].get(o["v"])
        if ent is None:
            n = next((n for n, a in enumerate(fn["args"]) if a["id"] == o["v"]), None)
            sites = self.callers.get(fn["dem"], [])
            if n is None or not sites:
                return None
            return self.union([(f, c["ops"][n]) for f, c in sites], seen)
        i = ent[0]
        if i["op"] in ("zext", "sext", "trunc"):
            return self.consts(fn, i["ops"][0], seen)
        if i["op"] == "select":
            return self.union([(fn, x) for x in i["ops"][1:3]], seen)
        if i["op"] == "phi":
            return self.union([(fn, x) for x in i["ops"] if x["k"] != "b"], seen)
        if i["op"] == "load":
            k = self.field(fn, i["ops"][0])
            if k and self.stores.get(k):
                return self.union(self.stores[k], seen)
        return None

    def union(self, xs, seen):
        out = set()
        for f, x in xs:
            c = self.consts(f, x, seen)
            if c is None:
                return None
            out |= c
        return out


def where(i):
    l = [x for x in i.get("loc", [])][:1]
    return "%s:%s" % (os.path.relpath(l[0][0], ir.REPO), l[0][1]) if l else "?"


def load(u):
    gen = any("core/ekf/" in x for x in includes(os.path.join(ir.REPO, u), set()))
    return ir.load([u], [r".*"], inline=[], keep=[r".*"], gen=gen, passes="function(sroa,early-cse,simplifycfg)")


def run(ctx):
    us = units()
    if not us:
        raise ir.Broken("no program includes the log writer")
    if any("core/ekf/" in x for u in us for x in includes(os.path.join(ir.REPO, u), set())):
        ir.ekf_dir()
    ir.build_tools(("irtool",))
    with ThreadPoolExecutor(4) as ex:
        mods = list(ex.map(load, us))
    n = 0
    for u, m in zip(us, mods):
        ks = Keys(m)
        names = {v: k for k, v in m.enums.get("mc::logging::LogKey", {}).items()} if isinstance(m.enums.get("mc::logging::LogKey"), dict) else {}
        calls = []
        for fn in m.functions.values():
            if re.search(r"\bmc::logging::Logger::", fn["dem"]):
                continue
            for i, _ in ks.defs[fn["name"]].values():
                t = targs(i["cdem"]) if i["op"] in ("call", "invoke") and i.get("cdem") else None
                if t:
                    calls.append((t[0], t[1], ks.consts(fn, i["ops"][1]), where(i), fn["dem"]))
        inits = [c for c in calls if c[0] == "initStream"]
        logs = [c for c in calls if c[0] != "initStream"]
        ctx.add("programs", u)
        for _, T, k, w, d in inits:
            ctx.add("declarations", "%s %s <%s>" % (w, sorted(k) if k else k, ", ".join(T)))
        for _, T, k, w, d in logs:
            n += 1
            ctx.add("logging call sites", "%s %s <%s>" % (w, sorted(k) if k else k, ", ".join(T)))
            if not k:
                ok = any(T == I[1] for I in inits)
                ctx.ob("%s/some declaration" % w, ok, "%s in %s" % (w, d), "no stream of this program is declared with <%s>" % ", ".join(T))
                continue
            for c in sorted(k):
                mine = [I for I in inits if I[2] is None or c in I[2]]
                what = "%s/key %s" % (u, names.get(c, c))
                ctx.ob(what + "/declared", bool(mine), "%s in %s" % (w, d), "no initStream in this program declares the key")
                for I in mine:
                    ctx.ob(what + "/types", I[1] == T or I[2] is None and any(J[1] == T for J in mine), "%s in %s" % (w, d),
                           "logged as <%s> but declared as <%s> at %s" % (", ".join(T), ", ".join(I[1]), I[3]))
    if not n:
        raise ir.Broken("no logging call site found")
