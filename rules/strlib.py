"""Strings and paths as opaque terms: the handlers interpret the constructors and operators whose result depends only on their operands."""
import re
import vg
from vg import mk
from loglib import text_of

S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
P = r"std::experimental::filesystem::v1::__cxx11::"


def get(g, st, p):
    if p.op == "ptr" and not p.a[2]:
        t = g.load(st, p, 8, "s")
        if t.op == "str":
            return t
        return mk("str", ("at", g.load(st, p, 8, 64)), "s")
    return mk("str", ("of", p), "s")


def put(g, st, p, t):
    g.store(st, p, 8, t)


def text(m, p):
    x = text_of(m, p)
    return mk("str", ("lit", x), "s") if x is not None else mk("str", ("of", p), "s")


def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a[1:] if x.a[0] == "cat" else (x,)):
            if out and out[-1].a[0] == "lit" and y.a[0] == "lit":
                out[-1] = mk("str", ("lit", out[-1].a[1] + y.a[1]), "s")
            else:
                out.append(y)
    return out[0] if len(out) == 1 else mk("str", ("cat",) + tuple(out), "s")


def show(t):
    k = t.a[0]
    if k == "lit":
        return repr(t.a[1])
    if k == "cat":
        return "+".join(show(x) for x in t.a[1:])
    if k == "join":
        return "/".join(show(x) for x in t.a[1:])
    if k in ("name", "of", "at"):
        return "%s(%s)" % (k, vg.show(t.a[1])[:50])
    if k == "ext":
        return "ext(%s,%s)" % (show(t.a[1]), show(t.a[2]))
    return str(t.a[:1])


def handlers(m):
    def ctor_text(g, st, ins, a):
        put(g, st, a[0], text(m, a[1]))
        return ("ev", None)

    def ctor_copy(g, st, ins, a):
        put(g, st, a[0], get(g, st, a[1]))
        return ("ev", a[0] if ins["t"] != "void" else None)

    def name(g, st, ins, a):
        put(g, st, a[0], mk("str", ("name", a[1]), "s"))
        return ("ev", None)

    def plus(g, st, ins, a):
        d = ins.get("cdem") or ""
        args = vg.split_params(d)[0]
        v = [get(g, st, x) if "basic_string" in t else text(m, x) for x, t in zip(a[1:], args)]
        put(g, st, a[0], cat(*v))
        return ("ev", None)

    def join(g, st, ins, a):
        put(g, st, a[0], mk("str", ("join", get(g, st, a[1]), get(g, st, a[2])), "s"))
        return ("ev", None)

    def path_ctor(g, st, ins, a):
        d = ins.get("cdem") or ""
        t = vg.split_params(d)[0]
        put(g, st, a[0], text(m, a[1]) if t and t[0].startswith("char") else get(g, st, a[1]))
        return ("ev", None)

    def to_string(g, st, ins, a):
        put(g, st, a[0], get(g, st, a[1]))
        return ("ev", None)

    def repl(g, st, ins, a):
        put(g, st, a[0], mk("str", ("ext", get(g, st, a[0]), get(g, st, a[1])), "s"))
        return ("ev", a[0])

    def nop(g, st, ins, a):
        return ("ev", None)
    def empty(g, st, ins, a):
        put(g, st, a[0], mk("str", ("lit", ""), "s"))
        return ("ev", None)
    return [(r"^mc::logging::logKeyName", name), (r"^%spath::path\(\)$" % P, empty), (r"^%s::basic_string\(\)$" % S, empty),
            (r"^%s::basic_string<std::allocator<char>>\(char const\*" % S, ctor_text),
            (r"^%s::basic_string\(char const\*" % S, ctor_text),
            (r"^%s::basic_string\(%s( const)?&&?\)" % (S, S), ctor_copy),
            (r"^%s::operator=\(%s( const)?&&?\)" % (S, S), ctor_copy),
            (r"^%s::operator=\(char const\*" % S, ctor_text),
            (r"^%s std::operator\+<char" % S, plus),
            (r"^%spath::path<" % P, path_ctor),
            (r"^%spath::path\(%spath( const)?&&?\)" % (P, P), ctor_copy),
            (r"^%spath::path\(%s( const)?&&?" % (P, S), ctor_copy),
            (r"^%spath::operator=\(%spath( const)?&&?\)" % (P, P), ctor_copy),
            (r"^%soperator/\(" % P, join),
            (r"^%spath::replace_extension" % P, repl),
            (r"^%spath::(operator )?(string|%s|native)(\[abi:cxx11\])?\(.*const" % (P, S), to_string),
            (r"^_ZNKSt12experimental10filesystem2v17__cxx114pathcvNSt7__cxx1112basic_string", to_string),
            (r"^std::(__new_)?allocator<char>::", nop), (r"~basic_string\(\)$", nop), (r"path::~path\(\)$", nop),
            (r"^std::experimental::fundamentals_v2::source_location", nop)]
