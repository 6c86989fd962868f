import re
import ir, vg
from ir import VERIF, Broken
from loglib import text_of
TITLE = "Log keys and stream names correspond one to one"
TECH = "constant evaluation of the key-to-name function on the value graph for every enumerator; injectivity of the format string for all other keys (LLVM IR)"
RULE = """The name function's value graph is evaluated for every enumerator of LogKey: each must build its string from one literal; all literals must differ. Every other key must reach one formatting call whose
format string holds exactly one replacement field for the key, with a format specification under which different integers give different texts (no truncation, no padding that can be mistaken for digits of the number), and
whose literal text is no prefix of an enumerator's name. Every place that builds a stream's file name takes it from this function."""
ASSUME = ("fmt's documented format specification grammar", "the key enumeration is read from debug information")
WHERE = "common/logging/log_key.h"
MAKE = r"std::__cxx11::basic_string<.*>::(basic_string|basic_string<.*>)\(char const\*"


def injective(spec):
    """fmt integer specification [[fill]align][sign][#][0][width][L][type]"""
    q = re.fullmatch(r"(?:(.)?([<>^]))?([+\- ])?(#)?(0)?(\d*)(?:\.\d+)?([bBdoxX]?)", spec)
    if not q:
        return False
    fill, al, sign, alt, zero, width, ty = q.groups()
    if not width:
        return True
    digits = "0123456789abcdefABCDEFxX"
    if al is None:
        return True                 # numbers are right aligned and padded with spaces or leading zeros
    fill = fill or " "
    if al == ">" and fill == "0":
        return True
    return fill not in digits + "-+"


def parse(fm):
    """(literal before, [specs], literal after)"""
    out, lit, i = [], [""], 0
    while i < len(fm):
        if fm[i:i + 2] in ("{{", "}}"):
            lit[-1] += fm[i]
            i += 2
        elif fm[i] == "{":
            j = fm.index("}", i)
            body = fm[i + 1:j]
            out.append(body.partition(":"))
            lit.append("")
            i = j + 1
        else:
            lit[-1] += fm[i]
            i += 1
    return lit, out


def name_of(m, fn, k):
    g = vg.VG(m, fn, args=({1: vg.c(k, 32)} if k is not None else None))
    ev = [e for e in g.events if e.guard is not vg.FALSE]
    return g, [e for e in ev if re.match(MAKE, e.dem)], [e for e in ev if re.match(r"fmt::|.*\bfmt::v\d+::(v?format|basic_format_string)", e.dem) or "fmt::" in e.dem.split("(")[0]], ev


def run(ctx):
    m = ir.load([VERIF + "/harness/key.cxx"], [r"^vh_"], extra=["-fstandalone-debug"])
    fn = m.find(r"^vh_name")
    keys = m.enums.get("mc::logging::LogKey")
    ctx.need(keys, "the enumeration LogKey vanished")
    names = {}
    for n, k in sorted(keys.items(), key=lambda x: x[1]):
        g, mk, fm, ev = name_of(m, fn, k)
        ctx.add("keys", "%s=%d" % (n, k))
        t = [text_of(m, e.args[1]) for e in mk if e.args[0] == vg.mk("ptr", (("arg", 0), 0, ()), "p")]
        ok = len(t) == 1 and t[0] is not None and not fm
        ctx.ob(n + "/one literal name", ok, WHERE, "the key does not get exactly one literal name (%s)" % (t,))
        if ok:
            other = names.get(t[0])
            ctx.ob(n + "/distinct", other is None, WHERE, "%s and %s are both named %r" % (n, other, t[0]))
            ctx.ob(n + "/usable file name", bool(t[0]) and "/" not in t[0] and t[0] not in (".", ".."), WHERE, "name %r" % t[0])
            names[t[0]] = n
    vals = list(keys.values())
    ctx.ob("enumerators distinct", len(set(vals)) == len(vals), WHERE, "two enumerators share a value")
    for k in (max(vals) + 1, 99, 100, -1):
        g, mk, fm, ev = name_of(m, fn, k)
        fs = [text_of(m, a) for e in fm for a in e.args if text_of(m, a) is not None]
        ok = len(fs) == 1 and not mk
        ctx.ob("other keys/%d" % k, ok, WHERE, "no single format string names key %d: %s %s" % (k, fs, [e.dem[:60] for e in ev]))
        if not ok:
            continue
        lit, specs = parse(fs[0])
        ctx.add("format strings", fs[0])
        ctx.ob("other keys/%d/injective" % k, len(specs) == 1 and specs[0][0] in ("", "0") and injective(specs[0][2]), WHERE, "format %r gives different keys the same name" % fs[0])
        ctx.ob("other keys/%d/apart from named keys" % k, bool(lit[0]) and not any(x.startswith(lit[0]) for x in names), WHERE, "%r can produce a named key's name" % fs[0])
        av = [e for e in fm if "basic_format_string" not in e.dem.split("(")[0][-60:]]
