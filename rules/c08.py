from loglib import *
TITLE = "Log headers describe exactly the bytes logged"
TECH = "abstract interpretation of the header builder to a typed tree, compared with the write layout extracted from serialize (LLVM IR)"
RULE = """For every loggable type the header tree that format() builds and the byte sequence that serialize() writes are both extracted from value graphs; they must list the same fields in the same
order, each with the element type, element size and count of the member written. makeFormat must start with the record's time stamp and then describe each argument, in order, under
its given name, exactly as format() does."""
ASSUME = ("yaml-cpp maps keep insertion order",)


def show(x):
    return " ".join("%s:%s%d%s" % (a, k, 8 * s, "x%d" % n if n != 1 else "") for a, k, s, n in x)


def header(m, n, cd):
    T, k = yaml_run(m, m.find(r"^vh_fmt_%s\(" % n))
    f = flatten(T, k)
    out = []
    for p, code, cnt in f:
        cs = cd.get(code)
        if cs is None or len({ks for _, ks in cs}) != 1:
            T.err.append("type code %s of %s denotes %s" % (code, p, [a for a, _ in cs or ()] or "nothing"))
            continue
        out.append((p, cs[0][1][0], cs[0][1][1], cnt))
    return out, T.err


def same(h, w, names=True):
    if len(h) != len(w):
        return False
    return all((not names or norm(a[0]) == norm(b[0])) and (b[1] is None or a[1] == b[1]) and a[2] == b[2] and a[3] == b[3] for a, b in zip(h, w))


def run(ctx):
    m = module()
    cd = codes(m)
    for n in [t for t in list(TYPES) + list(PLAIN) if t != "QuantizedTime"]:
        h, err = header(m, n, cd)
        w, err2 = written_fields(m, n)
        ctx.add("types", n)
        ctx.add("header fields", *["%s.%s" % (n, a[0]) for a in h])
        ctx.ob(n + "/header well formed", not err, "common/logging/log_format.cxx", "; ".join(err[:4]))
        if n == "TangentVector" and len(h) == 1:
            w = [("", "f", 8, 6)]
        extra = [a[0] for a in h if norm(a[0]) not in {norm(b[0]) for b in w}]
        miss = [b[0] for b in w if norm(b[0]) not in {norm(a[0]) for a in h}]
        dup = [b[0] for i, b in enumerate(w) if b in w[:i]]
        why = []
        if extra:
            why.append("described but not written: %s" % extra)
        if miss:
            why.append("written but not described: %s" % miss)
        if dup:
            why.append("written twice: %s" % dup)
        ctx.ob(n + "/header equals bytes", same(h, w) and not err2, "common/logging/log_format.cxx",
               "; ".join(why + err2) or "header: %s -- bytes: %s" % (show(h)[:600], show(w)[:600]))
    T, k = yaml_run(m, m.find(r"^vh_mf\("))
    f = flatten(T, k)
    want = [("t.sec", 2, 1), ("t.nsec", 2, 1)]
    pre = lambda i: str((("arg", 1), 32 * i))
    code = {v[0][0]: c for c, v in cd.items()}
    want = [("t.sec", code["int64"], 1), ("t.nsec", code["int64"], 1), (pre(0), code["double"], 1)]
    for i, n in ((1, "UTCTime"), (2, "ImuSample")):
        h, err = yaml_run(m, m.find(r"^vh_fmt_%s\(" % n))
        want += [(pre(i) + "." + p, c, q) for p, c, q in flatten(h, err)]
    want.append((pre(3), code["uint16"], 1))
    ctx.ob("makeFormat", f == want and not T.err, "common/logging/log_format.h", "builds %s" % (f,))
