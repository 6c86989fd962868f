import re
import ir, vg, prop, strlib
from ir import VERIF, Broken
from vg import mk, c
from loglib import text_of
TITLE = "The log writer's record protocol"
TECH = "typestate and effect analysis of the logger's operations on value graphs: guards, written bytes, counters (LLVM IR)"
RULE = """Logger::log and logStamped: every byte goes to the file of the stream found under the given key and only where the lookup succeeded (checked before the first byte); the bytes are the two words of the time stamp
followed by each argument in order, and the stream's counter grows by exactly one. initStream: a stream is created only where the lookup failed (checked first), exactly once, and initialised with the same key, which is
also the one entered into the manifest. Stream::init writes the key, the header format of exactly the stream's types and opens the file named after the key, without touching the counter, which starts at zero; destroying
a stream writes its own counter under num_records beside the data file."""
ASSUME = ("std::unordered_map and file streams behave as documented", "mc::check does not return when its condition is false (C37)")
VAL = 16      # hash node: link, key, value
H = "common/logging/log_writer.h"
TAB = r"^std::_Hashtable<int, std::pair<int const, mc::logging::Stream>.*>::"
UNITS = ["common/logging/log_writer.cxx", "common/logging/serialize.cxx", "common/utctime.cxx"]


def load():
    return ir.load([VERIF + "/harness/logw.cxx"] + UNITS, [r"^vh_", r"mc::logging::Stream::init<"], extra=["-I" + VERIF + "/harness/stubyaml", "-fstandalone-debug", "-fno-access-control"],
                   inline=ir.DEFAULT_INLINE + [r"^YAML::", r"^std::__detail::"], keep=(r"^vs_", r"logKeyName", r"makeFormat", r"UTCTime::now", r"^std::__detail::_Map_base", r"_Hashtable", r"Stream::init<"))


def table(m, pairsize=16):
    """lookups in the stream table"""
    def key(g, st, p):
        return g.load(st, p, 4, 32)

    def find(g, st, ins, a):
        return ("ev", mk("find", (a[0], key(g, st, a[1])), "p"))

    def end(g, st, ins, a):
        return ("ev", mk("null", (), "p"))

    def count(g, st, ins, a):
        f = mk("find", (a[0], key(g, st, a[1])), "p")
        return ("ev", vg.cast("zext", vg.NOT(vg.icmp("eq", f, mk("null", (), "p"))), 64))

    def at(g, st, ins, a):
        f = mk("find", (a[0], key(g, st, a[1])), "p")
        g.curassume = vg.AND(g.curassume, vg.NOT(vg.icmp("eq", f, mk("null", (), "p"))))
        return ("ev", g.ptr_add(g.deref(f), pairsize, []))
    def nop(g, st, ins, a):
        return ("ev", a[0] if ins["t"] == "ptr" else None)

    def create(g, st, ins, a):
        w = g.width(ins["t"])
        return ("ev", g.fresh("call:created", w) if ins["t"] != "void" else None)

    def tup(g, st, ins, a):
        g.store(st, a[0], 4, g.load(st, a[1], 4, 32))
        return ("ev", None)
    return [(r"^std::(basic_)?ostream(<[^>]*>)?::write", nop), (r"basic_ofstream<[^(]*::(open|close|basic_ofstream|~basic_ofstream)", nop), (r"YAML::Dump|std::operator<<", nop),
            (r"Stream::init<", nop), (r"^vs_push", nop), (TAB + r"(_M_)?(try_)?(emplace|insert)|_Hashtable<int, std::pair<int const, mc::logging::Stream>.*_M_emplace", create),
            (r"^std::_Tuple_impl<0ul, int>::_Tuple_impl<int", tup),
            (TAB + r"find\(", find), (TAB + r"c?end\(", end), (TAB + r"(count|contains)\(", count), (r"^std::__detail::_Map_base<int, std::pair<int const, mc::logging::Stream>.*>::at\(", at)]


def cells(m, g, st, p, n):
    """terms of n bytes at p in 8/4/2/1 byte pieces"""
    out, k = [], 0
    while k < n:
        s = 8
        while s > n - k:
            s //= 2
        out.append((s, g.load(st, g.ptr_add(p, k, []), s, s * 8)))
        k += s
    return out


def log_op(ctx, m, fn, first, stamp):
    g = vg.VG(m, m.find("^%s\\(" % fn), summaries=table(m) + strlib.handlers(m))
    sf = {n: o for n, o, s, i in m.fields("mc::logging::Stream")}
    ctx.need({"file_", "num_records_"} <= set(sf), "Stream's members vanished")
    found = [mk("find", (mk("ptr", (("arg", 0), m.field("mc::logging::Logger", "streams_")[0], ()), "p"), mk("arg", (1,), 32)), "p")]
    hit = vg.NOT(vg.icmp("eq", found[0], mk("null", (), "p")))
    obj = ("deref", found[0])
    want, k = [], 0
    if stamp is None:
        now = [e for e in g.events if e.dem.startswith("mc::UTCTime::now")]
        ctx.ob(fn + "/stamp", len(now) == 1, H, "reads the clock %d times" % len(now))
        if len(now) != 1:
            return
        r = now[0].ret
        want = [vg.mk("extract", (r, 0), 64), vg.mk("extract", (r, 1), 64)] if r is not None else []
        want = None if r is None or not str(r.w).startswith("{") else [g._ext(r, 0, 64), g._ext(r, 1, 64)]
        tail = first
    else:
        want = [t for s, t in cells(m, g, g0(g), mk("ptr", (("arg", stamp), 0, ()), "p"), 16)]
        tail = first
    ref = []
    for i, sizes in zip(range(tail, tail + 3), ((8,), (8, 8, 24, 24), (2,))):
        o = 0
        for s in sizes:
            ref += [t for _, t in cells(m, g, g0(g), mk("ptr", (("arg", i), o, ()), "p"), s)]
            o += s
    got, bad = [], []
    for e in g.events:
        if "::write(" not in e.dem:
            if e.kind == "check" or re.search(r"_Hashtable|_Map_base|basic_string|allocator|source_location|fmt::|logKeyName|UTCTime::now", e.dem):
                continue
            bad.append("calls " + e.dem[:80])
            continue
        if e.args[0] != mk("ptr", (obj, VAL + sf["file_"], ()), "p"):
            bad.append("writes to %s, not to the file of the stream found under the key" % vg.show(e.args[0])[:80])
        if not prop.entails(e.guard, hit):
            bad.append("a write happens without the stream having been found")
        if e.loops or not prop.entails(hit, e.guard):
            bad.append("a write happens only under a condition")
        if e.args[2].op != "c":
            bad.append("write of undetermined size")
            continue
        got += [t for _, t in cells(m, g, e.state, e.args[1], e.args[2].a[0])]
    ctx.add("operations", fn)
    ctx.add("bytes", *["%s piece %d" % (fn, i) for i in range(len(got))])
    ctx.ob(fn + "/only to an initialised stream", not bad, H, "; ".join(sorted(set(bad))[:4]))
    full = (want or []) + ref
    if want is None:
        got2, full2 = got[2:], ref
        ctx.ob(fn + "/stamp first", len(got) > 2 and all(any(x is r for x in vg.subterms(t)) for t in got[:2]), H, "the record does not start with the clock reading")
    else:
        got2, full2 = got, full
    ctx.ob(fn + "/stamp then arguments in order", [plain(t) for t in got2] == [plain(t) for t in full2], H, "writes %s" % [vg.show(t)[:50] for t in got2][:12])
    n0 = vg.mk("x", (), 32)
    cnt = VAL + sf["num_records_"]
    after = g.mem(g.final, obj, cnt, 4, 32)
    before = g.initial(g0(g), obj, cnt, 4, 32)
    ctx.ob(fn + "/counts one", after == vg.binop("add", before, c(1, 32)), H, "the record counter becomes %s" % vg.show(after)[:120])


def plain(t):
    while t.op == "bitcast":
        t = t.a[0]
    return (t.op, t.a)


def g0(g):
    return vg.State()


def run(ctx):
    m = load()
    log_op(ctx, m, "vh_log", 3, 2)
    log_op(ctx, m, "vh_stamped", 2, None)
    # initStream
    g = vg.VG(m, m.find(r"^vh_init\("), summaries=table(m) + strlib.handlers(m))
    fnd = mk("find", (mk("ptr", (("arg", 0), m.field("mc::logging::Logger", "streams_")[0], ()), "p"), mk("arg", (1,), 32)), "p")
    absent = vg.icmp("eq", fnd, mk("null", (), "p"))
    bad = []
    creates = [e for e in g.events if re.search(r"_Hashtable<.*(_M_emplace|emplace|try_emplace|insert)", e.dem.split("(")[0]) or "::operator[](" in e.dem and "_Map_base" in e.dem]
    inits = [e for e in g.events if "Stream::init<" in e.dem]
    for nm, ev in (("creates", creates), ("initialises", inits)):
        if len(ev) != 1:
            bad.append("%s a stream %d times" % (nm, len(ev)))
        for e in ev:
            if not prop.entails(e.guard, absent):
                bad.append("%s a stream although one may exist for the key" % nm)
            if e.loops or not prop.entails(absent, e.guard):
                bad.append("%s the stream only under a condition" % nm)
    for e in creates:
        if not any(x.op == "ptr" and from_key(g, g.load(e.state, x, 4, 32), e) for x in e.args[1:]):
            bad.append("creates the stream under another key")
    for e in inits:
        if creates and not any(x is creates[0].ret for x in vg.subterms(e.args[0])):
            bad.append("initialises something else than the stream just created")
        k = e.args[3]
        if not from_key(g, k, e):
            bad.append("initialises the stream with key " + vg.show(k)[:60])
        if not e.dem.count("init<double, mc::meas::ImuSample, unsigned short>"):
            bad.append("initialises with other types than its own: " + e.dem[:120])
    seq = [e.dem.split("(")[0] for e in g.events if e.dem.startswith("vs_")]
    pk = [e for e in g.events if e.dem.startswith("vs_push")]
    idx = {e.ret: text_of(m, e.args[1]) for e in g.events if e.dem.startswith("vs_index") and e.ret is not None}
    kk = [e for e in pk if e.dem.startswith("vs_push_int") and idx.get(e.args[0]) == "keys"]
    if len(kk) != 1 or not from_key(g, kk[0].args[1], kk[0]):
        bad.append("the manifest's keys get %s" % [vg.show(e.args[1])[:60] for e in kk])
    kn = [e for e in pk if e.dem.startswith("vs_push_str") and idx.get(e.args[0]) == "key_names"]
    if len(kn) != 1 or not (lambda t: t.a[0] == "name" and from_key(g, t.a[1], kn[0]))(strlib.get(g, kn[0].state, kn[0].args[1])):
        bad.append("the manifest's key names do not get the key's name exactly once")
    for e in kk + kn:
        if not prop.entails(absent, e.guard):
            bad.append("enters the key into the manifest only under a condition")
    ctx.add("operations", "initStream")
    ctx.ob("initStream/once per key", not bad, H, "; ".join(bad))
    # Stream::init
    fn = m.find(r"mc::logging::Stream::init<double, mc::meas::ImuSample, unsigned short>")
    g = vg.VG(m, fn, summaries=table(m) + strlib.handlers(m) + nodes(m))
    sf = {n: o for n, o, s, i in m.fields("mc::logging::Stream")}
    bad = []
    ext = mk("str", ("lit", ".log"), "s")
    name = strlib.cat(mk("str", ("name", mk("arg", (3,), 32)), "s"), ext)
    want = mk("str", ("join", strlib.get(g, vg.State(), mk("ptr", (("arg", 1), 0, ()), "p")), name), "s")
    op = [e for e in g.events if re.search(r"ofstream<.*>::open", e.dem)]
    if len(op) != 1 or op[0].guard is not vg.TRUE or op[0].args[0] != mk("ptr", (("arg", 0), sf["file_"], ()), "p"):
        bad.append("does not open the stream's file exactly once")
    for e in op:
        t = strlib.get(g, e.state, e.args[1])
        if t != want:
            bad.append("opens %s, not the directory's <key name>.log" % strlib.show(t)[:100])
    t = strlib.get(g, g.final, mk("ptr", (("arg", 0), sf["filename_"], ()), "p"))
    if t != want:
        bad.append("remembers the file name %s" % strlib.show(t)[:100])
    sets = {}
    for e in g.events:
        if e.dem.startswith(("vs_int", "vs_set", "vs_str", "vs_text")) and e.args[0].op == "node":
            sets.setdefault(e.args[0].a[1], []).append(e)
    ks = sets.get("key", [])
    if len(ks) != 1 or ks[0].args[1] != vg.cast("sext", mk("arg", (3,), 32), 64) or ks[0].guard is not vg.TRUE:
        bad.append("the header's key is %s" % [vg.show(e.args[1])[:40] for e in ks])
    fm = [e for e in g.events if "makeFormat<" in e.dem]
    if len(fm) != 1 or "makeFormat<double, mc::meas::ImuSample, unsigned short>" not in fm[0].dem or fm[0].args[-1] != mk("ptr", (("arg", 4), 0, ()), "p"):
        bad.append("the header's format is not built from the stream's own types and names")
    elif len(sets.get("format", [])) != 1 or not fmt_set(g, m, sets["format"][0], fm[0]):
        bad.append("the header's format entry is not the format just built")
    nr = g.mem(g.final, ("arg", 0), sf["num_records_"], 4, 32)
    if nr != g.initial(vg.State(), ("arg", 0), sf["num_records_"], 4, 32):
        bad.append("changes the record counter to " + vg.show(nr)[:60])
    ctx.add("operations", "Stream::init", "Stream::Stream", "Stream::~Stream")
    ctx.ob("Stream::init/key, format, file", not bad, H, "; ".join(bad))
    g = vg.VG(m, m.find(r"^vh_new\("), summaries=table(m) + strlib.handlers(m))
    nr = g.mem(g.final, ("arg", 0), sf["num_records_"], 4, 32)
    ctx.ob("Stream::Stream/starts at zero", nr == c(0, 32), H, "the counter starts as " + vg.show(nr)[:60])
    # destructor
    g = vg.VG(m, m.find(r"^vh_delete\("), summaries=table(m) + strlib.handlers(m) + nodes(m))
    bad = []
    st = [e for e in g.events if e.dem.startswith("vs_int") and e.args[0].op == "node" and e.args[0].a[1] == "num_records"]
    val = vg.cast("sext", g.initial(vg.State(), ("arg", 0), sf["num_records_"], 4, 32), 64)
    if len(st) != 1 or st[0].guard is not vg.TRUE or st[0].args[1] != val:
        bad.append("num_records is written as %s" % [vg.show(e.args[1])[:80] for e in st])
    dump = [e for e in g.events if "YAML::Dump" in e.dem]
    if len(dump) != 1 or dump[0].args[-1] != mk("ptr", (("arg", 0), sf["format_"], ()), "p") or (st and dump[0].seq < st[0].seq):
        bad.append("the header written is not the stream's, complete with its counter")
    outs = [e for e in g.events if re.search(r"basic_ofstream<[^(]*>::(basic_ofstream|open)", e.dem)]
    wn = mk("str", ("ext", strlib.get(g, vg.State(), mk("ptr", (("arg", 0), sf["filename_"], ()), "p")), mk("str", ("lit", ".yml"), "s")), "s")
    if len(outs) != 1 or strlib.get(g, outs[0].state, outs[0].args[1]) != wn:
        bad.append("the header goes to %s" % [strlib.show(strlib.get(g, e.state, e.args[1]))[:80] for e in outs])
    ctx.ob("Stream::~Stream/writes its count", not bad, "common/logging/log_writer.cxx", "; ".join(bad))


def from_key(g, t, e):
    """the key argument, possibly reloaded from its own stack slot"""
    while t.op in ("sext", "cast", "zext") and isinstance(t.a[-1], vg.T if hasattr(vg, "T") else type(t)):
        t = t.a[-1]
    if t == mk("arg", (1,), 32) or (t.op == "sext" and t.a[0] == mk("arg", (1,), 32)):
        return True
    return False


def fmt_set(g, m, e, f):
    o = f.args[0].a[0] if f.args[0].op == "ptr" else None
    return e.seq > f.seq and any(x.op == "init" and x.a[0] == o for x in vg.subterms(e.args[1]))


def nodes(m):
    def index(g, st, ins, a):
        k = text_of(m, a[1])
        return ("ev", mk("node", (a[0], k), 64))
    return [(r"^vs_index\b", index), (r"^vs_(int|str|text|set)\b", lambda g, st, i, a: ("ev", None))]
