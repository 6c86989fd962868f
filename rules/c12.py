import itertools, re
import ir, vg, prop, strlib
from ir import VERIF, Broken
from vg import mk, c
TITLE = "Log replay delivers records in global time order"
TECH = "abstract interpretation of the replay loop over every ordering of stream time stamps and every subscription set (LLVM IR value graphs); value graphs of the stream and callback operations"
RULE = """The replay function is interpreted over an abstract log of up to three streams: every set of subscribed streams and every ordering of their next time stamps (ties, differences of one nanosecond and of whole
seconds, exhausted streams), with the delivered stream then moving to every later representative. The container operations are interpreted on the abstract log; control flow must be determined by it. Each delivery must go to
the callback registered for the stream's key, once, with that key, the stream itself and its stamp, which must be the earliest of the subscribed streams; the replay ends exactly when all are exhausted. Registering a
callback requires that none exists for the key; reading a record reads its arguments in order and then the next stamp, which becomes the end marker exactly at the end of the file; a popped record carries the stamp it was read under;
a stream's key is the one in its header and its file is named after the manifest's key."""
ASSUME = ("callbacks consume exactly the record they are given", "three streams and five time representatives stand for all (the replay only compares stamps)", "std containers and streams behave as documented")
H = "common/logging/log_reader.cxx"
ST = r"^std::_Hashtable<int, std::pair<int const, mc::logging::StreamReader>.*>::"
CB = r"^std::_Hashtable<int, std::pair<int const, std::function<void \(mc::UTCTime const&, int, mc::logging::StreamReader&\)>>.*>::"
NODE = 16
MAXT = (2 ** 63 - 1, 0)
REPS = [(5, 100), (5, 101), (6, 50), MAXT]
KEEP = (r"^vs_", r"logKeyName", r"UTCTime::now", r"^std::__detail::_Map_base", r"_Hashtable", r"ProgressBar", r"LogReader::open", r"getLatestLog")


def load(harness="logr.cxx", keep=KEEP, roots=(r"^vh_", r"^mc::logging::StreamReader::open", r"^mc::logging::LogReader::openLog")):
    return ir.load([VERIF + "/harness/" + harness, "common/logging/log_reader.cxx", "common/logging/serialize.cxx", "common/utctime.cxx", "common/quantized_time.cxx"], list(roots),
                   extra=["-I" + VERIF + "/harness/stubyaml", "-fstandalone-debug", "-fno-access-control"], inline=ir.DEFAULT_INLINE + [r"\bYAML::", r"^std::__detail::", r"^std::_Tuple_impl", r"^std::_Head_base", r"^std::tuple", r"std::get<", r"std::__get_helper<", r"\bstd::(__)?(min_element|max_element|find_if|for_each|any_of|all_of|none_of|accumulate|count_if)<", r"^__gnu_cxx::__ops"], keep=keep)


def node(k):
    return ("heap", "stream", k)


def ptr(o, off=0):
    return mk("ptr", (o, off, ()), "p")


NULL = mk("null", (), "p")


class Replay:
    def __init__(self, m, stamps, subs, after):
        """stamps: per stream; subs: per stream bool; after: stamp the first delivered stream moves to"""
        self.m, self.after = m, after
        self.off = {n: o for n, o, s, i in m.fields("mc::logging::StreamReader")}
        self.n = len(stamps)
        self.keys = [20 + 7 * i for i in range(self.n)]
        self.alive = list(range(self.n))
        self.stamps, self.subs = list(stamps), subs
        self.log, self.err = [], []
        lo = {n: o for n, o, s, i in m.fields("mc::logging::LogReader")}
        st = vg.State()
        self.st = st
        self.busy = False
        g = None
        self.lo = lo

    def put(self, g, st, o, off, size, t):
        g.store(st, ptr(o, off), size, t)

    def stamp(self, g, st, i, t):
        self.stamps[i] = t
        self.put(g, st, node(i), NODE + self.off["next_stamp_"], 8, c(t[0], 64))
        self.put(g, st, node(i), NODE + self.off["next_stamp_"] + 8, 8, c(t[1], 64))

    def link(self, g, st):
        for a, b in zip(self.alive, self.alive[1:] + [None]):
            self.put(g, st, node(a), 0, 8, ptr(node(b)) if b is not None else NULL)

    def which(self, t):
        return t.a[0][2] if t.op == "ptr" and t.a[0][:2] == ("heap", "stream") and not t.a[2] else None

    def setup(self, g):
        st = vg.State()
        for i in range(self.n):
            self.put(g, st, node(i), 8, 4, c(self.keys[i], 32))
            self.put(g, st, node(i), NODE + self.off["key_"], 4, c(self.keys[i], 32))
            self.put(g, st, node(i), NODE + self.off["num_records_"], 4, c(2, 32))
            self.stamp(g, st, i, self.stamps[i])
        self.link(g, st)
        mo = self.lo["maintenance_callbacks_"]
        for k in range(3):
            self.put(g, st, ("arg", 0), mo + 8 * k, 8, NULL)
        return st

    def run(self):
        me = self

        def begin(g, st, ins, a):
            return ("ev", ptr(node(me.alive[0])) if me.alive else NULL)

        def null(g, st, ins, a):
            return ("ev", NULL)

        def erase(g, st, ins, a):
            i = me.which(a[1])
            if i is None or i not in me.alive or g.guard[g.cur] is not vg.TRUE:
                me.err.append("removes an undetermined stream")
                return ("ev", NULL)
            nxt = me.alive[me.alive.index(i) + 1:]
            me.alive.remove(i)
            me.link(g, st)
            if g.width(ins["t"]) == "p":
                return ("ev", ptr(node(nxt[0])) if nxt else NULL)
            return ("ev", g.fresh("erased", g.width(ins["t"])))

        def size(g, st, ins, a):
            return ("ev", c(len(me.alive), 64))

        def key(g, st, p):
            t = g.load(st, p, 4, 32)
            return t.a[0] if t.op == "c" else None

        def cbfind(g, st, ins, a):
            k = key(g, st, a[1])
            if k is None:
                me.err.append("looks up an undetermined key")
                return ("ev", NULL)
            i = me.keys.index(k) if k in me.keys else None
            return ("ev", ptr(("heap", "cb", i)) if i is not None and me.subs[i] else NULL)

        def cbcount(g, st, ins, a):
            return ("ev", c(0 if cbfind(g, st, ins, a)[1] is NULL else 1, 64))

        def cbat(g, st, ins, a):
            r = cbfind(g, st, ins, a)[1]
            return ("ev", r if r is NULL else ptr(r.a[0], NODE))

        def stfind(g, st, ins, a):
            k = key(g, st, a[1])
            i = me.keys.index(k) if k in me.keys else None
            return ("ev", ptr(node(i)) if i in me.alive else NULL)

        def call(g, st, ins, a):
            if g.guard[g.cur] is not vg.TRUE:
                me.err.append("a callback is called under an undetermined condition")
                return ("ev", None)
            f = a[0]
            t = tuple((lambda x: x.a[0] if x.op == "c" else None)(g.load(st, g.ptr_add(a[1], o, []), 8, 64)) for o in (0, 8))
            k = a[2] if a[2].w == 32 else g.load(st, a[2], 4, 32)
            me.log.append((f.a[0][2] if f.op == "ptr" and f.a[0][:2] == ("heap", "cb") else None, t, k.a[0] if k.op == "c" else None,
                           me.which(a[3]) if a[3].op == "ptr" and a[3].a[1] == NODE else None, {i: me.stamps[i] for i in range(me.n) if me.subs[i]}))
            i = me.log[-1][3]
            if len(me.log) == 1 and i is not None:
                me.stamp(g, st, i, me.after if me.after >= me.stamps[i] else MAXT)
            else:
                for j in range(me.n):
                    me.stamp(g, st, j, MAXT)
            return ("ev", None)

        def false(g, st, ins, a):
            return ("ev", c(0, 1))

        def quiet(g, st, ins, a):
            return ("ev", a[0] if g.width(ins["t"]) == "p" and a else None if ins["t"] == "void" else g.fresh("q", g.width(ins["t"])))
        summ = [(ST + r"c?begin\(", begin), (ST + r"c?end\(", null), (ST + r"erase\(", erase), (ST + r"(size)\(", size), (ST + r"empty\(", lambda g, st, i, a: ("ev", vg.b(not me.alive))),
                (ST + r"find\(", stfind), (CB + r"find\(", cbfind), (CB + r"(count|contains)\(", cbcount), (CB + r"c?end\(", null), (r"_Map_base<int, std::pair<int const, std::function<.*>::(at|operator\[\])\(", cbat),
                (r"_Function_base::_M_empty", false), (r"^<indirect>$", call), (r"^std::function<void \(mc::UTCTime const&, int, mc::logging::StreamReader&\)>::operator\(\)", call), (r"ProgressBar::|__throw_bad_function_call", quiet)]
        fn = self.m.find(r"^vh_read\(")
        tmp = vg.VG.__new__(vg.VG)
        self.g = vg.VG(self.m, fn, summaries=summ, entry=self.setup(Store(self.m)))
        return self


class Store:
    """a value graph shell that can only build states"""
    def __init__(self, m):
        self.g = vg.VG.__new__(vg.VG)
        self.g.m, self.g.osz, self.g.accesses = m, {}, []
        self.g.env = {}

    def store(self, st, p, size, t):
        st.wcells(p.a[0])[p.a[1]] = (size, t)


def scenarios():
    for n in (1, 2, 3):
        reps = REPS if n < 3 else [(5, 100), (6, 50), MAXT]
        for stamps in itertools.product(reps, repeat=n):
            for subs in itertools.product((True, False), repeat=n):
                if n == 3 and sum(subs) < 2:
                    continue
                for after in ([MAXT] if n == 3 else [(5, 101), (7, 0), MAXT]):
                    yield stamps, subs, after


def judge(r):
    err = list(r.err)
    prev = None
    for n, (cb, t, k, i, st) in enumerate(r.log):
        if i is None:
            err.append("a callback is given an undetermined stream")
            break
        if i not in st:
            err.append("a stream without subscriber is delivered")
            break
        if cb != i or k != r.keys[i]:
            err.append("a record of key %s goes to the callback of key %s under key %s" % (r.keys[i], r.keys[cb] if cb is not None else "?", k))
        if t != st[i]:
            err.append("the callback is told time %s, the record's stamp is %s" % (t, st[i]))
        if st[i] != min(st.values()):
            err.append("delivers stamp %s while %s is still undelivered" % (st[i], min(st.values())))
        if st[i] == MAXT:
            err.append("delivers a record of an exhausted stream")
    if any(r.stamps[i] != MAXT for i in range(r.n) if r.subs[i]):
        err.append("stops although records are left: %s" % ([r.stamps[i] for i in range(r.n) if r.subs[i]],))
    if r.g.final is None:
        err.append("never returns")
    for e in r.g.events:
        if e.guard is not vg.TRUE and e.guard is not vg.FALSE:
            err.append("control flow is not determined by the order of stamps: %s under %s" % (e.dem[:50], vg.show(e.guard)[:100]))
            break
    return err


def run(ctx):
    m = load()
    bad, cnt = {}, 0
    for stamps, subs, after in scenarios():
        r = Replay(m, stamps, subs, after).run()
        cnt += 1
        for x in judge(r):
            bad.setdefault(x, (stamps, subs, after))
        if len(bad) > 5:
            break
    ctx.add("abstract logs", "%d orderings and subscription sets" % cnt)
    ctx.ob("read/earliest record to its own callback", not bad, H + " LogReader::read", "; ".join("%s [streams at %s, subscribed %s]" % (k, v[0], v[1]) for k, v in list(bad.items())[:3]))
    stream_ops(ctx, m)
    opening(ctx, m)
    open_log(ctx, m)


def rd(log):
    """istream::read recorded with the place it fills; the bytes read become opaque stream words"""
    def read(g, st, ins, a):
        n = a[2].a[0] if a[2].op == "c" else None
        log.append(("read", a[0], a[1], n, g.guard[g.cur]))
        if n is not None and a[1].op == "ptr" and not a[1].a[2]:
            k = 0
            while k < n:
                s = 8
                while s > n - k:
                    s //= 2
                g.store(st, g.ptr_add(a[1], k, []), s, mk("in", (len(log), k), 8 * s))
                k += s
        elif n is not None:
            log.append(("?",))
        return ("ev", a[0])

    def eof(g, st, ins, a):
        log.append(("eof", g.guard[g.cur]))
        return ("ev", mk("eof", (len(log),), 1))
    return [(r"^std::(basic_)?istream(<[^>]*>)?::read\(", read), (r"basic_ios<.*>::(eof|operator!|fail|good)\(|basic_ios<.*>::operator bool", eof)]


def stream_ops(ctx, m):
    off = {n: o for n, o, s, i in m.fields("mc::logging::StreamReader")}
    S, fo, no = ("arg", 0), off["file_"], off["next_stamp_"]
    ctx.add("operations", "StreamReader::readStamp", "StreamReader::get", "LogReader::getNext", "StreamReader::nextStamp", "StreamReader::key", "LogReader::setCallback")

    def stamp_ok(g, st, obj, base, log, start, what):
        """the last reads fill next_stamp_ (seconds, then nanoseconds), afterwards the end of the file turns it into the end marker"""
        err = []
        rs = [(i, x) for i, x in enumerate(log) if x[0] == "read"][start:]
        want = [(ptr(obj, base + no), 8), (ptr(obj, base + no + 8), 8)]
        flat = [(vg.show(p), k) for _, x in rs for p, k in pieces(g, x)]
        if flat != [(vg.show(p), k) for p, k in want]:
            err.append("%s reads %s instead of the two words of the next stamp" % (what, flat))
            return err
        eo = [i for i, x in enumerate(log) if x[0] == "eof"]
        if not eo or eo[-1] < rs[-1][0]:
            err.append(what + " does not look for the end of the file after reading the stamp")
            return err
        at = mk("eof", (eo[-1] + 1,), 1)
        for k, mx in ((0, MAXT[0]), (8, 0)):
            v = g.load(st, ptr(obj, base + no + k), 8, 64)
            i = [j for j, x in rs][min(k // 8, len(rs) - 1)]
            ids = {(mk("in", (j + 1, kk), 64)).id for j, _ in rs for kk in (0, 8)}
            good = vg.rewrite(v, lambda x: vg.TRUE if x is at else None) == c(mx, 64)
            keep = vg.rewrite(v, lambda x: vg.FALSE if x is at else None)
            if not good or keep.id not in ids:
                err.append("%s leaves word %d of the next stamp as %s" % (what, k // 8, vg.show(v)[:120]))
        return err
    log = []
    g = vg.VG(m, m.find(r"^vh_stamp\("), summaries=rd(log))
    ctx.ob("StreamReader::readStamp/next stamp or end marker", not (e := stamp_ok(g, g.final, S, 0, log, 0, "readStamp")), "common/logging/log_reader.h", "; ".join(e))
    log = []
    g = vg.VG(m, m.find(r"^vh_get\("), summaries=rd(log))
    reads = [x for x in log if x[0] == "read"]
    want = [(ptr(("arg", 1)), 8), (ptr(("arg", 2)), 8), (ptr(("arg", 2), 8), 8), (ptr(("arg", 2), 16), 24), (ptr(("arg", 2), 40), 24), (ptr(("arg", 3)), 2)]
    e = []
    n = len(want)
    if [(x[2], x[3]) for x in reads[:n]] != want or any(x[1] != ptr(S, fo) or x[4] is not vg.TRUE for x in reads):
        e.append("get fills %s" % [(vg.show(x[2]), x[3]) for x in reads[:n]])
    e += stamp_ok(g, g.final, S, 0, log, n, "get")
    ctx.ob("StreamReader::get/arguments in order, then the next stamp", not e, "common/logging/log_reader.h", "; ".join(e))
    # getNext: the stamp before reading
    log = []

    def at(g, st, ins, a):
        return ("ev", ptr(("heap", "theone"), 0))
    g = vg.VG(m, m.find(r"^vh_next\("), summaries=rd(log) + [(r"_Map_base<int, std::pair<int const, mc::logging::StreamReader>.*::at\(", at)])
    e = []
    for k in (0, 8):
        v = g.mem(g.final, ("arg", 0), k, 8, 64)
        if v != g.initial(vg.State(), ("heap", "theone"), no + k, 8, 64):
            e.append("the entry's time is %s, not the stamp the record was found under" % vg.show(v)[:100])
    lo = [o for o, s, _ in [(o, s, i) for n_, o, s, i in m.fields("mc::logging::LogReader") if n_ == "streams_"]][0]
    ats = [x for x in g.events if "::at(" in x.dem]
    if len(ats) != 1 or g.load(ats[0].state, ats[0].args[1], 4, 32) != mk("arg", (2,), 32):
        e.append("does not take the stream of the key given")
    e += stamp_ok(g, g.final, ("heap", "theone"), 0, log, 2, "getNext")
    vals = [x for x in log if x[0] == "read"][:2]
    if [x[3] for x in vals] != [8, 2]:
        e.append("reads %s instead of the record" % [x[3] for x in vals])
    else:
        w = [plain(g.mem(g.final, ("arg", 0), o, s, s * 8)) for o, s in entry(m)]
        idx = [i + 1 for i, x in enumerate(log) if x[0] == "read"][:2]
        if w != [mk("in", (idx[0], 0), 64), mk("in", (idx[1], 0), 16)]:
            e.append("the entry's data are %s" % [vg.show(x)[:60] for x in w])
    ctx.ob("LogReader::getNext/stamp and record together", not e, "common/logging/log_reader.h", "; ".join(e))
    # accessors
    g = vg.VG(m, m.find(r"^vh_nextstamp\("))
    ctx.ob("StreamReader::nextStamp", g.ret == ptr(S, no), "common/logging/log_reader.h", "returns " + vg.show(g.ret)[:80])
    g = vg.VG(m, m.find(r"^vh_key\("))
    ctx.ob("StreamReader::key", g.ret == g.initial(vg.State(), S, off["key_"], 4, 32), "common/logging/log_reader.h", "returns " + vg.show(g.ret)[:80])
    # setCallback
    def find(g, st, ins, a):
        return ("ev", mk("find", (a[0], g.load(st, a[1], 4, 32)), "p"))

    def sub(g, st, ins, a):
        return ("ev", ptr(("heap", "slot")))

    def mv(g, st, ins, a):
        return ("ev", a[0])
    g = vg.VG(m, m.find(r"^vh_setcb\("), summaries=strlib.handlers(m) + [(CB + r"find\(", find), (CB + r"(count|contains)\(", lambda g, st, i, a: ("ev", vg.cast("zext", vg.NOT(vg.icmp("eq", find(g, st, i, a)[1], NULL)), 64))),
              (CB + r"c?end\(", lambda g, st, i, a: ("ev", NULL)), (r"_Map_base<int, std::pair<int const, std::function<.*::operator\[\]\(", sub)])
    f = mk("find", (ptr(("arg", 0), {n: o for n, o, s, i in m.fields("mc::logging::LogReader")}["callbacks_"]), mk("arg", (1,), 32)), "p")
    absent = vg.icmp("eq", f, NULL)
    e = []
    ch = [x for x in g.events if re.search(r"operator\[\]\(|emplace|insert", x.dem) and ("_Map_base" in x.dem or "_Hashtable" in x.dem)]
    if len(ch) != 1:
        e.append("enters %d callbacks" % len(ch))
    for x in ch:
        if not prop.entails(x.guard, absent):
            e.append("replaces a callback that may already exist")
        if not prop.entails(absent, x.guard):
            e.append("enters the callback only under a condition")
        if not any(a.op == "ptr" and g.load(x.state, a, 4, 32) == mk("arg", (1,), 32) for a in x.args[1:]):
            e.append("enters the callback under another key")
    ctx.ob("LogReader::setCallback/one per key", not e, H, "; ".join(e))


def plain(t):
    while t.op == "bitcast":
        t = t.a[0]
    return t


def entry(m):
    """places of the two data of Entry<double, unsigned short>: libstdc++ tuples are laid out in reverse"""
    return [(16 + 8, 8), (16, 2)]


def pieces(g, x):
    _, _, p, n, _ = x
    if n == 16:
        return [(p, 8), (g.ptr_add(p, 8, []), 8)]
    return [(p, n)]


def opening(ctx, m):
    from c11 import nodes
    off = {n: o for n, o, s, i in m.fields("mc::logging::StreamReader")}
    as_int = []

    def asint(g, st, ins, a):
        return ("ev", mk("asint", (a[0],), 64))
    quiet = [(r"fs::exists|filesystem.*exists|basic_ifstream<.*::(open|close|is_open)|YAML::LoadFile|^mc::(error|info|warn)|basic_format_args|::fmt<", lambda g, st, i, a: ("ev", g.fresh("q", g.width(i["t"])) if i["t"] != "void" else None))]

    def loadf(g, st, ins, a):
        g.store(st, a[0], 8, mk("file", (strlib.get(g, st, a[1]),), 64))
        return ("ev", None)
    log = []
    fn = m.find(r"^mc::logging::StreamReader::open\(")
    g = vg.VG(m, fn, summaries=[(r"YAML::LoadFile", loadf), (r"^vs_as_int", asint)] + nodes(m) + strlib.handlers(m) + rd(log) + quiet)
    e = []
    this = 0
    name = strlib.get(g, vg.State(), ptr(("arg", 1)))
    k = g.mem(g.final, ("arg", this), off["key_"], 4, 32)
    r = g.mem(g.final, ("arg", this), off["num_records_"], 4, 32)
    for what, t in (("key", k), ("num_records", r)):
        ai = [x for x in vg.subterms(t) if x.op == "asint"]
        if len(ai) != 1 or ai[0].a[0].op != "node" or ai[0].a[0].a[1] != what or not field_of_header(t, ai[0]):
            e.append("%s is %s, not the header's" % (what, vg.show(t)[:120]))
    op = [x for x in g.events if "ifstream" in x.dem and "::open(" in x.dem]
    if len(op) != 1 or op[0].args[0] != ptr(("arg", this), off["file_"]):
        e.append("does not open the stream's file once")
    elif strlib.get(g, op[0].state, op[0].args[1]) != name:
        e.append("opens %s" % strlib.show(strlib.get(g, op[0].state, op[0].args[1]))[:100])
    lf = [x for x in g.events if "LoadFile" in x.dem]
    want = mk("str", ("ext", name, mk("str", ("lit", ".yml"), "s")), "s")
    if len(lf) != 1 or strlib.get(g, lf[0].state, lf[0].args[1]) != want:
        e.append("takes the header from %s" % [strlib.show(strlib.get(g, x.state, x.args[1]))[:100] for x in lf])
    ctx.add("operations", "StreamReader::open")
    ctx.ob("StreamReader::open/key of its own header", not e, H, "; ".join(e))
    bad = [x for x in log if x[0] == "read"]
    ctx.ob("StreamReader::open/first stamp", [(vg.show(p), n) for x in bad for p, n in pieces(g, x)] == [(vg.show(ptr(("arg", this), off["next_stamp_"] + o)), 8) for o in (0, 8)], H, "reads %s on opening" % [(vg.show(x[2]), x[3]) for x in bad])


def field_of_header(t, a):
    """the integer itself, widened or narrowed, kept where opening failed"""
    while True:
        if t is a:
            return True
        if t.op in ("trunc", "sext", "zext", "cast"):
            t = [x for x in t.a if hasattr(x, "op")][0]
        elif t.op == "ite":
            return any(field_of_header(x, a) for x in t.a[1:])
        else:
            return False


def open_log(ctx, m):
    from c11 import nodes
    fn = m.find(r"^mc::logging::LogReader::openLog\(")
    g = vg.VG(m, fn, summaries=nodes(m) + strlib.handlers(m))
    e = []
    ems = [x for x in g.events if re.search(ST + r"?_?(M_)?(try_)?emplace|_Hashtable<int, std::pair<int const, mc::logging::StreamReader>.*emplace|_Map_base<int, std::pair<int const, mc::logging::StreamReader>", x.dem)]
    if len(ems) != 1 or not ems[0].loops:
        e.append("opens streams in %d places" % len(ems))
    for x in ems:
        ok = False
        for a in x.args[1:]:
            t = strlib.get(g, x.state, a) if a.w == "p" else None
            if t is not None and t.a[0] == "join" and t.a[2].a[0] == "cat" and t.a[2].a[1].a[0] == "name" and t.a[2].a[2] == mk("str", ("lit", ".log"), "s"):
                k = t.a[2].a[1].a[1]
                ok = any(b.w == "p" and g.load(x.state, b, 4, 32) == k for b in x.args[1:]) or any(b == k for b in x.args[1:])
                if t.a[1] != strlib.get(g, vg.State(), ptr(("arg", 1))):
                    e.append("the stream file lies in " + strlib.show(t.a[1])[:80])
        if not ok:
            e.append("a stream is not read from the file named after its own key")
    ctx.add("operations", "LogReader::openLog")
    ctx.ob("LogReader::openLog/file of the key", not e, H, "; ".join(e))
