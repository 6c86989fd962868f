"""the filter's estimator, interpreted over the order of the times of its measurements and states"""
import os, re
import ir, vg
from vg import mk, c, AND, NOT
H = ir.VERIF + "/harness/est.cxx"
EST = "mc::ekf::RtkEkfEstimator"
E = ("arg", 0)
PTR = lambda o, off=0: vg.mk("ptr", (o, off, ()), "p")
NULL = vg.mk("null", (), "p")
KINDS = ("imu", "obs", "pp", "fh")
BASE = 1_000_000
UNIT = 100_000_000          # one grid step is a tenth of a second
TOL = 50_000                # times closer than this are the same to the filter (nanoseconds)


def load():
    ir.ekf_dir()
    return ir.load([H, "core/ekf/rtk_ekf_estimator.cxx", "common/utctime.cxx", "common/quantized_time.cxx"], ["^vn_"], inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx"],
                   keep=[r"unordered_map<int, mc::satellite::SatelliteCache.*::try_emplace", r"_Map_base<int, .*::operator\[\]\(", r"_Hashtable<int, .*::count\(", r"_Hashtable<.*::_M_insert|_Hashtable<.*::_M_emplace|_Hashtable<.*::(insert|emplace)\(", r"SatelliteManager::", r"^mc::ekf::(State|Snapshot|Covariance)::", r"^mc::ekf::predict\(", r"mc::ekf::update<", r"::getCache\(", r"^std::_Rb_tree_(insert_and|incr|decr|rebal)", r"SatelliteCache::", r"SatelliteManager::", r"_Hashtable<.*::find\(", r"_Map_base<.*::at\(", r"::p_ecef\("], gen=True, extra=["-fno-access-control", "-fstandalone-debug"])


class Lay:
    def __init__(self, m):
        f = {n: o for n, o, s, i in m.fields(EST)}
        self.meas, self.states, self.log = f["measurements_"], f["states_"], f["log_"]
        self.cov = {k: f[n] for k, n in (("pp", "point_pos_cov_"), ("obs", "obs_cov_"), ("fh", "fix_and_hold_cov_"), ("imu", "imu_cov_"), ("proc", "process_cov_"))}
        self.cache = f["sat_cache_"]
        self.snap = m.type("mc::ekf::Snapshot")["size"]
        s = {n: o for n, o, z, i in m.fields("mc::ekf::Snapshot")}
        x = {n: o for n, o, z, i in m.fields("mc::ekf::State")}
        self.t, self.nsd, self.u = s["x"] + x["t"], s["x"] + x["num_sd"], s["u"]
        cb = {n: (o, z) for n, o, z, i in m.fields("mc::CircularBuffer<mc::ekf::Snapshot, 100>")}
        self.n = cb["memory_"][1] // self.snap
        self.buf, self.end, self.head, self.tail = (self.states + cb[k][0] for k in ("buf_", "end_", "head_", "tail_"))
        e = {n: o for n, o, z, i in m.fields(EST + "::Meas")}
        self.mt, self.mz = e["t"], e["z"]
        self.msize = m.type(EST + "::Meas")["size"]
        self.idx = max(o + z for o, z in ((0, 48), (0, 24))) + self.mz   # the discriminator follows the largest alternative
        o = {n: q for n, q, z, i in m.fields("mc::meas::GnssObservation")}
        d = {n: (q, z) for n, q, z, i in m.fields("mc::ekf::obsMeas::Data")}
        self.d, self.idsize, self.dsize = {k: v[0] for k, v in d.items()}, d["gnss_id"][1], m.type("mc::ekf::obsMeas::Data")["size"]
        self.o, self.osize = o, m.type("mc::meas::GnssObservation")["size"]


def put_time(w, off, ns):
    s, n = divmod(ns, 1_000_000_000)
    w[off] = (8, c(BASE + s, 64))
    w[off + 8] = (8, c(n, 64))


class Scene:
    """one estimator: states at the given times (first one in ring slot `slot`), retained measurements [(time, kind)], all in nanoseconds"""

    def __init__(self, m, lay, states, meas, slot=0, num_sd=2, known=lambda i: True, nobs=1, nfh=2):
        self.m, self.lay = m, lay
        self.st = st = vg.State()
        self.log, self.caches, self.asked = [], {}, []
        self.known, self.num_sd, self.nobs, self.nfh = known, num_sd, nobs, nfh
        w = st.wcells(E)
        L = lay
        P = lambda o: PTR(E, o)
        base = L.states
        slots = [(slot + i) % L.n for i in range(len(states))]
        w[L.buf] = (8, P(base))
        for off, v in ((L.end, base + L.n * L.snap), (L.head, base + slot * L.snap), (L.tail, base + (slot + len(states)) % L.n * L.snap)):
            w[off], w[off + 8] = (8, P(v)), (8, P(L.states))
        for s, t in zip(slots, states):
            put_time(w, base + s * L.snap + L.t, t)
            w[base + s * L.snap + L.nsd] = (8, c(num_sd, 64))
        w[L.log] = (8, NULL)
        self.first = [base + s * L.snap for s in slots]
        # the retained measurements: a chain to the right below the header
        self.nodes = [("heap", "node", i) for i in range(len(meas))]
        hd = L.meas + 8
        w[hd] = (4, c(0, 32))
        w[hd + 8] = (8, PTR(self.nodes[0]) if meas else NULL)
        w[hd + 16] = (8, PTR(self.nodes[0]) if meas else P(hd))
        w[hd + 24] = (8, PTR(self.nodes[-1]) if meas else P(hd))
        w[hd + 32] = (8, c(len(meas), 64))
        for i, (o, (t, k)) in enumerate(zip(self.nodes, meas)):
            n = st.wcells(o)
            n[0] = (4, c(1, 32))
            n[8] = (8, PTR(self.nodes[i - 1]) if i else P(hd))
            n[16] = (8, NULL)
            n[24] = (8, PTR(self.nodes[i + 1]) if i + 1 < len(meas) else NULL)
            self.fill(n, 32, t, k, i)

    def fill(self, n, off, t, k, i):
        """a measurement of kind k at time t (its payload stays symbolic but for the sizes of vectors and the times of observations)"""
        put_time(n, off + self.lay.mt, t)
        self.payload(n, off + self.lay.mz, t, k, i)
        n[off + self.lay.idx] = (1, c(KINDS.index(k), 8))

    def payload(self, n, z, t, k, i):
        leaf = lambda j: mk("arg", (("payload", i, j),), "f")
        if k in ("imu", "pp"):
            for j in range(6):
                n[z + 8 * j] = (8, leaf(j))
        if k == "obs":
            o = ("heap", "payload", i)
            for a, v in ((0, 0), (8, self.nobs), (16, self.nobs)):
                n[z + a] = (8, PTR(o, v * self.lay.osize))
            w = self.st.wcells(o)
            for j in range(self.nobs):
                a, f = j * self.lay.osize, self.lay.o
                put_time(w, a + f["t"], t)
                for q, (fn, sz) in enumerate((("gnss_id", 1), ("sat_num", 1), ("freq", 8), ("pseudorange", 8), ("doppler", 8), ("carrier_phase", 8))):
                    w[a + f[fn]] = (sz, mk("arg", (("payload", i, j, fn),), 8 if sz == 1 else "f"))
        if k == "fh":
            o = ("heap", "payload", i)
            w = self.st.wcells(o)
            for j in range(self.nfh):
                w[8 * j] = (8, leaf(j))
            for a, v in ((0, 0), (8, self.nfh), (16, self.nfh)):
                n[z + a] = (8, PTR(o, v * 8))

    # ---- the run
    def add(self, t, k, obs_t=None):
        self.new = (t, k)
        put_time(self.st.wcells(("arg", 1)), 0, t)
        self.payload(self.st.wcells(("arg", 2)), 0, t, k, 99)
        if obs_t is not None and k == "obs":
            for j, ot in enumerate(obs_t):
                put_time(self.st.wcells(("heap", "payload", 99)), j * self.lay.osize + self.lay.o["t"], ot)
        return self.run("vn_add_" + k)

    def run(self, fn):
        self.before = self.st.copy()
        self.g = g = vg.VG(self.m, self.m.find("^%s$" % fn), entry=self.st, unroll=300, summaries=[
            (r"^mc::ekf::predict\(", self.predict), (r"mc::ekf::update<", self.update), (r"_Rb_tree_insert_and_rebalance", self.insert), (r"_Rb_tree_increment", self.incr),
            (r"_Rb_tree_decrement", self.decr), (r"_Rb_tree_rebalance_for_erase", self.erase), (r"::getCache\(", self.cache), (r"_Hashtable<.*::find\(", self.find), (r"mc::ekf::State::State\(|mc::ekf::Snapshot::Snapshot\(", self.ctor)])
        return g

    def where(self, p):
        o, off = self.pos(p)
        if o == E and self.lay.states <= off < self.lay.states + self.lay.n * self.lay.snap:
            i, r = divmod(off - self.lay.states, self.lay.snap)
            return ("state", i, r)
        return (o, off)

    def pos(self, p):
        if p.op != "ptr" or p.a[2]:
            raise ir.Broken("pointer not resolved: " + vg.show(p, 3))
        return p.a[0], p.a[1]

    def time(self, g, st, p):
        s, n = g.load(st, p, 8, 64), g.load(st, g.ptr_add(p, 8, []), 8, 64)
        if s.op != "c" or n.op != "c":
            return None
        return (vg_signed(s) - BASE) * 1_000_000_000 + vg_signed(n)

    def tree(self, g, st, p, k, v=None):
        """a node's parent, left or right child"""
        q = g.ptr_add(p, 8 + 8 * "plr".index(k), [])
        if v is not None:
            g.store(st, q, 8, v)
            return None
        return g.load(st, q, 8, "p")

    def ctor(self, g, st, ins, args):
        self.log.append(("fresh", self.where(args[0])))
        g.store(st, g.ptr_add(args[0], self.lay.nsd, []), 8, c(0, 64))
        return ("ev", None)

    def predict(self, g, st, ins, args):
        L = self.lay
        t = self.time(g, st, args[1])
        x = self.time(g, st, g.ptr_add(args[0], L.t, []))
        u = tuple(g.load(st, g.ptr_add(args[2], 8 * i, []), 8, "f") for i in range(6))
        self.log.append(("predict", self.where(args[0]), t, u, self.where(args[3]), self.where(args[4]), self.where(args[5]), x))
        put = lambda off, v: g.store(st, g.ptr_add(args[5], off, []), 8, v)
        for o in (0, 8):
            put(L.t + o, g.load(st, g.ptr_add(args[1], o, []), 8, 64))
        put(L.nsd, g.load(st, g.ptr_add(args[0], L.nsd, []), 8, 64))
        for i, v in enumerate(u):
            put(L.u + 8 * i, v)
        return ("ev", NULL)

    def update(self, g, st, ins, args):
        L = self.lay
        k = {"obsMeas": "obs", "pointPosMeas": "pp", "fixAndHoldMeas": "fh"}[re.search(r"update<mc::ekf::(\w+)", ins["cdem"]).group(1)]
        u = tuple(g.load(st, g.ptr_add(args[4], 8 * i, []), 8, "f") for i in range(6)) if len(args) > 4 else None
        t = self.time(g, st, g.ptr_add(args[1], L.t, []))
        if k == "pp":
            z = tuple(g.load(st, g.ptr_add(args[2], 8 * i, []), 8, "f") for i in range(6))
        else:
            b, e = (g.load(st, g.ptr_add(args[2], o, []), 8, "p") for o in (0, 8))
            (bo, bf), (eo, ef) = ((None, 0) if x.op == "null" else self.pos(x) for x in (b, e))
            z = (bo == eo and ef - bf, tuple(self.element(g, st, k, g.ptr_add(b, o, [])) for o in range(0, ef - bf, self.esize(k))))
        self.log.append(("update", k, self.where(args[1]), z, self.where(args[3]), u, t))
        return ("ev", None)

    def esize(self, k):
        return 8 if k == "fh" else self.lay.dsize

    def element(self, g, st, k, p):
        if k == "fh":
            return g.load(st, p, 8, "f")
        d = self.lay.d
        at = lambda o, s, w: g.load(st, g.ptr_add(p, o, []), s, w)
        return (at(d["z"], 8, "f"), at(d["z"] + 8, 8, "f"), self.pos(at(d["sat"], 8, "p")), at(d["gnss_id"], self.lay.idsize, 8 * self.lay.idsize))

    def cache(self, g, st, ins, args):
        """the satellite's cached state: one object per call, remembered with what was asked"""
        o = ("heap", "cache", len(self.caches))
        self.caches[o] = (self.time(g, st, args[1]), args[2], args[3])
        return ("ev", PTR(o))

    def find(self, g, st, ins, args):
        """the satellites' table: `known` decides, by the key asked for"""
        key = g.load(st, args[1], 4, 32)
        self.asked.append((self.where(args[0]), key))
        return ("ev", PTR(("heap", "known", len(self.asked))) if self.known(key) else NULL)

    def insert(self, g, st, ins, args):
        left, n, par, hd = args
        if left.op != "c":
            raise ir.Broken("insertion position undecided: %s" % vg.show(left, 6)[:600])
        for k, v in (("p", par), ("l", NULL), ("r", NULL)):
            self.tree(g, st, n, k, v)
        g.store(st, n, 4, c(0, 32))
        if left.a[0] & 1:
            self.tree(g, st, par, "l", n)
            if par is hd or par == hd:
                self.tree(g, st, hd, "p", n)
                self.tree(g, st, hd, "r", n)
            elif par == self.tree(g, st, hd, "l"):
                self.tree(g, st, hd, "l", n)
        else:
            self.tree(g, st, par, "r", n)
            if par == self.tree(g, st, hd, "r"):
                self.tree(g, st, hd, "r", n)
        return None

    def incr(self, g, st, ins, args):
        x = args[0]
        r = self.tree(g, st, x, "r")
        if r.op != "null":
            while r.op != "null":
                x, r = r, self.tree(g, st, r, "l")
            return x
        y = self.tree(g, st, x, "p")
        while x == self.tree(g, st, y, "r"):
            x, y = y, self.tree(g, st, y, "p")
        return y if self.tree(g, st, x, "r") != y else x

    def decr(self, g, st, ins, args):
        x = args[0]
        if x == PTR(E, self.lay.meas + 8):          # the end: its predecessor is the last element
            return self.tree(g, st, x, "r")
        l = self.tree(g, st, x, "l")
        if l.op != "null":
            while l.op != "null":
                x, l = l, self.tree(g, st, l, "r")
            return x
        y = self.tree(g, st, x, "p")
        while x == self.tree(g, st, y, "l"):
            x, y = y, self.tree(g, st, y, "p")
        return y

    def erase(self, g, st, ins, args):
        """unlink a node with at most one child (nodes are only ever added as leaves, and removed from the front)"""
        z, hd = args
        l, r, p = (self.tree(g, st, z, k) for k in "lrp")
        if l.op != "null" and r.op != "null":
            raise ir.Broken("erased node has two children")
        ch = r if l.op == "null" else l
        if p == hd:
            self.tree(g, st, hd, "p", ch)
        else:
            self.tree(g, st, p, "l" if self.tree(g, st, p, "l") == z else "r", ch)
        if ch.op != "null":
            self.tree(g, st, ch, "p", p)
        end = lambda k: PTR(*self.pos(hd)) if ch.op == "null" and p == hd else self.far(g, st, ch, k) if ch.op != "null" else p
        for k in "lr":
            if self.tree(g, st, hd, k) == z:
                self.tree(g, st, hd, k, end(k))
        return z

    def far(self, g, st, x, k):
        while True:
            y = self.tree(g, st, x, k)
            if y.op == "null":
                return x
            x = y

    # ---- results
    def histories(self, st=None):
        """(slots and times of the states, [(node, time, kind)] in tree order)"""
        g, L = self.g, self.lay
        st = st or g.final
        h, t = (self.pos(g.load(st, PTR(E, o), 8, "p"))[1] for o in (L.head, L.tail))
        i, out = h, []
        while i != t:
            out.append(((i - L.states) // L.snap, self.time(g, st, PTR(E, i + L.t))))
            i += L.snap
            i = L.states if i == L.states + L.n * L.snap else i
        hd = PTR(E, L.meas + 8)
        ms, n = [], self.tree(g, st, hd, "l")
        while n != hd:
            x = g.load(st, g.ptr_add(n, 32 + L.idx, []), 1, 8)
            ms.append((self.pos(n)[0], self.time(g, st, g.ptr_add(n, 32 + L.mt, [])), KINDS[x.a[0]] if x.op == "c" and x.a[0] < 4 else None))
            n = self.incr(g, st, None, [n])
        cnt = g.load(st, PTR(E, L.meas + 40), 8, 64)
        return out, ms, cnt.op == "c" and cnt.a[0] == len(ms)


def vg_signed(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ---- what is expected: the same history, kept by the rules of the property
class Ref:
    def __init__(self, states, meas, n=100):
        self.S, self.M, self.n, self.log = list(states), list(meas), n, []

    def gt(self, a, b):
        return a - b > TOL

    def stale(self, t):
        return self.gt(self.S[0][1], t)

    def add(self, t, k, name):
        """states: (slot, time); measurements: (name, time, kind)"""
        if self.stale(t):
            return False
        key = lambda x: (x[1], KINDS.index(x[2]))
        new = (name, t, k)
        i = sum(1 for x in self.M if key(x) <= key(new))
        self.M.insert(i, new)
        while self.gt(self.S[-1][1], t):
            self.S.pop()
        if not self.gt(t, self.S[-1][1]):
            self.apply(new)
        cur = self.S[-1][1]
        for x in self.M:
            if self.gt(x[1], cur):
                self.apply(x)
        t0 = self.M[-1][1] - 1_000_000_000
        self.M = [x for x in self.M if x[1] >= t0]
        while len(self.S) > 1 and self.gt(t0, self.S[0][1]):
            self.S.pop(0)
        return True

    def apply(self, x):
        name, t, k = x
        slot, cur = self.S[-1]
        if self.gt(t, cur):
            new = (slot + 1) % self.n
            if len(self.S) == self.n - 1:
                self.S.pop(0)
            self.log.append(("predict", slot, new, cur, t, name if k == "imu" else None))
            self.S.append((new, t))
        if k != "imu":
            self.log.append(("update", self.S[-1][0], self.S[-1][1], k, name))


def show(h, t, k):
    f = lambda x: "%g" % (x / 1e9)
    return "states at %s s, retained %s, arriving: %s at %s s" % (" ".join(f(x) for x in h[0]), " ".join("%s@%s" % (b, f(a)) for a, b in h[1]) or "none", k, f(t))


def histories(depth, times, kinds):
    """every history that arrivals at the given times can produce from a fresh estimator"""
    seen = {((0,), ())}
    level = list(seen)
    for d in range(depth):
        nxt = []
        for S, M in level:
            for t in times:
                for k in kinds:
                    r = Ref([(i, x) for i, x in enumerate(S)], [(i, a, b) for i, (a, b) in enumerate(M)])
                    if not r.add(t, k, None):
                        continue
                    h = (tuple(x[1] for x in r.S), tuple((a, b) for _, a, b in r.M))
                    if h not in seen:
                        seen.add(h)
                        nxt.append(h)
        level = nxt
        yield level


class Case:
    """one arrival at one history: what the code does beside what is expected"""

    def __init__(self, m, lay, h, t, k, slot=0, obs_t=None, **kw):
        self.h, self.t, self.k = h, t, k
        self.s = s = Scene(m, lay, h[0], h[1], slot=slot, **kw)
        self.text = show(h, t, k)
        try:
            g = s.add(t, k, obs_t)
        except ir.Broken as e:
            self.err = str(e)
            return
        self.err = None
        self.ret = g.ret.a[0] & 1 if g.ret is not None and g.ret.op == "c" else None
        try:
            self.S, self.M, self.count = s.histories()
        except ir.Broken as e:
            self.err = "histories afterwards: %s" % e
            return
        self.name = [n for n, a, b in self.M if n not in s.nodes]
        self.ref = Ref([((slot + i) % lay.n, x) for i, x in enumerate(h[0])], [(o, a, b) for o, (a, b) in zip(s.nodes, h[1])], lay.n)
        self.ok = self.ref.add(t, k, self.name[0] if self.name else "new")
        self.checks = [e for e in g.events if e.kind == "check" and e.guard is not vg.FALSE]
        self.m, self.lay, self.g = m, lay, g

    def got(self):
        """the observed steps in the reference's terms (payloads identified with their measurements)"""
        s, L, out = self.s, self.lay, []
        u = {}
        for slot, x in zip([a for a, b in self.start()], self.h[0]):
            u[slot] = ("u", slot)
        pay = {}
        for i, o in enumerate(s.nodes):
            pay[i] = o
        pay[99] = self.name[0] if self.name else "new"

        def inp(v):
            if all(x.op == "arg" and isinstance(x.a[0], tuple) and x.a[0][0] == "payload" for x in v) and [x.a[0][2] for x in v] == list(range(6)) and len({x.a[0][1] for x in v}) == 1:
                return pay[v[0].a[0][1]]
            for slot in u:
                if v == self.u0(slot):
                    return ("u", slot)
            return None
        uof = dict(u)
        for e in s.log:
            if e[0] == "predict":
                _, src, t, v, qx, qu, dst, x = e
                if src[0] != "state" or src[2] or dst[0] != "state" or dst[2] or qx != (E, L.cov["proc"]) or qu != (E, L.cov["imu"]):
                    return out + [("predict with the wrong state or noise", e[1:])]
                w = inp(v)
                cur = uof.get(src[1])
                out.append(("predict", src[1], dst[1], x, t, None if w == cur and w is not None else w))
                uof[dst[1]] = w
            elif e[0] == "update":
                _, k, where, z, cov, v, t = e
                if where[0] != "state" or where[2] or cov != (E, L.cov[k]):
                    return out + [("update of the wrong state or with the wrong covariance", e[1:])]
                if k != "fh" and inp(v) != uof.get(where[1]):
                    return out + [("update with another input than the state's", k)]
                out.append(("update", where[1], t, k, self.whose(k, z, pay)))
        return out

    def start(self):
        n, slot = self.lay.n, (self.s.first[0] - self.lay.states) // self.lay.snap
        return [((slot + i) % n, x) for i, x in enumerate(self.h[0])]

    def u0(self, slot):
        p = PTR(E, self.lay.states + slot * self.lay.snap + self.lay.u)
        return tuple(self.g.load(self.s.before.copy(), self.g.ptr_add(p, 8 * i, []), 8, "f") for i in range(6))

    def whose(self, k, z, pay):
        """the measurement whose values these are, all of them, in order"""
        if k == "pp":
            v = [x.a[0] if x.op == "arg" else None for x in z]
            n = [("payload", v[0][1], j) for j in range(6)] if v[0] and len(v[0]) == 3 else None
            return pay[v[0][1]] if n and v == n else None
        size, el = z
        if k == "fh":
            v = [x.a[0] if x.op == "arg" else None for x in el]
            if not v and not self.s.nfh:
                return self.name[0] if self.name else "new"
            n = [("payload", v[0][1], j) for j in range(self.s.nfh)] if v and v[0] and len(v[0]) == 3 else None
            return pay[v[0][1]] if n and v == n else None
        who = set()
        if len(el) != self.s.nobs:
            return None
        for j, (a, b, sat, gid) in enumerate(el):
            if a.op != "arg" or len(a.a[0]) != 4:
                return None
            who.add(a.a[0][1])
            i = a.a[0][1]
            if a.a[0] != ("payload", i, j, "pseudorange"):
                return None
        if not el:
            return self.name[0] if self.name else "new"
        return pay[who.pop()] if len(who) == 1 else None

    def touched(self):
        """what differs in the estimator's memory from before: [(object, offset)]"""
        s, out = self.s, []
        for o in [E] + s.nodes:
            if s.g.final.gen.get(o) != s.before.gen.get(o):
                out.append((o, "all of it"))
            a, b = s.before.cells(o), s.g.final.cells(o)
            for k in set(a) | set(b):
                if a.get(k) != b.get(k) and not (k in b and k not in a and b[k][1] == s.g.load(s.before.copy(), PTR(o, k), b[k][0], b[k][1].w)):
                    out.append((o, k))
        return out


def parallel(jobs, work):
    """work(job) for every job, in as many processes as there are processors, results in order"""
    import multiprocessing as mp
    global _work
    _work = work
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(_call, jobs, chunksize=max(1, len(jobs) // 64))


def _call(j):
    return _work(j)


TIMES = (-2 * UNIT, 0, 20_000, UNIT, UNIT - 20_000, UNIT + 30_000, UNIT + 80_000, 2 * UNIT, 2 * UNIT + 40_000, 3 * UNIT, 13 * UNIT + 7_000)


def report(ctx, jobs, work, where):
    """one obligation per arrival; at most twenty violations are spelled out"""
    bad = 0
    for r in parallel(jobs, work):
        if r is None:
            continue
        bad += not r[1]
        if r[1] or bad <= 20:
            ctx.ob(r[0], r[1], where, "%s: %s" % (r[0], r[2]))


def transitions():
    """(history, arrival time, kind, ring slot): every arrival at every history of up to two arrivals, and a spread of those of three"""
    n = 0
    hs = [((0,), ())]
    levels = [hs] + list(histories(3, TIMES[1:], ("imu", "pp")))
    other = list(histories(2, TIMES[1:10:2], ("obs", "fh")))
    for d, hl in enumerate(levels + other):
        step = 1 if len(hl) < 200 else 7
        for h in sorted(hl)[::step]:
            for t in TIMES:
                for k in KINDS:
                    n += 1
                    if len(hl) < 30 or n % (1 if len(hl) < 100 else 3 if len(hl) < 400 else 23) == 0:
                        yield h, t, k, (0, 97, 98, 99, 40)[n % 5]
    # a full ring: the oldest state makes room
    full = tuple(i * 5_000_000 for i in range(99))
    for t in (0, 2_500_000, 50 * 5_000_000, 97 * 5_000_000 + 1_000_000, 98 * 5_000_000, 99 * 5_000_000):
        for k in ("imu", "pp"):
            yield (full, tuple((x, "imu") for x in full[60:])), t if t >= 300_000_000 else t + 470_000_000, k, 3
