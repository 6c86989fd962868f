"""the generated filter (rtk_ekf.cxx and its headers, regenerated from the working tree) evaluated in matrices over a prime field, against dense reference equations"""
import os, re
import numpy as np
import ir
import cxxmat
from cxxmat import M, Obj, Sc, Named, Gate, Bad, Diag, P, inv, inverse, dims, classes, functions


def norm(n):
    return n.replace("_", "").lower()


def generate(config):
    """directory with the sources the working tree's generator writes for a configuration of the working tree"""
    if config == "rtk_ekf":
        return os.path.join(ir.ekf_dir(), "core/ekf")
    d = os.path.join(ir.scratch(), "gen_" + config)
    if not os.path.exists(d):
        os.makedirs(d)
        env = dict(os.environ, PYTHONPATH=ir.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        ir.sh(["/usr/bin/python3", ir.REPO + "/core/ekf/ekf_gen/ekf_gen.py", "--config_file", ir.REPO + "/core/ekf/ekf_gen/%s.yaml" % config, "--destination", d], env=env, cwd=ir.scratch())
    return d


class Gen:
    def __init__(self, config="rtk_ekf"):
        d = generate(config)
        self.where = "core/ekf/ekf_gen -> %s.cxx " % config
        rd = lambda n: open(os.path.join(d, n)).read()
        self.cxx, self.hdr = rd(config + ".cxx"), rd(config + ".h")
        self.cls = classes(rd(config + "_state.h"))
        self.cls.update(classes(rd(config + "_types.h")))
        pick = lambda rx: ([n for n in self.cls if re.fullmatch(rx, n)] + [None])[0]
        self.es, self.inp = pick(r"\w*ErrorState"), pick(r"\w*Input")
        for n in (self.es, "Covariance", "ProcessCovariance", "InputCovariance", self.inp, "StateJac", "InputJac"):
            if n not in self.cls:
                raise ir.Broken("generated class vanished")
        self.comp = []                  # (key, member, dim, replicated?)
        for t, n, zero in self.cls[self.es].members:
            dm = dims(t)
            if not dm:
                raise ir.Broken("error state member " + n)
            if n.endswith("_buf_"):
                k = norm(n[:-5])
                unit = self.unit(self.es, n[:-5])
                self.comp.append((k, n, unit, dm[0] // unit))
            else:
                self.comp.append((norm(n), n, dm[0], None))
        y = open(os.path.join(ir.REPO, "core/ekf" if config == "rtk_ekf" else "core/ekf/ekf_gen", config + ".yaml")).read()
        m = re.search(r"^state_composition:\n((?:[ \t]+.*\n|\s*\n)*)", y, re.M)
        order = [norm(x) for x in re.findall(r"^\s+(\w+)\s*:", m.group(1), re.M)] if m else []
        if sorted(order) != sorted(k for k, n, d, r in self.comp):
            raise ir.Broken("error state does not have the components the configuration lists")
        self.comp.sort(key=lambda c: (c[3] is not None, order.index(c[0])))
        self.src = {n: rd(config + n) for n in ("_state.cxx", "_types.cxx")}
        self.inputs = [(norm(n), n, dims(t)[0]) for t, n, z in self.cls[self.inp].members if dims(t)]
        if len(self.comp) < 4 or len(self.inputs) < 2:
            raise ir.Broken("generated state not understood")

    def unit(self, cls, name):
        """components per entry of a replicated state"""
        for ps, e in self.cls[cls].acc.get(name + "_vec", []):
            m = re.search(r"\b(\d+)\s*\*", e)
            if m:
                return int(m.group(1))
        return 1

    def sizes(self, num):
        return [d * (num[k] if r is not None else 1) for k, n, d, r in self.comp]

    def replicated(self):
        return [(k, r) for k, n, d, r in self.comp if r is not None]

    def counts(self, *n):
        return dict(zip((k for k, r in self.replicated()), n))

    def members(self, num):
        """the state's counters"""
        return {"num_" + m[:-5]: num[k] for k, m, d, r in self.comp if r is not None}

    def slices(self, num):
        out, i = {}, 0
        for (k, n, d, r), s in zip(self.comp, self.sizes(num)):
            out[k] = slice(i, i + s)
            i += s
        return out, i

    def meas(self):
        return [n for n in self.cls if n.endswith("Meas") and "Jac" in self.cls[n].inner]

    # ---- filling and reading
    def cov(self, run, dense_, num):
        o = run.fresh(self.cls["Covariance"])
        sl, n = self.slices(num)
        seen = set()
        for t, name, z in self.cls["Covariance"].members:
            b = name[:-5] if name.endswith("_buf_") else name
            if b.count("_") != 1 or not dims(t):
                raise ir.Broken("covariance block " + name)
            r, c = (norm(x) for x in b.split("_"))
            if r not in sl or c not in sl:
                raise ir.Broken("covariance block " + name)
            seen.add((r, c))
            if dense_ is not None:
                blk = dense_[sl[r], sl[c]]
                o.f[name] = M(run.junk(*dims(t)), name)
                o.f[name].a[:blk.shape[0], :blk.shape[1]] = blk
        ks = list(sl)
        if {frozenset(x) for x in seen} != {frozenset((a, b)) for a in ks for b in ks} or len(seen) != len(ks) * (len(ks) + 1) // 2:
            raise ir.Broken("covariance blocks are not the upper triangle")
        return o

    def read(self, o, num):
        sl, n = self.slices(num)
        a = np.zeros((n, n), dtype=object)
        for t, name, z in self.cls["Covariance"].members:
            r, c = (norm(x) for x in (name[:-5] if name.endswith("_buf_") else name).split("_"))
            h, w = a[sl[r], sl[c]].shape
            blk = o.f[name].a[:h, :w]
            a[sl[r], sl[c]] = blk
            if r != c:
                a[sl[c], sl[r]] = blk.T
        return a

    def jac(self, o, cls, num, cols, ncols, rows=None, nrows=None):
        """dense matrix of a jacobian object; rows None: a measurement of nrows rows"""
        a = np.zeros((nrows, ncols), dtype=object)
        for t, name, z in cls.members:
            b = name[:-5] if name.endswith("_buf_") else name
            m = re.match(r"d(\w+?)_d(\w+)$", b) if rows is not None else re.match(r"d(\w+)$", b)
            if not m:
                raise ir.Broken("jacobian block " + name)
            c = norm(m.groups()[-1])
            r = rows[norm(m.group(1))] if rows is not None else slice(0, nrows)
            if c not in cols:
                raise ir.Broken("jacobian block " + name)
            h, w = a[r, cols[c]].shape
            a[r, cols[c]] = o.f[name].a[:h, :w]
        return a

    def rand(self, run, cls):
        o = run.fresh(cls)
        for v in o.f.values():
            if isinstance(v, M):
                v.a[...] = run.junk(*v.a.shape)
        return o

    def diag(self, o, cls, cols, n):
        """dense form of a covariance stored as diagonals, entries of replicated states repeated"""
        Q = np.zeros((n, n), dtype=object)
        for t_, name, z in cls.members:
            k = norm(name)
            if k not in cols:
                raise ir.Broken("diagonal " + name)
            v = o.f[name].a[:, 0]
            for j, i in enumerate(range(cols[k].start, cols[k].stop)):
                Q[i, i] = v[j % len(v)]
        return Q

    def dx(self, o, num):
        sl, n = self.slices(num)
        a = np.zeros((n, 1), dtype=object)
        for k, name, d, r in self.comp:
            h = sl[k].stop - sl[k].start
            a[sl[k], :] = o.f[name].a[:h, :]
        return a

    def usl(self):
        out, i = {}, 0
        for k, n, d in self.inputs:
            out[k] = slice(i, i + d)
            i += d
        return out, i


def symm(run, n):
    a = run.junk(n, n)
    return np.array([[a[min(i, j), max(i, j)] for j in range(n)] for i in range(n)], dtype=object).reshape((n, n))


def eye(n):
    return np.array([[int(i == j) for j in range(n)] for i in range(n)], dtype=object).reshape((n, n))


def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = cxxmat.dotp(r, x)
    return r


def same(a, b):
    return a.shape == b.shape and not np.any((a - b) % P)


def opaque(**f):
    return Obj(None, "opaque", **f)


def error(ok, msg=None):
    return Obj(None, "error", ok=lambda: ok, isok=ok, msg=msg)


class World(cxxmat.Run):
    """gates: list of booleans to answer comparisons of reals with, in order of appearance (default False); forced: constants to override"""

    def __init__(self, g, seed, num, junk=None, forced=(), answer=lambda gate: False):
        self.g, self.num, self.forced, self.answer, self.log, self.passed = g, num, dict(forced), answer, [], []
        super().__init__(seed, g.cls, self.hook, lambda n: Named(n) if n == "INVALID_TIME" else None)
        self.junkseed = junk

    def primary(self, name, targ):
        if name in self.forced and self.peek() != "(":
            return self.forced[name]
        return super().primary(name, targ)

    def gate(self, c):
        self.passed.append(c)
        return self.answer(c)

    def hook(self, name, targ, a):
        a = [self.val(x) for x in a]
        n = name.split("::")[-1] if not name.startswith(".") else name
        if name in ("*",) and any(isinstance(x, Obj) for x in a):
            x, s = (a if isinstance(a[0], Obj) else a[::-1])
            return opaque(scaled=(x, s))
        if name == "+" and len(a) == 2 and isinstance(a[0], Obj):
            return opaque(sum=(a[0], a[1]), t=Sc(self.rnd.randrange(P)))
        if name == "+=":
            self.log.append(("+=", a[0], cxxmat.copy(a[1])))
            return None
        if n == "create":
            return error(False, a[0] if a else "")
        if n == "none":
            return error(True)
        if n in self.forced and callable(self.forced[n]):
            return self.forced[n](self, targ, a)
        raise ir.Broken("generated code calls %s" % name)
