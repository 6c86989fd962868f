import os
import ir, vg
from ir import VERIF, Broken
from poly import *

SRC = [VERIF + "/harness/time.cxx", "common/utctime.cxx", "common/quantized_time.cxx"]
E9 = 10**9


class Time:
    def __init__(self, ctx):
        self.m = ir.load(SRC, [r"^vh_"])
        f = {n: (o, s) for n, o, s, i in self.m.fields("mc::UTCTime")}
        if set(f) != {"sec", "nsec"}:
            raise Broken("mc::UTCTime no longer consists of sec and nsec: %s" % sorted(f))
        self.so, self.no = f["sec"][0], f["nsec"][0]
        ctx.add("units", *SRC)

    def g(self, name):
        fs = self.m.find(r"^%s\(" % name)
        return vg.VG(self.m, fs), fs

    def inputs(self, i, tag):
        """(env, facts, sec, nsec) for the UTCTime pointed to by argument i"""
        s, n = ivar("sec_" + tag), ivar("nsec_" + tag)
        env = {vg.mk("init", (("arg", i), self.so, 8, 0), 64): s, vg.mk("init", (("arg", i), self.no, 8, 0), 64): n}
        return env, s, n

    def out(self, g, i=0):
        return (g.mem(g.final, ("arg", i), self.so, 8, 64), g.mem(g.final, ("arg", i), self.no, 8, 64))

    @staticmethod
    def norm(F, n):
        return F.ge(n).ge(E9 - 1 - n)

    def at(self, rx):
        """source position of the implementation, for reports only"""
        return rx


def cases(D, terms, F):
    """joint case split of several int/real terms"""
    out = [(F, [])]
    for t in terms:
        out = [(f2, ls + [l]) for f, ls in out for f2, l in D.lin(t, f)]
    return out


def describe(F, n=6):
    return " and ".join("%s %s 0" % (l, ">" if s else ">=") for l, s in F.cs[:n])


def impl_where(g, pat):
    """file:line of the code that produced the analysed values"""
    import re
    for blk in g.blocks:
        for i in blk:
            for f, n, fn in i.get("loc", []):
                if "/repo/" in f and re.search(pat, f):
                    return "%s:%d" % (f.replace(ir.REPO + "/", "").replace("/repo/", ""), n)
    return "?"
