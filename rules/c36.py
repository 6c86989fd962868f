import collections
import re
import errlib
import ir
TITLE = "Errors are never silently discarded"
TECH = "typestate analysis of every error value over all control-flow paths of the unoptimised LLVM IR of every product source file, with an interprocedural fixpoint over which operations can fail (virtual calls resolved by vtable type metadata)"
RULE = """A call that returns an Error or ErrorResult makes the object that receives it pending; using its contents (asking ok() or what() with the answer used, comparing, returning, copying or passing it on) examines it. If the operation can fail (it may return anything but Error::none(), directly or
through what it calls), a pending value must not be replaced by the next one on any path, and some path must examine it; in a function that returns an error itself, every path must. A failure that is created and not passed on counts as dropped too."""
ASSUME = ("a value handed to another function is examined there; values stored in members are outside the analysis", "templates are analysed as the product instantiates them", "examining is not judging: what a caller that returns no error does about a failure, and under which conditions it asks, is not decided here")
NOT_BUILT = {"common/math/quat.cxx"}      # no part of the build, does not compile


def run(ctx):
    L = collections.defaultdict(set)
    files = 0
    known, fail, calls, where = {}, set(), collections.defaultdict(set), collections.defaultdict(set)
    for f, out, err in errlib.run():
        if out is None:
            if f in NOT_BUILT:
                continue
            raise ir.Broken("%s does not compile: %s" % (f, err))
        files += 1
        known[f] = {mang(l[1]) for l in out if l[0] == "FN"}
        for g in known[f]:
            where[g].add(f)
        fail |= {(f, mang(l[1])) for l in out if l[0] == "MAY"}
        for l in out:
            if l[0] == "DEF":
                calls[f, mang(l[3])].add(mang(l[4]))
            if l[0] != "FN":
                L[l[0]].add((tuple(l[1:]) + (f,)))
    ctx.need(files > 40 and len(L["DEF"]) > 20, "source files with calls that return errors")
    slots = collections.defaultdict(set)
    for t, k, g, _ in L["VT"]:
        slots["virtual %s %s" % (t, k)].add(g)
    # what can fail: least fixpoint; a function of the same file is meant before others of that name (several programs are analysed)

    def can(f, c):
        if c.startswith("virtual "):
            return not slots.get(c) or any(can(f, g) for g in slots[c] if g != "__cxa_pure_virtual")
        defs = [f] if c in known[f] else sorted(where[c])
        return not defs or any((d, c) in fail for d in defs)
    while True:
        new = {x for x in calls if x not in fail and any(can(x[0], c) for c in calls[x])}
        if not new:
            break
        fail |= new
    ctx.add("source files", str(files))
    ctx.add("operations", "%d functions analysed, %d calls that return error values, %d of them of operations that can fail" % (len(where), len(L["DEF"]), sum(can(x[4], mang(x[3])) for x in L["DEF"])))
    drops = collections.defaultdict(set)
    for file, line, fn, callee, how, f in L["DROP"]:
        if can(f, mang(callee)):
            drops[(file, fn)].add((int(line), show(callee), how))
    sites = sorted({(x[0], x[2]) for x in L["DEF"]} | set(drops))
    for s in sites:
        name = re.sub(r".*/gen/", "generated ", s[0])
        d = sorted(drops.get(s, ()))
        ctx.ob("%s %s" % (name, show(s[1])), not d, "%s:%s" % (name, d[0][0] if d else ""), "; ".join("the error of %s (line %d) is %s" % (c[:100], n, how) for n, c, how in d))


def mang(s):
    return s if s.startswith(("virtual ", "<indirect>")) else s.split(" ", 1)[0]


def show(s):
    return s if s.startswith(("virtual ", "<")) or " " not in s else s.split(" ", 1)[1]
