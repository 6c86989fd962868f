# compile every product source file of the tree and run errtool on it
import concurrent.futures as cf
import os
import re
import subprocess
import ir

NOT_PRODUCT = re.compile(r"(^|/)(test_|bench_)|_(test|bench)\.|(^|/)(tests?|bench|benchmarks?)/|^ext/")


def sources():
    r = subprocess.run(["find", ".", "-name", "*.cxx", "-o", "-name", "*.cpp", "-o", "-name", "*.cc"], cwd=ir.REPO, capture_output=True, text=True).stdout.split()
    r = sorted(x[2:] for x in r if not x.startswith(("./_build", "./.git", "./build")))
    return [x for x in r if not NOT_PRODUCT.search(x)]


def run_one(f):
    out = os.path.join(ir.scratch(), "e_" + f.replace("/", "_") + ".bc")
    fl = [x for x in ir.IRFLAGS]
    r = subprocess.run([ir.CLANGXX] + ir.BASE + fl + ['-flto', '-fwhole-program-vtables', '-fvisibility=hidden'] + ir.includes(True) + [os.path.join(ir.REPO, f), "-o", out], capture_output=True, text=True)
    if r.returncode:
        return f, None, [l for l in r.stderr.splitlines() if "error" in l][:2]
    r = subprocess.run([os.path.join(ir.BUILD, "errtool"), os.path.realpath(ir.REPO) + "/", out], capture_output=True, text=True)
    os.remove(out)
    if r.returncode:
        return f, None, r.stderr[-300:]
    return f, [l.split("\t") for l in r.stdout.splitlines()], None


def run():
    ir.build_tools()
    d = ir.ekf_dir()
    gen = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith((".cxx", ".cpp")) and not NOT_PRODUCT.search(f)]
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(run_one, sources() + gen))
