"""Build LLVM bitcode from /repo's working tree and load the canonicalised SSA dump."""
import atexit, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18"
CLANGXX = LLVM + "/bin/clang++"
BUILD = os.path.join(VERIF, "build")
IRTOOL = os.path.join(BUILD, "irtool")
ASTTOOL = os.path.join(BUILD, "asttool")


class Broken(Exception):
    """The analysis itself cannot run (vanished anchor, unparsable unit, zero instances)."""


_scratch = None
_lock = threading.Lock()


def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="verif_sa_")
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_tools(which=("irtool", "errtool")):
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS"]
    for t in which:
        src = os.path.join(VERIF, "engine", t + ".cpp")
        out = os.path.join(BUILD, t)
        if not os.path.exists(src):
            continue
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            continue
        libs = ["-L" + LLVM + "/lib"]
        flags = ["-O1", "-std=c++17", "-w"]
        libs += ["-lLLVM-18"]
        tmp = out + ".tmp%d" % os.getpid()
        sh(["/usr/bin/g++"] + flags + inc + [src, "-o", tmp] + libs)
        os.replace(tmp, out)


_ekf_dir = None


def ekf_dir():
    """Regenerate the EKF sources from the working tree's generator + yaml into scratch."""
    global _ekf_dir
    if _ekf_dir is None:
        d = os.path.join(scratch(), "gen")
        os.makedirs(d + "/core/ekf")
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        sh(["/usr/bin/python3", REPO + "/core/ekf/ekf_gen/ekf_gen.py", "--config_file",
            REPO + "/core/ekf/rtk_ekf.yaml", "--destination", d + "/core/ekf"], env=env, cwd=scratch())
        _ekf_dir = d
    return _ekf_dir


def includes(gen=False):
    inc = ["-I" + REPO, "-I/usr/include/eigen3"]
    if gen:
        inc += ["-I" + ekf_dir()]
    inc += ["-I" + os.path.join(VERIF, "harness", "stub"), "-I" + VERIF]
    return inc


BASE = ["-std=gnu++17", "-include", "stdlib.h", "-DNDEBUG", "-DFMT_DEPRECATED_OSTREAM", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0",
        "-DEIGEN_UNROLLING_LIMIT=1000", "-DCHECK_THROW", "-w"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-fno-vectorize",
           "-fno-slp-vectorize", "-fignore-exceptions", "-ffp-contract=off", "-fno-strict-aliasing",
           "-fno-math-errno", "-fno-threadsafe-statics", "-fno-unwind-tables", "-fno-asynchronous-unwind-tables"]


def compile_bc(src, gen=False, extra=()):
    if not os.path.isabs(src):
        src = os.path.join(REPO, src)
    if not os.path.exists(src):
        raise Broken("translation unit vanished: " + src)
    out = os.path.join(scratch(), src.replace("/", "_") + "_%d.bc" % abs(hash(tuple(extra))))
    if not os.path.exists(out):
        sh([CLANGXX] + BASE + IRFLAGS + list(extra) + includes(gen) + [src, "-o", out])
    return out


PIPE = ("globalopt,always-inline,globaldce,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
        "sroa<modify-cfg>,early-cse<memssa>,loop-simplify,lcssa,loop(loop-rotate),simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,"
        "loop(indvars,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
        "loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa<modify-cfg>,"
        "early-cse<memssa>,gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,simplifycfg),globaldce")

DEFAULT_KEEP = [r"^mc::check\(", r"^mc::weak_check\(", r"^std::(ostream|istream|basic_)", r"std::experimental",
                r"^void fmt::", r"^fmt::", r"^mc::(info|warn|error|fatal|debug|print|dbg)\b"]
DEFAULT_INLINE = [r"\bmc::", r"\bstd::(floor|ceil|abs|sqrt|sin|cos|round|isfinite|isnan)<", r"Eigen::", r"^std::(max|min|abs|floor|forward|move|isfinite|__addressof|addressof|get|swap|optional|_Optional|numeric_limits|fabs|sqrt|sin|cos|pow|array|tuple|_Tuple|_Head|unique_ptr|pair)\b"]


class Module:
    def __init__(self, d):
        self.globals = d["globals"]
        self.types = d["types"]
        self.enums = d["enums"]
        self.functions = {}
        self.bydem = {}
        for f in d["functions"]:
            self.functions[f["name"]] = f
            self.bydem.setdefault(f["dem"], f)

    def find(self, rx, unique=True):
        import re
        r = re.compile(rx)
        out = [f for d, f in self.bydem.items() if r.search(d)]
        if unique:
            if len(out) != 1:
                raise Broken("expected exactly one function matching %s, found %s" % (rx, [f["dem"] for f in out]))
            return out[0]
        return out

    def get(self, dem):
        f = self.bydem.get(dem)
        if f is None:
            raise Broken("function vanished: " + dem)
        return f

    # -------- struct layout helpers
    def type(self, name):
        t = self.types.get(name)
        if t is None:
            raise Broken("type vanished: " + name)
        return t

    def fields(self, name, base=0, bases=True):
        """[(field name, byte offset, byte size, info)] incl. bases (not nested aggregates)."""
        out = []
        for m in self.type(name)["m"]:
            if m["inh"]:
                if bases and m["t"] in self.types:
                    out += self.fields(m["t"], base + m["o"] // 8)
            else:
                out.append((m["n"], base + m["o"] // 8, m["s"] // 8, m))
        return out

    def leaves(self, name, base=0, prefix=""):
        """scalar leaves of a type: [(path, off, size, info)], recursing into known structs."""
        out = []
        for m in self.type(name)["m"]:
            off = base + m["o"] // 8
            p = prefix + m["n"]
            if m["inh"]:
                if m["t"] in self.types:
                    out += self.leaves(m["t"], off, prefix)
                continue
            if m["t"] and m["t"] in self.types and self.types[m["t"]]["m"] and not m["t"].startswith(("Eigen::", "std::")):
                out += self.leaves(m["t"], off, p + ".")
            else:
                out.append((p, off, m["s"] // 8, m))
        return out

    def field(self, name, f):
        for n, o, s, i in self.fields(name):
            if n == f:
                return o, s, i
        raise Broken("field %s::%s vanished" % (name, f))


def load(sources, roots, inline=None, keep=(), gen=False, passes=None, extra=(), llvm=(), ll=False):
    build_tools(("irtool",))
    with ThreadPoolExecutor(8) as ex:
        if gen:
            ekf_dir()
        bcs = list(ex.map(lambda s: compile_bc(s, gen, extra), sources))
    pol = {"roots": list(roots), "inline": DEFAULT_INLINE if inline is None else list(inline),
           "keep": DEFAULT_KEEP + list(keep), "passes": passes or PIPE, "ll": ll,
           "llvm": ["-unroll-full-max-count=4096", "-unroll-threshold=100000", "-unroll-max-iteration-count-to-analyze=4096"] + list(llvm)}
    pf = os.path.join(scratch(), "policy%d.json" % len(os.listdir(scratch())))
    of = pf.replace("policy", "out")
    json.dump(pol, open(pf, "w"))
    sh([IRTOOL, of, pf] + bcs)
    m = Module(json.load(open(of)))
    m.path = of
    return m
