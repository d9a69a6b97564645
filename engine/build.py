"""Compile /repo's current sources plus a harness, to IR and natively."""
import os, subprocess, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
UNITS = ["cheb", "field", "finite_diff", "grid", "initial_data", "io", "params", "scalar_eom", "sphere", "main"]
LLVM = "/usr/lib/llvm-18/bin"
_dir = [None]
def workdir():
    if _dir[0] is None:
        _dir[0] = tempfile.mkdtemp(prefix="vpbuild.")
        atexit.register(shutil.rmtree, _dir[0], ignore_errors=True)
    return _dir[0]

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def defs(cfg):
    """cfg: set of 'cheb', 'contig'"""
    d = []
    if "cheb" in cfg: d.append("-DUSE_CHEB")
    if "contig" in cfg: d.append("-DSHTNS_CONTIGUOUS_LONGITUDES")
    return d

IRFLAGS = ["-std=c++11", "-fopenmp", "-fno-builtin", "-DNDEBUG", "-ffp-contract=off", "-fno-strict-aliasing",
           "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-S", "-emit-llvm"]
_ir = {}
def units_present():
    u = [x for x in UNITS if os.path.exists(os.path.join(SRC, x + ".cpp"))]
    # files added to Source/ since: those the build's Makefile would pick up
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".cpp") and f[:-4] not in UNITS and f != "unit_manager.cpp": u.append(f[:-4])
    return u

def ir(harness, cfg=(), units=None, opt="-O1", ndebug=True, keep=None):
    """IR text of the harness linked with the given units (default: all); keep: functions whose name matches
    are left unoptimised, so that their local variables stay in memory"""
    cfg = frozenset(cfg)
    units = list(units) if units is not None else units_present()
    extra = [u for u in units_present() if u not in UNITS]
    units = units + [u for u in extra if u not in units]
    key = (harness, cfg, tuple(units), opt, ndebug, keep)
    if key in _ir: return _ir[key]
    wd = tempfile.mkdtemp(dir=workdir())
    hp = os.path.join(wd, "harness.cpp")
    with open(hp, "w") as f: f.write(harness)
    if keep: opt = opt + " "
    flags = [x for x in IRFLAGS if ndebug or x != "-DNDEBUG"] + [opt.strip()] + (["-Xclang", "-disable-llvm-passes"] if keep else []) + defs(cfg) + ["-isystem", os.path.join(HERE, "shim"), "-isystem", os.path.join(HERE, "include"), "-I", SRC]
    # c++14 so that harnesses may use a little more; the sources are c++11-clean
    jobs = []
    for u in units:
        k = ("u", u, cfg, opt, ndebug)
        o = _ir.get(k)
        if o is None:
            o = os.path.join(workdir(), "u_%s_%s.ll" % (u, hashlib.md5(repr((sorted(cfg), opt, ndebug)).encode()).hexdigest()[:8]))
            _ir[k] = o
            jobs.append((["clang++"] + flags + (["-Dmain=sfk_main"] if u == "main" else []) + [os.path.join(SRC, u + ".cpp"), "-o", o]))
    k = ("shim", opt)
    so = _ir.get(k)
    if so is None:
        so = _ir[k] = os.path.join(workdir(), "shim%s.ll" % opt)
        jobs.append(["clang++"] + flags + [os.path.join(HERE, "shim", "vp_streams.cpp"), "-o", so])
    ho = os.path.join(wd, "harness.ll")
    jobs.append(["clang++"] + flags + [hp, "-o", ho])
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    except BuildError:
        for u in units: _ir.pop(("u", u, cfg, opt, ndebug), None)
        _ir.pop(k, None)
        raise
    out = os.path.join(wd, "all.ll")
    run([os.path.join(LLVM, "llvm-link"), "-S"] + [_ir[("u", u, cfg, opt, ndebug)] for u in units] + [so, ho, "-o", out])
    text = open(out).read()
    if keep:
        # clang's output before any optimisation, then optimised except for the named functions
        text = unoptimised(text, keep)
        with open(out, "w") as f: f.write(text)
        run([os.path.join(LLVM, "opt"), "-S", "-passes=default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", "-disable-loop-unrolling", out, "-o", out + ".o"])
        text = open(out + ".o").read()
    shutil.rmtree(wd, ignore_errors=True)
    _ir[key] = text
    return text

def unoptimised(text, pat):
    import re
    n = 900000; out = []; more = []
    for l in text.split("\n"):
        if l.startswith("define ") and re.search(pat, l.split("(")[0]):
            q = re.search(r"#(\d+)(?=[^#]*\{$)", l)
            if q:
                n += 1; base = re.search(r"^attributes #%s = \{(.*)\}" % q.group(1), text, re.M).group(1)
                more.append("attributes #%d = { noinline optnone %s }" % (n, re.sub(r"\b(alwaysinline|inlinehint|minsize|optsize|noinline|optnone)\b", "", base)))
                l = l[:q.start()] + "#%d" % n + l[q.end():]
        out.append(l)
    return "\n".join(out + more)

_nat = {}
def native(harness, cfg=(), units=None, san=(), main_is_harness=True, ndebug=True, opt="-O1", extra=(), omp=False):
    """native executable of the harness with the real FFTW and the reference SHTns"""
    cfg = frozenset(cfg)
    units = list(units) if units is not None else units_present()
    units = units + [u for u in units_present() if u not in UNITS and u not in units]
    key = (harness, cfg, tuple(units), tuple(san), ndebug, tuple(extra), omp)
    if key in _nat: return _nat[key]
    wd = tempfile.mkdtemp(dir=workdir())
    hp = os.path.join(wd, "harness.cpp")
    with open(hp, "w") as f: f.write(harness)
    fl = ["g++", "-std=c++11", opt, "-g", "-fopenmp", "-w", "-ffp-contract=off"] + (["-DNDEBUG"] if ndebug else []) + defs(cfg) + list(extra) + ["-isystem", os.path.join(HERE, "include"), "-I", SRC]
    if san: fl.append("-fsanitize=" + ",".join(san))
    own = ["-include", os.path.join(HERE, "native", "vp_fftwtrace.h")] if omp else []
    srcs = [(os.path.join(SRC, u + ".cpp"), own + (["-Dmain=sfk_main"] if u == "main" else [])) for u in units]
    if omp: srcs.append((os.path.join(HERE, "native", "vp_omp.cpp"), []))
    srcs += [(hp, []), (os.path.join(HERE, "native", "shtns_ref.cpp"), []), (os.path.join(HERE, "native", "vp_native.cpp"), [])]
    objs = []; jobs = []
    for i, (s, d) in enumerate(srcs):
        o = os.path.join(wd, "%d.o" % i); objs.append(o)
        jobs.append(fl + d + ["-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    exe = os.path.join(wd, "replay")
    if omp: fl = [x for x in fl if x != "-fopenmp"] + ["-pthread"]
    run(fl + objs + ["-lfftw3", "-lm", "-o", exe])
    _nat[key] = exe
    return exe
