"""the run scripts under symbolic execution, and their native replay"""
from chk import *
import pysym as P, z3, types, posixpath, shlex, fnmatch
REPO = build.REPO
HOME = "/home/u/sfk"
class World:
    def __init__(self, cwd=HOME):
        self.cwd = cwd; self.files = {}; self.dirs = set(); self.calls = []; self.copies = {}; self.environ = {}
    def path(self, p): return posixpath.normpath(posixpath.join(self.cwd, str(p)))
class File:
    def __init__(self, w, path, mode): self.w = w; self.path = w.path(path); self.mode = mode; \
        (w.files.__setitem__(self.path, "") if "w" in mode else w.files.setdefault(self.path, ""))
    def write(self, s): self.w.files[self.path] += s; return len(s)
    def writelines(self, xs):
        for x in xs: self.write(x)
    def read(self): return self.w.files[self.path]
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def flush(self): pass
def mods(w):
    m = {}
    def mod(n, **k):
        x = types.ModuleType(n); x.__dict__.update(k); m[n] = x; return x
    path = types.ModuleType("os.path")
    for k in ("join", "basename", "dirname", "splitext", "normpath", "isabs", "split", "relpath"): setattr(path, k, getattr(posixpath, k))
    path.abspath = path.realpath = w.path
    path.exists = lambda p: w.path(p) in w.files or w.path(p) in w.dirs or w.path(p) in w.copies
    path.isdir = lambda p: w.path(p) in w.dirs
    path.isfile = lambda p: w.path(p) in w.files or w.path(p) in w.copies
    def chdir(p): w.cwd = w.path(p)
    def mkd(p, *a, **k): w.dirs.add(w.path(p))
    def ex(cmd): w.calls.append((cmd, w.cwd)); return 0
    mod("os", getcwd=lambda: w.cwd, chdir=chdir, makedirs=mkd, mkdir=mkd, environ=w.environ, path=path, sep="/", system=ex, getenv=lambda k, d=None: w.environ.get(k, d), chmod=lambda *a: None)
    def call(cmd, *a, **k):
        cw = w.cwd if k.get("cwd") is None else w.path(k["cwd"])
        w.calls.append((cmd, cw)); r = types.SimpleNamespace(returncode=0, stdout="", stderr="", wait=lambda *a: 0, communicate=lambda *a: ("", ""))
        return r
    mod("subprocess", call=lambda *a, **k: (call(*a, **k), 0)[1], check_call=lambda *a, **k: (call(*a, **k), 0)[1], run=call, Popen=call, PIPE=-1, STDOUT=-2, DEVNULL=-3)
    def cp(a, b, *r, **k):
        b = w.path(b)
        if b in w.dirs: b = posixpath.join(b, posixpath.basename(str(a)))
        w.copies[b] = w.path(a); return b
    mod("shutil", copyfile=cp, copy=cp, copy2=cp)
    mod("time", asctime=lambda *a: "Mon Sep  7 10:11:12 2026", time=lambda: 1e9, strftime=lambda *a: "x")
    mod("sys", argv=["runscript.py"], stdout=None, path=[], exit=lambda *a: (_ for _ in ()).throw(SystemExit()))
    m["open"] = lambda p, mode="r", *a, **k: File(w, p, mode)
    return m
def conv(name, v, choices, val):
    if name in choices: return choices[name]
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    if isinstance(v, (int, float, P.SNum)): return val(name, isinstance(v, (int, P.SInt)))
    return v
def template(w, choices, val, launch):
    """run runscript_template.py with its numbers replaced; launch(sim, base) stands for launch_run"""
    ms = mods(w)
    sc = P.load(os.path.join(REPO, "sim_class.py"), ms, "sim_class")
    Base = sc["Sim"]; st = {"on": True, "sim": None}
    class Sim(Base):
        def __setattr__(self, k, v):
            object.__setattr__(self, k, conv(k, v, choices, val) if st["on"] else v)
        def launch_run(self):
            st["on"] = False; st["sim"] = self; launch(self, Base)
    def init(self, *a, **k):
        st["on"] = False
        try: Base.__init__(self, *a, **k)
        finally: st["on"] = True
    Sim.__init__ = init
    mm = types.ModuleType("sim_class"); mm.__dict__.update({k: v for k, v in sc.items() if k != "__builtins__"}); mm.Sim = Sim
    ms["sim_class"] = mm
    P.load(os.path.join(REPO, "runscript_template.py"), ms, "__main__")
    return st["sim"]
def domain(v):
    """what a user may set"""
    z = lambda n: v[n].e
    c = []
    if "black_hole_mass" in v: c += [z("black_hole_mass") > 0]
    if "black_hole_spin" in v: c += [z("black_hole_spin") <= z("black_hole_mass"), -z("black_hole_spin") <= z("black_hole_mass")]
    for n in ("compactification_length", "evolve_time", "cfl"):
        if n in v: c.append(z(n) > 0)
    for n, k in (("num_saved_times", 1), ("nx", 8), ("nl", 1), ("nm", 0), ("nlat", 2), ("nphi", 1), ("l_ang", 0), ("m_ang", 0), ("num_omp_levels", 1), ("num_threads", 1)):
        if n in v: c.append(z(n) >= k)
    return c
class Vals:
    """attribute -> symbolic number; the domain is added as variables appear"""
    def __init__(self, ctx): self.ctx = ctx; self.v = {}
    def __call__(self, n, integer):
        if n not in self.v:
            x = self.v[n] = self.ctx.var(n, integer)
            old = self.ctx.pc; self.ctx.defs += [c for c in domain(self.v) if n in str(c)]
        return self.v[n]
DRIVER = r'''
import sys, os, json, builtins
repo, cfg = sys.argv[1], json.load(open(sys.argv[2]))
sys.path.insert(0, repo); sys.dont_write_bytecode = True
import sim_class
Base = sim_class.Sim; st = {"on": True}
class Sim(Base):
    def __init__(self, *a, **k):
        st["on"] = False
        try: Base.__init__(self, *a, **k)
        finally: st["on"] = True
    def __setattr__(self, k, v):
        if st["on"]:
            if k in cfg["choices"]: v = cfg["choices"][k]
            elif not (isinstance(v, (bool, str)) or v is None) and k in cfg["nums"]: v = (int if isinstance(v, int) else float)(cfg["nums"][k])
        object.__setattr__(self, k, v)
    def launch_run(self):
        st["on"] = False
        if cfg["derive"]: self.set_derived_params()
        else: Base.launch_run(self)
        json.dump({k: v for k, v in vars(self).items() if isinstance(v, (int, float, str))}, open(cfg["out"], "w"))
Sim.__name__ = "Sim"
sim_class.Sim = Sim
exec(compile(open(repo + "/runscript_template.py").read(), "runscript.py", "exec"), {"__name__": "__main__"})
'''
def scratch():
    d = tempfile.mkdtemp(prefix="vppy."); os.chmod(d, 0o777); return d
def unpriv():
    os.setgroups([]); os.setgid(65534); os.setuid(65534)
def native(choices, nums, derive, d):
    """run the real scripts on these numbers, as an unprivileged user inside d"""
    q = dict(choices=choices, nums=nums, derive=derive, out=os.path.join(d, "attrs.json"))
    with open(os.path.join(d, "cfg.json"), "w") as f: json.dump(q, f)
    with open(os.path.join(d, "driver.py"), "w") as f: f.write(DRIVER)
    src = os.path.join(d, "src"); os.makedirs(src, exist_ok=True)
    for n in ("sim_class.py", "runscript_template.py"): shutil.copy(os.path.join(REPO, n), src)
    os.chmod(src, 0o755)
    try:
        r = subprocess.run(["/usr/bin/python3", os.path.join(d, "driver.py"), src, os.path.join(d, "cfg.json")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                       text=True, preexec_fn=unpriv, env=dict(PATH=os.path.join(d, "bin") + ":/usr/bin:/bin", HOME=d))
    except subprocess.TimeoutExpired: return "timeout", None, ""
    try: a = json.load(open(os.path.join(d, "attrs.json")))
    except (OSError, ValueError): a = None
    return r.returncode, a, r.stdout
def zval(m, e):
    x = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(x): x = x.approx(30)
    return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
