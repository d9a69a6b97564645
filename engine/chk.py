"""What the checks are written in: cases (a driver in one configuration),
obligations decided by the solver, native confirmation of counterexamples,
evidence."""
import os, sys, time, json, math, random, re, subprocess, tempfile, shutil, pickle, traceback, resource
from fractions import Fraction
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import terms as T
from terms import R, I, B, Unsupported, NonFinite
import build, explore as X, models
from explore import machine, explore
from solve import STATS, Norm, NeedSplit, Lin, Quad, Solver, q_box, evaluate
import solve
from llexec import UNDEF, MemError, Budget, sgn
VERIF = os.path.dirname(HERE)

class Missing(Exception): pass

class FnSpace:
    """functions that work on terms and on numbers"""
    def sqrt(self, x): return models.m_sqrt(None, x)
    def exp(self, x): return models.m_exp(None, x)
    def log(self, x): return models.m_log(None, x)
    def abs(self, x): return models.m_fabs(None, x)
    def cos(self, x): return models.m_cos(None, x)
    def sin(self, x): return models.m_sin(None, x)
    def acos(self, x): return models.m_acos(None, x)
    def ite(self, c, a, b):
        if c.__class__ is B: return T.rite(c, a, b)
        return a if c else b
    def And(self, *a):
        r = True
        for x in a: r = T.band(r, x)
        return r
    def Or(self, *a):
        r = False
        for x in a: r = T.bor(r, x)
        return r
    def Not(self, a): return T.bnot(a)
    def lin(self, cs, xs):
        if any(x.__class__ is R for x in xs): return T.rlin(list(cs), list(xs))
        return float(sum(float(c) * x for c, x in zip(cs, xs)))

class Sym(FnSpace):
    native = False
    def __init__(self, case, path):
        self.case = case; self.path = path; self.cfg = case.config
    def __getitem__(self, k):
        name, i = k
        d = self.path.outs.get(name)
        if d is None or i not in d: raise Missing("%s[%s] was never produced" % (name, i))
        return d[i]
    def v(self, name, i=None):
        k = name if i is None else "%s[%d]" % (name, i)
        x = self.path.extra.get("inputs", {}).get(k)
        if x is None: raise Missing("input %s was never asked for" % k)
        return x
    def vec(self, name, n): return [self.v(name, i) for i in range(n)]
    def outv(self, name, n): return [self[name, i] for i in range(n)]
    def var(self, name): return T.rvar(name) if self.path.line is None else self.path.line(name)

class OutOfTime(BaseException): pass
class Many(Exception): pass
class Nat(FnSpace):
    native = True
    def __init__(self, case, env, inputs):
        self.case = case; self.env = env; self.inputs = inputs; self.cfg = case.config
        self.outs = {}; self.marks = []; self.ended = False; self.rc = None; self.files = {}; self.stdout = ""; self.stderr = ""
    def __getitem__(self, k):
        name, i = k
        d = self.outs.get(name)
        if d is None or i not in d: raise Missing("%s[%s] was never produced" % (name, i))
        return d[i]
    def v(self, name, i=None):
        return self.inputs[name if i is None else "%s[%d]" % (name, i)]
    def vec(self, name, n): return [self.v(name, i) for i in range(n)]
    def outv(self, name, n): return [self[name, i] for i in range(n)]
    def var(self, name): return self.env[name]

class Case:
    expand_limit = 20.0; slow = 0; opaque_ite = False; keep = None
    def __init__(self, C, name, harness, cfg=(), config=None, ndebug=True, units=None, ranges=None, files=None,
                 envs=None, native_extra=(), entry="vp_main", max_paths=2000, nat_files=None, assume=()):
        self.C = C; self.name = name; self.harness = harness; self.cfg = frozenset(cfg); self.config = dict(config or {})
        self.ndebug = ndebug; self.units = units; self.ranges = ranges or {}; self.files = files; self.envs = envs
        self.native_extra = native_extra; self.entry = entry; self.max_paths = max_paths; self.nat_files = nat_files
        self.paths = []; self.solver = None; self.ok = False
        self.label = "%s[%s%s%s]" % (name, "cheb" if "cheb" in self.cfg else "fd", ",theta-first" if "contig" in self.cfg else "", "" if ndebug else ",asserts")
        self._norm = {}; self._alias = {}
    # ---- symbolic execution
    def run(self, expect_normal=True):
        C = self.C
        t0 = time.time()
        try:
            ir = build.ir(self.harness, self.cfg, self.units, ndebug=self.ndebug, keep=self.keep)
        except build.BuildError as e:
            C.broken("does not compile: " + str(e)[-1500:]); return self
        try:
            for again in (False, True):
                self.m = machine(ir, self.config)
                self.solver = self.m.solver
                try:
                    self.paths = explore(self.m, self.entry, max_paths=self.max_paths, on_path=self.watch())
                except (Many, Budget) as e:
                    if not self.restrictable: raise
                    self.on_lines_only(ir, str(e))
                except Unsupported as e:
                    # the code may have come to use another of the project's files
                    if again or self.units is None or "external function" not in str(e): raise
                    self.units = None
                    ir = build.ir(self.harness, self.cfg, None, ndebug=self.ndebug, keep=self.keep)
                    continue
                break
            self.ok = True
        except (Unsupported, Budget, NonFinite, RecursionError, build.BuildError) as e:
            C.undecided_(self.label, "%s: %s" % (e.__class__.__name__, e))
            self.error = e
            return self
        C.casedone(self, time.time() - t0)
        if not self.paths: C.undecided_(self.label, "no feasible path")
        if expect_normal: self.normal()
        return self
    restrictable = True
    def watch(self):
        """notices that the code takes more paths than can be gone through"""
        if self.files is not None or self.config.get("tokens") or self.config.get("files") is not None or self.config.get("lazy"): self.restrictable = False
        if not self.restrictable: return None
        st = [time.time(), 0]
        def f(p):
            st[1] += 1
            if st[1] > 300 or (st[1] > 40 and time.time() - st[0] > 40): raise Many("%d paths after %d s" % (st[1], time.time() - st[0]))
        return f
    def on_lines_only(self, ir, why):
        """too many paths for all data: all data along a few lines  a + b t  (t the solver's variable)"""
        self.paths = []; self.restricted = True
        for k in range(3):
            m = machine(ir, dict(self.config, line=T.Line(k, self.ranges)))
            self.solver = m.solver; self.m = m
            self.paths += explore(m, self.entry, max_paths=300)
        self.C.note("%s: %s; the data were restricted to three lines a + b t with symbolic t" % (self.label, why))
        b = "where the code takes too many paths (%s): data on three lines a + b t, all t in [-4,4]" % self.name
        if b not in self.C.bounds: self.C.bounds.append(b)
    restricted = False
    def affine(self, p, outs, label, ref, ntol=1e-7):
        """for a restricted case: each output is one affine function of t on all paths of a line; ref: kept by the caller"""
        N = self.norm({}, None, None)
        for nm, i in outs:
            lab = "%s %s %s[%d]" % (self.label, label, nm, i); self.C.obligation()
            try:
                g = Sym(self, p)[nm, i]
                k = (p.line.k, nm, i)
                if k not in ref: ref[k] = (g, p); self.C.discharge(); continue
                bad = self.eq_terms(p, g, ref[k][0], 1e-9, lab)
            except (Unsupported, Missing, NonFinite) as e: self.C.undecided_(lab, str(e)); continue
            if bad is None: self.C.discharge(lab); continue
            def confirm(o, k=k, nm=nm, i=i):
                q = ref[k][1]; ts = []
                for e in self.env_candidates(q, 6):
                    if all(abs(e[T.TVAR] - x) > 1e-2 for x, _ in ts):
                        r = self.native(q, e)
                        if r.ended: ts.append((e[T.TVAR], r[nm, i]))
                    if len(ts) == 2: break
                if len(ts) < 2: return None
                (t1, y1), (t2, y2) = ts; t = o.env[T.TVAR]
                w = y1 + (y2 - y1) * (t - t1) / (t2 - t1); s = max(abs(y1), abs(y2), abs(w), abs(o[nm, i]), 1e-3) * (1 + abs(t - t1) / abs(t2 - t1))
                return None if abs(o[nm, i] - w) <= ntol * s else "not linear: at t=%g, %g, %g on a line of data the values are %.15g, %.15g, %.15g" % (t1, t2, t, y1, y2, o[nm, i])
            self.C.fail(self, p, lab, "not the same linear function of the data everywhere: " + bad[0], confirm, conj=bad[1])
    def on_lines(self, p, g, want, lab, tol=1e-9):
        """a claim that is out of reach for all data: is it false somewhere on a line of data?
        want(x): the claimed value for the data x (name -> term).  -> None or (description, inputs)"""
        if self.__dict__.setdefault("_tried", 0) >= 24: return None
        self._tried += 1
        for k in range(3):
            ls = self.__dict__.setdefault("_lines", {})
            if k not in ls: ls[k] = T.Line(k, self.ranges)
            L = ls[k]
            try:
                pc = [L.of(c) for c in p.pc if c.__class__ is B]
                if any(c is False for c in pc): continue
                pc = [c for c in pc if c.__class__ is B] + L.range()
                if not self.solver.feasible(pc): continue
                q = X.Path(); q.pc = pc; q.extra = {}; q.line = L
                bad = self.eq_terms(q, L.of(g), want(L), tol, lab)
                if bad is None: continue
                ts = []
                for c in [bad[1], []]:
                    r, mod = self.solver.check(pc + [x for x in c if x.__class__ is B], True, 5000)
                    if mod and T.TVAR in mod: ts.append(float(mod[T.TVAR]))
                ts += [-3.5, 2.5, 0.75, -0.3, 3.9, -1.5]
                names = self.names(p)
                return bad[0] + " (on a line of data)", [{n: L.value(n, t) for n, v in names.items() if v.__class__ is R} for t in ts]
            except (Unsupported, NonFinite, KeyError): continue
        return None
    def good(self):
        """paths that ran to the end"""
        return [p for p in self.paths if p.end is None]
    def normal(self, kinds=("mem", "nonfinite", "exit", "exc")):
        for p in self.paths:
            lab = self.label + " runs to completion"
            self.C.obligation()
            if p.end is None or p.end[0] not in kinds:
                self.C.discharge(); continue
            what = "%s: %s" % (p.end[0], p.end[1])
            self.C.fail(self, p, lab, what, lambda o: self.abnormal(o), san=True)
    def abnormal(self, o):
        """does the native run show the problem?"""
        if o.rc != 0: return "native run ended with status %r: %s" % (o.rc, (o.stderr or "")[-600:])
        if not o.ended: return "the program ended early, with status %r" % o.rc
        for n, d in o.outs.items():
            for i, x in d.items():
                if x.__class__ is float and not math.isfinite(x): return "%s[%d] = %r" % (n, i, x)
        return None
    # ---- environments
    def names(self, p):
        ts = [x for x in p.extra.get("inputs", {}).values() if isinstance(x, T.T)] + [c for c in p.pc if isinstance(c, T.T)]
        ts += [x for x in (self.config.get("tokens") or []) if isinstance(x, T.T)] + list(self.config.get("vars", ()))
        return T.free_vars(*ts)
    def randval(self, n, t, rng):
        if t.__class__ is I:
            r = self.ranges.get(n)
            return (rng.randint(*r) if r else rng.randint(0, 5)) & ((1 << t.w) - 1)
        if t.__class__ is B: return rng.random() < 0.5
        if n == T.TVAR: return round(rng.uniform(-4, 4) * 64) / 64.0
        base = n.split("[")[0]
        r = self.ranges.get(n, self.ranges.get(base, (-1.0, 1.0)))
        if callable(r): return r(rng)
        if isinstance(r, (int, float)): return float(r)
        return rng.uniform(*r)
    def holds_pc(self, p, env):
        try: return all(evaluate([c for c in p.pc if isinstance(c, T.T)], env, default=lambda t: 0.37))
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError, TypeError): return False
    def env_candidates(self, p, n=6, conj=None, envs=None):
        rng = random.Random(self.C.seed * 1000 + 17)
        names = self.names(p)
        out = []
        def full(e):
            e = dict(e)
            for k, t in names.items():
                if k not in e: e[k] = self.randval(k, t, rng)
            return e
        for e in (envs or []) + (self.envs or []):
            e = full(e)
            if self.holds_pc(p, e): out.append(e)
        if conj is not None:
            for c in conj:
                try:
                    r, mod = self.solver.check([x for x in p.pc if isinstance(x, T.T)] + [c], True, 10000)
                except Unsupported: continue
                if mod is not None: out.append(full({k: v for k, v in mod.items() if k in names}))
        tries = 0; got = 0
        while got < n and tries < 60:
            tries += 1
            e = full({})
            if self.holds_pc(p, e): out.append(e); got += 1
        if got < n and self.solver.lazy:
            for _ in range(4 * (n - got)):
                e = full(self.solver.spread(p.pc, {k: (lambda k=k, t=t: self.randval(k, t, rng)) for k, t in names.items() if t.__class__ is R}))
                if self.holds_pc(p, e): out.append(e); got += 1
                if got >= n: break
        elif got < n:
            try: mod = self.solver.model(p.pc)
            except Unsupported: mod = None
            if mod:
                for _ in range(min(3, n - got)): out.append(full({k: v for k, v in mod.items() if k in names}))
        return out
    # ---- native runs
    def native(self, p, env, san=(), valgrind=False):
        env = dict(env)
        if p.line is not None:
            env.setdefault(T.TVAR, 0.25)
            for n in list(p.line.ab): env[n] = p.line.value(n, env[T.TVAR])
        inputs = p.extra.get("inputs", {})
        ks = list(inputs)
        vals = evaluate([inputs[k] for k in ks], env, default=lambda t: 0.0)
        inp = {}
        for k, v in zip(ks, vals):
            t = inputs[k]
            if t.__class__ is I: v = sgn(v, t.w)
            elif t.__class__ is int: v = sgn(v & models.M64, 64)
            inp[k] = v
        for k, v in self.config.items():
            if k not in inp and v.__class__ in (int, float): inp[k] = v
        return self.native_inputs(inp, env, san, valgrind)
    def native_inputs(self, inp, env, san=(), valgrind=False, exe=None, environ={}):
        exe = exe or build.native(self.harness, self.cfg, self.units, san=san, ndebug=self.ndebug, extra=self.native_extra)
        o = Nat(self, env, inp)
        wd = tempfile.mkdtemp(prefix="run.", dir=build.workdir())
        try:
            with open(os.path.join(wd, "in"), "w") as f:
                for k, v in inp.items(): f.write("%s %.17g\n" % (k, v))
            if self.nat_files is not None:
                for n, txt in self.nat_files(env).items():
                    q = os.path.join(wd, n); os.makedirs(os.path.dirname(q), exist_ok=True)
                    if n.endswith("/"): continue
                    with open(q, "wb") as f: f.write(txt if isinstance(txt, bytes) else txt.encode())
            e = dict(os.environ, VP_IN=os.path.join(wd, "in"), VP_OUT=os.path.join(wd, "out"), OMP_NUM_THREADS="1", GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
                     ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
            e.update(environ)
            cmd = [exe]
            if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=99", exe]
            try:
                r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                o.rc = r.returncode; o.stdout = r.stdout.decode("latin1"); o.stderr = r.stderr.decode("latin1")
            except subprocess.TimeoutExpired:
                o.rc = "timeout"
            if os.path.exists(os.path.join(wd, "out")):
                for line in open(os.path.join(wd, "out")):
                    q = line.rstrip("\n").split(" ")
                    if q[0] == "d" and len(q) == 4: o.outs.setdefault(q[1], {})[int(q[2])] = float(q[3])
                    elif q[0] == "i" and len(q) == 4: o.outs.setdefault(q[1], {})[int(q[2])] = int(q[3])
                    elif q[0] == "m": o.marks.append(q[1])
                    elif q[0] == "end": o.ended = True
            for root, ds, fs in os.walk(wd):
                for n in fs:
                    q = os.path.relpath(os.path.join(root, n), wd)
                    if q not in ("in", "out"):
                        try: o.files[q] = open(os.path.join(root, n), "rb").read().decode("latin1")
                        except OSError: pass
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return o
    # ---- deciding equality of two terms on a path
    def norm(self, cond, cut=None, p=None):
        k = (tuple(sorted(cond.items())), id(cut), id(p))
        n = self._norm.get(k)
        if n is None:
            n = self._norm[k] = Norm(dict(cond)); n._p = p; n.opaque_ite = self.opaque_ite
            memo = {}
            def sign(x):
                if x.id not in memo:
                    memo[x.id] = 0
                    if p is not None and x.__class__ is R and T.free_vars(x):
                        try:
                            for c, g in ((T.rcmp("lt", x, 0.0), 1), (T.rcmp("lt", 0.0, x), -1)):
                                if self.solver.lazy and c.__class__ is B:
                                    if not self.solver.feasible([q for q in p.pc if q.__class__ is B] + [c]): memo[x.id] = g; break
                                elif c is False or (c.__class__ is B and str(self.solver.check([q for q in p.pc if q.__class__ is B] + [c], timeout=2000)) == "unsat"):
                                    memo[x.id] = g; break
                        except Unsupported: pass
                return memo[x.id]
            n.sign = sign
            if self.opaque_ite and p is not None:
                def decide(c):
                    pc = [q for q in p.pc if q.__class__ is B]
                    if self.solver.hard(c): return None
                    if not self.solver.feasible(pc + [c]): return False
                    if not self.solver.feasible(pc + [T.bnot(c)]): return True
                n.decide = decide
            for t in cut or ():
                if t.__class__ is R: n.memo[t.id] = ({((n.atom(("cut", t.id), t), 1),): Fraction(1)}, {})
            n._cut = cut       # keeps it alive: the key is its identity
        return n
    def eq_terms(self, p, a, b, tol=1e-9, what="", cond=None, pc=None, cut=None):
        """None if equal for every value of the inputs on this path, else (description, conj)"""
        cond = cond or {}; pc = p.pc if pc is None else pc
        if a is UNDEF or b is UNDEF: return ("an uninitialised value", [])
        if a is b and a.__class__ is R:          # the very same function of the inputs
            q_box([], 0, 1, tol, what); return None
        if a.__class__ is not R and b.__class__ is not R:
            a = float(a); b = float(b)
            if not (math.isfinite(a) and math.isfinite(b)):
                if a == b: return None
                return ("%r against %r" % (a, b), [])
            s = max(abs(a), abs(b), 1e-300)
            r = q_box([], (Fraction(a) - Fraction(b)) / Fraction(s), 1, tol, what)
            return None if r is None else ("%r against %r" % (a, b), [])
        N = self.norm(cond, cut, p)
        if N.deadline is not None: N.deadline = time.time() + self.expand_limit
        for x in (a, b):
            if x.__class__ is float and not math.isfinite(x): return ("a non-finite value %r" % x, [])
        try:
            res, pp, qq = N.diff(a, b)
        except NeedSplit as e:
            bad = None
            for val in (True, False):
                c = e.c if val else T.bnot(e.c)
                if c.__class__ is not B:
                    if not c: continue
                elif not self.solver.feasible(pc + [c]): continue
                cd = dict(cond); cd[e.c.id] = val
                r = self.eq_terms(p, a, b, tol, what, cd, pc + ([c] if c.__class__ is B else []), cut)
                if r is not None: bad = (r[0], r[1] + [c]); break
            return bad
        except NonFinite as e:
            return ("a division by an identically zero expression", [])
        s = max([abs(c) for c in pp.values()] + [abs(c) for c in qq.values()] + [Fraction(0)])
        if not s:
            q_box([], 0, 1, tol, what); return None
        r = q_box([(i, c / s) for i, c in enumerate(res.values())], 0, 1, tol, what)
        if r is None: return None
        return ("the two sides differ as functions of the inputs (%d of %d terms)" % (len([1 for c in res.values() if abs(c / s) > tol]), len(pp)), [])
    # ---- obligations
    def eq_cut(self, p, g, w, tol, lab, cut):
        """equality with the terms of cut as variables; subterms of the code's side that are
        themselves (decided to be) equal to one of them count as that variable"""
        cuts = self.__dict__.setdefault("_cuts", {})
        if id(cut) not in cuts: cuts[id(cut)] = (cut, [x for k in cut for x in k if x.__class__ is R])
        flat = cuts[id(cut)][1]
        bad = self.eq_terms(p, g, w, tol, lab, cut=flat)
        if bad is None: return None
        if self.differ(p, g, w): return bad
        ids = {x.id for x in flat}
        envs = self.env_candidates(p, 2)[:2]
        if len(envs) == 2:
            sub = [t for t in T.topo([g]) if t.__class__ is R and t.op not in ("c", "v") and t.id not in ids and t is not g]
            vs = []
            for e in envs:
                try: vs.append(evaluate(sub + flat, e, default=lambda t: 0.37))
                except (Unsupported, KeyError): break
            if len(vs) == 2:
                look = {}
                key = lambda x, y: ("%.7e" % x, "%.7e" % y)
                for j, x in enumerate(flat):
                    q = (vs[0][len(sub) + j], vs[1][len(sub) + j])
                    if abs(q[0]) > 1e-10: look.setdefault(key(*q), []).append((q, x))
                new = []
                for j, t in enumerate(sub):
                    q = (vs[0][j], vs[1][j])
                    for qq, x in look.get(key(*q), ()):
                        if self.slow >= 3: break
                        k = (t.id, x.id, id(p))
                        if k not in self._alias:
                            t0 = time.time()
                            self.norm({}, None, p).deadline = 1
                            try: self._alias[k] = self.eq_terms(p, t, x, tol, lab) is None
                            except Unsupported: self._alias[k] = False
                            if time.time() - t0 > self.expand_limit / 2: self.slow += 1
                        if self._alias[k]: new.append((t, x)); break
                if new:
                    for n in [v for k, v in self._norm.items() if k[1] == id(flat) and k[2] == id(p)]:
                        for t in T.topo([g, w]):
                            if t.id not in ids: n.memo.pop(t.id, None)
                        for t, x in new: n.memo[t.id] = n.memo[x.id]
                    bad = self.eq_terms(p, g, w, tol, lab, cut=flat)
                    if bad is None: return None
        if self.slow >= 3: raise Unsupported("expansion takes too long")
        t0 = time.time()
        try:
            self.norm({}, None, p).deadline = 1
            return self.eq_terms(p, g, w, tol, lab)
        finally:
            if time.time() - t0 > self.expand_limit / 2: self.slow += 1
    def differ(self, p, g, w, n=3, tol=1e-6):
        """do two terms differ numerically at some sampled input? (only decides what to try first)"""
        for env in self.env_candidates(p, n)[:n]:
            try: a, b = evaluate([g, w], env, default=lambda t: 0.37)
            except (Unsupported, KeyError): continue
            if not (math.isfinite(a) and math.isfinite(b)): continue
            if abs(a - b) > tol * max(abs(a), abs(b), 1e-9): return True
        return False
    def eq(self, p, label, fn, tol=1e-9, ntol=1e-7, key=None, envs=None, cut=None, confirm=None):
        """fn(o) -> (got, want[, scale]); got must equal want for every value.
        cut: groups of terms taken as variables of their own first (equality for every value of them implies
        equality); when the two sides differ so, they are expanded and compared in full"""
        C = self.C; lab = self.label + " " + label
        C.obligation()
        def confirm0(o):
            r = fn(o); s = r[2] if len(r) > 2 else 1.0
            g, w = r[0], r[1]
            if g is None: return "no value, expected %r" % (w,)
            if g.__class__ is int and w.__class__ is int: return None if g == w else "got %r, expected %r" % (g, w)
            g = float(g); w = float(w)
            if not math.isfinite(w): return None
            if not math.isfinite(g): return "got %r, expected %.17g" % (g, w)
            if abs(g - w) > ntol * max(abs(g), abs(w), abs(float(s))): return "got %.17g, expected %.17g" % (g, w)
            return None
        confirm = confirm or confirm0
        try:
            r = fn(Sym(self, p))
            g, w = r[0], r[1]
            if g is UNDEF: bad = ("an uninitialised value", [])
            elif g.__class__ in (int, I) or w.__class__ is I:
                e = T.icmp("eq", g, w) if (g.__class__ is I or w.__class__ is I) else (int(g) == int(w) if w.__class__ is int else float(sgn(g, 64)) == w)
                if e.__class__ is B:
                    rr = self.solver.check([c for c in p.pc if c.__class__ is B] + [T.bnot(e)])
                    STATS.queries += 1
                    if str(rr) == "unknown": raise Unsupported("no answer from the solver")
                    bad = None if str(rr) == "unsat" else ("integers differ", [T.bnot(e)])
                else: bad = None if e else ("got %r, expected %r" % (g, w), [])
            elif cut is not None:
                bad = self.eq_cut(p, g, w, tol, lab, cut)
            else: bad = self.eq_terms(p, g, w, tol, lab)
        except Missing as e: bad = (str(e), [])
        except (Unsupported, NonFinite) as e:
            C.undecided_(lab, str(e)); return None
        if bad is None:
            C.discharge(lab); return True
        return C.fail(self, p, lab, bad[0], confirm, conj=bad[1], key=key, envs=envs)
    def holds(self, p, label, fn, nfn=None, key=None, envs=None, timeout=20000):
        """fn(o) -> condition that must hold for every value"""
        C = self.C; lab = self.label + " " + label
        C.obligation()
        def confirm(o):
            r = (nfn or fn)(o)
            if r is True or r is None: return None
            if r is False: return "the condition is false"
            return str(r)
        conj = []
        try:
            c = fn(Sym(self, p))
            if isinstance(c, str): bad = c
            elif c.__class__ is not B: bad = None if c else "the condition is false"
            else:
                q = [x for x in p.pc if x.__class__ is B] + [T.bnot(c)]
                t0 = time.time()
                s = Solver(timeout)
                r = s.check(q)
                STATS.queries += 1; STATS.time += time.time() - t0
                if str(r) == "unknown": raise Unsupported("no answer from the solver")
                bad = None if str(r) == "unsat" else "the condition can be false"
                conj = [T.bnot(c)]
        except Missing as e: bad = str(e)
        except (Unsupported, NonFinite) as e:
            C.undecided_(lab, str(e)); return None
        if bad is None:
            C.discharge(lab); return True
        return C.fail(self, p, lab, bad, confirm, conj=conj, key=key, envs=envs)
    def rows(self, p, label, outs, names, M, c0=None, tol=1e-9, scale=None, ntol=1e-7, key=None, alt=None):
        """out k must equal c0[k] + sum_j M[k][j] names[j]; M may be a float matrix.  One query per row.
        alt: what the recorded finding (key) gives instead; anything else is a new violation."""
        C = self.C
        L = self._lin(names)
        M = np.asarray(M, float)
        sc = scale if scale is not None else (np.abs(M).max() if M.size else 1.0) or 1.0
        okall = True
        for k, (nm, i) in enumerate(outs):
            if callable(i): lab = "%s %s %s" % (self.label, label, nm); getv = i
            else: lab = "%s %s %s[%d]" % (self.label, label, nm, i); getv = lambda o, nm=nm, i=i: o[nm, i]
            C.obligation(); key_k = key
            s_k = sc[k] if isinstance(sc, np.ndarray) else sc
            c_k = 0.0 if c0 is None else float(c0[k]); s_k = float(s_k); g = None
            try:
                g = getv(Sym(self, p))
                if g is UNDEF: bad = ("an uninitialised value", None)
                elif p.line is not None:
                    w_ = lambda Z: T.rlin([1.0] + [float(x) for x in Z[k]], [c_k + s_k] + [p.line(n) for n in names])
                    bad = self.eq_terms(p, g + s_k, w_(M), tol, lab)
                    if bad and key and alt is not None and self.eq_terms(p, g + s_k, w_(alt), tol, lab) is not None: key_k = None
                    bad = bad and (bad[0], None)
                else:
                    c, v = L.of(g)
                    res = (np.zeros(len(names)) if v is None else v) - M[k]
                    dc = c - c_k
                    if not (np.all(np.isfinite(res)) and math.isfinite(dc)): bad = ("non-finite", None)
                    else:
                        nz = np.nonzero(res)[0]
                        r = q_box([(int(j), float(res[j]) / s_k) for j in nz], dc / s_k, 1, tol, lab)
                        bad = None if r is None else ("coefficients differ", res)
                        if bad and key and alt is not None:
                            res2 = (np.zeros(len(names)) if v is None else v) - alt[k]
                            if q_box([(int(j), float(res2[j]) / s_k) for j in np.nonzero(res2)[0]], dc / s_k, 1, tol, lab) is not None: key_k = None
            except Missing as e: bad = (str(e), None)
            except (Unsupported, NonFinite) as e:
                w_ = lambda Z: (lambda X: T.rlin([1.0] + [float(x) for x in Z[k]], [c_k + s_k] + [X(n) for n in names]))
                bad = None if p.line is not None or g.__class__ is not R else self.on_lines(p, g + s_k, w_(M), lab, tol)
                if bad is None: C.undecided_(lab, str(e)); okall = False; continue
                ext = bad[1]; bad = (bad[0], None)
                if key and alt is not None and self.on_lines(p, g + s_k, w_(alt), lab, tol) is not None: key_k = None
            else: ext = []
            if bad is None: C.discharge(lab); continue
            okall = False
            row = M[k]
            def confirm(o, getv=getv, row=row, c_k=c_k, s_k=s_k):
                g = float(getv(o)); x = np.array([o.env[n] for n in names])
                w = c_k + float(np.dot(row, x)); s = float(np.dot(np.abs(row), np.abs(x))) + abs(c_k) + s_k * float(np.abs(x).max())
                if not math.isfinite(g) or abs(g - w) > ntol * s: return "got %.17g, expected %.17g" % (g, w)
                return None
            envs = list(ext)
            if bad[1] is not None:
                j = int(np.argmax(np.abs(bad[1])))
                envs = [{n: (1.0 if jj == j else 0.0) for jj, n in enumerate(names)}, {n: (1.0 if bad[1][jj] > 0 else -1.0) for jj, n in enumerate(names)}]
            C.fail(self, p, lab, bad[0], confirm, key=key_k, envs=envs)
        return okall
    def quad(self, p, label, outs, names, mat, tol=1e-9, ntol=1e-7, key=None, scale=None, alt=None):
        """out must be the quadratic form mat(k) (symmetric) in names; the monomials are the solver's variables"""
        C = self.C; Q = self._lin(names, True)
        nv = len(names); iu = np.triu_indices(nv)
        okall = True
        for k, (nm, i) in enumerate(outs):
            if callable(i): lab = "%s %s %s" % (self.label, label, nm); getv = i
            else: lab = "%s %s %s[%d]" % (self.label, label, nm, i); getv = lambda o, nm=nm, i=i: o[nm, i]
            C.obligation(); key_k = key
            W = np.asarray(mat(k), float); s_k = float(scale or np.abs(W).max() or 1.0); g = None
            try:
                g = getv(Sym(self, p))
                if g is UNDEF: bad = ("an uninitialised value", None)
                elif p.line is not None:
                    xs_ = [p.line(n) for n in names]
                    bad = self.eq_terms(p, g + s_k, qform(W, xs_) + s_k, tol, lab)
                    if bad and key and alt is not None and self.eq_terms(p, g + s_k, qform(np.asarray(alt(k), float), xs_) + s_k, tol, lab) is not None: key_k = None
                    bad = bad and (bad[0], None)
                else:
                    c, v, M = Q.of(g)
                    D = (np.zeros((nv, nv)) if M is None else M) - W
                    D2 = np.where(np.eye(nv) > 0, D, 2 * D)
                    co = [("q%d_%d" % (a, b), float(D2[a, b]) / s_k) for a, b in zip(*iu) if D2[a, b] != 0]
                    if v is not None: co += [("l%d" % j, float(v[j]) / s_k) for j in np.nonzero(v)[0]]
                    if not (np.all(np.isfinite(D)) and math.isfinite(c)): bad = ("non-finite", D)
                    else:
                        r = q_box(co, c / s_k, 1, tol, lab)
                        bad = None if r is None else ("coefficients differ", D)
                        if bad and key and alt is not None:
                            D = (np.zeros((nv, nv)) if M is None else M) - np.asarray(alt(k), float)
                            D2 = np.where(np.eye(nv) > 0, D, 2 * D)
                            co = [("q%d_%d" % (a, b), float(D2[a, b]) / s_k) for a, b in zip(*iu) if D2[a, b] != 0]
                            if v is not None: co += [("l%d" % j, float(v[j]) / s_k) for j in np.nonzero(v)[0]]
                            if q_box(co, c / s_k, 1, tol, lab) is not None: key_k = None
            except Missing as e: bad = (str(e), None)
            except (Unsupported, NonFinite) as e:
                w_ = lambda Z: (lambda X: qform(Z, [X(n) for n in names]) + s_k)
                bad = None if p.line is not None or g.__class__ is not R else self.on_lines(p, g + s_k, w_(W), lab, tol)
                if bad is None: C.undecided_(lab, str(e)); okall = False; continue
                ext = bad[1]; bad = (bad[0], None)
                if key and alt is not None and self.on_lines(p, g + s_k, w_(np.asarray(alt(k), float)), lab, tol) is not None: key_k = None
            else: ext = []
            if bad is None: C.discharge(lab); continue
            okall = False
            def confirm(o, getv=getv, W=W, s_k=s_k):
                g = float(getv(o)); x = np.array([o.env[n] for n in names])
                w = float(x @ W @ x)
                if not math.isfinite(g) or abs(g - w) > ntol * s_k * max(float(np.abs(x).max()) ** 2, 1e-30): return "got %.17g, expected %.17g" % (g, w)
                return None
            envs = list(ext)
            if bad[1] is not None:
                a, b = np.unravel_index(int(np.argmax(np.abs(bad[1]))), bad[1].shape)
                envs = [{n: (1.0 if jj in (a, b) else 0.0) for jj, n in enumerate(names)}, {n: (1.0 if jj == a else -1.0 if jj == b else 0.0) for jj, n in enumerate(names)}]
            C.fail(self, p, lab, bad[0], confirm, key=key_k, envs=envs)
        return okall
    def _lin(self, names, quad=False):
        k = (quad, tuple(names))
        d = self.__dict__.setdefault("_lins", {})
        if k not in d: d[k] = (Quad if quad else Lin)(list(names))
        return d[k]
    def unchanged(self, p, label, name, out, n, key=None):
        for i in range(n):
            self.eq(p, "%s: %s[%d] unchanged" % (label, name, i), lambda o, i=i: (o[out, i], o.v(name, i)), key=key)
    def validate(self, p=None, n=1):
        """compare the symbolic outputs with a native run (checks the executor, not the property)"""
        if not self.ok: return
        p = p or (self.good() or [None])[0]
        if p is None: return
        for env in self.env_candidates(p, n)[:n]:
            try: o = self.native(p, env)
            except build.BuildError as e: self.C.note("native build failed: " + str(e)[-300:]); return
            if not o.ended: self.C.undecided_(self.label, "native run for validation did not finish: %r" % o.rc); return
            cnt = 0
            for nm, d in p.outs.items():
                ks = [k for k in d]
                try: vals = evaluate([d[k] for k in ks], env, default=lambda t: 0.0)
                except (Unsupported, KeyError): continue
                for k, w in zip(ks, vals):
                    if nm not in o.outs or k not in o.outs[nm]: self.C.undecided_(self.label, "validation: %s[%d] missing natively" % (nm, k)); return
                    g = o.outs[nm][k]
                    if d[k].__class__ in (int, I): w = sgn(w & models.M64, 64)
                    elif w is UNDEF: continue
                    if not (abs(g - w) <= 1e-7 * max(1.0, abs(g), abs(w)) or g == w):
                        if nm in self.config.get("novalidate", ()): continue
                        self.C.undecided_(self.label, "executor and native run disagree on %s[%d]: %r / %r" % (nm, k, w, g)); return
                    cnt += 1
            self.C.rec["validated"] += cnt
            self.C.rec["validations"] += 1

def qform(W, xs):
    """sum W_ij x_i x_j"""
    s = 0.0
    for i, x in enumerate(xs):
        y = T.rlin([float(v) for v in W[i]], xs)
        s = s + (x * y if x.__class__ is R or y.__class__ is R else float(x * y))
    return s

class Check:
    def __init__(self, pid, tier=None, sub=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rec = dict(viol=[], known=[], undecided=[], obligations=0, discharged=0, cases=[], samples=[], notes=[], broken=[], validated=0, validations=0, witnesses=[], unconfirmed=[])
        self.bounds = []; self.assumptions = []
        self.knownkeys = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                q = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if q and q.group(1) == pid: self.knownkeys[q.group(2)] = q.group(3)
        self.child = sub is not None
        if not self.child:
            import glob
            for f in glob.glob(os.path.join(VERIF, "evidence", "replay", pid + "-*")):
                try: os.unlink(f)
                except OSError: pass
        self.fails_done = {}
    # ---- bookkeeping
    def obligation(self): self.rec["obligations"] += 1
    def discharge(self, lab=None):
        self.rec["discharged"] += 1
        if lab and (len(self.rec["samples"]) < 6): self.rec["samples"].append(lab)
    def undecided_(self, lab, why):
        if len(self.rec["undecided"]) < 40: self.rec["undecided"].append("%s: %s" % (lab, why[:300]))
        else: self.rec["undecided"][-1] = "... and more"
    def note(self, s): self.rec["notes"].append(s)
    def broken(self, s): self.rec["broken"].append(s)
    def witness(self, s): self.rec["witnesses"].append(s)
    def casedone(self, case, dt):
        self.rec["cases"].append(dict(case=case.label, paths=len(case.paths), seconds=round(dt, 2),
                                      config={k: (v if v.__class__ in (int, float, str) else "symbolic/other") for k, v in case.config.items() if k not in ("reals", "files", "tokens", "existing", "fork_hook")}))
    def case(self, *a, **k): return Case(self, *a, **k)
    def require(self, cond, what):
        """vacuity guard: something the check relies on must really occur"""
        if cond: self.witness(what)
        else: self.undecided_("vacuity", "did not occur: " + what)
    # ---- failures
    def fail(self, case, p, lab, why, confirm, conj=None, key=None, envs=None, san=False):
        g = (case.label, key, re.sub(r"\d+", "#", lab))
        k = self.fails_done.get(g, 0)
        self.fails_done[g] = k + 1
        if k >= 2: return False            # the same failure again: enough has been replayed
        if key is not None and key in self.knownkeys and any(x["key"] == key for x in self.rec["known"]): return False
        if len(self.rec["viol"]) >= 5: return False
        try: cands = case.env_candidates(p, conj=conj and [c for c in conj if c.__class__ is B], envs=envs)
        except Exception as e:
            cands = []; self.note("no inputs for %s: %s" % (lab, e))
        if not cands: cands = [{k: case.randval(k, t, random.Random(self.seed)) for k, t in case.names(p).items()}]
        modes = [((), False)]
        if san or "uninitialised" in why: modes = [((), False), (("address", "undefined"), False), ((), True)]
        for mode, vg in modes:
            for env in cands[:8] if not vg else cands[:1]:
                try:
                    o = case.native(p, env, san=mode, valgrind=vg)
                    if o.rc == 77: continue      # vp_assume: outside the domain (rounding)
                    if not san and (not o.ended):
                        r = "the run ended with status %r: %s" % (o.rc, o.stderr[-300:])
                    else:
                        try: r = confirm(o)
                        except Missing as e: r = str(e)
                    if r is None and vg and o.rc == 99: r = "memcheck: " + o.stderr[:600]
                    if r is None and mode and o.rc == 99: r = "sanitizer: " + o.stderr[:600]
                except build.BuildError as e:
                    self.broken("native build: " + str(e)[-600:]); return False
                if r is not None:
                    self.report(case, p, lab, why, r, env, o, key, mode, vg)
                    return False
        self.rec["unconfirmed"].append("%s: %s" % (lab, why[:200]))
        return False
    def report(self, case, p, lab, why, what, env, o, key, mode=(), vg=False):
        rep = dict(property=self.pid, obligation=lab, solver=why, native=what, cfg=sorted(case.cfg), ndebug=case.ndebug, units=case.units,
                   harness=case.harness, inputs=o.inputs, san=list(mode), valgrind=vg, native_extra=list(case.native_extra))
        if case.nat_files is not None:
            rep["files"] = {k: (v if isinstance(v, str) else v.decode("latin1")) for k, v in case.nat_files(env).items()}
        self.report_raw(lab, why, what, rep, key)
    def report_raw(self, lab, why, what, rep, key=None):
        if key is not None and key in self.knownkeys:
            self.rec["known"].append(dict(key=key, label=lab, what=what)); return
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.pid, os.getpid(), len(self.rec["viol"]) + 1))
        with open(path, "w") as f: json.dump(rep, f, indent=1, default=str)
        self.rec["viol"].append(dict(label=lab, why=why, what=what, replay=path))
    # ---- running parts in parallel
    def parallel(self, jobs, n=8):
        """jobs: (name, function(C)); each in its own process"""
        jobs = list(jobs); running = {}
        limit = float(os.environ.get("VP_LIMIT", "100000" if self.thorough else "600"))
        each = limit if self.thorough else limit / 2
        grace = 600 if self.thorough else 60; capped = False
        while jobs or running:
            if time.time() - self.t0 > limit:
                for pid, (name, f) in running.items():
                    try: os.kill(pid, 9); os.waitpid(pid, 0)
                    except OSError: pass
                    f.close(); self.undecided_(name, "stopped: out of time")
                for name, fn in jobs: self.undecided_(name, "not started: out of time")
                return
            while jobs and len(running) < n:
                name, fn = jobs.pop(0)
                r, w = os.pipe()
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    c = Check(self.pid, self.tier, sub=True)
                    for k in STATS.__dict__:
                        STATS.__dict__[k] = {} if k == "functions" else 0
                    import signal
                    def late(*a): raise OutOfTime("stopped after %d s" % share)
                    share = max(1.0, min(each, limit - (time.time() - self.t0) - 12.0))
                    signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, share, 5.0)
                    try:
                        try: fn(c)
                        finally: signal.setitimer(signal.ITIMER_REAL, 0)
                    except BaseException as e:
                        c.undecided_(name, "%s: %s" % (e.__class__.__name__, e))
                        c.note(traceback.format_exc()[-1500:])
                    data = pickle.dumps((c.rec, c.bounds, c.assumptions, dict(STATS.__dict__)))
                    with os.fdopen(w, "wb") as f: f.write(data)
                    os._exit(0)
                os.close(w)
                running[pid] = (name, os.fdopen(r, "rb"))
            # drain whichever finishes
            import select
            fds = {f: (pid, name) for pid, (name, f) in running.items()}
            rd, _, _ = select.select(list(fds), [], [], 1.0)
            for f in rd:
                pid, name = fds[f]
                data = f.read(); f.close()
                os.waitpid(pid, 0); del running[pid]
                try: rec, b, a, st = pickle.loads(data)
                except Exception:
                    self.undecided_(name, "the worker ended early"); continue
                self.merge(rec, b, a, st)
            if self.rec["viol"] and not capped:     # a confirmed violation is the answer: the rest gets a little more time
                capped = True; limit = min(limit, time.time() - self.t0 + grace)
    def merge(self, rec, b, a, st):
        for k, v in rec.items():
            self.rec[k] = self.rec[k] + v
        for x in b:
            if x not in self.bounds: self.bounds.append(x)
        for x in a:
            if x not in self.assumptions: self.assumptions.append(x)
        for k, v in st.items():
            if k == "functions":
                for n, c in v.items(): STATS.functions[n] = STATS.functions.get(n, 0) + c
            elif k == "largest": STATS.largest = max(STATS.largest, v)
            else: STATS.__dict__[k] += v
    # ---- the end
    def finish(self, explanation):
        rec = self.rec
        # violations found twice by different workers: keep distinct labels
        seen = set(); viol = []
        for v in rec["viol"]:
            k = re.sub(r"\d+", "#", v["label"])
            if k in seen and len(viol) >= 1: continue
            seen.add(k); viol.append(v)
        fns = sorted(x for x in STATS.functions)
        dem = demangle(fns)
        own = sorted({d for d in dem if not re.match(r"(std::|vp_|operator|__|decltype|void std|bool std|unsigned|double std|char\*|gnu)", d) and "std::__" not in d.split("(")[0]})
        cov = dict(explanation=explanation, functions_encoded=own, functions_encoded_total=len(fns), bounds=self.bounds,
                   obligations=rec["obligations"], discharged=rec["discharged"], undecided=len(rec["undecided"]),
                   solver_queries=STATS.queries, solver_unsat=STATS.unsat, solver_sat=STATS.sat, solver_seconds=round(STATS.time, 3),
                   feasibility_queries=STATS.feas, feasibility_seconds=round(STATS.feas_time, 3), paths=STATS.paths,
                   largest_query_terms=STATS.largest, cases=rec["cases"][:60], samples=rec["samples"][:6], vacuity_witnesses=rec["witnesses"][:40],
                   executor_validation=dict(native_runs=rec["validations"], values_compared=rec["validated"]),
                   unconfirmed_counterexamples=rec["unconfirmed"][:20], undecided_list=rec["undecided"][:20], known_findings=rec["known"], notes=rec["notes"][:10])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", coverage=cov, assumptions=self.assumptions or ["doubles are treated as real numbers"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d obligations, %d discharged, %d undecided; %d queries, %.2f s in the solver, %d paths, %.1f s" % (
            self.pid, self.tier, rec["obligations"], rec["discharged"], len(rec["undecided"]), STATS.queries, STATS.time, STATS.paths, time.time() - self.t0))
        for x in rec["broken"][:3]: print("BROKEN: " + x)
        for x in rec["undecided"][:10]: print("UNDECIDED: " + x)
        for x in rec["unconfirmed"][:10]: print("UNCONFIRMED (solver counterexample that the real code does not show): " + x)
        for x in rec["notes"][:2]: print("NOTE: " + x[-700:])
        done = set()
        for k in rec["known"]:
            if k["key"] in done: continue
            done.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.knownkeys[k["key"]]))
        for v in viol[:5]:
            print("  %s\n    %s\n    %s" % (v["label"], v["why"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        sys.stdout.flush()
        if viol: return 1
        if rec["broken"] and not rec["discharged"]: return 2
        if rec["obligations"] == 0 or (rec["discharged"] == 0): return 3
        return 0

def demangle(names):
    names = [n.lstrip("@").strip('"') for n in names]
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")[:len(names)]
    except OSError: return names

def coefs(case, t):
    """a term that is linear in variables, with constant coefficients: (const, {name: Fraction})"""
    if t.__class__ is not R: return Fraction(t), {}
    N = case.norm({})
    n, d = N.of(t)
    if d: raise Unsupported("not linear: a symbolic denominator")
    c = Fraction(0); out = {}
    for m, k in n.items():
        if m == (): c = k; continue
        if len(m) != 1 or m[0][1] != 1: raise Unsupported("not linear")
        pl = N.alist[m[0][0]]
        if not isinstance(pl, T.T) or pl.op != "v": raise Unsupported("not linear: function of the data")
        out[pl.args[0]] = k
    return c, out
