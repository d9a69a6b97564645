from eom import *
import race, subprocess
EXPLANATION = ("Every parallel region the program enters is executed symbolically from clang's IR, OpenMP's work-sharing entry points giving the thread one iteration whose number is a variable (sections: one section whose number is a variable), from arbitrary field contents; every access to memory other threads can reach is recorded with its address as a term. "
               "For two copies of the record the solver decides that no two different iterations (or two threads outside a loop) touch overlapping bytes, one of them writing, without a common lock or an atomic access or a barrier between; likewise that no thread carries private state from one iteration to another and that no stored value depends on the thread number. "
               "A candidate counts only if the real code shows it under an instrumented OpenMP run-time: a report of the thread sanitizer, or outputs that differ between thread counts or schedules.")
UM = ["cheb", "finite_diff", "sphere", "grid", "params", "field", "scalar_eom"]
UALL = UM + ["initial_data", "io", "main"]
# every operation twice: the first call may set something up, the second is the usual one
H_OPS = PRE_E + r'''
typedef std::vector<double> vec;
extern "C" void vp_main() {
  SETUP
  const size_t nl=g.nl();
  for (int turn=0; turn<2; turn++) {
    const std::string s(1,char('0'+turn)); vec f=vp_vec(turn?"f1":"f0",N), p=vp_vec(turn?"p1":"p0",N), a(N,0.0), b(nx*nl,0.0);
    #define OUT(n,v) vp_outv((std::string(n)+s).c_str(),v)
    g.set_partial_phi(f,a); OUT("phi",a); g.set_spherical_lap(f,a); OUT("lap",a); g.set_sphereX(f,a); OUT("X",a);
    g.set_partial_R(f,a); OUT("R",a); g.set_partial_r(f,a); OUT("r",a); g.set_partial2_r(f,a); OUT("rr",a);
    g.set_angular_power_spectrum(f,b); OUT("l",b);
#if USE_CHEB
    g.set_n_l_coef(f,b); OUT("n",b);
#endif
    vec h(f); for (size_t i=0;i<N;i++) h[i]+=0.01*p[i];
    vp_out((std::string("res")+s).c_str(),0,g.norm_indep_res(0.01,f,h,p)); vp_out((std::string("tv")+s).c_str(),0,g.total_variation(f));
    g.filter(f); OUT("f",f);
  }
  Scalar_eom e(g,par); Field F("f",N,0.0), P("p",N,0.0); F.n=vp_vec("F",N); P.n=vp_vec("P",N);
  for (int turn=0; turn<2; turn++) {
    const std::string s(1,char('0'+turn)); vec r(N,0.0), a(N,0.0), b(N,0.0);
    e.set_k(g,F.n,P.n,a,b); OUT("kf",a); OUT("kp",b);
    e.set_rho(g,F.n,P.n,r); OUT("rho",r);
    e.time_step(g,F,P); OUT("F",F.np1); OUT("P",P.np1); OUT("G",F.n);
    F.shift(); P.shift(); OUT("H",F.n); OUT("Q",P.n);
  }
}
'''
H_ALL = r'''
#include "vp.h"
int sfk_main(int, char**);
extern "C" void vp_main() {
  static char a0[]="sim", a1[]="params.txt", a2[]="run"; char *av[]={a0,a1,a2,0};
  vp_outi("rc",0,sfk_main(3,av));
}
'''
RG26 = {n: (-0.3, 0.3) for n in ("f0", "f1", "p0", "p1", "F", "P")}
def short(n):
    d = chk_demangle(n)
    return re.sub(r"\(.*?\)( const)?", "", d)[:90]
def chk_demangle(n):
    from chk import demangle
    return demangle([n])[0]
def state(sizes):
    """the fields at the start of a region may hold anything"""
    def f(m):
        k = 0
        for o in list(m.O.values()):
            if o.kind not in ("global", "stack", "static") and (o.hi - o.lo) in sizes and not o.s and len(o.d) * 8 == o.hi - o.lo and all(v.__class__ is float for v in o.d.values()):
                for a in sorted(o.d): o.d[a] = V("s!%d[%d]" % (k, (a - o.lo) // 8))
                k += 1
        m.extra["havocked"] = k
    return f
def reals_fn(seed):
    rng = random.Random(seed); vals = {}
    return lambda n, i: vals.setdefault((n, i), round(rng.uniform(-0.3, 0.3), 3))
def concrete(s, whole):
    v = dict(DEFAULT, **s); v.update(black_hole_mass=0.5, black_hole_spin=0.25, Rmin=0.95, rl=1.2, ru=30.0, V2=0.3, V3=0.2, V4=0.1, k1=0.3, km1=0.1, k2=0.2, amp=0.3, nt=3, t_step_save=1)
    return param_file(v)
def case(C, name, whole, s, cfg, target, max_paths=400):
    q, nat = concrete(s, whole)
    n = s["nx"] * s["nlat"] * s["nphi"]
    sizes = {8 * n, 8 * s["nx"] * s["nl"]}
    conf = dict(q, reals=reals_fn(3), fork_hook=race.hook(target, state(sizes) if target is not None else None), lazy=True)
    c = C.case(name, H_ALL if whole else H_OPS, cfg=cfg, units=UALL if whole else UM, config=conf, ranges=RG26, max_paths=max_paths,
                  nat_files=lambda env: dict({"run/": ""} if whole else {}, **nat(env)))
    c.keep = KEEP
    return c
KEEP = r"\.omp_outlined"
def regions(C, whole, s, cfg):
    c = case(C, "regions", whole, s, cfg, None); c.run()
    for p in c.good(): return list(p.extra.get("regions", ())), c
    return None, c
RACE = re.compile(r"WARNING: ThreadSanitizer: (data race|heap-use-after-free|double lock)")
def numbers(t): return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)", t)]
def differ(a, b):
    if a.rc != b.rc or a.ended != b.ended: return "the run ends with %r instead of %r" % (b.rc, a.rc)
    for n in a.outs:
        d = a.outs[n]; e = b.outs.get(n, {})
        sc = max([abs(x) for x in d.values() if math.isfinite(x)] + [1e-300])
        for k in d:
            x, y = d[k], e.get(k)
            if y is None: return "%s[%d] is missing" % (n, k)
            if x != y and not (abs(x - y) <= 1e-9 * sc) and not (x != x and y != y): return "%s[%d] is %.17g instead of %.17g" % (n, k, y, x)
    if sorted(a.files) != sorted(b.files): return "the files are %r instead of %r" % (sorted(b.files), sorted(a.files))
    for n in a.files:
        x, y = numbers(a.files[n]), numbers(b.files[n])
        if len(x) != len(y): return "%s has %d numbers instead of %d" % (n, len(y), len(x))
        for i, (u, v) in enumerate(zip(x, y)):
            if u != v and not abs(u - v) <= 1e-6 * max(abs(u), abs(v), 1.0): return "%s number %d is %.17g instead of %.17g" % (n, i, v, u)
    return None
def natively(c, p, inputs, rounds=2):
    """(what the real code shows or None, how it was run)"""
    plain = build.native(c.harness, c.cfg, c.units, ndebug=c.ndebug, omp=True)
    tsan = build.native(c.harness, c.cfg, c.units, san=("thread",), ndebug=c.ndebug, omp=True)
    for inp in inputs[:rounds]:
        def go(exe, threads, seq=0):
            e = dict(VP_THREADS=str(threads), TSAN_OPTIONS="exitcode=0 halt_on_error=0 history_size=5")
            if seq: e["VP_SEQ"] = str(seq)
            return c.native_inputs(inp, {}, exe=exe, environ=e), e
        o, e = go(tsan, 3)
        if RACE.search(o.stderr or ""):
            t = o.stderr; t = t[t.index("WARNING: ThreadSanitizer"):]
            return "thread sanitizer, 3 threads: " + " ".join(t.split())[:900], inp, e, "tsan"
        ref, _ = go(plain, 1)
        for threads, seq in ((3, 1), (3, 2), (2, 1), (5, 2), (4, 0), (3, 0)):
            o, e = go(plain, threads, seq)
            if o.rc == 88: continue
            d = differ(ref, o)
            if d: return "%d threads%s against one: %s" % (threads, {0: "", 1: " one after the other", 2: " in reverse order"}[seq], d), inp, e, "plain"
    return None, None, None, None
def inputs_of(c, p, n):
    out = []
    for k in range(n):
        rng = random.Random(100 + k + c.C.seed); r = {}
        odd = [0.0, 1e-300, 1e-18, -1e-9, 0.25, -0.25, 1e6, -1e35, 1e35]
        for x, t in p.extra.get("inputs", {}).items(): r[x] = (rng.uniform(-0.3, 0.3) if k != 1 else rng.choice(odd)) if t.__class__ in (float, R) else sgn(t, 64) if t.__class__ is int else 0
        for x, v in c.config.items():
            if x not in r and v.__class__ in (int, float): r[x] = v
        out.append(r)
    return out
def analyse(whole, s, cfg, target, name):
    def f(C):
        c = case(C, "region %s (occurrence %d)" % (short(name), target), whole, s, cfg, target)
        c.run(expect_normal=False)
        if not c.ok: return
        ps = [p for p in c.paths if p.end is not None and p.end[0] == "exit" and p.extra.get("race") is not None]
        for p in c.paths:
            if p not in ps: C.undecided_(c.label, "a path ends with %r" % (p.end,))
        if not ps: C.undecided_(c.label, "no path"); return
        cand = []
        def stat(r):
            STATS.queries += 1
            if r == "unsat": STATS.unsat += 1
            elif r == "sat": STATS.sat += 1
        def solve_(cond):
            t0 = time.time(); S = Solver(30000); r = S.check(cond, True); STATS.time += time.time() - t0
            return r
        try: res = race.conflicts(ps, solve_, stat)
        except Unsupported as e: C.obligation(); C.undecided_(c.label, str(e)); return
        for (kind, site, size, _), hit in res:
            C.obligation(); lab = "%s: a %d-byte object (%s%s) is touched by one thread only, or only read, or guarded" % (c.label, size, kind, " " + site if site else "")
            if hit is None: C.discharge(lab)
            else: cand.append((lab, "two threads touch the same bytes, one writing: %s" % {k: v for k, v in (hit[0] or {}).items() if "!" in k and not k.startswith("h!")}))
        C.obligation(); lab = "%s: no private state passes between iterations" % c.label
        car = [x for p in ps for x in p.extra["race"].carried]
        if car: cand.append((lab, "an iteration reads what an earlier one left in a private %d-byte object" % car[0][3]))
        else: C.discharge(lab)
        C.obligation(); lab = "%s: nothing stored depends on the thread number" % c.label
        bt = [x for p in ps for x in p.extra["race"].bytid]
        bp = any("tid!" in T.free_vars(q) for p in ps for q in p.pc if q.__class__ is B and q.op not in ("le", "lt", "ule", "ult", "slt", "sle")) if any(p.extra["race"].tidvar is not None for p in ps) else False
        bp = bp or (any(p.extra["race"].tidvar is not None for p in ps) and len(ps) > 1)
        if bt or bp: cand.append((lab, "a stored value or the path depends on the thread number"))
        else: C.discharge(lab)
        if any(p.extra["race"].log and any(k[1] != 'r' for k in p.extra["race"].log) for p in ps): C.witness("the region %s writes shared memory" % short(name))
        if cand:
            p = ps[0]
            r, inp, e, how = natively(c, p, inputs_of(c, p, 3), 3)
            for lab, why in cand:
                if r is None: C.rec["unconfirmed"].append("%s: %s" % (lab, why)); continue
                rep = dict(property="C26", obligation=lab, solver=why, native=r, cfg=sorted(c.cfg), ndebug=c.ndebug, units=c.units, harness=c.harness, inputs=inp, environ=e, build=how, files={k: v for k, v in c.nat_files({}).items()})
                C.report_raw(lab, why, r, rep)
                break
    return f
def validate(whole, s, cfg):
    """the sanitizer and other schedules on the real code must agree with the encoding"""
    def f(C):
        c = case(C, "sanitizer and schedules", whole, s, cfg, None); c.run()
        p = (c.good() or [None])[0]
        if p is None: return
        r = natively(c, p, inputs_of(c, p, 1), 1)[0]
        C.obligation()
        if r is None: C.discharge(); C.rec["validations"] += 1; C.rec["validated"] += sum(len(d) for d in p.outs.values())
        else: C.undecided_(c.label, "seen natively: " + r[:300])
    return f
def listing(s, cfgs):
    def f(C):
        for cfg in cfgs:
            out = {}
            for whole in (False, True):
                r, c = regions(C, whole, s, cfg)
                if r is None: C.undecided_("regions", "the run does not end normally"); continue
                for k, n in enumerate(r): out.setdefault(n, []).append((whole, k))
            C.rec["notes"].append("REGIONS " + json.dumps([sorted(cfg), out]))
    return f
def check(C):
    s = shape(9, 1, 1, 2, 3)
    sizes = [s] + ([shape(10, 2, 2, 4, 5)] if C.thorough else [])
    warm(H_OPS, units=UM, keep=KEEP); warm(H_ALL, units=UALL, keep=KEEP)
    jobs = []
    for s in sizes:
        C.parallel([("regions %s" % (cfg,), listing(s, [cfg])) for cfg in CFGS])
        notes = [n for n in C.rec["notes"] if n.startswith("REGIONS ")]
        C.rec["notes"] = [n for n in C.rec["notes"] if not n.startswith("REGIONS ")]
        names = set()
        for n in notes:
            cfg, d = json.loads(n[8:])
            for name, occ in d.items():
                names.add(name)
                ops = [k for w, k in occ if not w]; al = [k for w, k in occ if w]
                pick = [(False, k) for k in sorted({ops[0], ops[-1]})] if ops else [(True, k) for k in sorted({al[0], al[-1]})]
                for w, k in pick: jobs.append(("%s %d %s" % (name[:60], k, cfg), analyse(w, s, tuple(cfg), k, name)))
        C.require(len(names) >= 12, "at least a dozen parallel regions (%d)" % len(names))
    jobs += [("sanitizer %s" % (cfg,), validate(False, sizes[0], cfg)) for cfg in CFGS]
    jobs.sort(key=lambda j: "sections" not in j[0] and "sanitizer" not in j[0])
    C.parallel(jobs)
    C.bounds.append("grid %s, both discretisations and angular orders; every parallel region entered by the operators, the equations of motion or the whole program; first and last time it is entered; every pair of iterations, sections and threads; any field contents" % ", ".join(map(sh_str, sizes)))
    C.assumptions += ["SHTns transforms may be called at once from several threads with the same configuration, FFTW plans may be executed (not made or destroyed) so, as their documentation says", "regions entered inside another region are analysed where they are entered outermost", "which iterations a thread gets is not known (any schedule), except that different threads get different ones"]
