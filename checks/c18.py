from eom import *
EXPLANATION = ("Symbolic execution of Scalar_eom::time_step, set_level, Field and Grid::filter from clang's IR with the time derivatives replaced by an uninterpreted function of all field values (so the result holds for every right-hand side), all data and the step size symbolic, for two steps with a shift between; the solver decides that every point of the advanced and of the kept level is what filtering and the classical Runge-Kutta combination give. "
               "A second case runs the real right-hand side (all data and the step size symbolic, linear couplings; and concrete data with a nonlinear potential).")
H = PRE_E + r'''
typedef std::vector<double> vec;
extern "C" void vp_main() {
  SETUP
  Scalar_eom e(g,par);
  Field f("f",N,0.0), p("p",N,0.0);
  for (size_t i=0;i<N;i++) { f.n[i]=vp_real("f",i); p.n[i]=vp_real("p",i); }
  if (vp_size("junk")) for (size_t i=0;i<N;i++) { f.np1[i]=vp_real("ja",i); p.np1[i]=vp_real("jb",i); f.l[i]=vp_real("jc",i); p.l[i]=vp_real("jd",i); f.k[i]=vp_real("je",i); p.k[i]=vp_real("jf",i); }
  vec F=f.n, P=p.n;
  const double dt=par.dt();
  const size_t steps=vp_size("steps");
  for (size_t s=0;s<steps;s++) {
    const long o=s*N;
    /* by hand */
    g.filter(F); g.filter(P);
    vec a(N),b(N),kf(N),kp(N),lf(N),lp(N);
    e.set_k(g,F,P,kf,kp);
    for (size_t i=0;i<N;i++) { a[i]=kf[i]; b[i]=kp[i]; lf[i]=F[i]+dt/2*kf[i]; lp[i]=P[i]+dt/2*kp[i]; }
    e.set_k(g,lf,lp,kf,kp);
    for (size_t i=0;i<N;i++) { a[i]+=2*kf[i]; b[i]+=2*kp[i]; lf[i]=F[i]+dt/2*kf[i]; lp[i]=P[i]+dt/2*kp[i]; }
    e.set_k(g,lf,lp,kf,kp);
    for (size_t i=0;i<N;i++) { a[i]+=2*kf[i]; b[i]+=2*kp[i]; lf[i]=F[i]+dt*kf[i]; lp[i]=P[i]+dt*kp[i]; }
    e.set_k(g,lf,lp,kf,kp);
    for (size_t i=0;i<N;i++) { a[i]=F[i]+dt/6*(a[i]+kf[i]); b[i]=P[i]+dt/6*(b[i]+kp[i]); }
    /* the code */
    e.time_step(g,f,p);
    for (size_t i=0;i<N;i++) {
      vp_out("rf",o+i,a[i]); vp_out("rp",o+i,b[i]); vp_out("f",o+i,f.np1[i]); vp_out("p",o+i,p.np1[i]);
      vp_out("kf",o+i,f.n[i]); vp_out("kp",o+i,p.n[i]); vp_out("Kf",o+i,F[i]); vp_out("Kp",o+i,P[i]);
    }
    f.shift(); p.shift();
    for (size_t i=0;i<N;i++) { vp_out("sf",o+i,f.n[i]); vp_out("sp",o+i,p.n[i]); vp_out("tf",o+i,f.np1[i]); vp_out("tp",o+i,p.np1[i]); }
    F=a; P=b;
  }
}
'''
CALLS = [0]
def set_k(m, this, g, f, p, fk, pk):
    """an uninterpreted function of all values of both fields"""
    def vec(v):
        b, e = m.load(v, 8), m.load(v + 8, 8)
        return b, (e - b) // 8
    (a, n), (b, n2), (c, n3), (d, n4) = vec(f), vec(p), vec(fk), vec(pk)
    if not n == n2 == n3 == n4: raise MemError("set_k on arrays of different sizes")
    x = [m.load(a + 8 * i, 8) for i in range(n)] + [m.load(b + 8 * i, 8) for i in range(n)]
    if any(v is UNDEF for v in x): raise MemError("set_k on uninitialised data")
    if not any(v.__class__ is R for v in x): raise Unsupported("the right-hand side of constants")
    # the arguments up to normal form, so that equal arguments give equal terms
    N = m.__dict__.setdefault("_kn", Norm({}))
    key = tuple(N.key_of(N.of(v)) for v in x)
    memo = m.__dict__.setdefault("_kmemo", {})
    if key not in memo:
        memo[key] = len(memo)
    j = memo[key]
    m.extra["set_k"] = m.extra.get("set_k", 0) + 1
    for i in range(n):
        m.store(c + 8 * i, T.rvar("Kf!%d[%d]" % (j, i)), 8)
        m.store(d + 8 * i, T.rvar("Kp!%d[%d]" % (j, i)), 8)
OV = [(r"_ZNK?10Scalar_eom5set_kE", set_k)]
def filt(m, this, v):
    """an uninterpreted function of all values of the array"""
    a = m.load(v, 8); n = (m.load(v + 8, 8) - a) // 8
    x = [m.load(a + 8 * i, 8) for i in range(n)]
    if any(q is UNDEF for q in x): raise MemError("filter on uninitialised data")
    if not any(q.__class__ is R for q in x): raise Unsupported("the filter of constants")
    N = m.__dict__.setdefault("_kn", Norm({}))
    memo = m.__dict__.setdefault("_fmemo", {})
    j = memo.setdefault(tuple(N.key_of(N.of(q)) for q in x), len(memo))
    for i in range(n): m.store(a + 8 * i, T.rvar("Fi!%d[%d]" % (j, i)), 8)
OVF = OV + [(r"_ZNK?4Grid6filterE", filt)]
def compare(c, N, steps, what):
    for p in c.good():
        for s in range(steps):
            for i in range(N):
                k = s * N + i; lb = "%s step %d point %d: " % (what, s + 1, i)
                c.eq(p, lb + "field advanced", lambda o: (o["f", k], o["rf", k]))
                c.eq(p, lb + "derivative advanced", lambda o: (o["p", k], o["rp", k]))
                c.eq(p, lb + "field at the start of the step kept, filtered", lambda o: (o["kf", k], o["Kf", k]))
                c.eq(p, lb + "derivative at the start of the step kept, filtered", lambda o: (o["kp", k], o["Kp", k]))
                c.eq(p, lb + "field after the shift", lambda o: (o["sf", k], o["rf", k]))
                c.eq(p, lb + "derivative after the shift", lambda o: (o["sp", k], o["rp", k]))
                c.eq(p, lb + "newest field after the shift", lambda o: (o["tf", k], o["rf", k]))
                c.eq(p, lb + "newest derivative after the shift", lambda o: (o["tp", k], o["rp", k]))
def conf(s, **over):
    v = dict(DEFAULT, **s); v.update(dt=V("dt"), black_hole_mass=0.5, black_hole_spin=0.25, compactification_length=20.0, Rmin=0.95, Rmax=20.0)
    v.update(over)
    return param_file(v)
RGS = dict(RNG, dt=(0.001, 0.02))
def opaque(s, cfg, steps, nd):
    def f(C):
        q, nat = conf(s, V2=0.3, V4=0.2, k1=0.3, km1=0.1)
        c = C.case("any right-hand side, %s, %d steps" % (sh_str(s), steps), H, cfg=cfg, units=UE, config=dict(q, steps=steps, junk=1, override=OV), nat_files=nat, ranges=RGS, ndebug=nd).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        called = all([p.extra.get("set_k", 0) == 8 * steps for p in c.good()])
        C.require(called, "the right-hand side is evaluated as often by the code as by hand in " + c.label)
        if called: compare(c, N, steps, "any right-hand side,")
    return f
def large(s, steps):
    """large grids: the filter, too, is an uninterpreted function"""
    def f(C):
        q, nat = conf(s, V2=0.3, V4=0.2, k1=0.3, km1=0.1)
        c = C.case("any right-hand side and filter, %s, %d steps" % (sh_str(s), steps), H, cfg=(), units=UE, config=dict(q, steps=steps, junk=1, override=OVF), nat_files=nat, ranges=RGS).run()
        called = all([p.extra.get("set_k", 0) == 8 * steps for p in c.good()])
        C.require(called, "the right-hand side is evaluated as often by the code as by hand in " + c.label)
        if called: compare(c, s["nx"] * s["nlat"] * s["nphi"], steps, "any right-hand side and filter,")
    return f
def linear(s, cfg, steps):
    def f(C):
        q, nat = conf(s, V2=0.3)
        c = C.case("linear couplings, %s" % sh_str(s), H, cfg=cfg, units=UE, config=dict(q, steps=steps, junk=1), nat_files=nat, ranges=RGS).run()
        compare(c, s["nx"] * s["nlat"] * s["nphi"], steps, "linear couplings,")
        c.validate()
    return f
def nonlinear(s, cfg, seed):
    def f(C):
        rng = random.Random(seed)
        vals = {}
        def reals(n, i):
            return vals.setdefault((n, i), round(rng.uniform(-0.5, 0.5), 2))
        q, nat = conf(s, V2=0.3, V3=0.4)
        c = C.case("nonlinear potential, data %d, %s" % (seed, sh_str(s)), H, cfg=cfg, units=UE, config=dict(q, steps=1, junk=1, reals=reals), nat_files=nat, ranges=RGS).run()
        compare(c, s["nx"] * s["nlat"] * s["nphi"], 1, "nonlinear potential,")
        c.validate()
    return f
def check(C):
    s = shape(9, 1, 0, 2, 1)
    S2 = [shape(9, 1, 1, 2, 3)] + ([shape(13, 2, 1, 3, 4)] if C.thorough else [])
    warm(H, units=UE); warm(H, units=UE, ndebugs=(False,), cfgs=[()])
    jobs = [("any rhs %s %s" % (sh_str(x), cfg), opaque(x, cfg, 2 if x is s else 1, True)) for x in [s] + S2 for cfg in CFGS]
    jobs += [("any rhs, asserts", opaque(s, (), 1, False))]
    jobs += [("linear %s" % (cfg,), linear(s, cfg, 1)) for cfg in ((), ("cheb",))]
    jobs += [("nonlinear %s" % (cfg,), nonlinear(s, cfg, 1)) for cfg in ((), ("cheb", "contig"))]
    L = [shape(17, 3, 2, 5, 7), shape(67, 2, 1, 3, 5)] + ([shape(129, 4, 3, 6, 9)] if C.thorough else [])
    jobs = [("any rhs and filter %s" % sh_str(x), large(x, 1)) for x in reversed(L)] + jobs
    C.parallel(jobs)
    C.bounds.append("%s with the filter, too, uninterpreted" % ", ".join(map(sh_str, L)))
    C.bounds.append("grids %s; one and two steps; every right-hand side, all data, every step size, arbitrary leftovers in the work levels" % ", ".join(map(sh_str, [s] + S2)))
    C.assumptions += ["doubles are treated as real numbers", "the right-hand side is the function Scalar_eom::set_k computes, taken as an uninterpreted function of both fields (C30: it has no hidden state)"]
