from eom import *
EXPLANATION = "Symbolic execution of Scalar_eom's constructor and set_rho (with the grid operators under it) from clang's IR, parameters, grid ends, angles and fields symbolic; at every grid point the solver decides that the energy density is the stress tensor contracted twice with the slice normal, as an identity between rational functions in which the operator outputs are variables, and that with positive kinetic function and non-negative potential it is not negative (a polynomial inequality given the angular gradient squared is at least (df/dphi)^2)."
H = PRE_E + r'''
extern "C" void vp_main() {
  SETUP
  auto f=vp_vec("f",N), p=vp_vec("p",N); std::vector<double> rho(N,7.0);
  COORDS
  OPS(f,p)
  Scalar_eom e(g,par);
  e.set_rho(g,f,p,rho);
  vp_outv("rho",rho); vp_outv("f1",f); vp_outv("p1",p);
}
'''
S = [shape(9, 1, 1, 2, 3)]
def job(s, cfg, bh, geo, nd=True):
    def f(C):
        conf, nat = setup(s, bh, geo)
        c = C.case("%s, %s, %s" % (sh_str(s), bh, geo), H, cfg=cfg, units=UE, config=conf, nat_files=nat, ranges=ranges(s, cfg), ndebug=nd).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            o = Sym(c, p)
            cut = cuts(o, N)
            if cut: C.require(all(o[n, N // 2].__class__ is R for n in CUT), "every derivative depends on the data in " + c.label)
            for k in range(N):
                c.eq(p, "energy density at point %d" % k, lambda o: (o["rho", k], energy(o, k, bh)), cut=cut)
            c.unchanged(p, "fields", "f", "f1", N); c.unchanged(p, "fields", "p", "p1", N)
        C.require(bool(c.good()) or not c.ok, "a complete evaluation in " + c.label)
        c.validate()
    return f
class _Point:
    """one point with every quantity a variable; the angular gradient squared is (df/dphi)^2/sin^2 + Y"""
    def __getitem__(self, k): return V("q_" + k[0]) if k[0] != "X" else V("q_fph") * V("q_fph") / (1.0 - V("c") * V("c")) + V("Y")
    def v(self, n, i=None): return V("q_" + n)
    def var(self, n): return V(n)
    def cos(self, x): return V("c")
def positivity(C):
    """what the density was shown to be is never negative: a sum of squares (identity decided as for the code,
    sign decided by the solver)"""
    o = _Point(); m, a, c, Y = V("m"), V("a"), V("c"), V("Y")
    u, sg, D = metric(o, 0, m, a)
    K, _ = kinetic(o, V("q_f")); Vv, _ = potential(o, V("q_f"))
    P, fr, fph = V("q_p"), V("q_fr"), V("q_fph"); H = 2.0 * m * u / sg; s2 = 1.0 - c * c
    x = P - H * fr / (1.0 + H)
    cross = a * a * u * u * s2 * fr * fr + 2.0 * a * u * u * fr * fph + u * u * fph * fph / s2        # (a u s f_r + u f_phi/s)^2
    sos = 0.5 * K * ((1.0 + H) * x * x + fr * fr / (1.0 + H) + cross / sg + u * u * Y / sg) + Vv
    C.obligation()
    N = Norm({}); res, pp, qq = N.diff(energy(o, 0, "a"), sos)
    sc = max(abs(k) for k in pp.values())
    r = q_box([(i, k / sc) for i, k in enumerate(res.values())], 0, 1, 1e-9, "density is a sum of squares")
    if r is None: C.discharge("the density is a sum of squares plus the potential")
    else: C.undecided_("positivity", "the sum of squares does not match")
    import z3
    t = z3.Reals("x fr s au uf sg q H Y u K V"); x, fr, s, au, uf, sg, q, H, Y, u, K, Vz = t
    S = z3.SolverFor("QF_NRA"); S.set("timeout", 60000)
    S.add(H >= 0, q * (1 + H) == 1, sg >= 1, Y >= 0, K > 0, Vz >= 0)
    w = z3.Real("w"); S.add(w * sg == (au * s * fr + uf) * (au * s * fr + uf) + u * u * Y)
    S.add(K * ((1 + H) * x * x + q * fr * fr + w) / 2 + Vz < 0)
    C.obligation(); t0 = time.time(); r = S.check(); STATS.queries += 1; STATS.time += time.time() - t0
    if str(r) == "unsat": C.discharge("the density is never negative")
    else: C.undecided_("positivity", "solver: %s" % r)
def large(s, cfg, hole):
    def f(C):
        conf, nat, at = large_setup(s, *hole)
        c = C.case("%s, m=%g, a=%g, any operators" % ((sh_str(s),) + hole[:2]), H, cfg=cfg, units=UE, config=conf, nat_files=nat, ranges=RNG).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            o = Sym(c, p)
            for x in ("rho",):
                if not C.rec["broken"] and x not in p.outs: C.undecided_(c.label, "no output " + x)
            cut = cuts(o, N)
            for k in range(N):
                c.eq(p, "energy density at point %d" % k, lambda o: (o["rho", k], energy(At(o, at), k, "number")), cut=cut)
            c.unchanged(p, "fields", "f", "f1", N); c.unchanged(p, "fields", "p", "p1", N)
    return f
def check(C):
    ss = S + ([shape(11, 2, 1, 3, 4), shape(9, 1, 1, 3, 3)] if C.thorough else [])
    warm(H, units=UE)
    L = [shape(17, 3, 2, 5, 7), shape(67, 2, 1, 3, 5)] + ([shape(65, 6, 4, 8, 13)] if C.thorough else [])
    C.parallel([("large %s %s %s" % (x, h, cfg), large(x, cfg, h)) for x, h, cfg in [(L[0], HOLES[0], ()), (L[0], HOLES[1], ("contig",)), (L[0], HOLES[2], ("cheb", "contig")), (L[1], HOLES[0], ("cheb",))] + ([(L[2], h, ()) for h in HOLES] if C.thorough else [])] + [("%s %s %s" % (bh, geo, cfg), job(s, cfg, bh, geo)) for s in ss for bh in black_holes() for geo in geometries() for cfg in CFGS])
    C.parallel([("positivity", positivity)])
    C.bounds.append("grids %s with the slice operators uninterpreted, three holes, data and couplings symbolic" % ", ".join(map(sh_str, L)))
    C.bounds.append("grids %s, both discretisations and angular orders; every mass in (1e-3,1e3), spin 0, +-m, or 1e-15 away from those; inner and outer edge, compactification length, couplings, potential, polar angles and data symbolic" % ", ".join(map(sh_str, ss)))
    C.assumptions += ["doubles are treated as real numbers", "the polar angles are symbolic; SHTns and FFTW transforms are the exact ones of their documentation"]
