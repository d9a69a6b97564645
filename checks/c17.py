from eom import *
EXPLANATION = "Symbolic execution of Scalar_eom's constructor and set_k (with the grid operators under it) from clang's IR, parameters, grid ends, angles and fields symbolic; at every grid point the solver decides that the time derivatives equal those the wave equation on Kerr prescribes, as identities between rational functions in which the operator outputs are variables of their own."
H = PRE_E + r'''
extern "C" void vp_main() {
  SETUP
  auto f=vp_vec("f",N), p=vp_vec("p",N); std::vector<double> fk(N,7.0), pk(N,8.0);
  COORDS
  OPS(f,p)
  Scalar_eom e(g,par);
  e.set_k(g,f,p,fk,pk);
  vp_outv("fk",fk); vp_outv("pk",pk); vp_outv("f1",f); vp_outv("p1",p);
}
'''
S = [shape(9, 1, 1, 2, 3)]
def job(s, cfg, bh, geo, nd=True):
    def f(C):
        conf, nat = setup(s, bh, geo)
        c = C.case("%s, %s, %s" % (sh_str(s), bh, geo), H, cfg=cfg, units=UE, config=conf, nat_files=nat, ranges=ranges(s, cfg), ndebug=nd).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            o = Sym(c, p)
            for x in ("fk", "pk"):
                if not C.rec["broken"] and x not in p.outs: C.undecided_(c.label, "no output " + x)
            cut = cuts(o, N)
            if cut: C.require(all(o[n, N // 2].__class__ is R for n in CUT), "every derivative depends on the data in " + c.label)
            for k in range(N):
                c.eq(p, "df/dv at point %d" % k, lambda o: (o["fk", k], o.v("p", k)))
                c.eq(p, "dp/dv at point %d" % k, lambda o: (o["pk", k], pdot(o, k, bh)), cut=cut)
            c.unchanged(p, "fields", "f", "f1", N); c.unchanged(p, "fields", "p", "p1", N)
        C.require(bool(c.good()) or not c.ok, "a complete evaluation in " + c.label)
        c.validate()
    return f
def large(s, cfg, hole):
    def f(C):
        conf, nat, at = large_setup(s, *hole)
        c = C.case("%s, m=%g, a=%g, any operators" % ((sh_str(s),) + hole[:2]), H, cfg=cfg, units=UE, config=conf, nat_files=nat, ranges=RNG).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            o = Sym(c, p)
            for x in ("fk", "pk"):
                if not C.rec["broken"] and x not in p.outs: C.undecided_(c.label, "no output " + x)
            cut = cuts(o, N)
            for k in range(N):
                c.eq(p, "df/dv at point %d" % k, lambda o: (o["fk", k], o.v("p", k)))
                c.eq(p, "dp/dv at point %d" % k, lambda o: (o["pk", k], pdot(At(o, at), k, "number")), cut=cut)
            c.unchanged(p, "fields", "f", "f1", N); c.unchanged(p, "fields", "p", "p1", N)
    return f
def check(C):
    cfgs = CFGS
    ss = S + ([shape(11, 2, 1, 3, 4), shape(9, 1, 1, 3, 3)] if C.thorough else [])
    warm(H, units=UE)
    L = [shape(17, 3, 2, 5, 7), shape(67, 2, 1, 3, 5)] + ([shape(65, 6, 4, 8, 13)] if C.thorough else [])
    C.parallel([("large %s %s %s" % (x, h, cfg), large(x, cfg, h)) for x, h, cfg in [(L[0], HOLES[0], ()), (L[0], HOLES[1], ("contig",)), (L[0], HOLES[2], ("cheb", "contig")), (L[1], HOLES[0], ("cheb",))] + ([(L[2], h, ()) for h in HOLES] if C.thorough else [])] + [("%s %s %s" % (bh, geo, cfg), job(s, cfg, bh, geo)) for s in ss for bh in black_holes() for geo in geometries() for cfg in cfgs])
    C.bounds.append("grids %s with the slice operators uninterpreted, three holes, data and couplings symbolic" % ", ".join(map(sh_str, L)))
    C.bounds.append("grids %s, both discretisations and angular orders; every mass in (1e-3,1e3), spin 0, +-m, or 1e-15 away from those; inner and outer edge, compactification length, couplings, potential, polar angles and data symbolic" % ", ".join(map(sh_str, ss)))
    C.assumptions += ["doubles are treated as real numbers", "the polar angles are symbolic; SHTns and FFTW transforms are the exact ones of their documentation"]
