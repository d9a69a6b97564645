from gr import *
EXPLANATION = "Bounded symbolic execution of Grid's radial derivatives (with FD/Cheb underneath) and of R_to_r from clang's IR on symbolic data, interval and compactification length; z3 decides the chain-rule identities at every grid point as identities between rational functions."
H = PRE + r'''
extern "C" void vp_main() {
  vp_assume((vp_dbl("cl")>0.1)&(vp_dbl("cl")<1000.)&(vp_dbl("Rmin")>0.)&(vp_dbl("Rmin")<vp_dbl("Rmax"))&(vp_dbl("Rmax")<=vp_dbl("cl")));
  GRID
  auto v=vp_vec("v",N); std::vector<double> a(N,3.0), b(N,4.0), c(N,5.0);
  g.set_partial_R(v,a); g.set_partial_r(v,b); g.set_partial2_r(v,c);
  vp_outv("dR",a); vp_outv("dr",b); vp_outv("drr",c); vp_outv("v1",v);
#if USE_CHEB
  Cheb q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#else
  FD q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#endif
  for (size_t ix=0;ix<nx;ix++) vp_out("pt",(long)ix,q.pt(ix));
  for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) {
    std::vector<double> x(nx), d(nx), dd(nx);
    for (size_t ix=0;ix<nx;ix++) x[ix]=v[g.indx_R_th_ph(ix,it,ip)];
    q.der(x,d);
#if USE_CHEB
    q.der(d,dd);
#else
    q.der2(x,dd);
#endif
    for (size_t ix=0;ix<nx;ix++) { vp_out("D1",(long)g.indx_R_th_ph(ix,it,ip),d[ix]); vp_out("D2",(long)g.indx_R_th_ph(ix,it,ip),dd[ix]); }
  }
}
'''
HR = PRE + r'''
extern "C" void vp_main() {
  double cl=vp_dbl("cl"), R=vp_dbl("R");
  vp_assume((cl>=0.1)&(cl<=1000.)&(R>=0.)&(R<=cl));
  GRID
  vp_out("r",0,g.R_to_r(R));
}
'''
def job(s, cfg, geo, nm):
    def f(C):
        n = s["nx"]; M = s["nlat"] * s["nphi"]
        c = C.case("chain rule %s %s" % (sh_str(s), nm), H, cfg=cfg, units=UN, config=dict(s, **geo), ranges=RG).run()
        for p in c.good():
            for ix in range(n):
                def R(o):
                    w = (1 + models._cospi(ix, n - 1)) / 2 if "cheb" in cfg else Fraction(ix, n - 1)
                    return o.lin([1 - w, w], [o.v("Rmin"), o.v("Rmax")])
                def fac(o): x = 1.0 - R(o) / o.v("cl"); return x
                for a in range(M):
                    it, ip = divmod(a, s["nphi"])
                    k = idx3(s, cfg, ix, it, ip); lb = "at (%d,%d,%d)" % (ix, it, ip)
                    c.eq(p, "d/dR " + lb, lambda o: (o["dR", k], o["D1", k], n * n))
                    c.eq(p, "d/dr " + lb, lambda o: (o["dr", k], fac(o) * fac(o) * o["D1", k], n * n))
                    c.eq(p, "d2/dr2 " + lb, lambda o: (o["drr", k], fac(o) ** 4 * o["D2", k] - 2.0 / o.v("cl") * fac(o) ** 3 * o["D1", k] if o.native else
                                                     fac(o) * fac(o) * fac(o) * (fac(o) * o["D2", k] - 2.0 * o["D1", k] / o.v("cl")), n ** 4))
            c.unchanged(p, "data", "v", "v1", n * M)
        if n == 9: c.validate()
    return f
def conv(cfg):
    def f(C):
        c = C.case("R to r", HR, cfg=cfg, units=UN, config=dict(shape(9, 1, 0, 2, 1), Rmin=1.0, Rmax=2.0), ranges=dict(cl=(1.0, 30.0), R=(0.1, 1.0)), envs=[dict(cl=20.0, R=20.0), dict(cl=20.0, R=19.999999)]).run()
        for p in c.good():
            apart = lambda o: o.v("cl") - o.v("R") > 1e-9
            def inv(o):
                x = o["r", 0] * (o.v("cl") - o.v("R")); w = o.v("cl") * o.v("R")
                return o.ite(apart(o), x, w), w
            c.eq(p, "inverts r/(1+r/L)", inv)
            c.holds(p, "is infinite at R=L", lambda o: o.Or(o.Not(o.v("R") == o.v("cl")) if o.native else o.v("R") < o.v("cl"), o["r", 0] >= 1e9 * o.v("cl")))
    return f
def check(C):
    cl = T.rvar("cl")
    S = [shape(n, 1, 0, 2, 1) for n in ((9, 10, 12) if not C.thorough else (9, 10, 11, 12, 13, 14, 17))]
    S2 = [shape(n, 2, 1, 3, 3) for n in ((16, 33) if not C.thorough else (16, 33, 64, 65))]
    warm(H, HR)
    jobs = []
    for cfg in CFGS:
        for s in S:
            jobs.append(("%s %s" % (sh_str(s), cfg), job(s, cfg, {}, "any interval")))
            jobs.append(("%s %s" % (sh_str(s), cfg), job(s, cfg, dict(Rmax=cl), "Rmax=L")))
        for s in S2: jobs.append(("%s %s" % (sh_str(s), cfg), job(s, cfg, dict(cl=20.0, Rmin=1.0, Rmax=20.0), "fixed interval")))
        jobs.append(("conv", conv(cfg)))
    C.parallel(jobs)
    C.bounds += ["nx = %s with every 0<Rmin<Rmax<=L, 0.1<L<1000; nx = %s on one interval; all data" % ([s["nx"] for s in S], [s["nx"] for s in S2]), "R_to_r: every 0<=R<=L, 0.1<=L<=1000"]
    C.assumptions += ["FFTW's REDFT00 is the DCT-I of its documentation", "doubles are treated as real numbers"]
