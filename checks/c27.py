from gr import *
EXPLANATION = "Symbolic execution of Grid::norm_indep_res and Grid::total_variation from clang's IR (including the reductions' combination code) with all data and the step size symbolic; z3 decides that the results are the stated norms as identities between sums of square roots of polynomials."
H = PRE + r'''
extern "C" void vp_main() {
  vp_assume((vp_dbl("dt")>0.00001)&(vp_dbl("dt")<100.));
  GRID
  auto a=vp_vec("a",N), b=vp_vec("b",N), p=vp_vec("p",N);
  vp_out("res",0,g.norm_indep_res(vp_dbl("dt"),a,b,p));
  vp_outv("a1",a); vp_outv("b1",b); vp_outv("p1",p);
  vp_out("tv",0,g.total_variation(a));
  vp_out("tv",1,g.total_variation(b));
  vp_outv("a2",a); vp_outv("b2",b);
}
'''
def job(s, cfg, nd):
    def f(C):
        N = s["nx"] * s["nlat"] * s["nphi"]
        c = C.case(sh_str(s), H, cfg=cfg, units=UN, ndebug=nd, config=dict(s, **GEO), ranges=dict(RG, dt=(0.01, 0.5))).run()
        def tv(o, n):
            t = 0.0
            for ix, it, ip in points(s):
                if ix + 1 < s["nx"] and it + 1 < s["nlat"] and ip + 1 < s["nphi"]:
                    k = idx3(s, cfg, ix, it, ip)
                    d = [o.v(n, idx3(s, cfg, *q)) - o.v(n, k) for q in ((ix + 1, it, ip), (ix, it + 1, ip), (ix, it, ip + 1))]
                    t = t + o.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
            return t * (1.0 / N) if o.native else t * Fraction(1, N)
        def res(o):
            t = 0.0
            for k in range(N):
                x = o.v("p", k) - (o.v("b", k) - o.v("a", k)) / o.v("dt")
                t = t + x * x
            return o.sqrt(t * (1.0 / N) if o.native else t * Fraction(1, N))
        for p in c.good():
            c.eq(p, "independent residual", lambda o: (o["res", 0], res(o)))
            c.eq(p, "total variation", lambda o: (o["tv", 0], tv(o, "a")))
            c.eq(p, "total variation of another field", lambda o: (o["tv", 1], tv(o, "b")))
            for n in ("a", "b", "p"): c.unchanged(p, "data", n, n + "1", N)
            for n in ("a", "b"): c.unchanged(p, "data after both", n, n + "2", N)
        C.require(bool(c.good()) or not c.ok, "a complete evaluation in " + c.label)
        c.validate()
    return f
def check(C):
    S = [shape(9, 1, 0, 2, 1), shape(9, 1, 1, 2, 3), shape(9, 2, 1, 4, 5), shape(10, 2, 2, 3, 6), shape(17, 4, 3, 7, 9)]
    if C.thorough: S += [shape(33, 3, 2, 5, 7)]
    warm(H, units=UN); warm(H, units=UN, ndebugs=(False,), cfgs=[()])
    jobs = [("%s %s" % (sh_str(s), cfg), job(s, cfg, True)) for s in S for cfg in CFGS] + [("asserts", job(S[1], (), False))]
    C.parallel(jobs)
    C.bounds.append("grid shapes %s, both discretisations and storage orders, all data, every step size above 1e-5" % ", ".join(map(sh_str, S)))
    C.assumptions += ["doubles are treated as real numbers (the order of the sums does not matter)", "one thread; C26 decides that the reductions do not depend on the schedule"]
