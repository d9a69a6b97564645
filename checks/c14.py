from ang import *
EXPLANATION = "Bounded symbolic execution of Sphere::power_spectrum, compute_ylm and the four transforms from clang's IR on fields and coefficients that are all symbolic, SHTns modelled as its exact transform matrices; the solver decides the quadratic forms of the spectrum and the linear forms of synthesis and round trips."
H = PRES + r'''
extern "C" void vp_main() {
  SPHERE
  const size_t nl=vp_size("nl");
  { auto v=vp_vec("v",N); std::vector<double> pw(nl,4.0); s.power_spectrum(v,pw); vp_outv("p",pw); vp_outv("v1",v); }
}
'''
HT = PRES + r'''
#define LMC(l,m) (((l)<=nm) ? (l)*((l)+1)+(m) : nm*(2*(l)-nm)+(l)+(m))
extern "C" void vp_main() {
  SPHERE
  const long nl=vp_size("nl"), nm=vp_size("nm");
  for (long l=0;l<=nl;l++) for (long m=0;m<=std::min(l,nm);m++) {
    std::vector<double> y=s.compute_ylm(l,m); const long b=((nl+1)*m+l)*N;
    vp_outi("ysz",(nl+1)*m+l,(long)y.size());
    for (size_t i=0;i<y.size();i++) vp_out("y",b+i,y[i]); }
  const long k=nl<=nm ? (nl+1)*(nl+1) : LMC(nl,nm)+1;
  { auto v=vp_vec("v",N); std::vector<cplx> c(NL,cplx(9,9)); s.to_Ylm(v,c); std::vector<double> r(N,5.0); s.to_Sph(c,r); vp_outv("rt",r); vp_outv("v1",v); }
  { auto a=vp_vec("ca",NL), b=vp_vec("cb",NL); std::vector<cplx> c(NL); for (size_t i=0;i<NL;i++) c[i]=cplx(a[i],b[i]);
    std::vector<double> f(N,5.0); s.to_Sph(c,f); vp_outv("f",f); std::vector<cplx> d(NL,cplx(9,9)); s.to_Ylm(f,d); outc("dre","dim",d); outc("cre","cim",c); }
  { const size_t K=(nl+1)*(nl+1); auto a=vp_vec("za",k), b=vp_vec("zb",k); std::vector<cplx> z(K,cplx(0,0)); for (long i=0;i<k;i++) z[i]=cplx(a[i],b[i]);
    std::vector<cplx> f(N,cplx(5,5)); s.to_Sph(z,f); outc("fre","fim",f);
    std::vector<cplx> d(K,cplx(9,9)); s.to_Ylm(f,d); for (long i=0;i<k;i++) { vp_out("zre",i,d[i].real()); vp_out("zim",i,d[i].imag()); }
    std::vector<cplx> h(N,cplx(5,5)); s.to_Sph(d,h); outc("hre","him",h); }
}
'''
def job(s, cfg):
    def f(C):
        M = Modes(s, cfg); n = M.nsp
        c = C.case("power " + ash(s), H, cfg=cfg, units=UNS, config=dict(s, reals=M.reals())).run()
        for p in c.good():
            def mat(l):
                return np.diag([0.0 if q[1] != l else 1.0 if q[2] == 0 else 0.5 for q in M.par])
            c.quad(p, "sum over m of |f_lm|^2", [("p", l) for l in range(s["nl"])], M.names, mat, scale=1.0)
            c.unchanged(p, "field", "v", "v1", n)
        if s["nl"] == 5: c.validate()
    return f
def trans(s, cfg):
    def f(C):
        M = Modes(s, cfg); n = M.nsp; S = M.S; NL = S.nlm
        lm = S.lm
        m0 = [k for k, (l, m) in enumerate(lm) if m == 0]
        base = M.reals()
        K = S.nlmc()
        def reals(nm, j):
            if nm == "cb" and j in m0: return 0.0          # m=0 coefficients of a real field are real
            return base(nm, j)
        c = C.case("transforms " + ash(s), HT, cfg=cfg, units=UNS, config=dict(s, reals=reals)).run()
        for p in c.good():
            for (l, m) in lm:
                i0 = (s["nl"] + 1) * m + l
                c.eq(p, "size of Y_%d,%d" % (l, m), lambda o: (o["ysz", i0], n))
                for it in range(s["nlat"]):
                    for ip in range(s["nphi"]):
                        y = M.Y(it, 2 * math.pi * ip / s["nphi"], l, m).real * (2 if m else 1); k = M.sp(it, ip)
                        c.eq(p, "Y_%d,%d at (%d,%d)" % (l, m, it, ip), lambda o: (o["y", i0 * n + k] + 3.0, y + 3.0))
            c.rows(p, "real round trip", [("rt", i) for i in range(n)], M.names, M.base(), scale=1.0)
            c.unchanged(p, "field", "v", "v1", n)
            names = ["ca[%d]" % k for k in range(NL)] + ["cb[%d]" % k for k in range(NL)]
            Z = np.zeros((n, 2 * NL))
            for it in range(s["nlat"]):
                for ip in range(s["nphi"]):
                    for k, (l, m) in enumerate(lm):
                        y = M.Y(it, 2 * math.pi * ip / s["nphi"], l, m); g = 2 if m else 1
                        Z[M.sp(it, ip), k] = g * y.real; Z[M.sp(it, ip), NL + k] = -g * y.imag if m else 0
            c.rows(p, "synthesis", [("f", i) for i in range(n)], names, Z, scale=1.0)
            I2 = np.eye(2 * NL)
            for k in m0: I2[NL + k] = 0
            c.rows(p, "coefficient round trip", [("dre", i) for i in range(NL)] + [("dim", i) for i in range(NL)], names, I2, scale=1.0)
            c.rows(p, "coefficients unchanged", [("cre", i) for i in range(NL)] + [("cim", i) for i in range(NL)], names, I2, scale=1.0)
            zn = ["za[%d]" % k for k in range(K)] + ["zb[%d]" % k for k in range(K)]
            F = np.zeros((2 * n, 2 * K)); 
            for it in range(s["nlat"]):
                for ip in range(s["nphi"]):
                    r = M.sp(it, ip)
                    for (l, m) in S.cmodes():
                        y = M.Y(it, 2 * math.pi * ip / s["nphi"], l, m); q = S.lmc(l, m)
                        F[r, q] = y.real; F[r, K + q] = -y.imag; F[n + r, q] = y.imag; F[n + r, K + q] = y.real
            c.rows(p, "complex synthesis", [("fre", i) for i in range(n)] + [("fim", i) for i in range(n)], zn, F, scale=1.0)
            c.rows(p, "complex coefficient round trip", [("zre", i) for i in range(K)] + [("zim", i) for i in range(K)], zn, np.eye(2 * K), scale=1.0)
            c.rows(p, "complex round trip", [("hre", i) for i in range(n)] + [("him", i) for i in range(n)], zn, F, scale=1.0)
        if s["nl"] == 5: c.validate()
    return f
def check(C):
    S = shapes(C)
    S2 = [s for s in S if s["nl"] <= 12]
    warm(H, HT, units=UNS, cfgs=ACFG)
    C.parallel([("T %s %s" % (ash(s), cfg), trans(s, cfg)) for s in reversed(S2) for cfg in ACFG] + [("%s %s" % (ash(s), cfg), job(s, cfg)) for s in reversed(S) for cfg in ACFG])
    C.bounds.append("%s, both angular orders; every real field of harmonics l<=lmax, m<=mmax, every coefficient vector" % "; ".join(map(ash, S)))
    C.assumptions += ["SHTns transforms are the exact orthonormal Condon-Shortley ones of its documentation", "doubles are treated as real numbers"]
