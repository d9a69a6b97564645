from ang import *
EXPLANATION = "Bounded symbolic execution of Sphere::sphereX from clang's IR on fields with symbolic harmonic coefficients, SHTns modelled as its exact transform matrices; the solver decides point by point that the result is the quadratic form (df/dtheta)^2 + (df/dphi)^2/sin^2(theta)."
H = PRES + r'''
extern "C" void vp_main() {
  SPHERE
  auto v=vp_vec("v",N); std::vector<double> a(N,3.0);
  s.sphereX(v,a); vp_outv("X",a); vp_outv("v1",v);
}
'''
def job(s, cfg):
    def f(C):
        for lab, sel, key in split(s):
            M = Modes(s, cfg, sel); n = M.nsp
            c = C.case("sphereX " + ash(s) + lab, H, cfg=cfg, units=UNS, config=dict(s, reals=M.reals())).run()
            D = M.mat(M.dtheta); P = M.mat(M.dphi)
            st = np.zeros(n)
            for it in range(s["nlat"]):
                for ip in range(s["nphi"]): st[M.sp(it, ip)] = math.sqrt(1 - M.S.ct[it] ** 2)
            E = P / st[:, None]
            def alt(k):      # -(L_+ f)(L_- f) + (d_phi f)^2 with the parts of m > mmax missing
                u = U[k]; d = Dn[k]; R = -(np.outer(u, d) + np.outer(d, u)) / 2
                return R.real + np.outer(P[k], P[k])
            def cm(up):
                A = np.zeros((n, len(M.par)), complex)
                for it in range(s["nlat"]):
                    for ip in range(s["nphi"]):
                        for j, (_, l, m, kk) in enumerate(M.par): A[M.sp(it, ip), j] = M.ladder(it, 2 * math.pi * ip / s["nphi"], l, m, kk, up, s["nm"])
                return A
            if key: U = cm(True); Dn = cm(False)
            for p in c.good():
                c.quad(p, "gradient squared", [("X", i) for i in range(n)], M.names, lambda k: np.outer(D[k], D[k]) + np.outer(E[k], E[k]), scale=max(float(np.abs(D).max()), 1.0) ** 2, key=key, alt=alt)
                c.unchanged(p, "field", "v", "v1", n)
            if s["nl"] == 5 and not key: c.validate()
    return f
def check(C):
    S = [s for s in shapes(C) if s["nl"] <= 12]
    warm(H, units=UNS, cfgs=ACFG)
    C.parallel([("%s %s" % (ash(s), cfg), job(s, cfg)) for s in reversed(S) for cfg in ACFG])
    C.bounds.append("%s, both angular orders; every real field of harmonics l<=lmax, m<=mmax (coefficients symbolic), modes with m=mmax<l apart" % "; ".join(map(ash, S)))
    C.assumptions += ["SHTns transforms are the exact orthonormal Condon-Shortley ones of its documentation, and may overwrite their spatial input", "doubles are treated as real numbers"]
