from ang import *
EXPLANATION = "Bounded symbolic execution of Sphere's Laplacian, azimuthal derivative, raising and lowering operators from clang's IR on fields with symbolic harmonic coefficients, SHTns modelled as its exact transform matrices; z3 decides row by row that each output point is the operator's value."
H = PRES + r'''
extern "C" void vp_main() {
  SPHERE
  auto v=vp_vec("v",N); std::vector<double> a(N,3.0), b(N,3.0); std::vector<cplx> r(N,cplx(1,2)), w(N,cplx(3,4));
  if (vp_size("plain")) { s.laplace_beltrami(v,a); vp_outv("lap",a); s.partial_phi(v,b); vp_outv("dphi",b); }
  s.raise(v,r); outc("rre","rim",r); s.lower(v,w); outc("lre","lim",w);
  vp_outv("v1",v);
}
'''
def job(s, cfg):
    def f(C):
        full = Modes(s, cfg)
        n = full.nsp
        for lab, sel, key in [(" all modes", lambda l, m: True, None)] + split(s):
            M = full if not key and lab else Modes(s, cfg, sel)
            plain = M is full
            c = C.case("sphere " + ash(s) + lab, H, cfg=cfg, units=UNS, config=dict(s, plain=int(plain), reals=M.reals())).run()
            for p in c.good():
                if plain:
                    c.eq(p, "number of points", lambda o: (o["N", 0], n))
                    c.eq(p, "number of coefficients", lambda o: (o["NL", 0], M.S.nlm))
                    c.rows(p, "Laplacian", [("lap", i) for i in range(n)], M.names, M.mat(lambda it, ph, l, m, k: -l * (l + 1) * (lambda y: y.imag if k else y.real)(M.Y(it, ph, l, m))))
                    c.rows(p, "d/dphi", [("dphi", i) for i in range(n)], M.names, M.mat(M.dphi), scale=1.0)
                    c.unchanged(p, "field", "v", "v1", n)
                    if s["nl"] == 5: c.validate(p)
                    continue
                for up, re, im, nm in ((True, "rre", "rim", "raising"), (False, "lre", "lim", "lowering")):
                    c.rows(p, nm + ", real part", [(re, i) for i in range(n)], M.names, M.mat(lambda *a: M.ladder(*a, up).real), scale=1.0, key=key and nm + ":" + key, alt=M.mat(lambda *a: M.ladder(*a, up, s["nm"]).real))
                    c.rows(p, nm + ", imaginary part", [(im, i) for i in range(n)], M.names, M.mat(lambda *a: M.ladder(*a, up).imag), scale=1.0, key=key and nm + ":" + key, alt=M.mat(lambda *a: M.ladder(*a, up, s["nm"]).imag))
                c.unchanged(p, "field", "v", "v1", n)
    return f
def check(C):
    S = shapes(C)
    warm(H, units=UNS, cfgs=ACFG)
    C.parallel([("%s %s" % (ash(s), cfg), job(s, cfg)) for s in reversed(S) for cfg in ACFG])
    C.bounds.append("%s, both angular orders; every real field of harmonics l<=lmax, m<=mmax (coefficients symbolic); raising and lowering: modes with m=mmax<l apart" % "; ".join(map(ash, S)))
    C.assumptions += ["SHTns transforms are the exact orthonormal Condon-Shortley ones of its documentation, and may overwrite their spatial input", "doubles are treated as real numbers"]
