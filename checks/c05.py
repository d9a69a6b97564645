from ch import *
EXPLANATION = "Bounded symbolic execution of Cheb::Cheb and Cheb::der from clang's IR on symbolic data (all polynomials of degree <= n-3 as symbolic Chebyshev coefficients, and all data), FFTW's DCT-I modelled as its exact matrix; z3 decides exactness row by row, for symbolic interval bounds at moderate n."
H = r'''
#include "vp.h"
#include "cheb.hpp"
extern "C" void vp_main() {
  size_t n=vp_size("n");
  double lower=vp_dbl("lower"), upper=vp_dbl("upper");
  vp_assume(upper>lower);
  const Cheb cb(n, lower, upper);
  auto v=vp_vec("v",n); std::vector<double> o(n,7.0);
  cb.der(v,o); vp_outv("o",o); vp_outv("v1",v);
}
'''
def job(n, iv):
    def f(C):
        cfg = dict(n=n)
        if iv: cfg.update(lower=iv[0], upper=iv[1])
        V, D = Tm(n); K = max(1, n - 2)      # modes 0..n-3
        cn = cnames(K)
        cs = [T.rvar(x) for x in cn]
        cfg["reals"] = lambda name, j: T.rlin([float(V[j, k]) for k in range(K)], cs) if name == "v" else None
        c = C.case("der n=%d%s" % (n, " [%g,%g]" % iv if iv else ""), H, cfg=["cheb"], units=UN, config=cfg, ranges=RANGES).run()
        for p in c.good():
            if iv:
                c.rows(p, "derivative", [("o", i) for i in range(n)], cn, D[:, :K] * (2.0 / (iv[1] - iv[0])))
            else:
                for i in range(n):
                    c.eq(p, "derivative at point %d" % i, lambda o: (o["o", i], o.lin([2.0 * float(t) for t in D[i, :K]], [o.var(x) for x in cn]) / (o.v("upper") - o.v("lower")), float(n * n)), tol=1e-9, ntol=1e-9)
            c.unchanged(p, "input", "v", "v1", n)
        if n == 9: c.validate()
    return f
def alldata(n):
    def f(C):
        c = C.case("linear n=%d" % n, H, cfg=["cheb"], units=UN, config=dict(n=n, lower=-1.5, upper=2.0), ranges=RANGES).run()
        names = ["v[%d]" % i for i in range(n)]
        seen = {}
        for p in c.good():
            if c.restricted: c.affine(p, [("o", i) for i in range(n)], "linear in the data", seen); continue
            # linear and homogeneous: the constant part vanishes
            L = c._lin(names)
            for i in range(n):
                C.obligation(); lab = c.label + " homogeneous linear in the data, point %d" % i
                try: k0, vec = L.of(Sym(c, p)["o", i])
                except (Unsupported, Missing) as e: C.undecided_(lab, str(e)); continue
                if q_box([], k0, 1, 1e-9, lab) is None: C.discharge(lab)
                else: C.fail(c, p, lab, "constant part %g" % k0, lambda o: None if abs(o["o", i]) < 1e-9 else "derivative of zero data is %g" % o["o", i], envs=[{x: 0.0 for x in names}])
            c.unchanged(p, "input", "v", "v1", n)
    return f
def check(C):
    S = sizes(C, 4)
    sym = [n for n in S if n <= (20 if not C.thorough else 33)]
    build.ir(H, ["cheb"], UN)
    C.parallel([("n=%d" % n, job(n, (0.5, 20.0) if n % 2 else (-3.0, -1.25))) for n in reversed(S)] + [("sym n=%d" % n, job(n, None)) for n in reversed(sym)] + [("all n=%d" % n, alldata(n)) for n in (4, 9, 33)])
    C.bounds += ["grid sizes %s: every polynomial of degree <= n-3 (coefficients symbolic) on one interval each" % S, "grid sizes %s: additionally every interval" % sym, "all data (linearity) at n = 4, 9, 33"]
    C.assumptions += ["FFTW's REDFT00 is the DCT-I of its documentation and leaves its input unchanged", "doubles are treated as real numbers"]
