from ch import *
EXPLANATION = "Bounded symbolic execution of Cheb::Cheb and Cheb::filter from clang's IR on data with symbolic Chebyshev coefficients; z3 decides that the filter is diagonal in the coefficients, and the stated bounds on its weights."
H = r'''
#include "vp.h"
#include "cheb.hpp"
extern "C" void vp_main() {
  size_t n=vp_size("n");
  double lower=vp_dbl("lower"), upper=vp_dbl("upper");
  vp_assume(upper>lower);
  const Cheb cb(n, lower, upper);
  auto v=vp_vec("v",n);
  cb.filter(v); vp_outv("o",v);
}
'''
def job(n):
    def f(C):
        V, D = Tm(n); cn = cnames(n)
        Vi = np.linalg.inv(V)
        c = C.case("filter n=%d" % n, H, cfg=["cheb"], units=UN, config=dict(n=n, reals=by_modes(n, V)), ranges=RANGES).run()
        seen = {}; first = None
        for p in c.good():
            if c.restricted: c.affine(p, [("o", i) for i in range(n)], "linear in the data", seen); continue
            coef = lambda o, k: o.lin([float(t) for t in Vi[k]], o.outv("o", n))
            L = c._lin(cn); w = np.zeros(n)
            try:
                for k in range(n):
                    q = L.of(coef(Sym(c, p), k)); w[k] = q[1][k] if q[1] is not None else 0.0
            except (Unsupported, Missing) as e: C.undecided_(c.label, str(e)); continue
            if first is None: first = w            # the weights are fixed: those of the first path hold for the others
            w = first
            c.rows(p, "multiplies coefficient", [("%d" % k, lambda o, k=k: coef(o, k)) for k in range(n)], cn, np.diag(w), scale=1.0)
            def weight(o, k):
                if not o.native: return w[k]
                return coef(o, k) / o.env["c%d" % k]
            one = lambda *ks: [{"c%d" % j: 1.0 for j in range(n)}]
            for k in range(n):
                c.holds(p, "weight %d in [0,1]" % k, lambda o: -1e-12 <= weight(o, k) <= 1 + 1e-10, envs=one(k))
                if k: c.holds(p, "weight %d not above weight %d" % (k, k - 1), lambda o: weight(o, k) <= weight(o, k - 1) + 1e-10, envs=one(k))
                if k * 4 < n: c.holds(p, "mode %d of the lower quarter kept" % k, lambda o: abs(weight(o, k) - 1) <= 1e-6, envs=one(k))
            c.holds(p, "constant mode kept", lambda o: abs(weight(o, 0) - 1) <= 1e-10, envs=one(0))
            c.holds(p, "highest mode damped", lambda o: weight(o, n - 1) <= 1 - 1e-3, envs=one(0))
        if n == 9: c.validate()
    return f
def check(C):
    S = sizes(C)
    build.ir(H, ["cheb"], UN)
    C.parallel([("n=%d" % n, job(n)) for n in reversed(S)])
    C.bounds.append("grid sizes %s, all data symbolic, every interval" % S)
    C.assumptions += ["FFTW's REDFT00 is the DCT-I of its documentation and leaves its input unchanged", "doubles are treated as real numbers"]
