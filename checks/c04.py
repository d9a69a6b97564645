from ch import *
EXPLANATION = "Bounded symbolic execution of Cheb::Cheb, to_ch and to_po from clang's IR on symbolic data, FFTW's DCT-I modelled as its exact matrix; z3 decides row by row that the coefficients reproduce the data as a Chebyshev sum and that to_po evaluates that sum."
H = r'''
#include "vp.h"
#include "cheb.hpp"
extern "C" void vp_main() {
  size_t n=vp_size("n");
  double lower=vp_dbl("lower"), upper=vp_dbl("upper");
  vp_assume(upper>lower);
  const Cheb cb(n, lower, upper);
  { auto v=vp_vec("v",n); std::vector<double> ch(n,7.0), po(n,7.0);
    cb.to_ch(v,ch); vp_outv("ch",ch); vp_outv("v1",v);
    cb.to_po(ch,po); vp_outv("back",po); }
  { auto w=vp_vec("w",n); std::vector<double> po(n,7.0), ch(n,7.0);
    cb.to_po(w,po); vp_outv("po",po); vp_outv("w1",w);
    cb.to_ch(po,ch); vp_outv("rt",ch); }
}
'''
def job(n):
    def f(C):
        c = C.case("transforms n=%d" % n, H, cfg=["cheb"], units=UN, config=dict(n=n), ranges=RANGES).run()
        V, D = Tm(n)
        v = ["v[%d]" % i for i in range(n)]; w = ["w[%d]" % i for i in range(n)]
        for p in c.good():
            c.rows(p, "coefficients sum to the data", [("at point %d" % i, lambda o, i=i: o.lin([float(t) for t in V[i]], o.outv("ch", n))) for i in range(n)], v, np.eye(n), scale=1.0)
            c.rows(p, "points from coefficients", [("po", i) for i in range(n)], w, V, scale=1.0)
            c.rows(p, "round trip of data", [("back", i) for i in range(n)], v, np.eye(n), scale=1.0)
            c.rows(p, "round trip of coefficients", [("rt", i) for i in range(n)], w, np.eye(n), scale=1.0)
            c.unchanged(p, "data", "v", "v1", n)
            c.unchanged(p, "coefficients", "w", "w1", n)
        if n == 9: c.validate()
    return f
def check(C):
    S = sizes(C)
    build.ir(H, ["cheb"], UN)
    C.parallel([("n=%d" % n, job(n)) for n in reversed(S)])
    C.bounds.append("grid sizes %s, all data and coefficient vectors symbolic, every interval" % S)
    C.assumptions += ["FFTW's REDFT00 is the DCT-I of its documentation and leaves its input unchanged", "doubles are treated as real numbers"]
