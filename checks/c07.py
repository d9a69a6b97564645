from chk import *
from fd import RANGES
EXPLANATION = "Bounded symbolic execution of the FD and Cheb constructors and accessors from clang's IR with symbolic interval bounds; z3 decides that every node is the stated affine image."
H = r'''
#include "vp.h"
#include "cheb.hpp"
#include "finite_diff.hpp"
extern "C" void vp_main() {
  size_t n=vp_size("n");
  double lower=vp_dbl("lower"), upper=vp_dbl("upper");
  vp_assume(upper>lower);
  { const FD g(n, lower, upper);
    for (size_t i=0;i<n;i++) vp_out("fd",i,g.pt(i));
    vp_outi("fdn",0,(long)g.n()); vp_out("fdlo",0,g.lower()); vp_out("fdup",0,g.upper()); }
  if (vp_size("cheb")) { const Cheb g(n, lower, upper);
    for (size_t i=0;i<n;i++) vp_out("cb",i,g.pt(i));
    vp_outi("cbn",0,(long)g.n()); vp_out("cblo",0,g.lower()); vp_out("cbup",0,g.upper()); }
}
'''
def job(n, cheb):
    def f(C):
        c = C.case("nodes n=%d" % n, H, units=["cheb", "finite_diff"], config=dict(n=n, cheb=int(cheb)), ranges=RANGES).run()
        for p in c.good():
            for i in range(n):
                c.eq(p, "finite-difference node %d" % i, lambda o: (o["fd", i], o.lin([1 - Fraction(i, n - 1), Fraction(i, n - 1)], [o.v("lower"), o.v("upper")])), ntol=1e-10)
                if cheb:
                    w = (1 + models._cospi(i, n - 1)) / 2
                    c.eq(p, "Chebyshev node %d" % i, lambda o: (o["cb", i], o.lin([1 - w, w], [o.v("lower"), o.v("upper")])), ntol=1e-10)
                if i:
                    c.holds(p, "finite-difference nodes increase at %d" % i, lambda o: o["fd", i] > o["fd", i - 1])
                    if cheb: c.holds(p, "Chebyshev nodes decrease at %d" % i, lambda o: o["cb", i] < o["cb", i - 1])
            for k in (["fd", "cb"] if cheb else ["fd"]):
                c.eq(p, k + " point count", lambda o: (o[k + "n", 0], n))
                c.eq(p, k + " lower", lambda o: (o[k + "lo", 0], o.v("lower")))
                c.eq(p, k + " upper", lambda o: (o[k + "up", 0], o.v("upper")))
        if n == 9: c.validate()
    return f
def check(C):
    S = [2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 128, 129] + ([200, 255, 256, 257, 512, 1000] if C.thorough else [])
    build.ir(H, units=["cheb", "finite_diff"])
    C.parallel([("fd 8193", job(2049 if not C.thorough else 8193, False))] + [("%d" % n, job(n, True)) for n in reversed(S)])
    C.bounds.append("point counts %s (both) and %d (finite differences); every interval lower<upper" % (S, 2049 if not C.thorough else 8193))
