"""Shared by C01-C03: the finite-difference operators."""
from fractions import Fraction
from chk import *
H = r'''
#include "vp.h"
#include "finite_diff.hpp"
extern "C" void vp_main() {
  size_t n=vp_size("n");
  double lower=vp_dbl("lower"), upper=vp_dbl("upper");
  vp_assume(upper>lower);
  const FD fd(n, lower, upper);
  auto v=vp_vec("v",n); std::vector<double> o(n, 3.0);
  %s
  vp_outv("o",o); vp_outv("v1",v);
}
'''
RANGES = dict(lower=(-2.0, 0.5), upper=(0.6, 3.0))
SYMBOLIC_N = list(range(9, 26)) + [31, 32, 33, 48, 64, 65, 100, 129]
def ns(C): return SYMBOLIC_N + ([63, 127, 128, 200, 257, 512, 1025] if C.thorough else [])
def poly_config(n, deg):
    cs = [T.rvar("c%d" % k) for k in range(deg + 1)]
    # polynomials about the middle of the grid, in units of the grid: bounded by one on it
    def val(name, j):
        if name != "v": return None
        x = (Fraction(2 * j, n - 1) - 1)
        return T.rlin([x ** k for k in range(deg + 1)], cs)
    return dict(n=n, reals=val)
def dpoly(o, n, i, deg, order):
    """derivative with respect to the coordinate at node i, times (upper-lower)^order"""
    x = Fraction(2 * i, n - 1) - 1
    k = range(deg + 1)
    if order == 1: w = [Fraction(2) * j * x ** (j - 1) if j else Fraction(0) for j in k]
    else: w = [Fraction(4) * j * (j - 1) * x ** (j - 2) if j > 1 else Fraction(0) for j in k]
    L = o.v("upper") - o.v("lower")
    s = o.lin(w, [o.var("c%d" % j) for j in k])
    return s / L if order == 1 else s / (L * L)
def derivative(C, call, deg, order):
    sizes = ns(C)
    H1 = H % call
    build.ir(H1, units=["finite_diff"])
    def small(n):
        def f(C):
            c = C.case("polynomials n=%d" % n, H1, units=["finite_diff"], config=poly_config(n, deg), ranges=RANGES).run()
            for p in c.good():
                for i in range(n):
                    c.eq(p, "derivative at node %d" % i, lambda o: (o["o", i], dpoly(o, n, i, deg, order)), tol=1e-10 if n < 300 else 1e-8)
                c.unchanged(p, "input", "v", "v1", n)
            if n == 13: c.validate()
        return f
    def linear(n, lo, up):
        def f(C):
            c = C.case("all data n=%d [%g,%g]" % (n, lo, up), H1, units=["finite_diff"], config=dict(n=n, lower=lo, upper=up)).run()
            L = up - lo; h = Fraction(L) / (n - 1)
            for p in c.good():
                for i in range(n):
                    lab = c.label + " node %d" % i
                    C.obligation()
                    try:
                        k0, D = coefs(c, Sym(c, p)["o", i])
                    except (Unsupported, Missing, NonFinite) as e:
                        C.undecided_(lab, str(e)); continue
                    # moments about node i, scaled by the stencil's reach
                    js = {int(nm[2:-1]): v for nm, v in D.items()}
                    mom = []
                    reach = max([abs(j - i) for j in js] + [1])
                    for k in range(deg + 1):
                        s = sum((v * Fraction(j - i, 1) ** k for j, v in js.items()), Fraction(0)) * h ** order
                        w = {1: 1, 2: 2}[order] if k == order else 0
                        mom.append((k, (s - w) / Fraction(reach) ** k))
                    bad = q_box(mom, k0 * h ** order, 1, 1e-9, lab)
                    if bad is None: C.discharge(lab); continue
                    kk = max(bad, key=lambda k: abs(mom[k][1])) if bad else 0
                    env = {"v[%d]" % j: float(Fraction(j - i, reach) ** kk) if abs(j - i) <= 2 * reach else 0.0 for j in range(n)}
                    want = (1.0 if order == 1 else 2.0) / float(reach) ** kk / float(h) ** order if kk == order else 0.0
                    sc = 1.0 / float(h) ** order
                    def confirm(o, i=i, want=want, sc=sc):
                        g = o["o", i]
                        return None if abs(g - want) < 1e-7 * sc else "derivative of ((x-x_i)/h)^%d at node %d is %.17g instead of %.17g" % (kk, i, g, want)
                    C.fail(c, p, lab, "not exact for polynomials of degree %d" % kk, confirm, envs=[env])
                c.unchanged(p, "input", "v", "v1", n)
        return f
    jobs = [("n=%d" % n, small(n)) for n in sorted(sizes, reverse=True)]
    big = [(8193, 0.0, 1.0), (40, -1.0, 5.5), (1025, 1.0, 20.0)] + ([(8193, 1.8, 20.0), (4097, -3.0, 0.25), (2049, 0.0, 100.0)] if C.thorough else [])
    jobs = [("all data %d" % n, linear(n, a, b)) for n, a, b in big] + jobs
    C.parallel(jobs)
    C.bounds.append("grid sizes %s with every interval lower<upper and every polynomial of degree <= %d (coefficients symbolic)" % (sizes, deg))
    C.bounds.append("grid sizes %s (fixed intervals %s): all data symbolic, exactness decided from the moments of each row" % ([b[0] for b in big], [(b[1], b[2]) for b in big]))
    C.require(C.rec["discharged"] > 100 or C.rec["viol"], "derivatives at more than 100 (size, node) pairs decided")
