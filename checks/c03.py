from fd import *
import z3
EXPLANATION = "Bounded symbolic execution of FD::filter from clang's IR on symbolic data; z3 decides, for each node, that the row is the identity (boundary) or one fixed symmetric convolution with the stated moments (interior), and, over every wavelength (x = cos theta in [-1,1], nonlinear real arithmetic), the bounds and monotonicity of its gain."
def chebT(k):
    a, b = [1], [0, 1]
    if k == 0: return a
    for _ in range(k - 1):
        c = [0] + [2 * x for x in b]
        for i, x in enumerate(a): c[i] -= x
        a, b = b, c
    return b
def gain_queries(C, c, p, w, i, lab):
    """w: offset -> Fraction"""
    g = [Fraction(0)] * (max(abs(k) for k in w) + 1)
    for k, v in w.items():
        for d, q in enumerate(chebT(abs(k))): g[d] += v * q
    x = z3.Real("x")
    def val(cs, x):
        r = z3.RealVal(0)
        for q in reversed(cs): r = r * x + z3.Q(q.numerator, q.denominator)
        return r
    dg = [d * q for d, q in enumerate(g)][1:]
    tol = z3.Q(1, 10 ** 9)
    for name, cond in (("never below 0", val(g, x) < -tol), ("never above 1", val(g, x) > 1 + tol), ("decreasing towards short wavelengths", val(dg, x) < -tol),
                       ("the grid-scale sawtooth is removed", z3.And(x == -1, z3.Or(val(g, x) > tol, val(g, x) < -tol)))):
        C.obligation()
        s = z3.Solver(); s.set("timeout", 30000)
        s.add(x >= -1, x <= 1, cond)
        t0 = time.time(); r = s.check(); STATS.queries += 1; STATS.time += time.time() - t0
        l = lab + " gain: " + name
        if r == z3.unsat: STATS.unsat += 1; C.discharge(l); continue
        if r == z3.unknown: C.undecided_(l, "unknown"); continue
        STATS.sat += 1
        xv = s.model()[x]; xv = float(xv.as_fraction()) if z3.is_rational_value(xv) else float(xv.approx(20).as_fraction())
        th = math.acos(max(-1.0, min(1.0, xv)))
        n = c.config["n"]
        envs = [{"v[%d]" % j: math.cos(th * (j - i)) for j in range(n)}]
        def confirm(o):
            # the gain on this wave at node i, and on a slightly longer one
            G = o["o", i]
            Gf = sum(float(v) * math.cos(th * k) for k, v in w.items())
            if abs(G - Gf) > 1e-9: return None
            if name == "never below 0": return None if G > -1e-10 else "gain %.12g at wave number %.6g" % (G, th)
            if name == "never above 1": return None if G < 1 + 1e-10 else "gain %.12g at wave number %.6g" % (G, th)
            if name.startswith("the grid"): return None if abs(G) < 1e-10 else "sawtooth kept with factor %.12g" % G
            G2 = sum(float(v) * math.cos((th + 1e-3) * k) for k, v in w.items())
            return None if G2 <= G + 1e-12 else "gain grows from %.12g to %.12g at wave number %.6g" % (G, G2, th)
        C.fail(c, p, l, "z3: x = cos(theta) = %.6g" % xv, confirm, envs=envs)
def job(n, fixed=None):
    def f(C):
        cfg = dict(n=n)
        if fixed: cfg.update(lower=fixed[0], upper=fixed[1])
        c = C.case("filter n=%d" % n, H % "fd.filter(v); o=v;", units=["finite_diff"], config=cfg, ranges=RANGES).run()
        seen = {}
        for p in c.good():
            if c.restricted: c.affine(p, [("o", i) for i in range(n)], "linear in the data", seen); continue
            ref = None; refi = n // 2
            order = [refi] + [i for i in range(n) if i != refi]
            for i in order:
                lab = c.label + " node %d" % i
                C.obligation()
                try: k0, D = coefs(c, Sym(c, p)["o", i])
                except (Unsupported, Missing, NonFinite) as e: C.undecided_(lab, str(e)); continue
                w = {int(a[2:-1]) - i: v for a, v in D.items()} if all(a.startswith("v[") for a in D) else None
                if w is None: C.undecided_(lab, "depends on %s" % list(D)); continue
                inner = 4 <= i < n - 4
                if not inner: want = {0: Fraction(1)}
                else:
                    if ref is None: ref = w
                    want = ref
                ks = sorted(set(w) | set(want))
                bad = q_box([(k + n, w.get(k, 0) - want.get(k, 0)) for k in ks], k0, 1, 1e-10, lab)
                if bad is None: C.discharge(lab)
                else:
                    def confirm(o, i=i, want=want, ks=ks, w=w):
                        # the boundary keeps its value; the interior is the same convolution as in the middle
                        g = o["o", i]; x = sum(float(v) * o.v("v", i + k) for k, v in want.items() if 0 <= i + k < n)
                        return None if abs(g - x) < 1e-9 else "node %d becomes %.17g, expected %.17g" % (i, g, x)
                    j = max(ks, key=lambda k: abs(w.get(k, 0) - want.get(k, 0)))
                    C.fail(c, p, lab, "not %s" % ("the same convolution as at node %d" % refi if inner else "left untouched"), confirm,
                           envs=[{"v[%d]" % q: 1.0 if q == i + j else 0.0 for q in range(n)}])
            if ref is None: continue
            i = refi; w = ref; lab = c.label
            C.obligation()
            bad = q_box([(k, v - w.get(-k, 0)) for k, v in w.items() if k > 0] + [(k, v) for k, v in w.items() if k < 0 and -k not in w], 0, 1, 1e-10, lab + " symmetric")
            if bad is None: C.discharge(lab + " symmetric")
            else:
                def confirm(o):
                    v = o.vec("v", n); g = o["o", i]
                    return None if abs(g - sum(float(w.get(-k, 0)) * v[i + k] for k in range(-i, n - i))) < 1e-9 else "the stencil at node %d is not symmetric" % i
                C.fail(c, p, lab + " symmetric", "asymmetric weights", confirm)
            C.obligation()
            reach = max(abs(k) for k in w) or 1
            mom = [(q, (sum(v * Fraction(k) ** q for k, v in w.items()) - (1 if q == 0 else 0)) / Fraction(reach) ** q) for q in range(8)]
            bad = q_box(mom, 0, 1, 1e-9, lab + " polynomials")
            if bad is None: C.discharge(lab + " polynomials")
            else:
                q = max(range(8), key=lambda q: abs(mom[q][1]))
                def confirm(o):
                    return None if abs(o["o", i] - o.v("v", i)) < 1e-9 else "((x-x_i)/h)^%d becomes %.17g at node %d" % (q, o["o", i], i)
                C.fail(c, p, lab + " polynomials", "degree %d is not reproduced" % q, confirm,
                       envs=[{"v[%d]" % j: float(Fraction(j - i, reach) ** q) if abs(j - i) <= 2 * reach else 0.0 for j in range(n)}])
            gain_queries(C, c, p, w, i, lab)
            C.require(len(w) > 1 or C.rec["viol"], "the filter acts on the interior")
        if n == 13: c.validate()
    return f
def check(C):
    sizes = ns(C)
    build.ir(H % "fd.filter(v); o=v;", units=["finite_diff"])
    C.parallel([("8193", job(8193, (0.0, 1.0)))] + [("%d" % n, job(n)) for n in reversed(sizes)])
    C.bounds.append("grid sizes %s, all data symbolic, every interval (8193: [0,1])" % (sizes + [8193],))
