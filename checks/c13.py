from ang import *
EXPLANATION = "Bounded symbolic execution of Sphere::filter from clang's IR on fields with symbolic harmonic coefficients, SHTns modelled as its exact transform matrices; the solver decides that each output coefficient is a fixed multiple of the same input coefficient, and the multipliers obtained are compared with the stated limits."
H = PRES + r'''
extern "C" void vp_main() {
  SPHERE
  auto v=vp_vec("v",N); s.filter(v); vp_outv("o",v);
}
'''
def job(s, cfg):
    def f(C):
        M = Modes(s, cfg); n = M.nsp
        B = M.base()
        A = np.linalg.pinv(B)                       # coefficients of a resolved field from its samples
        c = C.case("filter " + ash(s), H, cfg=cfg, units=UNS, config=dict(s, reals=M.reals())).run()
        nm = M.names; seen = {}; first = None
        for p in c.good():
            if c.restricted: c.affine(p, [("o", i) for i in range(n)], "linear in the data", seen); continue
            L = c._lin(nm); W = np.zeros((n, len(nm)))
            try:
                for i in range(n):
                    k0, v = L.of(p.outs["o"][i])
                    if v is not None: W[i] = v
            except (Unsupported, KeyError) as e: C.undecided_(c.label, "not linear: %s" % e); continue
            W = A @ W; w = np.diag(W)
            if first is None: first = w                 # fixed weights: those of the first path hold for the others
            w = first
            scale = max(1.0, float(np.abs(W).max()))
            c.rows(p, "each coefficient is multiplied by a weight", [("coefficient " + nm[j], lambda o, j=j: o.lin(A[j].tolist(), o.outv("o", n))) for j in range(len(nm))], nm, np.diag(w), scale=scale)
            c.rows(p, "nothing else is added", [("o", i) for i in range(n)], nm, B * w[None, :], scale=scale)
            wt = {(l, m, k): w[j] for j, (_, l, m, k) in enumerate(M.par)}
            ix = {(l, m, k): j for j, (_, l, m, k) in enumerate(M.par)}
            def weights(o, *ks):
                """the weights seen: symbolically exact, natively from a run on unit data"""
                if not o.native: return [wt[k] for k in ks]
                x = A @ np.array(o.outv("o", n))
                return [x[ix[k]] / o.env[nm[ix[k]]] if o.env[nm[ix[k]]] else float("nan") for k in ks]
            def unit(*ks): return [{q: (1.0 if j in [ix[k] for k in ks] else 0.0) for j, q in enumerate(nm)}]
            def cond(lab, ks, fn):
                def g(o):
                    v = weights(o, *ks)
                    return True if any(x != x for x in v) else bool(fn(*v))
                c.holds(p, lab, g, envs=unit(*ks))
            e = 1e-9
            for (l, m, k) in wt:
                cond("weight of (%d,%d) between 0 and 1" % (l, m), [(l, m, k)], lambda x: -e <= x <= 1 + e)
                if k: cond("one weight for both phases of (%d,%d)" % (l, m), [(l, m, 0), (l, m, 1)], lambda x, y: abs(x - y) <= e)
                if (l + 1, m, k) in wt: cond("weight does not increase from l=%d to %d at m=%d" % (l, l + 1, m), [(l, m, k), (l + 1, m, k)], lambda x, y: y <= x + e)
                if (l, m + 1, k) in wt: cond("weight does not increase from m=%d to %d at l=%d" % (m, m + 1, l), [(l, m, k), (l, m + 1, k)], lambda x, y: y <= x + e)
                if l == 0: cond("spherical mean kept", [(l, m, k)], lambda x: abs(x - 1) <= e)
                if l <= s["nl"] / 4.0: cond("lower quarter kept at (%d,%d)" % (l, m), [(l, m, k)], lambda x: abs(x - 1) <= 1e-6)
                if l == s["nl"]: cond("highest l suppressed at m=%d" % m, [(l, m, k)], lambda x: x <= 1e-6)
        if s["nl"] == 5: c.validate()
    return f
def check(C):
    S = shapes(C) + [ashape(12, 9, 13, 19)]
    warm(H, units=UNS, cfgs=ACFG)
    C.parallel([("%s %s" % (ash(s), cfg), job(s, cfg)) for s in reversed(S) for cfg in ACFG])
    C.bounds.append("%s, both angular orders; every real field of harmonics l<=lmax, m<=mmax" % "; ".join(map(ash, S)))
    C.assumptions += ["SHTns transforms are the exact orthonormal ones of its documentation", "doubles are treated as real numbers"]
