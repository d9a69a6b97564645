from eom import *
EXPLANATION = ("Symbolic execution of ID::compact_pulse (with Params, Grid and compute_ylm under it) from clang's IR: once with the pulse range and the amplitude symbolic on a small grid (every placement of the range among the grid points is a path; the running maximum stays a symbolic case distinction that the solver decides to be the largest magnitude), once with concrete ranges on larger grids and symbolic amplitude. "
               "The solver decides on every path: zero outside the range, the pulse times Y_lm scaled to the amplitude inside, and the time derivative equal to the signed radial derivative with the same scaling.")
UI = ["cheb", "finite_diff", "sphere", "grid", "params", "initial_data"]
H = r'''
#include "vp.h"
#include "grid.hpp"
#include "params.hpp"
#include "initial_data.hpp"
extern "C" void vp_main() {
  Params par("params.txt"); Grid g(par.cl(),par.Rmin(),par.Rmax(),par.nx(),par.nl(),par.nm(),par.nlat(),par.nphi());
  const size_t nx=g.nx(), nlat=g.nlat(), nphi=g.nphi(), N=nx*nlat*nphi;
  auto f=vp_vec("ja",N), p=vp_vec("jb",N);
  ID::compact_pulse(par,g,f,p);
  auto y=g.compute_ylm(vp_size("l_ang"),vp_size("m_ang"));
  for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) { long k=g.indx_R_th_ph(ix,it,ip);
    vp_out("r",k,g.R_to_r(g.R_th_ph(ix,it,ip)[0])); vp_out("y",k,y[g.indx_th_ph(it,ip)]); vp_out("f",k,f[k]); vp_out("p",k,p[k]); }
}
'''
DIR = {"ingoing": 1.0, "outgoing": -1.0, "time_symmetric": 0.0, "sideways": 0.0}
def shape_fn(o, r, rl, ru):
    """the pulse and its r-derivative (inside the range)"""
    w = ru - rl
    a = (r - rl) / w; b = (ru - r) / w
    g = a * a * a * a * b * b * b * b * o.exp(-w / (r - rl)) * o.exp(-2.0 * w / (ru - r))
    return g, g * (4.0 / (r - rl) - 4.0 / (ru - r) + w / ((r - rl) * (r - rl)) - 2.0 * w / ((ru - r) * (ru - r)))
def conf(s, l, m, **over):
    v = dict(DEFAULT, **s); v.update(Rmin=0.95, l_ang=l, m_ang=m, amp=V("amp")); v.update(over)
    q, nat = param_file(v)
    return dict(q, l_ang=l, m_ang=m), nat
def concrete(s, cfg, l, m, d, rl, ru):
    def f(C):
        q, nat = conf(s, l, m, rl=rl, ru=ru, initial_data_direction=d)
        c = C.case("%s, l=%d m=%d, %s, range %g..%g" % (sh_str(s), l, m, d, rl, ru), H, cfg=cfg, units=UI, config=dict(q, vars=[V("amp")]), nat_files=nat, ranges=dict(amp=(0.1, 2.0)), envs=[dict(amp=-0.7)]).run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            if any(p.outs.get(x, {}).get(k).__class__ is not float for x in ("r", "y") for k in range(N)):
                C.undecided_(c.label, "coordinates or harmonics are not numbers"); continue
            ins = 0
            S = {}; D = {}
            for k in range(N):
                r, y = p.outs["r"][k], p.outs["y"][k]
                if rl < r < ru:
                    g, dg = shape_fn(Sym(c, p), r, rl, ru); S[k] = g * y; D[k] = dg * y; ins += 1
                else: S[k] = D[k] = 0.0
            M = max(abs(x) for x in S.values())
            if ins: C.require(M > 1e-16, "the pulse reaches the grid in " + c.label)
            F = 1.0 / M if M > 1e-16 else 0.0
            amp = lambda o: o.var("amp") if M > 1e-16 else 1.0
            dm = max(abs(x) for x in D.values()) or 1.0
            for k in range(N):
                where = "inside" if S[k] else "outside"
                c.eq(p, "field %s, point %d" % (where, k), lambda o: (o["f", k], amp(o) * (F * S[k]), 1e-30 if S[k] == 0 else abs(S[k])))
                c.eq(p, "derivative %s, point %d" % (where, k), lambda o: (o["p", k], amp(o) * (DIR[d] * F * D[k]), 1e-30 if D[k] == 0 else dm * F), tol=1e-8)
        if s["nx"] <= 17: c.validate()
    return f
def sup(C, c, p, N, S, o):
    """largest magnitude on the grid is |amp|: some term of the code is decided to be the largest |S_k| and to be the divisor"""
    lab = c.label + " largest magnitude is the amplitude"
    ks = [k for k in range(N) if S[k].__class__ is R_]
    envs = c.env_candidates(p, 2)[:2]
    if len(envs) < 2: C.obligation(); C.undecided_(lab, "no inputs"); return
    # candidates: the case distinctions in the code's result
    cand = [t for t in T.topo([o["f", ks[0]]]) if t.__class__ is R and (t.op == "ite" or len(ks) == 1 or t.op == "fn")]
    val = []
    for e in envs:
        sv = [abs(x) for x in evaluate([S[k] for k in ks], e, default=lambda t: 0.37)]
        cv = evaluate(cand, e, default=lambda t: 0.37)
        val.append((max(sv), cv))
    M = None
    for j, t in enumerate(cand):
        if all(abs(cv[j] - mx) <= 1e-9 * mx for mx, cv in val): M = t
    C.obligation()
    if M is None: C.undecided_(lab, "the normalisation was not found"); return
    # the code's own unscaled values: subterms decided to be equal to S_k
    import z3
    s = z3.Solver(); s.set("timeout", 60000)
    from solve import ToZ3
    tr = ToZ3()
    sub = [t for t in T.topo([M]) if t.__class__ is R and t.op not in ("c", "v", "ite") and not (t.op == "fn" and t.args[0] == "abs")]
    nv = [evaluate(sub, e, default=lambda t: 0.37) for e in envs]
    gv = [evaluate([S[k] for k in ks], e, default=lambda t: 0.37) for e in envs]
    g = {}
    # points with the same radius share the radial profile
    first = {}
    for k in ks:
        j = first.setdefault(o["r", k], k)
        g[k] = z3.Real("g%d" % j) * tr.rat(Fraction(o["y", k]) / Fraction(o["y", j]))
    for j, t in enumerate(sub):
        for i, k in enumerate(ks):
            if all(abs(nv[e][j] - gv[e][i]) <= 1e-9 * abs(gv[e][i]) for e in (0, 1)) and c.eq_terms(p, t, S[k], 1e-9, lab) is None:
                tr.memo[t.id] = g[k]; break
    for t in T.topo([M]):
        if t.id not in tr.memo: tr.memo[t.id] = tr._one(t) if t.op != "fn" or t.args[0] == "abs" else z3.Real("x%d" % t.id)
    zm = tr.memo[M.id]
    ab = lambda x: z3.If(x >= 0, x, -x)
    for j in first.values(): s.add(g[j] != 0)
    s.add(z3.Not(z3.And(z3.And([zm >= ab(g[k]) for k in ks]), z3.Or([zm == ab(g[k]) for k in ks]))))
    t0 = time.time(); r = s.check(); STATS.queries += 1; STATS.time += time.time() - t0
    if str(r) == "unsat": C.discharge(lab)
    elif str(r) == "sat":
        def confirm(o):
            if not all(abs(o["f", k]) < 1e300 for k in range(N)): return "non-finite values"
            mx = max(abs(o["f", k]) for k in range(N))
            return None if abs(mx - abs(o.var("amp"))) <= 1e-9 * abs(o.var("amp")) else "largest magnitude %.17g, amplitude %.17g" % (mx, o.var("amp"))
        C.fail(c, p, lab, "the normalisation is not the largest magnitude", confirm)
    else: C.undecided_(lab, "no answer from the solver"); return
    return M
def symbolic(s, cfg, l, m, d):
    def f(C):
        rl, ru = V("rl"), V("ru")
        q, nat = conf(s, l, m, rl=rl, ru=ru, initial_data_direction=d)
        pre = [T.rcmp("lt", 0.0, rl), T.rcmp("lt", rl, ru - 1e-3), T.rcmp("lt", ru, 1e3)]
        c = C.case("%s, l=%d m=%d, %s, any range" % (sh_str(s), l, m, d), H, cfg=cfg, units=UI, config=dict(q, pre=pre, vars=[V("amp"), rl, ru], lazy=True), nat_files=nat,
                   ranges=dict(amp=(0.1, 2.0), rl=(0.5, 12.0), ru=(2.0, 60.0)), max_paths=600)
        c.opaque_ite = True
        c.run()
        N = s["nx"] * s["nlat"] * s["nphi"]
        seen = set()
        for p in c.good():
            o = Sym(c, p)
            S = {}; D = {}; ok = True
            for k in range(N):
                r, y = o["r", k], o["y", k]
                inside = [c.solver.feasible(p.pc + [q]) if q.__class__ is B else bool(q) for q in (T.band(T.rcmp("lt", rl, r), T.rcmp("lt", r, ru)), T.bnot(T.band(T.rcmp("lt", rl, r), T.rcmp("lt", r, ru))))]
                if inside == [True, True]:
                    # the code took no decision on this point: both sides possible
                    C.undecided_(c.label, "point %d is not placed on this path" % k); ok = False; break
                if inside[0] and abs(y) > 1e-13:
                    g, dg = shape_fn(o, r, rl, ru); S[k] = g * y; D[k] = dg * y
                elif inside[0]: S[k] = D[k] = False
                else: S[k] = D[k] = None
            if not ok: continue
            ks = [k for k in range(N) if S[k].__class__ is R_]
            seen.add(len(ks))
            for k in range(N):
                if S[k] is None:
                    c.eq(p, "field outside the range, point %d" % k, lambda o: (o["f", k], 0.0))
                    c.eq(p, "derivative outside the range, point %d" % k, lambda o: (o["p", k], 0.0))
            if not ks: continue
            # scaled at all?  (the branch that leaves a pulse below 1e-16 as it is is outside the bounds)
            if "amp" not in T.free_vars(o["f", ks[0]]):
                continue
            j = ks[0]
            def sh(o, k):
                g, dg = shape_fn(o, o["r", k], o.var("rl"), o.var("ru")); return g * o["y", k], dg * o["y", k]
            # everything proportional to the pulse, with one factor
            for k in ks:
                c.eq(p, "shape at point %d" % k, lambda o: (o["f", k] * sh(o, j)[0], o["f", j] * sh(o, k)[0], 1e-300), tol=1e-8)
                c.eq(p, "derivative at point %d" % k, lambda o: (o["p", k] * sh(o, j)[0], DIR[d] * o["f", j] * sh(o, k)[1], 1e-300), tol=1e-8)
            M = sup(C, c, p, N, S, o)
            if M is not None:
                c.eq_M = M
                lab = "field times the largest magnitude, point %d" % j
                C.obligation()
                r = c.eq_terms(p, T.rmul(o["f", j], M), T.rmul(V("amp"), S[j]), 1e-9, lab)
                if r is None: C.discharge(lab)
                else:
                    def confirm(o):
                        mx = max(abs(o["f", k]) for k in range(N))
                        return None if abs(mx - abs(o.var("amp"))) <= 1e-9 * abs(o.var("amp")) else "largest magnitude %.17g, amplitude %.17g" % (mx, o.var("amp"))
                    C.fail(c, p, c.label + " " + lab, r[0], confirm)
        C.require(len(seen) > 3, "ranges holding no, one and several points in " + c.label)
        if c.good(): c.validate(c.good()[-1])
    return f
def check(C):
    warm(H, units=UI)
    jobs = []
    big = [shape(33, 1, 1, 2, 3), shape(17, 3, 2, 4, 5)] + ([shape(129, 6, 4, 8, 10), shape(200, 2, 1, 3, 3)] if C.thorough else [])
    tiny = shape(9, 2, 1, 3, 3)
    LM = [(0, 0), (1, 0), (1, 1), (2, 1)]
    for i, cfg in enumerate(CFGS):
        for j, d in enumerate(DIR):
            l, m = LM[(i + j) % 4]
            if C.thorough or d in ("ingoing", "outgoing"): jobs.append(("symbolic %s %s" % (cfg, d), symbolic(shape(9, 2, 1, 3, 3) if C.thorough else shape(9, 1, 0, 2, 1) if m == 0 and l < 2 else tiny, cfg, l, m, d)))
    for s in big:
        for cfg in CFGS:
            for j, d in enumerate(DIR):
                for i, (rl, ru) in enumerate([(2.0, 4.0), (1.2, 30.0), (0.3, 200.0), (3.0, 3.0), (5.0, 5.00001)]):
                    if not C.thorough and (i + j + CFGS.index(cfg) + s["nx"]) % 3: continue
                    l, m = [(0, 0), (1, 1), (3, 2), (1, 0)][(i + j) % 4]
                    if l > s["nl"]: l, m = 1, 0
                    jobs.append(("%s %s %s %d" % (sh_str(s), cfg, d, i), concrete(s, cfg, l, m, d, rl, ru)))
    C.parallel(jobs)
    C.bounds.append("concrete ranges and harmonics on %s with every amplitude; every range (0<rl<ru-1e-3<1e3) and amplitude on 9 radial points; four directions; both discretisations and angular orders" % ", ".join(map(sh_str, big)))
    C.assumptions += ["doubles are treated as real numbers (no underflow of the exponentials)", "the pulse is the one the code documents: fourth powers times exponentials with weights 1 and 2", "a pulse whose largest unscaled magnitude on the grid is below 1e-16 is not scaled (outside the bounds)"]
