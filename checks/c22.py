from pyr import *
EXPLANATION = ("runscript_template.py and sim_class.py are executed by CPython on proxy numbers: every numeric setting is an unknown real or integer in its documented domain, every comparison on one forks. "
               "On each path z3 decides the geometric and step-size relations between the derived parameters and the settings, for every value.")
TOL = 1e-9
def check(C):
    jobs = []
    for cheb in (False, True):
        for comp in ("home", "della"):
            jobs.append(("cheb=%s, %s" % (cheb, comp), lambda C, cheb=cheb, comp=comp: one(C, cheb, comp)))
    C.parallel(jobs)
    C.bounds += ["all masses > 0, spins |a| <= M, lengths > 0, times > 0, CFL numbers > 0 (reals), resolutions (nx >= 8, nlat >= 2, nphi >= 1) and numbers of saves >= 1 (integers of any size); both radial options"]
    C.assumptions += ["floating-point numbers of the scripts are treated as real numbers", "settings are numbers of the kind the template gives them (integers stay integers)"]
def one(C, cheb, comp):
    lab = "run script[%s,%s]" % ("cheb" if cheb else "fd", comp)
    choices = dict(use_cheb=cheb, computer=comp)
    def fn(ctx):
        V = Vals(ctx); w = World()
        sim = template(w, choices, V, lambda self, Base: self.set_derived_params())
        if sim is None: raise Unsupported("the template does not launch a run")
        return V.v, dict(vars(sim))
    try: paths = P.explore(fn)
    except Unsupported as e: C.undecided_(lab, "Unsupported: %s" % e); return
    for n in ("sim_class.py: Sim.set_derived_params", "sim_class.py: Sim.compactification", "runscript_template.py: settings"): STATS.functions[n] = 1
    seen = False
    for ctx, r in paths:
        P.CTX = ctx
        if isinstance(r, Exception):
            C.obligation(); fail(C, lab + " completes", ctx, [], choices, None, "raises %r" % r); continue
        V, A = r
        missing = [n for n in ("dt", "nt", "t_step_save", "Rmin", "Rmax", "rl", "ru") if n not in A]
        if missing: C.obligation(); fail(C, lab + " derives " + missing[0], ctx, [], choices, None, "never set"); continue
        seen = True
        e = lambda n: P.rv(V[n]) if n in V else P.rv(A[n])
        o = lambda n: P.rv(A[n])
        M, a, L = e("black_hole_mass"), e("black_hole_spin"), e("compactification_length")
        s = ctx.new("spec", None); ctx.defs += [s >= 0, s * s == (M - a) * (M + a)]
        h = M + s
        q = ctx.new("spec", None); ctx.defs += [q * (L + h) == h * L]
        dt, nt, ts, num, T_ = o("dt"), o("nt"), o("t_step_save"), e("num_saved_times"), e("evolve_time")
        mx = z3.If(e("nlat") > e("nphi"), e("nlat"), e("nphi"))
        if cheb: mx = z3.If(e("nx") > mx, e("nx"), mx)
        eps = z3.Q(1, 10 ** 9)
        def close(x, y, sc): return z3.And(x - y <= eps * sc, y - x <= eps * sc)
        ab = lambda x: z3.If(x >= 0, x, -x)
        G = [("inner edge is the compactified horizon", o("Rmin") == q, close(o("Rmin"), q, q)),
             ("outer edge is the compactification length", o("Rmax") == L, close(o("Rmax"), L, L)),
             ("pulse start scales with the horizon", o("rl") == e("rl_0") * h, close(o("rl"), e("rl_0") * h, h * (1 + ab(e("rl_0"))))),
             ("pulse end scales with the horizon", o("ru") == e("ru_0") * h, close(o("ru"), e("ru_0") * h, h * (1 + ab(e("ru_0"))))),
             ("time step is positive", dt > 0, None),
             ("time step obeys the %s limit" % ("resolution" if cheb else "angular"), dt * mx * mx <= 6, dt * mx * mx <= 6 * (1 + eps)),
             ("step count covers the time", z3.And(nt * dt - T_ * M < dt, T_ * M - nt * dt < dt, nt >= 0), z3.And(nt * dt - T_ * M <= dt * (1 + eps), T_ * M - nt * dt <= dt * (1 + eps))),
             ("saving interval is at least one step", ts >= 1, None),
             ("at least the requested number of saves", z3.Implies(nt >= 1, (z3.If(num <= nt, num, nt) - 1) * ts <= nt - 1), None)]
        if not cheb: G.append(("time step obeys the radial limit", dt * (e("nx") - 1) <= e("cfl"), dt * (e("nx") - 1) <= e("cfl") * (1 + eps)))
        for name, f, soft in G:
            C.obligation()
            r2 = None
            for form in ([f] if soft is None else [f, soft]):
                if ctx.check([z3.Not(form)]) == z3.unsat: r2 = True; break
            if r2: C.discharge(lab + " " + name)
            else: fail(C, lab + " " + name, ctx, [z3.Not(soft if soft is not None else f)], choices, (V, name, cheb), "not implied by the settings")
        for n in ("nt", "t_step_save"):
            C.obligation()
            if isinstance(A[n], (P.SInt, int)): C.discharge(lab + " %s is an integer" % n)
            else: fail(C, lab + " %s is an integer" % n, ctx, [], choices, (V, n + " int", cheb), "not an integer")
    if seen: C.witness(lab + " derives a run on %d feasible paths" % len(paths))
def numeric(A, N, name, cheb):
    """the statement on a real run's numbers: None when it holds"""
    g = lambda n: N[n] if n in N else A[n]
    if A is None: return "the script fails"
    M, a, L = g("black_hole_mass"), g("black_hole_spin"), g("compactification_length")
    h = M + math.sqrt(max(0.0, (M - a) * (M + a)))
    t = 1e-9; f = []
    dt, nt, ts, num, T_ = A["dt"], A["nt"], A["t_step_save"], g("num_saved_times"), g("evolve_time")
    mx = max([g("nlat"), g("nphi")] + ([g("nx")] if cheb else []))
    def ck(n, c, s):
        if not c: f.append(n + ": " + s)
    ck("Rmin", abs(A["Rmin"] - h / (1 + h / L)) <= t * h, "%r for horizon %r" % (A["Rmin"], h))
    ck("Rmax", abs(A["Rmax"] - L) <= t * L, "%r for length %r" % (A["Rmax"], L))
    ck("rl", abs(A["rl"] - h * g("rl_0")) <= t * h * (1 + abs(g("rl_0"))), "%r" % A["rl"])
    ck("ru", abs(A["ru"] - h * g("ru_0")) <= t * h * (1 + abs(g("ru_0"))), "%r" % A["ru"])
    ck("dt", dt > 0, "%r" % dt)
    ck("dt", dt * mx * mx <= 6 * (1 + t), "%r exceeds 6/%r^2" % (dt, mx))
    if not cheb: ck("dt", dt * (g("nx") - 1) <= g("cfl") * (1 + t), "%r exceeds cfl/(nx-1) = %r" % (dt, g("cfl") / (g("nx") - 1)))
    ck("nt", abs(nt * dt - T_ * M) <= dt * (1 + 1e-6), "%r steps of %r for time %r" % (nt, dt, T_ * M))
    ck("t_step_save", ts >= 1, "%r" % ts)
    for n in ("nt", "t_step_save"): ck(n, isinstance(A[n], int), "%r is not an integer" % A[n])
    if nt >= 1 and ts >= 1: ck("saves", (nt - 1) // ts + 1 >= min(num, nt), "%d snapshots of %d requested in %d steps" % ((nt - 1) // ts + 1, num, nt))
    return "; ".join(f) or None
def fail(C, lab, ctx, extra, choices, info, why):
    cheb = choices["use_cheb"]
    names = {}
    for d in ctx.defs + ctx.pc:
        for x in zvars(d): names[str(x)] = x
    rng = random.Random(C.seed + 3)
    tries = 0
    hint = [[], [names["black_hole_mass"] <= 3] if "black_hole_mass" in names else []]
    usual = {"nx": 33, "nlat": 12, "nphi": 16, "evolve_time": 40, "num_saved_times": 7, "cfl": 0.75, "black_hole_mass": 1.5, "black_hole_spin": 0.7, "compactification_length": 13, "nl": 5, "nm": 5, "rl_0": 1.2, "ru_0": 3.1}
    cands = []
    for soft in range(6):
        fix = []
        for n, v in usual.items():
            if n in names and rng.random() < (0.9, 0.7, 0.5, 0.3, 0.1, 0)[soft]: fix.append(names[n] == z3.RealVal(str(v)))
        r, m = ctx.check(extra + fix, 5000, True, True)
        if m is None: continue
        N = {n: zval(m, x) for n, x in names.items() if "!" not in n}
        cands.append(N)
    for N in cands + [dict(usual)]:
        for k in ctx.ints:
            if str(k) in N: N[str(k)] = int(round(N[str(k)]))
        d = scratch()
        try:
            rc, A, out = native(choices, N, True, d)
            bad = ("the script ends with status %r: %s" % (rc, out[-300:]) if "Traceback" in out else None) if rc != 0 or A is None else numeric(A, N, lab, cheb)
        finally: shutil.rmtree(d, ignore_errors=True)
        if bad:
            C.report_raw(lab, why, bad, dict(property=C.pid, settings=dict(N, **choices), observed=bad)); return
    C.rec["unconfirmed"].append("%s: %s" % (lab, why))
def zvars(e):
    seen = set(); st = [e]; out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st += list(x.children())
    return out
