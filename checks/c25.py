from eom import *
import models
EXPLANATION = ("Symbolic execution of main() itself, from the parameter file to the saved tables. In one family of cases the initial data, the time step, the energy density and the table writer are replaced by uninterpreted functions of all field values they are given, so the order of operations is decided for every field content and every physics; the step count, the saving interval and the step size are unknown numbers in the parameter file. "
               "In the other everything but the table writer (C24) runs as it is with an unknown amplitude, and the solver decides that each saved table equals the one obtained by advancing fresh fields one step at a time.")
UM = ["cheb", "finite_diff", "sphere", "grid", "params", "field", "scalar_eom", "initial_data", "io", "main"]
H = PRE_E + r'''
#include "initial_data.hpp"
#include "io.hpp"
#include <string>
typedef std::vector<double> vec;
int sfk_main(int, char**);
extern "C" void vp_rec(const char*, long, const double*, size_t);
extern "C" void vp_phi(const double*, const double*, size_t, double*, double*, double*, double*);
extern "C" void vp_energy(const double*, const double*, size_t, double*);
extern "C" void vp_init(size_t, double*, double*);
#ifdef NATIVE
extern "C" void vp_rec(const char*, long, const double*, size_t) {}
extern "C" void vp_phi(const double*, const double*, size_t, double*, double*, double*, double*) {}
extern "C" void vp_energy(const double*, const double*, size_t, double*) {}
extern "C" void vp_init(size_t, double*, double*) {}
#endif
/* stand-ins in terms of the code's own types */
extern "C" void mock_step(Field *f, Field *p) { if (f->np1.size()!=f->n.size() || p->n.size()!=f->n.size()) vp_mark("sizes"); vp_phi(f->n.data(),p->n.data(),f->n.size(),f->np1.data(),p->np1.data(),f->n.data(),p->n.data()); }
extern "C" void mock_rho(const vec *f, const vec *p, vec *rho) { if (rho->size()!=f->size() || p->size()!=f->size()) vp_mark("sizes"); vp_energy(f->data(),p->data(),f->size(),rho->data()); }
extern "C" void mock_init(vec *f, vec *p) { if (p->size()!=f->size()) vp_mark("sizes"); vp_init(f->size(),f->data(),p->data()); }
extern "C" void mock_write(const std::string *n, int itm, const vec *v) { vp_rec(n->c_str(),itm,v->data(),v->size()); }
extern "C" void vp_main() {
  { static char a0[]="sim", a1[]="params.txt", a2[]="run"; char *av[]={a0,a1,a2,0};
    vp_mark("start"); const int rc=sfk_main(3,av); vp_outi("rc",0,rc); vp_mark("done"); }
#ifndef NATIVE
  if (vp_size("ref"))
#endif
  { SETUP
    Scalar_eom e(g,par);
    vec F(N,0.0), P(N,0.0); ID::compact_pulse(par,g,F,P);
    const size_t nt=par.nt(), every=par.t_step_save(); size_t j=0;
    for (size_t s=0; s==0 || s<nt; s++) {
      if (s>0) { Field f("f",N,0.0), p("p",N,0.0); f.n=F; p.n=P; e.time_step(g,f,p); F=f.np1; P=p.np1; }
      if (s%every==0) { vec a=F, b=P, rho(N,0.0); e.set_rho(g,a,b,rho); Csv::write_R_psl(g,"ref/f",true,j,F); Csv::write_R_psl(g,"ref/rho",true,j,rho); j++; }
    }
  }
}
'''
DIRS = {"run/": "", "ref/": ""}
def vec_terms(m, b, n):
    x = [m.load(b + 8 * i, 8) for i in range(n)]
    return x
def put(m, b, names):
    for i, x in enumerate(names): m.store(b + 8 * i, x, 8)
def key(m, x):
    """the values up to normal form; equal values give equal keys"""
    N = m.__dict__.setdefault("_kn", Norm({}))
    return tuple(N.key_of(N.of(v)) if v.__class__ is R else v for v in x)
def ident(m, k):
    d = m.extra.setdefault("ids", {}); return d.setdefault(k, len(d))
@models.model("vp_init")
def vp_init(m, n, f, p):
    put(m, f, [V("F!0[%d]" % i) for i in range(n)]); put(m, p, [V("P!0[%d]" % i) for i in range(n)])
    ident(m, "init"); m.extra.setdefault("state", {})[key(m, vec_terms(m, f, n) + vec_terms(m, p, n))] = 0
@models.model("vp_phi")
def vp_phi(m, f, p, n, f1, p1, fk, pk):
    x = vec_terms(m, f, n) + vec_terms(m, p, n)
    if any(v is UNDEF for v in x): raise MemError("a time step on uninitialised data")
    st = m.extra.setdefault("state", {}); nx = m.extra.setdefault("next", {}); k = key(m, x)
    s = st.get(k)
    if k not in nx:
        nx[k] = ("%d" % (s + 1)) if s.__class__ is int else "x%d" % len(nx)
    t = nx[k]
    put(m, f1, [V("F!%s[%d]" % (t, i)) for i in range(n)]); put(m, p1, [V("P!%s[%d]" % (t, i)) for i in range(n)])
    if t.isdigit(): st[key(m, vec_terms(m, f1, n) + vec_terms(m, p1, n))] = int(t)
    put(m, fk, [V("kf!%s[%d]" % (t, i)) for i in range(n)]); put(m, pk, [V("kp!%s[%d]" % (t, i)) for i in range(n)])
    m.extra["steps"] = m.extra.get("steps", 0) + 1
@models.model("vp_energy")
def vp_energy(m, f, p, n, r):
    x = vec_terms(m, f, n) + vec_terms(m, p, n)
    if any(v is UNDEF for v in x): raise MemError("the energy density of uninitialised data")
    e = m.extra.setdefault("energy", {}); k = key(m, x)
    s = m.extra.setdefault("state", {}).get(k)
    t = e.setdefault(k, "%d" % s if s is not None else "x%d" % len(e))
    put(m, r, [V("E!%s[%d]" % (t, i)) for i in range(n)])
@models.model("vp_rec")
def vp_rec(m, name, itm, v, n):
    m.extra.setdefault("rec", []).append((m.cstr(name).decode("latin1"), sgn(m.concretize(itm, 64) if itm.__class__ is I else itm, 64), vec_terms(m, v, n)))
# the code's functions -> the stand-ins (a method's object pointer comes first)
def o_step(m, this, g, f, p, *a): m.extra["ov_step"] = 1; m.call("mock_step", f, p)
def o_rho(m, this, g, f, p, r, *a): m.extra["ov_rho"] = 1; m.call("mock_rho", f, p, r)
def o_init(m, par, g, f, p, *a): m.extra["ov_init"] = 1; m.call("mock_init", f, p)
def o_write(m, g, name, sc, itm, v, *a): m.extra["ov_write"] = 1; m.call("mock_write", name, itm, v)
OV = [(r"_ZNK?10Scalar_eom9time_stepE", o_step), (r"_ZNK?10Scalar_eom7set_rhoE", o_rho), (r"_ZN2ID13compact_pulseE", o_init), (r"_ZN3Csv11write_R_pslE", o_write)]
TIME = re.compile(r"^\s*([-+0-9.e]+)\s+Grid\b", re.M)
def ref_check(o):
    """natively: the tables written by the program against those of fields advanced one by one"""
    if o.rc != 0 or not o.ended: return "the program ended with %s: %s" % (o.rc, o.stderr[-200:])
    if o.outs.get("rc", {}).get(0) != 0: return "the program's status is %r" % o.outs.get("rc")
    a = {n[4:]: t for n, t in o.files.items() if n.startswith("run/")}; b = {n[4:]: t for n, t in o.files.items() if n.startswith("ref/")}
    for n in b:
        if n not in a: return "%s was not written; there are %s" % (n, sorted(a)[:9])
    for n in a:
        if n not in b: return "%s was written" % n
    for n in sorted(a):
        x = a[n].split("\n"); y = b[n].split("\n")
        if len(x) != len(y): return "%s has %d lines instead of %d" % (n, len(x), len(y))
        for i, (u, v) in enumerate(zip(x, y)):
            if u == v: continue
            try: u2 = [float(q) for q in u.split(",")]; v2 = [float(q) for q in v.split(",")]
            except ValueError: return "%s line %d is %r instead of %r" % (n, i, u, v)
            if len(u2) != len(v2) or any(abs(q - w) > 1e-6 * (1 + abs(w)) for q, w in zip(u2, v2)): return "%s line %d is %r instead of %r" % (n, i, u, v)
    return None
def times(o, dt, save, n):
    """natively: one line per snapshot, starting with its time"""
    got = [float(x) for x in TIME.findall(o.stdout)]
    want = [dt * save * j for j in range(n)]
    if len(got) != n or any(abs(g - w) > 2e-5 * max(abs(w), 1e-12) for g, w in zip(got, want)): return "printed times %r instead of %r" % (got[:9], want[:9])
    return None
def printed(p):
    """first number of each printed line that mentions the grid"""
    lines = []; cur = []
    for h, t in (p.streams.tab[1].buf if p.streams is not None else []):
        if t == 10: lines.append(cur); cur = []
        else: cur.append(t)
    out = []
    for ln in lines:
        txt = "".join(chr(t) if t.__class__ is int else "\x01" for t in ln)
        q = re.match(r"\s*([\x01]|[-+0-9.e]+)\s+Grid\b", txt)
        if q:
            if q.group(1) == "\x01": out.append([t for t in ln if t.__class__ is tuple][0])
            else: out.append(("dbl", float(q.group(1)), 17, 0, 0))
    return out
def times_(a, j): return a * j if a.__class__ is int else T.iop("mul", a, j)
def icmp_(op, a, b): return {"eq": a == b, "slt": a < b, "sle": a <= b}[op] if a.__class__ is int and b.__class__ is int else T.icmp(op, a, b)
def opaque(s, cfg, nts, saves, nd):
    def f(C):
        tn, ts, dt = T.ivar("t_nt", 32), T.ivar("t_save", 32), V("dt")
        if nts[0] == nts[1]: tn, ts = nts[0], saves[0]
        vals = dict(DEFAULT, **s); vals.update(nt=tn, t_step_save=ts, dt=dt, rl=1.2, ru=30.0, l_ang=0)
        conf, nat0 = param_file(vals)
        pre = [T.icmp("sle", nts[0], tn), T.icmp("sle", tn, nts[1]), T.icmp("sle", saves[0], ts), T.icmp("sle", ts, saves[1])] if nts[0] < nts[1] else []
        pre += [T.rcmp("lt", 1e-4, dt), T.rcmp("lt", dt, 1.0)]
        c = C.case("any fields, any physics, %d<=nt<=%d, every %d..%d steps, %s" % (nts + saves + (sh_str(s),)), H, cfg=cfg, units=UM, ndebug=nd, native_extra=("-DNATIVE",), nat_files=lambda env: dict(DIRS, **nat0(env)),
                   config=dict(conf, ref=0, override=OV, pre=pre, vars=[x for x in (tn, ts, dt) if x.__class__ is not int], keep_stdout=True), ranges=dict(t_nt=nts, t_save=saves, dt=(0.005, 0.02)), max_paths=6000).run()
        N = s["nx"] * s["nlat"] * s["nphi"]; njs = set()
        w = lambda x: T.isext(x, 32, 64) if x.__class__ is I and x.w == 32 else x
        n64, s64 = w(tn), w(ts)
        def nat(o):
            r = ref_check(o)
            if r is None:
                e = [x if x.__class__ is int else evaluate([x], o.env)[0] for x in (tn, ts, dt)]; a, b = sgn(e[0], 32), sgn(e[1], 32)
                r = times(o, e[2], b, max(0, (a - 1) // b) + 1 if a > 0 else 1)
            return r
        for p in c.good():
            if not all(p.extra.get("ov_" + k) for k in ("init", "write", "rho")): C.undecided_(c.label, "a function of the program is not called"); continue
            C.obligation()
            if p.outs.get("rc", {}).get(0) == 0 and not any(q[0] == "sizes" for q in p.marks): C.discharge()
            else: C.fail(c, p, c.label + " status", "status %r" % p.outs.get("rc"), nat); continue
            rec = p.extra.get("rec", []); tab = {}
            def names(o):
                if o.native: return nat(o) or True
                tab.clear()
                for nm, j, v in rec:
                    if j.__class__ is not int: raise Unsupported("symbolic save index")
                    if nm not in ("run/f", "run/rho") or (nm, j) in tab: return "a table %s_%d%s" % (nm, j, " for the second time" if (nm, j) in tab else "")
                    tab[nm, j] = v
                m = 1 + max([j for _, j in tab], default=-1)
                if sorted(tab) != sorted((nm, j) for nm in ("run/f", "run/rho") for j in range(m)): return "the tables are %r" % sorted(tab)
                return True
            if not c.holds(p, "each snapshot written once", names): continue
            m = len(tab) // 2; njs.add(m)
            def complete(o):
                if o.native: return nat(o) or True
                # snapshots 0..m-1 and no other
                mul = lambda j: times_(s64, j) if j else 0
                low = icmp_("slt", mul(m - 1), n64) if m > 1 else m == 1
                high = icmp_("sle", n64, mul(m))
                if m == 1: high = T.bor(high, icmp_("sle", n64, 0))
                return T.band(low, high) if low.__class__ is B else (high if low else False)
            c.holds(p, "as many snapshots as saving intervals below the step count", complete)
            for j in range(m):
                for nm, L in (("run/f", "F"), ("run/rho", "E")):
                    v = tab[nm, j]
                    def right(o):
                        if o.native: return nat(o) or True
                        if len(v) != N: return "%d values" % len(v)
                        q = re.match(r"%s!(\d+)\[0\]$" % L, v[0].args[0]) if v[0].__class__ is R and v[0].op == "v" else None
                        if q is None or any(x is not V("%s!%s[%d]" % (L, q.group(1), i)) for i, x in enumerate(v)): return "snapshot %d of %s holds %r, ..." % (j, nm, v[:2])
                        return icmp_("eq", int(q.group(1)), times_(s64, j) if j else 0) if j else q.group(1) == "0"
                    c.holds(p, "snapshot %d of %s holds the state advanced by %d intervals" % (j, nm, j), right)
            pr = printed(p)
            def lines(o):
                if o.native: return nat(o) or True
                return True if len(pr) == m else "%d printed lines for %d snapshots" % (len(pr), m)
            if c.holds(p, "one printed line per snapshot", lines):
                for j in range(m):
                    if j == 0:
                        def zero(o):
                            if o.native: return nat(o) or True
                            x = pr[0][1]
                            return x == 0 if x.__class__ in (int, float) else T.rcmp("eq", x, 0.0) if x.__class__ is R else icmp_("eq", x, 0)
                        c.holds(p, "first printed time", zero)
                    else:
                        def tm(o):
                            if o.native: return nat(o) or True
                            x = pr[j][1]; jj = times_(s64, j); t = T.rmul(dt, float(jj) if jj.__class__ is int else T.mk(R, "i2r", (jj, True)))
                            d = T.rsub(x, t)
                            # both sides are dt times an integer: compare the integers
                            return T.band(T.rcmp("le", d, 1e-9), T.rcmp("le", -1e-9, d))
                        c.holds(p, "printed time %d" % j, tm)
        if nts[0] < nts[1]: C.require(len(njs) > 1, "runs with different numbers of snapshots in " + c.label)
        c.validate()
    return f
def whole(s, cfg, nt, save, dirn):
    def f(C):
        amp = V("amp")
        vals = dict(DEFAULT, **s); vals.update(nt=nt, t_step_save=save, dt=0.01, amp=amp, rl=1.2, ru=30.0, V2=0.3, initial_data_direction=dirn, Rmin=0.95)
        conf, nat0 = param_file(vals)
        c = C.case("whole program, unknown amplitude, nt=%d, every %d steps, %s, %s" % (nt, save, dirn, sh_str(s)), H, cfg=cfg, units=UM, native_extra=("-DNATIVE",), nat_files=lambda env: dict(DIRS, **nat0(env)),
                   config=dict(conf, ref=1, pre=[T.rcmp("lt", 0.1, amp), T.rcmp("lt", amp, 2.0)], vars=[amp], keep_stdout=True, override=[OV[3]]), ranges=dict(amp=(0.1, 2.0)), max_paths=400).run()
        m = max(0, (nt - 1) // save) + 1
        def nat(o): return ref_check(o) or times(o, 0.01, save, m)
        for p in c.good():
            tab = {}; dup = []
            for nm, j, v in p.extra.get("rec", []):
                if (nm, j) in tab: dup.append((nm, j))
                tab[nm, j] = v
            def names(o):
                if o.native: return nat(o) or True
                a = sorted((n[4:], j) for n, j in tab if n.startswith("run/")); b = sorted((n[4:], j) for n, j in tab if n.startswith("ref/"))
                return True if a == b and len(b) == 2 * m and not dup else "the tables are %r instead of %r; twice: %r" % (a, b, dup)
            if not c.holds(p, "the snapshots", names): continue
            for n, j in sorted(tab):
                if not n.startswith("run/"): continue
                a, b = tab[n, j], tab["ref/" + n[4:], j]
                C.require(sum(q.__class__ is R for q in a) >= 3, "data in %s_%d of %s" % (n, j, c.label))
                C.obligation()
                if len(a) == len(b): C.discharge()
                else: C.fail(c, p, c.label + " size of " + n, "%d values" % len(a), nat); continue
                for k in range(len(a)):
                    def val(o):
                        if o.native: raise Missing("native")
                        return a[k], b[k]
                    c.eq(p, "entry %d of %s_%d" % (k, n, j), val, confirm=nat)
            C.obligation()
            pr = printed(p)
            if len(pr) == m and all(q[1].__class__ is not R and abs(float(q[1]) - 0.01 * save * j) < 1e-7 for j, q in enumerate(pr)): C.discharge()
            else: C.fail(c, p, c.label + " printed times", "printed %r" % [q[1] for q in pr][:5], nat)
        c.validate()
    return f
def check(C):
    warm(H, units=UM); warm(H, units=UM, ndebugs=(False,), cfgs=[()])
    t = shape(9, 1, 0, 2, 1); s = shape(9, 2, 0, 3, 1)
    big = C.thorough
    jobs = [("opaque %s" % (cfg,), opaque(t, cfg, (0, 20 if big else 11), (1, 7 if big else 5), True)) for cfg in CFGS]
    jobs += [("opaque asserts", opaque(t, (), (1, 5), (1, 3), False))]
    W = [(s, (), 4, 1, "ingoing"), (s, ("cheb",), 4, 2, "outgoing"), (s, ("contig",), 5, 3, "time_symmetric"), (s, ("cheb", "contig"), 3, 1, "ingoing")]
    if big: W += [(shape(9, 2, 1, 3, 4), (), 3, 1, "ingoing"), (shape(9, 2, 1, 3, 4), ("cheb",), 3, 1, "outgoing"), (s, (), 9, 2, "outgoing")]
    jobs += [("whole %s" % (w[1],), whole(*w)) for w in W]
    LONG = [((n, n), (m, m)) for n, m in [(131, 1), (131, 3), (1025, 100), (1001, 250)] + ([(1000, 1), (10001, 1000)] if big else [])]
    jobs = [("opaque long %s" % (w,), opaque(t, (), w[0], w[1], True)) for w in LONG] + jobs
    C.parallel(jobs)
    C.bounds.append("longer runs, every state, step and energy density: (nt, saving interval) in %s" % ", ".join("(%d,%d)" % (a[0], b[0]) for a, b in LONG))
    C.bounds.append("any nt up to %s and any saving interval up to %s with every initial state, step, energy density and step size; whole program with nt up to %d, grid %s, one amplitude unknown" % (20 if big else 11, 7 if big else 5, max(w[2] for w in W), sh_str(s)))
    C.assumptions += ["in the first family Scalar_eom::time_step writes the next state into np1, overwrites n by its filtered values and depends on nothing but n (C18), and set_rho depends on its two arguments only (C30)", "doubles are treated as real numbers", "SHTns and FFTW transforms are the exact ones of their documentation", "the output directory exists and is empty (C23)"]
