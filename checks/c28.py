from obj import *
import c25
EXPLANATION = ("Symbolic execution from clang's IR, in a memory model with one object per allocation, of every constructor, destructor, operator, row access, field, file writer, the initial data and the whole program, for all field contents at each grid shape. "
               "An access outside a live object, a second release, a release through the wrong function, a use of uninitialised memory or a failed assertion is an error of the path, with the inputs from the solver; memory and streams in use before and after are compared, and the solver decides that nothing computed depends on anything never set.")
TAIL = r'''
static void show(long slot, const vec &r) { for (size_t i=0;i<r.size();i++) vp_out("res",slot*1000+(long)i,r[i]); vp_outi("res_size",slot,(long)r.size()); }
extern "C" void vp_main() {
  const int K=Obj::OPS; vec a, b; size_t n=0; long l0, l1;
  for (int t=0;t<4;t++) { if (t==2) l0=vp_live(); Obj *o=new Obj(0); if (n==0) { n=o->dim(); a=vp_vec("a",n); b=vp_vec("b",n); l0=0; } delete o; } l1=vp_live(); vp_outi("leak",100,l1-l0);
  const int x=(int)vp_size("op");
  { Obj o(0); for (int t=0;t<4;t++) { if (t==2) l0=vp_live(); { vec v(a), w(b), r=o.run(x,v,w,7.0); if (t==1) show(x,r); } } l1=vp_live(); vp_outi("leak",x,l1-l0); }
  (void)K;
}
'''
def inspect(C, c, names, validate=True):
    """on every path: nothing kept, nothing uninitialised"""
    for p in c.good():
        for k in p.outs.get("leak", {}):
            c.eq(p, "%s keeps no memory" % names(k), lambda o: (o["leak", k], 0))
        C.require("leak" in p.outs, "memory measured")
        for nm in [q for q in p.outs if q in ("res",)]:
            for i, x in p.outs[nm].items():
                c.eq(p, "%s: value %d" % (names(i // 1000), i % 1000), lambda o: (o[nm, i], o[nm, i]))
    if validate: c.validate()
def job(kind, cfg, nd, vals=None, large=False):
    def f(C):
        h = KINDS[kind][0] + TAIL
        v = dict(defaults(kind), **(vals or {})); v = {k: q for k, q in v.items() if not k.endswith("1")}
        for x in range(nops(kind, cfg)):
            conf = dict(v, op=x, novalidate=("leak",), junk=V("junk")); nat = None
            if kind == "eom":
                lin = x == 2
                q, nat = param_file(dict(DEFAULT, V2=0.3, V4=0.0 if lin else 0.3, k1=0.0 if lin else 0.2, Rmin=0.95, **{k: v[k] for k in ("nx", "nl", "nm", "nlat", "nphi")}))
                conf = dict(q, op=x, novalidate=("leak",), junk=V("junk"))
            if large: conf["override"] = OPS
            c = C.case("%s %s %s%s" % (kind, NAMES[kind][x], shape_str(kind, v), ", any slice operators" if large else ""), h, cfg=cfg, units=UNITS_OF[kind], config=conf, nat_files=nat, ndebug=nd, ranges=dict(junk=(-3.0, 3.0)), max_paths=300).run()
            inspect(C, c, lambda k: NAMES[kind][k] if k < len(NAMES[kind]) else "building and destroying", not large)
    return f
def shape_str(kind, v):
    return "n=%d" % v["n"] if kind in ("fd", "cheb") else "l<=%d m<=%d on %sx%d" % (v["nl"], v["nm"], ("%dx" % v["nx"] if "nx" in v else "") + str(v["nlat"]), v["nphi"])
H_ROWS = PRE + r'''
typedef std::vector<double> vec;
#define LEAK(k,...) { for (int t=0;t<4;t++) { if (t==2) l0=vp_live(); __VA_ARGS__ } l1=vp_live(); vp_outi("leak",k,l1-l0); }
static void show(long slot, const vec &r) { for (size_t i=0;i<r.size();i++) vp_out("res",slot*1000+(long)i,r[i]); }
extern "C" void vp_main() {
  GRID const size_t M=nlat*nphi; vec v=vp_vec("v",N), c=vp_vec("c",nx*nl); long l0=0, l1; vec q(N), e(nx*nl);
  vec r1(nx), r2(nlat), r3(nphi), r4(nx), r5(nl), r6(nx*nlat), r7(nx*nphi), r8(M);
  LEAK(0, for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) { g.get_row_R(it,ip,v,r1); g.set_row_R(it,ip,r1,q); }) show(0,q);
  LEAK(1, for (size_t ix=0;ix<nx;ix++) for (size_t ip=0;ip<nphi;ip++) { g.get_row_th(ix,ip,v,r2); g.set_row_th(ix,ip,r2,q); }) show(1,q);
  LEAK(2, for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) { g.get_row_ph(ix,it,v,r3); g.set_row_ph(ix,it,r3,q); }) show(2,q);
  LEAK(3, for (size_t il=0;il<nl;il++) { g.get_row_n(il,c,r4); g.set_row_n(il,r4,e); }) show(3,e);
  LEAK(4, for (size_t ix=0;ix<nx;ix++) { g.get_row_th_ph(ix,v,r8); g.set_row_th_ph(ix,r8,q); }) show(4,q);
  LEAK(5, for (size_t ip=0;ip<nphi;ip++) { g.get_row_R_th(ip,v,r6); g.set_row_R_th(ip,r6,q); }) show(5,q);
  LEAK(6, for (size_t it=0;it<nlat;it++) { g.get_row_R_ph(it,v,r7); g.set_row_R_ph(it,r7,q); }) show(6,q);
  LEAK(7, for (size_t ix=0;ix<nx;ix++) { g.set_row_l(ix,r5,e); }) show(7,e);
  vec s; LEAK(8, s.clear(); for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) { auto x=g.R_th_ph(ix,it,ip); for (double y : x) s.push_back(y); x=g.x_y_z(ix,it,ip); for (double y : x) s.push_back(y); s.resize(9); }) show(8,s);
  LEAK(9, s=vec(1,g.total_variation(v));) show(9,s);
  LEAK(10, for (size_t l=0;l<=nl;l++) for (size_t m=0;m<=l && m<=(size_t)vp_size("nm");m++) s=g.compute_ylm(l,m);) show(10,s);
}
'''
ROWS = ["get/set_row_R", "get/set_row_th", "get/set_row_ph", "get/set_row_n", "get/set_row_th_ph", "get/set_row_R_th", "get/set_row_R_ph", "set_row_l", "coordinates", "total_variation", "compute_ylm"]
UP = ["cheb", "finite_diff", "sphere", "grid", "params", "field", "scalar_eom", "initial_data", "io"]
H_PARTS = PRE_E + r'''
#include "initial_data.hpp"
#include "io.hpp"
#include <string>
typedef std::vector<double> vec;
#define LEAK(k,...) { for (int t=0;t<4;t++) { if (t==2) l0=vp_live(); __VA_ARGS__ } l1=vp_live(); vp_outi("leak",k,l1-l0); }
static void show(long slot, const vec &r) { for (size_t i=0;i<r.size();i++) vp_out("res",slot*1000+(long)i,r[i]); }
extern "C" void vp_main() {
  long l0=0, l1; const int op=(int)vp_size("op");
  if (op==0) { LEAK(0, Params q("params.txt"); if (t==1) show(0,vec{q.dt(),q.cl(),q.Rmin(),q.Rmax(),q.bh_mass(),q.bh_spin(),q.V2(),q.amp(),(double)q.nx(),(double)q.nt()});) return; }
  if (op==1) { const size_t n=vp_size("n"); vec a=vp_vec("v",n); LEAK(1, Field f("field with a name that is not a short one",n,vp_dbl("init")); show(1,f.n); f.np1=a; f.shift(); show(1,f.n); show(2,f.np1); show(3,f.k); show(4,f.l);) return; }
  SETUP vec v=vp_vec("v",N);
  if (op==2) { vec f(N), p(N); LEAK(5, ID::compact_pulse(par,g,f,p);) show(5,f); show(6,p); }
  if (op==3) LEAK(7, Csv::write("dir/f",t,v);)
  if (op==4) LEAK(8, Csv::write_R_psl(g,"dir/a_name_that_is_not_short",true,t,v);)
  if (op==5) LEAK(9, Csv::write_x_y_z(g,"dir/f",true,t,-1.0,1.0,0.0,10.0,v);)
#if USE_CHEB
  if (op==6) LEAK(10, Csv::write_n_psl(g,"dir/f",true,t,v);)
#endif
}
'''
PARTS = {0: "Params", 1: "Field", 2: "Field np1", 3: "Field k", 4: "Field l", 5: "compact_pulse f", 6: "compact_pulse p", 7: "Csv::write", 8: "Csv::write_R_psl", 9: "Csv::write_x_y_z", 10: "Csv::write_n_psl"}
def parts(cfg, nd, op, v, dirn="ingoing"):
    def f(C):
        vals = dict(DEFAULT, **v); vals.update(rl=1.2, ru=30.0, amp=V("amp"), initial_data_direction=dirn, l_ang=min(1, v["nl"]), m_ang=0)
        q, nat = param_file(vals)
        pre = [T.rcmp("lt", 0.1, V("amp")), T.rcmp("lt", V("amp"), 2.0)]
        c = C.case("%s %s%s" % (PARTS[[0, 1, 5, 7, 8, 9, 10][op]], sh_str(v), " " + dirn if op == 2 else ""), H_PARTS, cfg=cfg, units=UP, ndebug=nd, config=dict(q, op=op, n=3, init=V("init"), pre=pre, novalidate=("leak",), vars=[V("amp")]), ranges=dict(amp=(0.1, 2.0), init=(-1.0, 1.0)),
                   nat_files=lambda env: dict({"dir/": ""}, **nat(env)), max_paths=3000).run()
        inspect(C, c, lambda k: PARTS[k])
    return f
H_MAIN = c25.H[:c25.H.index('extern "C" void vp_main()')] + r"""
extern "C" void vp_main() {
  static char a0[]="sim", a1[]="params.txt", a2[]="run"; char *av[]={a0,a1,a2,0}; long l0=0;
  for (int t=0;t<2;t++) { l0=vp_live(); const int rc=sfk_main(3,av); vp_outi("rc",t,rc); }
  vp_outi("leak",0,vp_live()-l0);
}
"""
def whole(cfg, nd, v, nts, saves):
    def f(C):
        tn, ts, dt = T.ivar("t_nt", 32), T.ivar("t_save", 32), V("dt")
        vals = dict(DEFAULT, **v); vals.update(nt=tn, t_step_save=ts, dt=dt, rl=1.2, ru=30.0, l_ang=0)
        q, nat = param_file(vals)
        pre = [T.icmp("sle", nts[0], tn), T.icmp("sle", tn, nts[1]), T.icmp("sle", saves[0], ts), T.icmp("sle", ts, saves[1]), T.rcmp("lt", 1e-4, dt), T.rcmp("lt", dt, 1.0)]
        c = C.case("whole program, %d<=nt<=%d, every %d..%d steps, %s" % (nts + saves + (sh_str(v),)), H_MAIN, cfg=cfg, units=UP + ["main"], ndebug=nd, native_extra=("-DNATIVE",), nat_files=lambda env: dict(c25.DIRS, **nat(env)),
                   config=dict(q, override=c25.OV, pre=pre, vars=[tn, ts, dt], novalidate=("leak",)), ranges=dict(t_nt=nts, t_save=saves, dt=(0.005, 0.02)), max_paths=6000).run()
        for p in c.good():
            for t in range(2): c.eq(p, "status of run %d" % t, lambda o: (o["rc", t], 0))
        inspect(C, c, lambda k: "the program")
    return f
def rows(cfg, nd, v):
    def f(C):
        c = C.case("rows %s" % sh_str(v), H_ROWS, cfg=cfg, units=UN, ndebug=nd, config=dict(v, novalidate=("leak",), **GEO)).run()
        inspect(C, c, lambda k: ROWS[k])
    return f
def check(C):
    big = C.thorough; jobs = []; both = (True, False)
    SP = [dict(nl=1, nm=0, nlat=2, nphi=1), dict(nl=1, nm=1, nlat=2, nphi=3), dict(nl=2, nm=1, nlat=3, nphi=4), dict(nl=3, nm=2, nlat=5, nphi=5), dict(nl=2, nm=2, nlat=3, nphi=6)]
    SG = [shape(9, 1, 0, 2, 1), shape(9, 2, 1, 3, 4), shape(10, 2, 2, 4, 5)]
    if big: SP += [dict(nl=5, nm=3, nlat=7, nphi=8), dict(nl=4, nm=4, nlat=5, nphi=10), dict(nl=8, nm=0, nlat=10, nphi=2)]; SG += [shape(11, 3, 1, 4, 3), shape(16, 2, 1, 4, 4), shape(9, 4, 3, 5, 8)]
    SM = shape(2, 1, 0, 2, 1)          # the writers branch on every value
    def all_(kind, cfgs, vals):
        for cfg in cfgs:
            for nd in both:
                for v in vals: jobs.append(("%s %s %s %s" % (kind, v, cfg, nd), job(kind, cfg, nd, v)))
    for kind in KINDS: warm(KINDS[kind][0] + TAIL, units=UNITS_OF[kind], cfgs=cfgs_of(kind), ndebugs=both)
    warm(H_ROWS, ndebugs=both); warm(H_PARTS, units=UP, ndebugs=both); warm(H_MAIN, units=UP + ["main"], ndebugs=both)
    E = [SG[0], SG[1]] + ([SG[2]] if big else [])
    for cfg in CFGS:
        for v in E:
            for nd in both: jobs.append(("eom %s %s" % (v, cfg), job("eom", cfg, nd, v)))
        for nd in both: jobs.append(("program %s" % (cfg,), whole(cfg, nd, SG[0], (0, 5 if not big else 9), (1, 3))))
    all_("grid", CFGS, SG)
    for cfg in CFGS:
        for v in SG:
            for nd in both: jobs.append(("rows %s %s" % (v, cfg), rows(cfg, nd, v)))
        for nd in both:
            for op in range(7 if "cheb" in cfg else 6):
                if op == 5: v = shape(2, 1, 0, 2, 1); jobs.append(("xyz", parts(cfg, nd, op, v)))
                elif op == 2:
                    for d in ("ingoing", "outgoing", "time_symmetric"): jobs.append(("pulse", parts(cfg, nd, op, SG[1], d)))
                else: jobs.append(("parts %d %s" % (op, cfg), parts(cfg, nd, op, SM if op in (4, 6) else SG[1])))
    all_("sphere", [(), ("contig",)], SP)
    all_("fd", [()], [dict(n=n) for n in ((9, 10, 12) if not big else range(9, 22))])
    all_("cheb", [("cheb",)], [dict(n=n) for n in ((2, 3, 4, 5, 8) if not big else range(2, 20))])
    for n in (70, 300): jobs.append(("fd %d" % n, job("fd", (), True, dict(n=n))))
    for n in (33, 70): jobs.append(("cheb %d" % n, job("cheb", ("cheb",), True, dict(n=n))))
    BS = dict(nl=9, nm=7, nlat=12, nphi=17); BG = shape(34, 3, 2, 5, 5)
    for cfg in ((), ("contig",)): jobs.insert(0, ("sphere large %s" % (cfg,), job("sphere", cfg, True, BS)))
    for kind, cfg in (("grid", ()), ("grid", ("cheb", "contig")), ("eom", ("contig",))): jobs.insert(0, ("%s large" % kind, job(kind, cfg, True, BG, True)))
    C.parallel(jobs)
    C.bounds.append("also FD on 70 and 300 points, Cheb on 33 and 70, Sphere %s; Grid and equations of motion on %s with the slice operators uninterpreted" % (tuple(BS.values()), sh_str(BG)))
    C.bounds += ["FD on %s points, Cheb on %s" % (("9, 10, 12", "2 to 5, 8") if not big else ("9..21", "2..19")), "Sphere shapes (lmax, mmax, nlat, nphi): %s; Grid shapes %s; equations of motion on %s; with and without assertions compiled in" % ([tuple(s.values()) for s in SP], [sh_str(s) for s in SG], [sh_str(s) for s in E]),
                 "each operation called four times (memory compared over the last two); the whole program with any nt up to %d, any saving interval up to 3 and any step size, its physics and tables replaced by unknown functions" % (9 if big else 5)]
    C.assumptions += ["SHTns and FFTW behave as documented (they read and write whole transform arrays); their own memory is counted as one block per configuration and plan", "formatted output of a number keeps no memory", "radial grids have at least 9 points in finite-difference mode"]
