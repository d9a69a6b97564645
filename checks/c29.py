from obj import *
EXPLANATION = ("Symbolic execution from clang's IR of two operator objects (FD, Cheb, Sphere, Grid, or the equations of motion with their grids) whose lives overlap in every way: built in either order, used alternately, one destroyed while the other is still used, one rebuilt afterwards. "
               "The solver decides that every result is, as a function of all the data, the one of an object that is alone in the program; FFTW plans and SHTns configurations are tracked, so destroying another object's plan, twice, or using it afterwards is an error of the path.")
TAIL = r'''
#include <string>
static size_t na, nb;
static vec A, B, C, D;
static void show(const char *n, const vec &r) { for (size_t i=0;i<r.size();i++) vp_out(n,(long)i,r[i]); vp_outi((std::string(n)+"_size").c_str(),0,(long)r.size()); }
static vec one(const Obj &o, int k, double j) { vec v(A), w(B); return o.run(k,v,w,j); }
static vec two(const Obj &o, int k, double j) { vec v(C), w(D); return o.run(k,v,w,j); }
static Obj *mk(int w) { Obj *o=new Obj(w); if (w==0 && A.empty()) { na=o->dim(); A=vp_vec("a",na); B=vp_vec("b",na); } if (w==1 && C.empty()) { nb=o->dim(); C=vp_vec("c",nb); D=vp_vec("d",nb); } return o; }
extern "C" void vp_main() {
  const int x=(int)vp_size("op"), mode=(int)vp_size("mode"), z=(int)vp_size("z");
  const double J=7.0, j=vp_dbl("junk");
  if (mode==1) { Obj *o=mk(0); show("ref",one(*o,x,J)); delete o; return; }
  if (mode==2) { Obj *o=mk(1); show("ref",two(*o,z,J)); delete o; return; }
  { const int y=z;
    { Obj *p=mk(0), *q=mk(1); show("x1",one(*p,x,j)); show("y1",two(*q,y,j)); show("x2",one(*p,x,j)); delete q; show("x3",one(*p,x,j)); delete p; }
    { Obj *q=mk(1), *p=mk(0); show("y2",two(*q,y,j)); delete q; show("x4",one(*p,x,j)); q=mk(1); delete p; show("y3",two(*q,y,j)); p=mk(0); show("y4",two(*q,y,j)); delete q; show("x5",one(*p,x,j)); delete p; }
    { Obj *p=mk(0); show("x6",one(*p,x,j)); Obj *q=mk(1); delete p; show("y5",two(*q,y,j)); delete q; p=mk(0); show("x7",one(*p,x,j)); delete p; }
  }
}
'''
WHEN = dict(x1="with a second object built", x2="after the second object was used", x3="after the second object was destroyed", x4="built second, after the first was used and destroyed", x5="rebuilt while the other lived and outliving it", x6="alone, before the other is built", x7="rebuilt after both were destroyed",
            y1="with two objects alive", y2="as the first of two", y3="built before the other was destroyed", y4="with the other rebuilt", y5="outliving the first")
def job(kind, cfg, x, nd=True, vals=None):
    def f(C):
        h = KINDS[kind][0] + TAIL
        v = dict(defaults(kind), **(vals or {}))
        nat = None; K = nops(kind, cfg) if kind != "eom" or x == 2 else 2      # time_step with linear equations only: it squares what it squares four times over
        conf = dict(v, op=x, mode=0, z=0, junk=V("junk"))
        if kind == "eom":
            P = dict(DEFAULT, V2=0.3, Rmin=0.95, k1=0.0 if x == 2 else 0.2, V4=0.0 if x == 2 else 0.3)
            q, nat1 = param_file(dict(P, **{k: v[k] for k in ("nx", "nl", "nm", "nlat", "nphi")}))
            q2, nat2 = param_file(dict(P, V2=0.7, black_hole_spin=-0.3, Rmin=0.9, **{k: v[k + "1"] for k in ("nx", "nl", "nm", "nlat", "nphi")}), name="other.txt")
            q = dict(q, files=dict(q["files"], **q2["files"])); nat = lambda env: dict(nat1(env), **nat2(env))
            conf = dict(q, op=x, mode=0, z=0, junk=V("junk"))
        ref = None
        for y in range(K):
            name = "%s %s with %s%s" % (kind, NAMES[kind][x], NAMES[kind][y], " %s" % sorted(vals.items()) if vals else "")
            c = C.case(name, h, cfg=cfg, units=UNITS_OF[kind], config=dict(conf, z=y), nat_files=nat, ndebug=nd, ranges=dict(junk=(-3.0, 3.0)), max_paths=300).run()
            ref = Alone(C, c, {"x": dict(mode=1, z=0), "y%d" % y: dict(mode=2, z=y)}, ref)
            for p in c.good():
                for nm in WHEN: C.require(ref.eq(p, "x" if nm[0] == "x" else "y%d" % y, "%s, %s" % (NAMES[kind][x if nm[0] == "x" else y], WHEN[nm]), nm, 0, 0), "a result of %s %s" % (name, nm))
            if y == K - 1: c.validate()
    return f
SAME = dict(fd=dict(n1=9), cheb=dict(n1=5), sphere=dict(nl1=2, nm1=1, nlat1=3, nphi1=4))
def check(C):
    jobs = []
    for kind in KINDS:
        warm(KINDS[kind][0] + TAIL, units=UNITS_OF[kind], cfgs=cfgs_of(kind), ndebugs=(True,))
        for cfg in cfgs_of(kind):
            for x in range(nops(kind, cfg)):
                jobs.append(("%s %s %s" % (kind, NAMES[kind][x], cfg), job(kind, cfg, x)))
                if kind in SAME: jobs.append(("%s %s %s same size" % (kind, NAMES[kind][x], cfg), job(kind, cfg, x, vals=SAME[kind])))
                elif C.thorough and kind == "grid": jobs.append(("%s %s %s same size" % (kind, NAMES[kind][x], cfg), job(kind, cfg, x, vals=dict(nx1=9, nl1=1, nlat1=2, nphi1=3))))
    A = [("grid", ("cheb",)), ("sphere", ("contig",)), ("cheb", ("cheb",)), ("fd", ())]
    for kind, cfg in A:
        warm(KINDS[kind][0] + TAIL, units=UNITS_OF[kind], cfgs=[cfg], ndebugs=(False,))
        for x in range(nops(kind, cfg)): jobs.append(("%s %s asserts" % (kind, NAMES[kind][x]), job(kind, cfg, x, nd=False)))
    for cfg, v in ((("cheb",), dict(nx1=9, nl1=1, nm1=1, nlat1=2, nphi1=3)), ((), dict(nx1=9, nl1=1, nm1=0, nlat1=3, nphi1=2)), (("contig",), dict(nx1=9, nl1=1, nm1=0, nlat1=3, nphi1=2))):
        for x in range(nops("grid", cfg)): jobs.append(("grid %s %s %s" % (NAMES["grid"][x], cfg, sorted(v.values())), job("grid", cfg, x, vals=v)))
    if C.thorough:
        for cfg in cfgs_of("sphere"):
            for x in range(12): jobs.append(("sphere big", job("sphere", cfg, x, vals=dict(nl=4, nm=3, nlat=5, nphi=8))))
        for n in (13, 20):
            for x in range(3): jobs.append(("fd big", job("fd", (), x, vals=dict(n=n))))
            for x in range(4): jobs.append(("cheb big", job("cheb", (), x, vals=dict(n=n))))
    jobs.sort(key=lambda j: not j[0].startswith(("eom", "grid")))
    C.parallel(jobs)
    C.bounds.append("two objects of one class, lives of up to three objects in 3 histories that contain every order of building, using and destroying them; FD on 9 and 9 or 10 points, Cheb on 5 and 5 or 6, Sphere l<=2 on 3x4 and the same or l<=1 on 2x3, Grid and equations of motion on 9x2x3 and 10x3x4, Grid also on 9x2x3 and 9x2x3 or 9x3x2, one configuration of each with assertions; every operation of one with every operation of the other; all data symbolic%s" % ("; and larger sizes" if C.thorough else ""))
    C.assumptions += ["doubles are treated as real numbers", "SHTns and FFTW transforms are the exact ones of their documentation; fftw_cleanup invalidates every existing plan", "set_n_l_coef on a constant field (it takes square roots)"]
