from obj import *
EXPLANATION = ("Symbolic execution from clang's IR of every operation of FD, Cheb, Sphere, Grid and Scalar_eom on a new object, and again on an object that has been used before (each other operation on other data; all of them; the same operation on the same array holding other values), with arbitrary leftovers in the result arrays. "
               "The solver decides that each entry of the second result equals that of the first as a function of all the data, that it does not depend on the earlier data, and that inputs come out as they went in.")
TAIL = r'''
static void show(const char *n, long slot, const vec &r) { for (size_t i=0;i<r.size();i++) vp_out(n,slot*1000+(long)i,r[i]); vp_outi((std::string(n)+"_size").c_str(),slot,(long)r.size()); }
extern "C" void vp_main() {
  const int K=Obj::OPS; const int x=(int)vp_size("op"); const double j1=7.0, j2=vp_dbl("junk");
  vec a, b, c, d; size_t n=0;
#define DATA if (n==0) { n=o.dim(); a=vp_vec("a",n); b=vp_vec("b",n); c=vp_vec("c",n); d=vp_vec("d",n); }
  const int h=(int)vp_size("mode")-1;
  Obj o(0); DATA
  if (h<0) { vec v(a), w(b); show("ref",0,o.run(x,v,w,j1)); show("inv",0,v); show("inw",0,w); }
  if (h==0) { vec v(c), w(d); o.run(x,v,w,j2); for (size_t i=0;i<n;i++) { v[i]=a[i]; w[i]=b[i]; } show("got",0,o.run(x,v,w,j2)); }
  if (h==1) { vec v(a), w(b); o.run(x,v,w,j2); show("got",0,o.run(x,v,w,j1)); }
  if (h==2) { vec v(a), w(b), v2(c), w2(d); o.run(x,v,w,j2); o.run(x,v2,w2,j2); show("got",0,o.run(x,v,w,j1)); }
  if (h==3) { for (int y=0;y<K;y++) { vec v(c), w(d); o.run(y,v,w,j2); } for (int y=K-1;y>=0;y--) { vec v(d), w(c); o.run(y,v,w,j1); } vec v(a), w(b); show("got",0,o.run(x,v,w,j2)); }
  if (h>3) { vec v(c), w(d); o.run(h-4,v,w,j2); vec v2(a), w2(b); show("got",0,o.run(x,v2,w2,j2)); }
}
'''
def job(kind, cfg, x, nd=True, vals=None):
    def f(C):
        h = KINDS[kind][0] + "#include <string>\n" + TAIL
        v = dict(defaults(kind), **(vals or {}))
        v = {k: q for k, q in v.items() if not k.endswith("1") or k in ("a1", "b1")}
        nat = None; conf = dict(v, op=x, mode=0, junk=V("junk"))
        if kind == "eom":
            q, nat = param_file(dict(DEFAULT, nx=v["nx"], nl=v["nl"], nm=v["nm"], nlat=v["nlat"], nphi=v["nphi"], V2=0.3, k1=0.0 if x == 2 else 0.2, V4=0.0 if x == 2 else 0.3, Rmin=0.95))
            conf = dict(q, op=x, mode=0, junk=V("junk"))
        K = nops(kind, cfg); ref = None
        for hist in range(K + 4):
            after = ["after itself on the same array", "after itself on the same data", "after itself on the same and on other data", "after every operation twice"][hist] if hist < 4 else "after %s" % NAMES[kind][hist - 4]
            name = "%s %s%s" % (kind, NAMES[kind][x], " %s" % vals if vals else "")
            c = C.case(name + " " + after, h, cfg=cfg, units=UNITS_OF[kind], config=dict(conf, mode=hist + 1), nat_files=nat, ndebug=nd, ranges=dict(junk=(-3.0, 3.0)), max_paths=300).run()
            ref = Alone(C, c, {"fresh": dict(mode=0)}, ref)
            for p in c.good(): C.require(ref.eq(p, "fresh", "result", "got", 0, 0), "a result of %s %s" % (name, after))
            if hist in (0, 3): c.validate()
        r = ref.cases["fresh"]
        for p in r.good():
            m = p.outs["inv_size"][0]
            for i in range(m):
                r.eq(p, "first input[%d] unchanged" % i, lambda o: (o["inv", i], o.v("a", i)))
                r.eq(p, "second input[%d] unchanged" % i, lambda o: (o["inw", i], o.v("b", i)))
        r.validate()
    return f
def check(C):
    jobs = []
    for kind in KINDS:
        warm(KINDS[kind][0] + "#include <string>\n" + TAIL, units=UNITS_OF[kind], cfgs=cfgs_of(kind), ndebugs=(True,))
        for cfg in cfgs_of(kind):
            for x in range(nops(kind, cfg)): jobs.append(("%s %s %s" % (kind, NAMES[kind][x], cfg), job(kind, cfg, x)))
    if C.thorough:
        for cfg in cfgs_of("sphere"):
            for x in range(12): jobs.append(("sphere big", job("sphere", cfg, x, vals=dict(nl=4, nm=3, nlat=5, nphi=8))))
        for n in (13, 20):
            for x in range(3): jobs.append(("fd big", job("fd", (), x, vals=dict(n=n))))
            for x in range(4): jobs.append(("cheb big", job("cheb", (), x, vals=dict(n=n))))
        for cfg in CFGS:
            for x in range(nops("grid", cfg)): jobs.append(("grid big", job("grid", cfg, x, vals=dict(nx=11, nl=2, nm=2, nlat=3, nphi=5))))
    for n in (33, 300):
        for x in range(3): jobs.append(("fd %d" % n, job("fd", (), x, vals=dict(n=n))))
    for n in (17, 33):
        for x in range(4): jobs.append(("cheb %d" % n, job("cheb", ("cheb",), x, vals=dict(n=n))))
    for x in range(12): jobs.append(("sphere l5", job("sphere", ("contig",) if x % 2 else (), x, vals=dict(nl=5, nm=4, nlat=7, nphi=9))))
    jobs.sort(key=lambda j: not j[0].startswith(("eom", "grid")))
    C.parallel(jobs)
    C.bounds.append("also FD on 33 and 300 points, Cheb on 17 and 33, Sphere l<=5, m<=4 on 7x9")
    C.bounds.append("FD on 9 points, Cheb on 5, Sphere l<=2 on 3x4, Grid and equations of motion on 9x2x3; every operation after every other, after all of them, after itself; all data of both calls symbolic%s" % ("; and larger sizes" if C.thorough else ""))
    C.assumptions += ["doubles are treated as real numbers", "SHTns and FFTW transforms are the exact ones of their documentation", "set_n_l_coef on a constant field (it takes square roots)"]
