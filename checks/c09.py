from gr import *
EXPLANATION = "Bounded symbolic execution of every get_row/set_row function of Grid from clang's IR, on symbolic grid functions and slices, at every slice position of the listed shapes, with assertions compiled in and out; z3 decides each output value."
UNITS = UN
# name, position arguments, what the slice runs over
ROWS = [("R", ("it", "ip"), ("ix",)), ("th", ("ix", "ip"), ("it",)), ("ph", ("ix", "it"), ("ip",)),
        ("R_th", ("ip",), ("ix", "it")), ("R_ph", ("it",), ("ix", "ip")), ("th_ph", ("ix",), ("it", "ip"))]
SZ = dict(ix="nx", it="nlat", ip="nphi", il="nl")
MAP = {("ix",): "ix", ("it",): "it", ("ip",): "ip", ("ix", "it"): "g.indx_r_th(ix,it)", ("ix", "ip"): "g.indx_r_ph(ix,ip)", ("it", "ip"): "g.indx_th_ph(it,ip)"}
def harness(name, pos, run):
    """the slice functions of one kind, at every position"""
    if name == "l":
        return PRE + r'''
extern "C" void vp_main() {
  GRID
  auto w=vp_vec("w",nx*nl); long n=0;
  for (size_t ix=0;ix<nx;ix++) { 
    for (size_t i=0;i<nx;i++) for (size_t l=0;l<nl;l++) vp_outi("k",(long)(nl*i+l),(long)g.indx_r_l(i,l));
    auto s=vp_vec("s",nl); auto t=w; g.set_row_l(ix,s,t); for (auto x: t) vp_out("set",n++,x); vp_outv("s1",s); }
}'''
    if name == "n":
        return PRE + r'''
extern "C" void vp_main() {
  GRID
  auto w=vp_vec("w",nx*nl), v=vp_vec("v",nx*nl); long n=0, gn=0;
  for (size_t i=0;i<nx;i++) for (size_t l=0;l<nl;l++) vp_outi("k",(long)(nl*i+l),(long)g.indx_r_l(i,l));
  for (size_t il=0;il<nl;il++) { 
    std::vector<double> o(nx,5.0); g.get_row_n(il,v,o); for (auto x: o) vp_out("get",gn++,x);
    auto s=vp_vec("s",nx); auto t=w; g.set_row_n(il,s,t); for (auto x: t) vp_out("set",n++,x); vp_outv("s1",s);
    g.get_row_n(il,t,o); for (size_t i=0;i<nx;i++) vp_out("rt",(long)(nx*il+i),o[i]); }
  vp_outv("v1",v);
}'''
    loops = "".join("for (size_t %s=0;%s<%s;%s+=st) " % (p, p, SZ[p], p) for p in pos)
    inner = "".join("for (size_t %s=0;%s<%s;%s++) " % (p, p, SZ[p], p) for p in run)
    n = "*".join(SZ[p] for p in run)
    return PRE + r'''
extern "C" void vp_main() {
  GRID
  const size_t st=vp_size("st");
  auto v=vp_vec("v",N), w=vp_vec("w",N); long gn=0,sn=0,rn=0;
  { long q=0; for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) vp_outi("k",q++,(long)g.indx_R_th_ph(ix,it,ip)); }
  { long q=0; %(inner)s vp_outi("m",q++,(long)%(map)s); }
  %(loops)s {
    std::vector<double> o(%(n)s,5.0);
    g.get_row_%(name)s(%(args)s,v,o); for (auto x: o) vp_out("get",gn++,x);
    auto s=vp_vec("s",%(n)s); auto t=w;
    g.set_row_%(name)s(%(args)s,s,t); for (auto x: t) vp_out("set",sn++,x); vp_outv("s1",s);
    std::vector<double> b(%(n)s,6.0); g.get_row_%(name)s(%(args)s,t,b); for (auto x: b) vp_out("rt",rn++,x);
  }
  vp_outv("v1",v);
}''' % dict(inner=inner, map=MAP[run], loops=loops, n=n, name=name, args=",".join(pos))
def job(s, cfg, nd, row, st=1):
    name, pos, run = row
    def f(C):
        H = harness(*row)
        c = C.case("%s rows, %s" % (name, sh_str(s)), H, cfg=cfg, units=UNITS, config=dict(s, st=st, **GEO), ndebug=nd).run()
        import itertools
        for p in c.good():
            if name in ("l", "n"):
                nx, nl = s["nx"], s["nl"]; o0 = Sym(c, p)
                K = {(i, l): o0["k", nl * i + l] for i in range(nx) for l in range(nl)}
                for a in range(nx if name == "l" else nl):
                    for i in range(nx):
                        for l in range(nl):
                            k = K[i, l]; hit = (i if name == "l" else l) == a
                            j = l if name == "l" else i
                            c.eq(p, "set_row_%s(%d) at (%d,%d)" % (name, a, i, l), lambda o: (o["set", nx * nl * a + k], o.v("s", j) if hit else o.v("w", k)))
                            if name == "n" and hit:
                                c.eq(p, "get_row_n(%d) at %d" % (a, i), lambda o: (o["get", nx * a + i], o.v("v", k)))
                                c.eq(p, "round trip of row n(%d) at %d" % (a, i), lambda o: (o["rt", nx * a + i], o.v("s", i)))
                c.unchanged(p, "slice", "s", "s1", nl if name == "l" else nx)
                continue
            o0 = Sym(c, p)
            P = points(s); N = len(P)
            k3 = {q: o0["k", j] for j, q in enumerate(P)}
            rs = [range(s[SZ[x]]) for x in run]
            n = 1
            for r in rs: n *= len(r)
            m = {q: o0["m", j] for j, q in enumerate(itertools.product(*rs))}
            for j, a in enumerate(itertools.product(*[range(0, s[SZ[x]], st) for x in pos])):
                A = dict(zip(pos, a))
                for (ix, it, ip) in P:
                    q = dict(ix=ix, it=it, ip=ip); k = k3[ix, it, ip]
                    hit = all(q[x] == A[x] for x in pos)
                    if hit: e = m[tuple(q[x] for x in run)]
                    c.eq(p, "set_row_%s%s at (%d,%d,%d)" % (name, a, ix, it, ip), lambda o: (o["set", N * j + k], o.v("s", e) if hit else o.v("w", k)))
                    if hit:
                        c.eq(p, "get_row_%s%s at (%d,%d,%d)" % (name, a, ix, it, ip), lambda o: (o["get", n * j + e], o.v("v", k)))
                        c.eq(p, "round trip of row %s%s at %d" % (name, a, e), lambda o: (o["rt", n * j + e], o.v("s", e)))
            c.unchanged(p, "grid function", "v", "v1", N)
            c.unchanged(p, "slice", "s", "s1", n)
            if nd and s["nx"] == 4: c.validate(p)
    return f
def check(C):
    S = [shape(4, 2, 2, 3, 5), shape(3, 3, 1, 5, 4)] + ([shape(5, 4, 3, 6, 8), shape(2, 1, 0, 2, 1), shape(6, 2, 1, 3, 3)] if C.thorough else [])
    rows = ROWS + [("l", None, None), ("n", None, None)]
    hs = [harness(*r) for r in rows]
    cf = CFGS
    from concurrent.futures import ThreadPoolExecutor
    warm(hs[0], ndebugs=(True, False), units=UNITS, cfgs=cf)
    with ThreadPoolExecutor(6) as ex: list(ex.map(lambda a: warm(a[0], ndebugs=(a[1],), units=UNITS, cfgs=[a[2]]), [(h, nd, c) for h in hs[1:] for nd in (True, False) for c in cf]))
    big = shape(19, 9, 4, 10, 19)
    C.parallel([("%s rows large %s" % (r[0], cfg), job(big, cfg, True, r, 9)) for r in rows for cfg in (("cheb",), ("contig",)) if not (r[0] == "n" and cfg == ("contig",))] + [("%s rows %s %s %s" % (r[0], sh_str(s), cfg, nd), job(s, cfg, nd, r)) for r in rows for s in S for cfg in cf for nd in (True, False) if not (nd is False and (s is not S[0]) and not C.thorough)])
    C.bounds.append("grid shape %s, first, last and some other positions" % sh_str(big))
    C.bounds.append("grid shapes %s, both radial discretisations, both angular orders, assertions on and off: every slice position, all contents" % ", ".join(map(sh_str, S)))
    C.assumptions += ["doubles are treated as real numbers (copies only)"]
