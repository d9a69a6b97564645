from gr import *
EXPLANATION = "Bounded symbolic execution of Grid's constructor, index maps and coordinate tables (with Cheb/FD and Sphere underneath) from clang's IR: index maps on symbolic indices (bit-vectors; z3 shows range, injectivity and agreement with the transforms' order), tables on symbolic interval bounds (z3 shows each entry is its point's coordinate)."
H = PRE + r'''
extern "C" void vp_main() {
  GRID
  vp_outi("nx",0,(long)g.nx()); vp_outi("nl",0,(long)g.nl()); vp_outi("nm",0,(long)g.nm()); vp_outi("nlat",0,(long)g.nlat()); vp_outi("nphi",0,(long)g.nphi());
  vp_out("cl",0,g.cl()); vp_out("Rmin",0,g.Rmin()); vp_out("Rmax",0,g.Rmax());
  /* index maps on arbitrary indices */
  { const char *nm[2]={"A","B"}; size_t ix[2],it[2],ip[2],il[2];
    ix[0]=vp_int("ix0"); ix[1]=vp_int("ix1"); it[0]=vp_int("it0"); it[1]=vp_int("it1"); ip[0]=vp_int("ip0"); ip[1]=vp_int("ip1"); il[0]=vp_int("il0"); il[1]=vp_int("il1");
    for (int k=0;k<2;k++) {
      vp_assume((ix[k]<nx)&(it[k]<nlat)&(ip[k]<nphi)&(il[k]<nl));
      vp_outi("k3",k,(long)g.indx_R_th_ph(ix[k],it[k],ip[k]));
      vp_outi("k2",k,(long)g.indx_th_ph(it[k],ip[k]));
      vp_outi("krt",k,(long)g.indx_r_th(ix[k],it[k]));
      vp_outi("krp",k,(long)g.indx_r_ph(ix[k],ip[k]));
      vp_outi("krl",k,(long)g.indx_r_l(ix[k],il[k]));
    } }
  long n=0;
  for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++,n++) {
    const size_t k=g.indx_R_th_ph(ix,it,ip);
    std::vector<double> a=g.R_th_ph(ix,it,ip), b=g.R_th_ph(k), c=g.x_y_z(ix,it,ip), d=g.x_y_z(k);
    for (int j=0;j<3;j++) { vp_out("rtp",3*n+j,a[j]); vp_out("rtpk",3*n+j,b[j]); vp_out("xyz",3*n+j,c[j]); vp_out("xyzk",3*n+j,d[j]); }
  }
  n=0;
  for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++,n++) {
    const size_t k=g.indx_th_ph(it,ip);
    std::vector<double> a=g.th_ph(it,ip), b=g.th_ph(k);
    for (int j=0;j<2;j++) { vp_out("tp",2*n+j,a[j]); vp_out("tpk",2*n+j,b[j]); }
  }
  n=0;
  for (size_t ix=0;ix<nx;ix++) for (size_t il=0;il<nl;il++,n++) {
    const size_t k=g.indx_r_l(ix,il);
    std::vector<double> a=g.R_l(ix,il), b=g.R_l(k);
    for (int j=0;j<2;j++) { vp_out("rl",2*n+j,a[j]); vp_out("rlk",2*n+j,b[j]); }
#if USE_CHEB
    std::vector<double> e=g.n_l(ix,il), f=g.n_l(k);
    for (int j=0;j<2;j++) { vp_out("nl_",2*n+j,e[j]); vp_out("nlk",2*n+j,f[j]); }
#endif
  }
  /* the order the transforms use */
  const size_t l=vp_size("yl"), m=vp_size("ym");
  std::vector<double> y=g.compute_ylm(l,m);
  vp_outi("ysz",0,(long)y.size());
  for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) vp_out("y",(long)(nphi*it+ip),y[g.indx_th_ph(it,ip)]);
}
'''
def ule(a, b): return T.icmp("ule", a, b)
def ult(a, b): return T.icmp("ult", a, b)
def job(s, cfg):
    def f(C):
        cf = dict(s); cf["yl"] = s["nl"]; cf["ym"] = min(1, s["nm"])
        rg = dict(RG)
        for a, n in (("ix", "nx"), ("it", "nlat"), ("ip", "nphi"), ("il", "nl")):
            for k in "01": rg[a + k] = (0, s[n] - 1)
        c = C.case("layout " + sh_str(s), H, cfg=cfg, units=UN, config=cf, ranges=rg).run()
        S = sht(s, cfg)
        N = s["nx"] * s["nlat"] * s["nphi"]
        for p in c.good():
            for nm in ("nx", "nl", "nm", "nlat", "nphi"): c.eq(p, "reported " + nm, lambda o: (o[nm, 0], s[nm]))
            for nm in ("cl", "Rmin", "Rmax"): c.eq(p, "reported " + nm, lambda o: (o[nm, 0], o.v(nm)))
            # index maps
            for nm, size, ar in (("k3", N, ("ix", "it", "ip")), ("k2", s["nlat"] * s["nphi"], ("it", "ip")), ("krt", s["nx"] * s["nlat"], ("ix", "it")),
                                 ("krp", s["nx"] * s["nphi"], ("ix", "ip")), ("krl", s["nx"] * s["nl"], ("ix", "il"))):
                def rng_(o):
                    return T.icmp("ult", o[nm, 0], size) if not o.native else 0 <= o[nm, 0] < size
                c.holds(p, nm + " in range", rng_)
                def inj(o):
                    if o.native: return o[nm, 0] != o[nm, 1] or all(o.v(a + "0") == o.v(a + "1") for a in ar)
                    return o.Or(T.bnot(T.icmp("eq", o[nm, 0], o[nm, 1])), o.And(*[T.icmp("eq", o.v(a + "0"), o.v(a + "1")) for a in ar]))
                c.holds(p, nm + " one-to-one", inj)
            c.holds(p, "the sphere at a radius is contiguous and in the transforms' order", lambda o:
                    (o["k3", 0] == s["nlat"] * s["nphi"] * o.v("ix0") + o["k2", 0]) if o.native else
                    T.icmp("eq", o["k3", 0], T.iop("add", T.iop("mul", o.v("ix0"), s["nlat"] * s["nphi"]), o["k2", 0])))
            # tables
            nx = s["nx"]
            def Rw(o, ix):
                if "cheb" in cfg: w = (1 + models._cospi(ix, nx - 1)) / 2
                else: w = Fraction(ix, nx - 1)
                return o.lin([1 - w, w], [o.v("Rmin"), o.v("Rmax")])
            for n, (ix, it, ip) in enumerate(points(s)):
                th, ph = ang_point(S, it, ip, s["nphi"])
                for nm, sx in (("rtp", ""), ("rtpk", " (by storage position)")):
                    lb = "coordinates of point (%d,%d,%d)%s" % (ix, it, ip, sx)
                    c.eq(p, lb + " R", lambda o: (o[nm, 3 * n], Rw(o, ix)))
                    c.eq(p, lb + " theta", lambda o: (o[nm, 3 * n + 1], th))
                    c.eq(p, lb + " phi", lambda o: (o[nm, 3 * n + 2], ph))
                for nm, sx in (("xyz", ""), ("xyzk", " (by storage position)")):
                    lb = "Cartesian coordinates of point (%d,%d,%d)%s" % (ix, it, ip, sx)
                    for j, w in enumerate((math.cos(ph) * math.sin(th), math.sin(ph) * math.sin(th), math.cos(th))):
                        c.eq(p, lb + " " + "xyz"[j], lambda o: (o[nm, 3 * n + j] + Rw(o, ix), Rw(o, ix) * (1 + w)))
            n = 0
            for it in range(s["nlat"]):
                for ip in range(s["nphi"]):
                    th, ph = ang_point(S, it, ip, s["nphi"])
                    for nm in ("tp", "tpk"):
                        c.eq(p, "theta of %s %d %d" % (nm, it, ip), lambda o: (o[nm, 2 * n], th)); c.eq(p, "phi of %s %d %d" % (nm, it, ip), lambda o: (o[nm, 2 * n + 1], ph))
                    n += 1
            n = 0
            for ix in range(nx):
                for il in range(s["nl"]):
                    for nm in ("rl", "rlk"):
                        c.eq(p, "R of %s %d %d" % (nm, ix, il), lambda o: (o[nm, 2 * n], Rw(o, ix))); c.eq(p, "l of %s %d %d" % (nm, ix, il), lambda o: (o[nm, 2 * n + 1], float(il)))
                    if "cheb" in cfg:
                        for nm in ("nl_", "nlk"):
                            c.eq(p, "n of %s %d %d" % (nm, ix, il), lambda o: (o[nm, 2 * n], float(ix))); c.eq(p, "l of %s %d %d" % (nm, ix, il), lambda o: (o[nm, 2 * n + 1], float(il)))
                    n += 1
            c.eq(p, "harmonic size", lambda o: (o["ysz", 0], s["nlat"] * s["nphi"]))
            l, m = cf["yl"], cf["ym"]
            for it in range(s["nlat"]):
                for ip in range(s["nphi"]):
                    y = S.P[it][l, m] * math.cos(m * 2 * math.pi * ip / s["nphi"]) * (2 if m else 1)
                    c.eq(p, "Y_lm at angle (%d,%d)" % (it, ip), lambda o: (o["y", s["nphi"] * it + ip] + 3.0, y + 3.0))
            if s["nx"] == 4: c.validate(p)
    return f
def check(C):
    S = [shape(4, 3, 2, 4, 7), shape(5, 2, 2, 6, 5), shape(3, 1, 0, 2, 1), shape(9, 4, 1, 5, 3), shape(19, 9, 4, 10, 19)]
    if C.thorough: S += [shape(17, 5, 5, 8, 12), shape(10, 6, 3, 9, 8), shape(12, 3, 3, 5, 16), shape(33, 2, 1, 3, 4)]
    warm(H)
    C.parallel([("%s %s" % (sh_str(s), cfg), job(s, cfg)) for s in S for cfg in CFGS])
    C.bounds.append("grid shapes %s in both radial discretisations and both angular orders; every index; every interval and compactification length" % ", ".join(map(sh_str, S)))
    C.assumptions += ["SHTns puts Gauss-Legendre nodes from north to south and stores theta-first in its native layout, phi-first with SHT_PHI_CONTIGUOUS", "doubles are treated as real numbers"]
