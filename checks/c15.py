from gr import *
EXPLANATION = "Bounded symbolic execution of Grid's operators from clang's IR on a symbolic grid function, next to the one-sphere and one-ray operators on slices cut out by hand; the solver decides that every output point agrees, for all data."
H = PRE + r'''
extern "C" void vp_main() {
  GRID
  Sphere s(g.nl(),g.nm(),nlat,nphi);
#if USE_CHEB
  Cheb q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#else
  FD q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#endif
  auto v=vp_vec("v",N); const long what=vp_size("what"), M=nlat*nphi; const double cl=vp_dbl("cl");
  std::vector<double> a(what==3 ? nx*nl : N,3.0);
  if (what==0) g.set_partial_phi(v,a);
  if (what==1) g.set_spherical_lap(v,a);
  if (what==2) g.set_sphereX(v,a);
  if (what==3) g.set_angular_power_spectrum(v,a);
  if (what==4) g.set_partial_R(v,a);
  if (what==5) g.set_partial_r(v,a);
  if (what==6) g.set_partial2_r(v,a);
  vp_outv("v1",v);
  if (what<=3) for (size_t ix=0;ix<nx;ix++) {
    std::vector<double> x(M), y(what==3 ? nl : M,4.0);
    for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) x[s.indx(it,ip)]=v[g.indx_R_th_ph(ix,it,ip)];
    if (what==0) s.partial_phi(x,y);
    if (what==1) s.laplace_beltrami(x,y);
    if (what==2) s.sphereX(x,y);
    if (what==3) s.power_spectrum(x,y);
    if (what==3) for (size_t l=0;l<nl;l++) { vp_out("got",(long)(nl*ix+l),a[g.indx_r_l(ix,l)]); vp_out("ref",(long)(nl*ix+l),y[l]); }
    else for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) {
      const long k=M*ix+nphi*it+ip; vp_out("got",k,a[g.indx_R_th_ph(ix,it,ip)]); vp_out("ref",k,y[s.indx(it,ip)]); }
  }
  else for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) {
    std::vector<double> x(nx), d(nx,4.0), dd(nx,5.0);
    for (size_t ix=0;ix<nx;ix++) x[ix]=v[g.indx_R_th_ph(ix,it,ip)];
    q.der(x,d);
#if USE_CHEB
    q.der(d,dd);
#else
    q.der2(x,dd);
#endif
    for (size_t ix=0;ix<nx;ix++) {
      const long k=M*ix+nphi*it+ip; const double e=1.0-q.pt(ix)/cl;
      vp_out("got",k,a[g.indx_R_th_ph(ix,it,ip)]);
      vp_out("ref",k, what==4 ? d[ix] : what==5 ? e*e*d[ix] : e*e*e*(e*dd[ix]-2.0*d[ix]/cl)); }
  }
}
'''
WHAT = ["azimuthal derivative", "Laplacian", "gradient squared", "power spectrum", "d/dR", "d/dr", "d2/dr2"]
def job(s, cfg, w, large=False):
    def f(C):
        c = C.case("%s, %s%s" % (WHAT[w], sh_str(s), ", any slice operator" if large else ""), H, cfg=cfg, units=UN, config=dict(s, what=w, cl=20.0, Rmin=1.0, Rmax=19.0, **({"override": OPS} if large else {}))).run()
        N = s["nx"] * s["nlat"] * s["nphi"]; n = s["nx"] * s["nl"] if w == 3 else N
        M = n // s["nx"]
        for p in c.good():
            for k in range(n):
                c.eq(p, "radius %d, place %d" % divmod(k, M), lambda o: (o["got", k], o["ref", k], s["nx"] ** 2 if w in (4, 5) else s["nx"] ** 4 if w == 6 else 1.0))
            c.unchanged(p, "grid function", "v", "v1", N)
        if s["nx"] == 9: c.validate()
    return f
def check(C):
    S = [shape(9, 2, 1, 3, 4), shape(10, 3, 2, 4, 5)]
    if C.thorough: S += [shape(12, 4, 4, 5, 9), shape(33, 2, 2, 4, 5), shape(9, 1, 0, 2, 1), shape(17, 5, 3, 6, 8)]
    warm(H)
    L = [shape(33, 5, 3, 7, 11), shape(67, 2, 1, 3, 5)] + ([shape(65, 8, 6, 18, 24)] if C.thorough else [])
    C.parallel([("%s %s %s large" % (WHAT[w], sh_str(x), cfg), job(x, cfg, w, True)) for x in L for cfg in (CFGS if x is L[0] else CFGS[:1]) for w in range(7)] + [("%s %s %s" % (WHAT[w], sh_str(s), cfg), job(s, cfg, w)) for s in reversed(S) for cfg in CFGS for w in range(7)])
    C.bounds.append("grid shapes %s with the one-sphere and one-ray operators uninterpreted" % ", ".join(map(sh_str, L)))
    C.bounds.append("grid shapes %s, both radial discretisations, both angular orders; all data" % ", ".join(map(sh_str, S)))
    C.assumptions += ["SHTns and FFTW transforms are the exact ones of their documentation", "doubles are treated as real numbers"]
