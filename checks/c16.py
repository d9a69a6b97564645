from gr import *
EXPLANATION = "Bounded symbolic execution of Grid::filter from clang's IR on a symbolic grid function, next to the one-sphere and one-ray filters applied in turn to slices cut out by hand; the solver decides that every output point agrees, for all data."
H = PRE + r'''
extern "C" void vp_main() {
  GRID
  Sphere s(g.nl(),g.nm(),nlat,nphi);
#if USE_CHEB
  Cheb q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#else
  FD q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#endif
  auto v=vp_vec("v",N); auto w=v; const long M=nlat*nphi;
  g.filter(v);
  for (size_t ix=0;ix<nx;ix++) {
    std::vector<double> x(M);
    for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) x[s.indx(it,ip)]=w[g.indx_R_th_ph(ix,it,ip)];
    s.filter(x);
    for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) w[g.indx_R_th_ph(ix,it,ip)]=x[s.indx(it,ip)];
  }
  for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) {
    std::vector<double> x(nx);
    for (size_t ix=0;ix<nx;ix++) x[ix]=w[g.indx_R_th_ph(ix,it,ip)];
    const double lo=x[0], up=x[nx-1];
    q.filter(x);
    x[0]=lo; x[nx-1]=up;
    for (size_t ix=0;ix<nx;ix++) { const long k=M*ix+nphi*it+ip; vp_out("ang",k,w[g.indx_R_th_ph(ix,it,ip)]); vp_out("got",k,v[g.indx_R_th_ph(ix,it,ip)]); vp_out("ref",k,x[ix]); }
  }
}
'''
def job(s, cfg, large=False):
    def f(C):
        c = C.case("filter, %s%s" % (sh_str(s), ", any slice filters" if large else ""), H, cfg=cfg, units=UN, config=dict(s, cl=20.0, Rmin=1.0, Rmax=19.0, **({"override": OPS} if large else {}))).run()
        N = s["nx"] * s["nlat"] * s["nphi"]; M = N // s["nx"]
        for p in c.good():
            diff = False
            for k in range(N):
                c.eq(p, "radius %d, place %d" % divmod(k, M), lambda o: (o["got", k], o["ref", k]))
            for k in range(N - M, N):
                c.eq(p, "outermost value is the angularly filtered one, place %d" % (k % M), lambda o: (o["got", k], o["ang", k]))
            for k in range(M):
                c.eq(p, "innermost value is the angularly filtered one, place %d" % k, lambda o: (o["got", k], o["ang", k]))
            # the radial part does something (or the comparison would be empty)
            k = (s["nx"] // 2) * M
            d = c.eq_terms(p, p.outs["got"][k], p.outs["ang"][k], 1e-6)
            C.require(d is not None, "the radial filter changes the data in " + c.label)
        if s["nx"] == 9: c.validate()
    return f
def check(C):
    S = [shape(9, 2, 1, 3, 4), shape(12, 3, 2, 4, 5), shape(17, 1, 0, 2, 1)]
    if C.thorough: S += [shape(12, 4, 4, 5, 9), shape(33, 2, 2, 4, 5), shape(17, 5, 3, 6, 8)]
    warm(H)
    L = [shape(33, 5, 3, 7, 11), shape(67, 2, 1, 3, 5)] + ([shape(65, 8, 6, 18, 24)] if C.thorough else [])
    C.parallel([("%s %s large" % (sh_str(x), cfg), job(x, cfg, True)) for x in L for cfg in CFGS] + [("%s %s" % (sh_str(s), cfg), job(s, cfg)) for s in reversed(S) for cfg in CFGS])
    C.bounds.append("grid shapes %s with the one-sphere and one-ray filters uninterpreted" % ", ".join(map(sh_str, L)))
    C.bounds.append("grid shapes %s, both radial discretisations, both angular orders; all data" % ", ".join(map(sh_str, S)))
    C.assumptions += ["SHTns and FFTW transforms are the exact ones of their documentation", "doubles are treated as real numbers"]
