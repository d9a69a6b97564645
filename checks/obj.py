"""Shared by C28-C30: every operation of the operator classes behind one interface."""
from eom import *
H_OBJ = r'''
#include "vp.h"
#include <vector>
#include <complex>
typedef std::vector<double> vec;
static inline void push(vec &r, const std::vector<std::complex<double>> &v) { for (auto &x : v) { r.push_back(x.real()); r.push_back(x.imag()); } }
'''
H_FD = H_OBJ + r'''
#include "finite_diff.hpp"
struct Obj { FD o; size_t n; Obj(int w) : o(vp_size(w?"n1":"n"),w?vp_dbl("b0"):vp_dbl("a0"),w?vp_dbl("b1"):vp_dbl("a1")), n(vp_size(w?"n1":"n")) {}
  enum { OPS=3 }; size_t dim() const { return n; }
  vec run(int k, vec &v, vec &w, double junk) const { vec r(n,junk); if (k==0) o.der(v,r); if (k==1) o.der2(v,r); if (k==2) { r=v; o.filter(r); } return r; } };
'''
H_CH = H_OBJ + r'''
#include "cheb.hpp"
struct Obj { Cheb o; size_t n; Obj(int w) : o(vp_size(w?"n1":"n"),w?vp_dbl("b0"):vp_dbl("a0"),w?vp_dbl("b1"):vp_dbl("a1")), n(vp_size(w?"n1":"n")) {}
  enum { OPS=4 }; size_t dim() const { return n; }
  vec run(int k, vec &v, vec &w, double junk) const { vec r(n,junk); if (k==0) o.der(v,r); if (k==1) { r=v; o.filter(r); } if (k==2) o.to_ch(v,r); if (k==3) o.to_po(v,r); return r; } };
'''
H_SP = H_OBJ + r'''
#include "sphere.hpp"
struct Obj { Sphere o; size_t nl; Obj(int w) : o(vp_size(w?"nl1":"nl"),vp_size(w?"nm1":"nm"),vp_size(w?"nlat1":"nlat"),vp_size(w?"nphi1":"nphi")), nl(vp_size(w?"nl1":"nl")) {}
  enum { OPS=12 }; size_t dim() const { size_t a=o.nSph(), b=o.nYlm(), c=(nl+1)*(nl+1); return a>b ? (a>c?a:c) : (b>c?b:c); }
  vec run(int k, vec &v0, vec &w0, double junk) const {
    const size_t N=o.nSph(), L=o.nYlm(), C=(nl+1)*(nl+1); vec r; typedef std::complex<double> cx;
    vec v(v0.begin(),v0.begin()+N), d(N,junk), p(nl,junk); std::vector<cx> y(L), a(N,junk), c(C), s(N);
    for (size_t i=0;i<L;i++) y[i]=cx(v0[i],w0[i]); for (size_t i=0;i<C;i++) c[i]=cx(v0[i],w0[i]); for (size_t i=0;i<N;i++) s[i]=cx(v0[i],w0[i]);
    if (k==0) { o.laplace_beltrami(v,d); r=d; } if (k==1) { o.partial_phi(v,d); r=d; } if (k==2) { o.sphereX(v,d); r=d; } if (k==3) { d=v; o.filter(d); r=d; }
    if (k==4) { o.power_spectrum(v,p); r=p; } if (k==5) { std::vector<cx> q(L,junk); o.to_Ylm(v,q); push(r,q); } if (k==6) { o.to_Sph(y,d); r=d; }
    if (k==7) { std::vector<cx> q(C,junk); o.to_Ylm(s,q); push(r,q); } if (k==8) { o.to_Sph(c,a); push(r,a); } if (k==9) { o.raise(v,a); push(r,a); } if (k==10) { o.lower(v,a); push(r,a); }
    if (k==11) r=o.compute_ylm(1,vp_size("nm")>0);
    for (size_t i=0;i<N;i++) { v0[i]=v[i]; if (k==7) { v0[i]=s[i].real(); w0[i]=s[i].imag(); } }
    for (size_t i=0;i<C;i++) if (k==8) { v0[i]=c[i].real(); w0[i]=c[i].imag(); }
    for (size_t i=0;i<L;i++) if (k==6) { v0[i]=y[i].real(); w0[i]=y[i].imag(); }
    return r; } };
'''
H_GR = H_OBJ + r'''
#include "grid.hpp"
struct Obj { Grid o; Obj(int w) : o(vp_dbl("cl"),vp_dbl("Rmin"),vp_dbl("Rmax"),vp_size(w?"nx1":"nx"),vp_size(w?"nl1":"nl"),vp_size(w?"nm1":"nm"),vp_size(w?"nlat1":"nlat"),vp_size(w?"nphi1":"nphi")) {}
#if USE_CHEB
  enum { OPS=11 };
#else
  enum { OPS=10 };
#endif
  size_t dim() const { return o.nx()*o.nlat()*o.nphi(); }
  vec run(int k, vec &v, vec &w, double junk) const {
    vec r(dim(),junk), p(o.nx()*o.nl(),junk);
    if (k==0) o.set_partial_phi(v,r); if (k==1) o.set_spherical_lap(v,r); if (k==2) o.set_sphereX(v,r); if (k==3) o.set_partial_R(v,r); if (k==4) o.set_partial_r(v,r); if (k==5) o.set_partial2_r(v,r);
    if (k==6) { r=v; o.filter(r); } if (k==7) { o.set_angular_power_spectrum(v,p); r=p; } if (k==8) { r=o.compute_ylm(1,0); } if (k==9) { vec h(v); h[0]+=w[0]; r=vec(1,o.norm_indep_res(0.01,v,h,w)); }
#if USE_CHEB
    if (k==10) { for (auto &x : p) x=vp_dbl("junk"); vec q(v); for (auto &x : q) x=0.5; o.set_n_l_coef(q,p); r=p; }
#endif
    return r; } };
'''
H_EQ = PRE_E + H_OBJ + r'''
struct Obj { Params par; Grid g; mutable Scalar_eom e; Obj(int w) : par(w?"other.txt":"params.txt"), g(par.cl(),par.Rmin(),par.Rmax(),par.nx(),par.nl(),par.nm(),par.nlat(),par.nphi()), e(g,par) {}
  enum { OPS=3 }; size_t dim() const { return g.nx()*g.nlat()*g.nphi(); }
  vec run(int k, vec &v, vec &w, double junk) const {
    const size_t N=dim(); vec a(N,junk), b(N,junk), r;
    if (k==0) { e.set_k(g,v,w,a,b); r=a; r.insert(r.end(),b.begin(),b.end()); } if (k==1) { e.set_rho(g,v,w,a); r=a; }
    if (k==2) { Field f("f",N,junk), p("p",N,junk); f.n=v; p.n=w; e.time_step(g,f,p); r=f.np1; r.insert(r.end(),p.np1.begin(),p.np1.end()); r.insert(r.end(),f.n.begin(),f.n.end()); r.insert(r.end(),p.n.begin(),p.n.end()); }
    return r; } };
'''
UNITS_OF = dict(fd=["finite_diff"], cheb=["cheb"], sphere=["sphere"], grid=UN, eom=UE)
KINDS = dict(fd=(H_FD, 3), cheb=(H_CH, 4), sphere=(H_SP, 12), grid=(H_GR, 10), eom=(H_EQ, 3))
NAMES = dict(fd=["der", "der2", "filter"], cheb=["der", "filter", "to_ch", "to_po"],
             sphere=["laplace_beltrami", "partial_phi", "sphereX", "filter", "power_spectrum", "to_Ylm", "to_Sph", "complex to_Ylm", "complex to_Sph", "raise", "lower", "compute_ylm"],
             grid=["set_partial_phi", "set_spherical_lap", "set_sphereX", "set_partial_R", "set_partial_r", "set_partial2_r", "filter", "set_angular_power_spectrum", "compute_ylm", "norm_indep_res", "set_n_l_coef"],
             eom=["set_k", "set_rho", "time_step"])
def nops(kind, cfg): return 11 if kind == "grid" and "cheb" in cfg else KINDS[kind][1]
def cfgs_of(kind): return [()] if kind in ("fd", "cheb") else [(), ("contig",)] if kind == "sphere" else CFGS
def defaults(kind):
    if kind == "fd": return dict(n=9, n1=10, a0=-1.0, a1=1.5, b0=0.25, b1=2.0)
    if kind == "cheb": return dict(n=5, n1=6, a0=-1.0, a1=1.5, b0=0.25, b1=2.0)
    s = dict(nl=2, nm=1, nlat=3, nphi=4, nl1=1, nm1=1, nlat1=2, nphi1=3)
    if kind == "sphere": return s
    return dict(s, nx=9, nx1=10, cl=20.0, Rmin=0.75, Rmax=20.0, nl=1, nm=1, nlat=2, nphi=3, nl1=2, nm1=1, nlat1=3, nphi1=4)
def label_eq(s): return s
import copy
class Alone:
    """results of the same operation in programs of their own: slot -> paths with outs ref[i] and ref_size[0]"""
    def __init__(self, C, c, slots, like=None):
        self.C, self.c, self.slots, self.paths = C, c, slots, {}
        self.cases = {} if like is None else like.cases
        if like is not None: self.paths = like.paths
        for s, over in slots.items():
            if s in self.cases: continue
            r = self.cases[s] = C.case("%s, alone, %s" % (c.name, s), c.harness, cfg=c.cfg, units=c.units, config=dict(c.config, **over), nat_files=c.nat_files, ndebug=c.ndebug, ranges=c.ranges, max_paths=c.max_paths, native_extra=c.native_extra).run()
            self.paths[s] = r.good()
        inner = c.native_inputs
        def native_inputs(inp, env, *k, **kw):
            o = inner(inp, env, *k, **kw)
            for s in slots:
                q = self.cases[s].native_inputs(dict(inp, **slots[s]), env, *k, **kw)
                for nm in ("ref", "ref_size"): o.outs["%s!%s" % (nm, s)] = dict(q.outs.get(nm, {}))
                if q.rc != 0: o.rc = q.rc
            return o
        c.native_inputs = native_inputs
    def merged(self, p, s):
        """p joined with every path of the program alone that the same data can take"""
        R = self.paths[s]
        for r in R:
            if not r.pc or all(any(a is b for b in p.pc) for a in r.pc): new = []
            else:
                new = [b for b in r.pc if b.__class__ is B and not any(a is b for a in p.pc)]
                if not self.c.solver.feasible([b for b in p.pc if b.__class__ is B] + new): continue
            q = copy.copy(p) if new else p
            if new: q.pc = list(p.pc) + new; q.known = dict(p.known, **r.known)
            q.outs = dict(p.outs); q.outs["ref!%s" % s] = r.outs.get("ref", {}); q.outs["ref_size!%s" % s] = r.outs.get("ref_size", {})
            yield q, r
    def eq(self, p, s, t, nm, base, slot):
        """result nm (entries base+i, size entry slot) of p equals the one alone"""
        c = self.c; ok = False
        for q, r in self.merged(p, s):
            n = r.outs["ref_size"][0]; ok = ok or n > 0
            c.eq(q, "size of %s" % t, lambda o: (o[nm + "_size", slot], o["ref_size!%s" % s, 0]))
            for i in range(n): c.eq(q, "%s: result[%d]" % (t, i), lambda o: (o[nm, base + i], o["ref!%s" % s, i]))
        return ok
