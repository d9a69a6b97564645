"""Shared by the checks that build a Grid."""
from chk import *
UN = ["cheb", "finite_diff", "sphere", "grid"]
CFGS = [(), ("contig",), ("cheb",), ("cheb", "contig")]
PRE = r'''
#include "vp.h"
#include "grid.hpp"
#define GRID Grid g(vp_dbl("cl"),vp_dbl("Rmin"),vp_dbl("Rmax"),vp_size("nx"),vp_size("nl"),vp_size("nm"),vp_size("nlat"),vp_size("nphi")); \
  const size_t nx=g.nx(), nl=g.nl(), nlat=g.nlat(), nphi=g.nphi(), N=nx*nlat*nphi; (void)nl; (void)N;
'''
def shape(nx, nl, nm, nlat, nphi): return dict(nx=nx, nl=nl, nm=nm, nlat=nlat, nphi=nphi)
def sh_str(s): return "%dx%dx%d(l%d,m%d)" % (s["nx"], s["nlat"], s["nphi"], s["nl"], s["nm"])
GEO = dict(cl=20.0, Rmin=0.75, Rmax=20.0)
RG = dict(cl=(5.0, 30.0), Rmin=(0.3, 1.5), Rmax=(2.0, 5.0))
def warm(*hs, ndebugs=(True,), units=UN, cfgs=CFGS, keep=None):
    """compile before forking"""
    for h in hs:
        for c in cfgs:
            for nd in ndebugs:
                try: build.ir(h, c, units, ndebug=nd, keep=keep)
                except build.BuildError: pass
def idx3(s, cfg, ix, it, ip):
    return s["nlat"] * s["nphi"] * ix + (s["nlat"] * ip + it if "contig" in cfg else s["nphi"] * it + ip)
def idx2(s, cfg, it, ip): return s["nlat"] * ip + it if "contig" in cfg else s["nphi"] * it + ip
import shtmodel
def sht(s, cfg):
    return shtmodel.get_sht(s["nl"], s["nm"], s["nlat"], s["nphi"], 256 if "contig" in cfg else 512, False)
def ang_point(S, it, ip, nphi):
    return math.acos(S.ct[it]), 2 * math.pi * ip / nphi
def points(s):
    return [(ix, it, ip) for ix in range(s["nx"]) for it in range(s["nlat"]) for ip in range(s["nphi"])]
# one-sphere and one-ray operators as uninterpreted functions of the values they are given, for large grids
def unin(name, inplace=False):
    def f(m, this, v, w=None):
        a = m.load(v, 8); n = (m.load(v + 8, 8) - a) // 8
        x = [m.load(a + 8 * i, 8) for i in range(n)]
        if any(q is UNDEF for q in x): raise MemError("%s on uninitialised data" % name)
        b = a if inplace else m.load(w, 8); k = n if inplace else (m.load(w + 8, 8) - b) // 8
        N = m.__dict__.setdefault("_kn", Norm({}))
        j = m.__dict__.setdefault("_umemo", {}).setdefault((name, k, tuple(N.key_of(N.of(q)) for q in x)), len(m._umemo))
        for i in range(k): m.store(b + 8 * i, T.rvar("U!%d[%d]" % (j, i)), 8)
    return f
OPS = [(r"_ZNK?6Sphere11partial_phiE", unin("dphi")), (r"_ZNK?6Sphere16laplace_beltramiE", unin("lap")), (r"_ZNK?6Sphere7sphereXE", unin("grad")), (r"_ZNK?6Sphere14power_spectrumE", unin("power")), (r"_ZNK?6Sphere6filterE", unin("low pass", True)),
       (r"_ZNK?2FD3derE", unin("der")), (r"_ZNK?2FD4der2E", unin("der2")), (r"_ZNK?2FD6filterE", unin("filter", True)), (r"_ZNK?4Cheb3derE", unin("der")), (r"_ZNK?4Cheb6filterE", unin("filter", True))]
