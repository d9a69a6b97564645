"""Shared by C11-C14: the operators on the sphere."""
from gr import *
UNS = ["sphere"]
PRES = r'''
#include "vp.h"
#include "sphere.hpp"
#define SPHERE Sphere s(vp_size("nl"),vp_size("nm"),vp_size("nlat"),vp_size("nphi")); const size_t N=s.nSph(), NL=s.nYlm(); (void)N; (void)NL; \
  vp_outi("N",0,(long)N); vp_outi("NL",0,(long)NL);
static void outc(const char *re, const char *im, const std::vector<cplx> &v) { for (size_t i=0;i<v.size();i++) { vp_out(re,(long)i,v[i].real()); vp_out(im,(long)i,v[i].imag()); } }
'''
ACFG = [(), ("contig",)]
def ashape(nl, nm, nlat, nphi): return dict(nl=nl, nm=nm, nlat=nlat, nphi=nphi)
def ash(s): return "l%d,m%d on %dx%d" % (s["nl"], s["nm"], s["nlat"], s["nphi"])
def shapes(C): return [ashape(5, 3, 7, 8), ashape(4, 4, 5, 10), ashape(6, 2, 8, 5), ashape(1, 1, 2, 3), ashape(3, 0, 4, 1), ashape(7, 6, 9, 14), ashape(11, 11, 13, 24)] + ([ashape(8, 8, 10, 17), ashape(12, 10, 14, 24), ashape(10, 4, 16, 12), ashape(2, 1, 8, 12), ashape(20, 18, 24, 40)] if C.thorough else [])
class Modes:
    """real fields  sum a_lm Re Y_lm + b_lm Im Y_lm  (a, b are the solver's variables)"""
    def __init__(self, s, cfg, sel=lambda l, m: True):
        self.s = s; self.cfg = cfg
        self.S = S = sht(s, cfg)
        self.par = []          # (name, l, m, kind)
        for l in range(s["nl"] + 1):
            for m in range(0, min(l, s["nm"]) + 1):
                if not sel(l, m): continue
                self.par.append(("a_%d_%d" % (l, m), l, m, 0))
                if m: self.par.append(("b_%d_%d" % (l, m), l, m, 1))
        self.names = [q[0] for q in self.par]
        self.nsp = s["nlat"] * s["nphi"]
        self.ex = [shtmodel.legendre(s["nl"] + 1, x) for x in S.ct]     # all m, also m > mmax
    def sp(self, it, ip): return idx2(self.s, self.cfg, it, ip)
    def mat(self, fn):
        """fn(it, phi, l, m, kind) -> value of the operator on that basis function"""
        M = np.zeros((self.nsp, len(self.par)))
        for it in range(self.s["nlat"]):
            for ip in range(self.s["nphi"]):
                ph = 2 * math.pi * ip / self.s["nphi"]
                for j, (_, l, m, k) in enumerate(self.par): M[self.sp(it, ip), j] = fn(it, ph, l, m, k)
        return M
    def Y(self, it, ph, l, m):
        if abs(m) > l: return 0j
        p = self.ex[it][l, abs(m)] * ((-1) ** m if m < 0 else 1)
        return complex(p * math.cos(m * ph), p * math.sin(m * ph))
    def base(self):
        return self.mat(lambda it, ph, l, m, k: (lambda y: y.imag if k else y.real)(self.Y(it, ph, l, m)))
    def dtheta(self, it, ph, l, m, k):
        """d/dtheta of the basis function, from m cot Y_lm + sqrt((l-m)(l+m+1)) e^{-i phi} Y_l,m+1"""
        x = self.S.ct[it]; sn = math.sqrt(1 - x * x)
        y = m * x / sn * self.Y(it, ph, l, m)
        if m < l: y += math.sqrt((l - m) * (l + m + 1)) * complex(math.cos(ph), -math.sin(ph)) * self.Y(it, ph, l, m + 1)
        return y.imag if k else y.real
    def dphi(self, it, ph, l, m, k):
        y = 1j * m * self.Y(it, ph, l, m)
        return y.imag if k else y.real
    def ladder(self, it, ph, l, m, k, up, cut=None):
        """L_+ or L_- of Re Y or Im Y: both are combinations of Y_lm and Y_l,-m; cut: without the parts of |m| > cut"""
        def L(mm):
            if cut is not None and abs(mm + (1 if up else -1)) > cut: return 0j
            if up: return math.sqrt((l - mm) * (l + mm + 1)) * self.Y(it, ph, l, mm + 1) if mm < l else 0j
            return math.sqrt((l + mm) * (l - mm + 1)) * self.Y(it, ph, l, mm - 1) if mm > -l else 0j
        a = L(m); b = (-1) ** m * L(-m)        # conj(Y_lm) = (-1)^m Y_l,-m
        return (a + b) / 2 if not k else (a - b) / 2j
    def reals(self, name="v"):
        B = self.base().tolist()
        vs = [T.rvar(n) for n in self.names]
        return lambda nm, j: T.rlin(B[j], vs) if nm == name else None
    def want(self, M): return M
KEYM = "m=mmax,l>mmax"
def split(s):
    """(label, selection, key): the modes the raised ones of which cannot be represented are listed apart"""
    out = [("", lambda l, m: not (m == s["nm"] and l > s["nm"]), None)]
    if s["nm"] < s["nl"]: out.append((" (m=%d, l>%d)" % (s["nm"], s["nm"]), lambda l, m: m == s["nm"] and l > s["nm"], KEYM))
    return out
