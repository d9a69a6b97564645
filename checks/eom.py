"""Shared by the checks on the field equations: a parameter file whose numbers may be symbolic."""
from gr import *
UE = ["cheb", "finite_diff", "sphere", "grid", "params", "field", "scalar_eom"]
ORDER = ["nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "dt", "compactification_length", "Rmin", "Rmax", "black_hole_mass", "black_hole_spin",
         "km1", "k0", "k1", "k2", "V2", "V3", "V4", "initial_data_type", "initial_data_direction", "amp", "rl", "ru", "l_ang", "m_ang"]
DEFAULT = dict(nt=10, t_step_save=2, dt=0.01, initial_data_type="compact_pulse", initial_data_direction="ingoing", amp=0.1, rl=2.0, ru=4.0, l_ang=1, m_ang=0,
               km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=0.0, V3=0.0, V4=0.0, black_hole_mass=0.5, black_hole_spin=0.25, compactification_length=20.0, Rmin=0.9, Rmax=20.0)
def param_file(vals, order=None, name="params.txt"):
    """(configuration, natively written files): numbers, text, or terms"""
    toks = []; out = []
    for n in (order or ORDER):
        v = vals[n]
        if isinstance(v, T.T):
            out.append((n, v)); toks.append(v)
        else: out.append((n, "%.17g" % v if v.__class__ is float else str(v)))
    sym = b""; i = 0
    for n, v in out:
        if isinstance(v, T.T): sym += ("%s \x01%d\x02\n" % (n, i)).encode("latin1"); i += 1
        else: sym += ("%s %s\n" % (n, v)).encode()
    def nat(env):
        s = ""
        for n, v in out:
            if isinstance(v, T.T):
                x = evaluate([v], env, default=lambda t: 0.37)[0]
                s += "%s %s\n" % (n, "%.17g" % x if v.__class__ is R else sgn(x, v.w))
            else: s += "%s %s\n" % (n, v)
        return {name: s}
    return dict(files={name: sym}, tokens=toks), nat
# what every harness of the field equations starts with
PRE_E = r'''
#include "vp.h"
#include "grid.hpp"
#include "params.hpp"
#include "field.hpp"
#include "scalar_eom.hpp"
#define SETUP Params par("params.txt"); Grid g(par.cl(),par.Rmin(),par.Rmax(),par.nx(),par.nl(),par.nm(),par.nlat(),par.nphi()); \
  const size_t nx=g.nx(), nlat=g.nlat(), nphi=g.nphi(), N=nx*nlat*nphi; (void)nx; (void)nlat; (void)nphi;
#define COORDS for (size_t ix=0;ix<nx;ix++) for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) { long k=g.indx_R_th_ph(ix,it,ip); auto q=g.R_th_ph(ix,it,ip); vp_out("R",k,q[0]); vp_out("th",k,q[1]); }
#define OPS(f,p) { std::vector<double> a(N),b(N); g.set_partial_r(f,a); vp_outv("fr",a); g.set_partial_r(p,a); vp_outv("pr",a); g.set_partial2_r(f,a); vp_outv("frr",a); \
   g.set_partial_phi(f,a); vp_outv("fph",a); g.set_partial_r(a,b); vp_outv("frph",b); g.set_sphereX(f,a); vp_outv("X",a); g.set_spherical_lap(f,a); vp_outv("lap",a); }
'''
CUT = ("fr", "pr", "frr", "fph", "frph", "X", "lap")
MASS = ["exact", "spin0", "spin", "extremal+", "extremal-"]
RNG = dict(m=(0.4, 0.6), a=(-0.3, 0.3), Rmin=(0.5, 1.5), cl=(8.0, 20.0), Rmax=(4.0, 7.0), k0=(1.0, 2.0), km1=(-0.2, 0.2), k1=(-0.3, 0.3), k2=(-0.3, 0.3), f=(-0.5, 0.5))
def ranges(s, cfg, **more):
    """sampling ranges; the polar angles can only be the grid's own"""
    r = dict(RNG, **more)
    for k, x in enumerate(sht(s, cfg).ct): r["ct[%d]" % k] = float(x)
    return r
V = T.rvar
def black_holes():
    m, a = V("m"), V("a")
    eps = 1e-15
    pos = [T.rcmp("lt", 1e-3, m), T.rcmp("lt", m, 1e3)]
    return {"a=0": (m, 0.0, pos), "a=m": (m, m, pos), "a=-m": (m, -m, pos),
            "0<a<m": (m, a, pos + [T.rcmp("lt", eps, a), T.rcmp("lt", a, m - eps)]), "-m<a<0": (m, a, pos + [T.rcmp("lt", a, -eps), T.rcmp("lt", -a, m - eps)])}
def geometries():
    cl, Rmin, Rmax = V("cl"), V("Rmin"), V("Rmax")
    base = [T.rcmp("lt", 1e-3, Rmin), T.rcmp("lt", cl, 1e3)]
    return {"Rmax=L": (cl, Rmin, cl, base + [T.rcmp("lt", Rmin, cl - 1e-3)]), "Rmax<L": (cl, Rmin, Rmax, base + [T.rcmp("lt", Rmin, Rmax - 1e-3), T.rcmp("lt", Rmax, cl - 1e-6)])}
COUP = ("km1", "k0", "k1", "k2", "V2", "V3", "V4")
def setup(s, bh, geo, **over):
    m, a, p1 = black_holes()[bh]; cl, Rmin, Rmax, p2 = geometries()[geo]
    v = dict(DEFAULT, **s); v.update(black_hole_mass=m, black_hole_spin=a, compactification_length=cl, Rmin=Rmin, Rmax=Rmax)
    for k in COUP: v[k] = V(k)
    v.update(over)
    cfg, nat = param_file(v)
    return dict(cfg, symbolic_ct=True, vars=[V("ct[%d]" % k) for k in range(s["nlat"])], pre=p1 + p2), nat
def metric(o, k, m, a):
    """u=1/r, cos(theta), Sigma/r^2, Delta/r^2 from the point's own coordinates"""
    u = (1.0 - o["R", k] / o.var("cl")) / o["R", k]
    c = o.cos(o["th", k])
    return u, 1.0 + a * a * u * u * c * c, 1.0 - 2.0 * m * u + a * a * u * u
def kinetic(o, f):
    km1, k0, k1, k2 = (o.var(x) for x in COUP[:4])
    g = 1.0 + f
    return k0 + km1 / g + k1 * f + 0.5 * k2 * f * f, -km1 / (g * g) + k1 + k2 * f
def potential(o, f):
    a, b, c = (o.var(x) for x in COUP[4:])
    return a * f * f / 2.0 + b * f * f * f / 6.0 + c * f * f * f * f / 24.0, a * f + b * f * f / 2.0 + c * f * f * f / 6.0
class At:
    """some quantities have values of their own"""
    def __init__(self, o, c): self.o = o; self.c = c
    def var(self, n): return self.c[n] if n in self.c else self.o.var(n)
    def __getitem__(self, k): return self.o[k]
    def __getattr__(self, n): return getattr(self.o, n)
HOLES = [(0.5, 0.3, 1.0), (0.5, -0.45, 12.0), (0.7, 0.0, 20.0)]
def large_setup(s, m, a, frac):
    """a concrete hole, interval and angles; data and couplings symbolic"""
    h = m + math.sqrt(m * m - a * a); cl = 20.0; Rmin = h / (1.0 + h / cl)
    v = dict(DEFAULT, **s); v.update(black_hole_mass=m, black_hole_spin=a, compactification_length=cl, Rmin=Rmin, Rmax=cl if frac == 20.0 else cl * 0.9)
    for k in COUP: v[k] = V(k)
    cfg, nat = param_file(v)
    return dict(cfg, override=OPS), nat, dict(m=m, a=a, cl=cl)
def bhvals(o, bh):
    if bh == "number": return o.var("m"), o.var("a")
    m = o.var("m")
    return m, {"a=0": 0.0, "a=m": m, "a=-m": -m}.get(bh) if bh in ("a=0", "a=m", "a=-m") else o.var("a")
def pdot(o, k, bh, f="f", p="p"):
    m, a = bhvals(o, bh)
    u, sg, D = metric(o, k, m, a)
    F = o.v(f, k); P = o.v(p, k); fr, pr, frr, fph, frph, X, lap = (o[n, k] for n in CUT)
    K, dK = kinetic(o, F); _, dV = potential(o, F)
    box = 2.0 * m * u * u * P + 4.0 * m * u * pr + 2.0 * (u - m * u * u) * fr + D * frr + 2.0 * a * u * u * frph + u * u * lap
    grad = -(sg + 2.0 * m * u) * P * P + 4.0 * m * u * P * fr + D * fr * fr + 2.0 * a * u * u * fr * fph + u * u * X
    return (box + 0.5 * dK / K * grad - sg * dV / K) / (sg + 2.0 * m * u)
def energy(o, k, bh, f="f", p="p"):
    """n^mu n^nu T_mu_nu with n_mu = -N dv_mu, T_mu_nu = k (f_mu f_nu - g_mu_nu (grad f)^2/2) - g_mu_nu V,
    built from the inverse metric: g^vv=-(1+H), g^vr=H, g^rr=D/s, g^rphi=a u^2/s, angular part u^2/s"""
    m, a = bhvals(o, bh)
    u, sg, D = metric(o, k, m, a)
    F = o.v(f, k); P = o.v(p, k); fr, fph, X = (o[n, k] for n in ("fr", "fph", "X"))
    K, _ = kinetic(o, F); Vv, _ = potential(o, F)
    H = 2.0 * m * u / sg
    grad = -(1.0 + H) * P * P + 2.0 * H * P * fr + D / sg * fr * fr + 2.0 * a * u * u / sg * fr * fph + u * u / sg * X
    nf2 = (-(1.0 + H) * P + H * fr) * (-(1.0 + H) * P + H * fr) / (1.0 + H)      # (n.df)^2, n^mu = -g^{mu v}/sqrt(-g^vv)
    return K * (nf2 + 0.5 * grad) + Vv
def cuts(o, N):
    """operator outputs and radial coordinates (other than infinity) as variables of their own"""
    try: g = [[o[n, k] for k in range(N)] for n in CUT]
    except Missing: return []
    env = dict(Rmin=0.7, Rmax=5.0, cl=11.0)
    R = []
    for k in range(N):
        t = o["R", k]
        if t.__class__ is R_ and abs(evaluate([t], env, default=lambda t: 0.37)[0] - 11.0) > 1e-9: R.append(t)
    return [R] + g
R_ = R
