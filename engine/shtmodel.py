"""SHTns: orthonormal real and complex scalar transforms on a Gauss grid, as
linear maps with concrete matrices (mode "exact") or as opaque functions."""
import math
import numpy as np
import terms as T
from terms import R, I, Unsupported
from llexec import MemError, UninitUse, UNDEF, sgn, SHIFT, b2d
from models import model, MODELS, rd, wr, planner

_leg = {}
def legendre(lmax, x):
    """P[l][m](x) orthonormal, Condon-Shortley phase (so Y = P e^{im phi})"""
    P = {}
    s = math.sqrt(max(0.0, 1 - x * x))
    P[0, 0] = 0.5 / math.sqrt(math.pi)
    for m in range(1, lmax + 1):
        P[m, m] = -math.sqrt((2 * m + 1) / (2.0 * m)) * s * P[m - 1, m - 1]
    for m in range(0, lmax):
        P[m + 1, m] = math.sqrt(2 * m + 3.0) * x * P[m, m]
    for m in range(0, lmax + 1):
        for l in range(m + 2, lmax + 1):
            a = math.sqrt((4.0 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1.0) ** 2 - m * m) / (4.0 * (l - 1) ** 2 - 1))
            P[l, m] = a * (x * P[l - 1, m] - b * P[l - 2, m])
    return P

class Sht:
    def __init__(self, lmax, mmax):
        self.lmax = lmax; self.mmax = mmax
        self.lm = [(l, mm) for mm in range(0, mmax + 1) for l in range(mm, lmax + 1)]
        self.nlm = len(self.lm)
        self.grid = False
    def set_grid(self, nlat, nphi, layout, south):
        self.nlat = nlat; self.nphi = nphi; self.nspat = nlat * nphi
        self.phi_contig = layout == 512
        x, w = np.polynomial.legendre.leggauss(nlat)
        # refine the nodes
        for _ in range(3):
            c = np.zeros(nlat + 1); c[nlat] = 1
            p = np.polynomial.legendre.legval(x, c)
            dp = np.polynomial.legendre.legval(x, np.polynomial.legendre.legder(c))
            x = x - p / dp
        dp = np.polynomial.legendre.legval(x, np.polynomial.legendre.legder(c))
        w = 2.0 / ((1 - x * x) * dp * dp)
        o = np.argsort(-x) if not south else np.argsort(x)
        self.ct = [float(t) for t in x[o]]; self.w = [float(t) for t in w[o]]
        self.P = [legendre(self.lmax, t) for t in self.ct]
        self.grid = True
        self._mat = {}
    def sp(self, it, ip):
        return self.nphi * it + ip if self.phi_contig else self.nlat * ip + it
    def ana(self):
        """rows (re, im) for each (l,m): coefficients over the nspat samples"""
        if 'a' not in self._mat:
            re = np.zeros((self.nlm, self.nspat)); im = np.zeros((self.nlm, self.nspat))
            for k, (l, m) in enumerate(self.lm):
                for it in range(self.nlat):
                    for ip in range(self.nphi):
                        c = self.w[it] * 2 * math.pi / self.nphi * self.P[it][l, m]
                        q = _cs(m * ip, self.nphi)
                        re[k, self.sp(it, ip)] = c * q[0]
                        im[k, self.sp(it, ip)] = -c * q[1]
            self._mat['a'] = (re.tolist(), im.tolist())
        return self._mat['a']
    def syn(self):
        if 's' not in self._mat:
            re = np.zeros((self.nspat, self.nlm)); im = np.zeros((self.nspat, self.nlm))
            for k, (l, m) in enumerate(self.lm):
                for it in range(self.nlat):
                    for ip in range(self.nphi):
                        c = self.P[it][l, m] * (1 if m == 0 else 2)
                        q = _cs(m * ip, self.nphi)
                        re[self.sp(it, ip), k] = c * q[0]
                        im[self.sp(it, ip), k] = -c * q[1] if m else 0.0
            self._mat['s'] = (re.tolist(), im.tolist())
        return self._mat['s']
    # complex transforms: coefficient index LM_cplx(l,m), -min(l,mmax)<=m<=min(l,mmax)
    def lmc(self, l, m):
        M = self.mmax
        return l * (l + 1) + m if l <= M else M * (2 * l - M) + l + m
    def nlmc(self): return self.lmc(self.lmax, self.mmax if self.lmax > self.mmax else self.lmax) + 1
    def Yc(self, it, ip, l, m):
        p = self.P[it][l, abs(m)] * ((-1) ** m if m < 0 else 1)
        q = _cs(m * ip, self.nphi)
        return p * q[0], p * q[1]
    def cmodes(self):
        return [(l, m) for l in range(self.lmax + 1) for m in range(-min(l, self.mmax), min(l, self.mmax) + 1)]
    def cana(self):
        if 'ca' not in self._mat:
            n = self.nlmc()
            A = np.zeros((n, self.nspat), complex)
            for l, m in self.cmodes():
                for it in range(self.nlat):
                    for ip in range(self.nphi):
                        y = self.Yc(it, ip, l, m)
                        A[self.lmc(l, m), self.sp(it, ip)] = self.w[it] * 2 * math.pi / self.nphi * complex(y[0], -y[1])
            self._mat['ca'] = (A.real.tolist(), A.imag.tolist())
        return self._mat['ca']
    def csyn(self):
        if 'cs' not in self._mat:
            A = np.zeros((self.nspat, self.nlmc()), complex)
            for l, m in self.cmodes():
                for it in range(self.nlat):
                    for ip in range(self.nphi):
                        A[self.sp(it, ip), self.lmc(l, m)] = complex(*self.Yc(it, ip, l, m))
            self._mat['cs'] = (A.real.tolist(), A.imag.tolist())
        return self._mat['cs']

def _cs(k, n):
    """cos, sin of 2 pi k / n, exactly symmetric: cos(pi*(2k)/n), and sin x = cos(x - pi/2) = cos(pi*(4k - n)/(2n))"""
    from models import _cospi
    k %= n
    return _cospi(2 * k, n), _cospi(4 * k - n, 2 * n)

_cfgs = {}
def get_sht(lmax, mmax, nlat, nphi, layout, south):
    k = (lmax, mmax, nlat, nphi, layout, south)
    s = _cfgs.get(k)
    if s is None:
        s = Sht(lmax, mmax); s.set_grid(nlat, nphi, layout, south)
        _cfgs[k] = s
    return s

def tab(m): return m.extra.setdefault("shtns", {})

@model("shtns_verbose")
def m_verbose(m, v): return None
@model("shtns_use_threads")
def m_threads(m, v): return 1
@model("shtns_reset")
def m_reset(m): raise Unsupported("shtns_reset")
@model("shtns_create")
def m_create(m, lmax, mmax, mres, norm):
    planner(m)
    lmax = sgn(lmax, 32); mmax = sgn(mmax, 32)
    if mres != 1: raise Unsupported("mres = %r" % mres)
    if norm != 0: raise Unsupported("SHTns normalisation %r" % norm)
    if lmax < 1 or mmax < 0: raise MemError("shtns_create: lmax=%d mmax=%d not allowed" % (lmax, mmax))
    if mmax > lmax: raise MemError("shtns_create: mmax > lmax")
    a = m.alloc(88, "shtns_cfg")
    s = Sht(lmax, mmax)
    m.store(a, s.nlm, 4); m.store(a + 4, lmax, 2); m.store(a + 6, mmax, 2); m.store(a + 8, 1, 2)
    m.store(a + 84 - 4, (mmax + 1) ** 2 + (lmax - mmax) * (2 * mmax + 1), 4)
    tab(m)[a] = (lmax, mmax)
    return a
@model("shtns_set_grid")
def m_setgrid(m, cfg, flags, eps, nlat, nphi):
    planner(m)
    c = tab(m).get(cfg)
    if c is None: raise MemError("use of something that is not a live SHTns configuration")
    lmax, mmax = c[:2]; nlat = sgn(nlat, 32); nphi = sgn(nphi, 32)
    if flags & 255 not in (0, 1, 6): raise Unsupported("SHTns grid type %r" % flags)
    if flags & (256 * 4 | 256 * 8): raise Unsupported("SHTns flags %r" % flags)
    if nlat <= lmax: raise MemError("shtns_set_grid: nlat=%d is not larger than lmax=%d" % (nlat, lmax))
    if nphi <= 2 * mmax: raise MemError("shtns_set_grid: nphi=%d is not larger than 2*mmax=%d" % (nphi, 2 * mmax))
    lay = 512 if flags & 512 else 256
    s = get_sht(lmax, mmax, nlat, nphi, lay, bool(flags & (256 * 32)))
    n = nlat * nphi
    m.store(cfg + 10, (nlat + 1) // 2, 2); m.store(cfg + 12, nlat, 4); m.store(cfg + 16, nphi, 4); m.store(cfg + 20, n, 4)
    ct = m.alloc(8 * nlat, "shtns", "ct"); stt = m.alloc(8 * nlat, "shtns", "st")
    sym = m.config.get("symbolic_ct")
    for k in range(nlat):
        if sym:
            x = T.rvar("ct[%d]" % k); y = T.rfn("sqrt", 1.0 - x * x)
        else: x = s.ct[k]; y = math.sqrt(1 - x * x)
        m.store(ct + 8 * k, x, 8); m.store(stt + 8 * k, y, 8)
    li = m.alloc(2 * s.nlm, "shtns", "li"); mi = m.alloc(2 * s.nlm, "shtns", "mi")
    for k, (l, mm) in enumerate(s.lm):
        m.store(li + 2 * k, l, 2); m.store(mi + 2 * k, mm, 2)
    m.store(cfg + 24, li, 8); m.store(cfg + 32, mi, 8); m.store(cfg + 40, ct, 8); m.store(cfg + 48, stt, 8)
    m.store(cfg + 56, nlat, 4)
    m.store(cfg + 60, (mmax + 1) ** 2 + (lmax - mmax) * (2 * mmax + 1), 4)
    tab(m)[cfg] = (lmax, mmax, s, (ct, stt, li, mi))
    return n
@model("shtns_destroy")
def m_destroy(m, cfg):
    planner(m)
    c = tab(m).pop(cfg, None)
    if c is None: raise MemError("shtns_destroy of something that is not a live SHTns configuration")
    if len(c) > 2:
        for p in c[3]: m.free(p, ("shtns",))
    m.free(cfg, ("shtns_cfg",))

def live(m, cfg):
    c = tab(m).get(cfg)
    if c is None: raise MemError("use of a destroyed SHTns configuration")
    if len(c) < 3: raise MemError("SHTns transform before shtns_set_grid")
    if m.traced: m.trace('r', cfg, 8, m.O.get(cfg >> SHIFT))
    return c[2]
def need(x, what):
    for v in x:
        if v is UNDEF: raise UninitUse(what + " of uninitialised data")
def opaque(m, tag, s, x, n):
    if m.config.get("sht") != "opaque": return None
    key = "%s_%d_%d_%d_%d_%d" % (tag, s.lmax, s.mmax, s.nlat, s.nphi, 1 if s.phi_contig else 0)
    return [T.rfn("%s_%d" % (key, k), *x) for k in range(n)]
def scramble(m, p, n):
    c = m.extra["scr"] = m.extra.get("scr", 0) + 1
    wr(m, p, [T.rvar("scratch!%d!%d" % (c, k)) for k in range(n)])

@model("spat_to_SH")
def m_s2s(m, cfg, V, Q):
    s = live(m, cfg)
    x = rd(m, V, s.nspat); need(x, "spat_to_SH")
    y = opaque(m, "ana", s, x, 2 * s.nlm)
    if y is None:
        re, im = s.ana(); y = []
        for k in range(s.nlm):
            y.append(T.rlin(re[k], x)); y.append(T.rlin(im[k], x) if s.lm[k][1] else 0.0)
    scramble(m, V, s.nspat)
    wr(m, Q, y)
@model("SH_to_spat")
def m_s2p(m, cfg, Q, V):
    s = live(m, cfg)
    y = rd(m, Q, 2 * s.nlm); need(y, "SH_to_spat")
    x = opaque(m, "syn", s, y, s.nspat)
    if x is None:
        re, im = s.syn()
        yr = y[0::2]; yi = y[1::2]
        x = [T.rlin(re[k] + im[k], yr + yi) for k in range(s.nspat)]
    wr(m, V, x)
@model("spat_cplx_to_SH")
def m_c2s(m, cfg, Z, A):
    s = live(m, cfg)
    z = rd(m, Z, 2 * s.nspat); need(z, "spat_cplx_to_SH")
    n = s.nlmc()
    y = opaque(m, "cana", s, z, 2 * n)
    if y is None:
        re, im = s.cana(); zr = z[0::2]; zi = z[1::2]; y = []
        for k in range(n):
            y.append(T.rlin(re[k] + [-t for t in im[k]], zr + zi))
            y.append(T.rlin(im[k] + re[k], zr + zi))
    scramble(m, Z, 2 * s.nspat)
    wr(m, A, y)
@model("SH_to_spat_cplx")
def m_s2c(m, cfg, A, Z):
    s = live(m, cfg)
    n = s.nlmc()
    y = rd(m, A, 2 * n); need(y, "SH_to_spat_cplx")
    z = opaque(m, "csyn", s, y, 2 * s.nspat)
    if z is None:
        re, im = s.csyn(); yr = y[0::2]; yi = y[1::2]; z = []
        for k in range(s.nspat):
            z.append(T.rlin(re[k] + [-t for t in im[k]], yr + yi))
            z.append(T.rlin(im[k] + re[k], yr + yi))
    wr(m, Z, z)
