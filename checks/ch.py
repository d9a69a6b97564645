"""Shared by C04-C06: the Chebyshev operators."""
from chk import *
from fd import RANGES
UN = ["cheb"]
def Tm(n):
    """T_k(x_i) at the extrema, and the derivative T_k'(x_i)"""
    x = np.array([models._cospi(i, n - 1) for i in range(n)])
    V = np.zeros((n, n)); D = np.zeros((n, n))
    for i in range(n):
        t = [1.0, x[i]]; u = [1.0, 2 * x[i]]
        for k in range(2, n): t.append(2 * x[i] * t[-1] - t[-2]); u.append(2 * x[i] * u[-1] - u[-2])
        for k in range(n):
            V[i, k] = models._cospi(i * k, n - 1)
            if k: D[i, k] = k * u[k - 1]
    return V, D
SIZES = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 32, 33, 47, 64, 65]
def sizes(C, lo=3): return [n for n in SIZES if n >= lo] + ([14, 15, 18, 19, 20, 31, 40, 48, 63, 80, 96, 128, 129, 160] if C.thorough else [])
def cnames(n): return ["c%d" % k for k in range(n)]
def by_modes(n, V, also=None):
    """data sampled from sum of c_k T_k"""
    cs = [T.rvar("c%d" % k) for k in range(n)]
    rows = [[float(V[j, k]) for k in range(n)] for j in range(n)]
    def val(name, j):
        if name == "v": return T.rlin(rows[j], cs)
        return also(name, j) if also else None
    return val
