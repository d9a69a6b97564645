"""Normal forms, solver queries, numeric evaluation, path exploration."""
import math, time, random
from fractions import Fraction
import numpy as np
import z3
import terms as T
from terms import R, I, B, Unsupported, NonFinite

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.feas = 0; self.feas_time = 0.0
        self.unsat = 0; self.sat = 0; self.unknown = 0
        self.paths = 0; self.obligations = 0; self.functions = {}; self.largest = 0
        self.vacuity = 0
STATS = Stats()

# ------------------------------------------------------------------ numeric evaluation
FN = {
    "f32": lambda x: float(np.float32(x)),
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "exp": lambda x: math.exp(x) if x < 700 else math.inf,
    "log": lambda x: math.log(x) if x > 0 else -math.inf,
    "abs": abs, "cos": math.cos, "sin": math.sin, "tan": math.tan,
    "acos": lambda x: math.acos(max(-1.0, min(1.0, x))), "asin": lambda x: math.asin(max(-1.0, min(1.0, x))),
    "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "atan2": math.atan2, "pow": math.pow, "floor": lambda x: float(math.floor(x)),
    "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
}
OPAQUE = []      # list of functions (name, args) -> value or None

def _sx(x, w): return x - (1 << w) if x >> (w - 1) else x

def evaluate(roots, env, default=None, given=None):
    """floats for reals, ints for bit-vectors, bools; env: name -> value"""
    val = {}
    for t in T.topo(roots):
        op = t.op
        if given is not None and t.id in given: r = given[t.id]
        elif op == "c": r = t.args[0] if t.__class__ is I else float(t.args[0])
        elif op == "v":
            n = t.args[0]
            if n in env: r = env[n]
            elif default is not None: r = default(t)
            else: raise KeyError(n)
        elif t.__class__ is R:
            a = [val[x.id] if isinstance(x, T.T) else x for x in T.children(t)]
            if op == "+": r = a[0] + a[1]
            elif op == "-": r = a[0] - a[1]
            elif op == "*": r = a[0] * a[1]
            elif op == "/": r = a[0] / a[1] if a[1] != 0 else math.nan
            elif op == "neg": r = -a[0]
            elif op == "lin":
                r = float(t.args[0])
                for c, x in zip(t.args[1], a): r += float(c) * x
            elif op == "ite": r = a[1] if a[0] else a[2]
            elif op == "i2r": r = float(_sx(a[0], t.args[0].w) if t.args[1] else a[0])
            elif op == "fn":
                f = FN.get(t.args[0])
                r = None
                if f is not None:
                    try: r = f(*a)
                    except (ValueError, OverflowError, ZeroDivisionError): r = math.nan
                else:
                    for o in OPAQUE:
                        r = o(t.args[0], a)
                        if r is not None: break
                    if r is None: raise Unsupported("numeric value of " + t.args[0])
            else: raise Unsupported("evaluate " + op)
        elif t.__class__ is I:
            w = t.w; M = (1 << w) - 1
            a = [val[x.id] for x in t.args]
            if op == "ite": r = a[1] if a[0] else a[2]
            elif op == "trunc": r = a[0] & M
            elif op == "zext": r = a[0]
            elif op == "sext":
                r = _sx(a[0], t.args[0].w) & M
            elif op == "b2i": r = int(a[0])
            else: r = T._IFOLD[op](a[0], a[1], w) & M if not (op in ("udiv", "urem", "sdiv", "srem") and a[1] == 0) else 0
        else:
            a = [val[x.id] if isinstance(x, T.T) else x for x in t.args]
            if op == "not": r = not a[0]
            elif op == "and": r = a[0] and a[1]
            elif op == "or": r = a[0] or a[1]
            elif op == "xor": r = bool(a[0]) != bool(a[1])
            elif op in ("lt", "ult"): r = a[0] < a[1]
            elif op in ("le", "ule"): r = a[0] <= a[1]
            elif op == "eq": r = a[0] == a[1]
            elif op == "slt": r = _sx(a[0], t.w) < _sx(a[1], t.w)
            elif op == "sle": r = _sx(a[0], t.w) <= _sx(a[1], t.w)
            else: raise Unsupported("evaluate bool " + op)
        val[t.id] = r
    out = []
    for r in roots: out.append(val[r.id] if isinstance(r, T.T) else r)
    return out

# ------------------------------------------------------------------ translation to z3
class ToZ3:
    def __init__(self):
        self.memo = {}
        self.ax = {}       # term id -> list of axioms
        self.fns = {}
    def rat(self, q):
        q = Fraction(q)
        return z3.RealVal(str(q.numerator) + "/" + str(q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)
    def term(self, root):
        memo = self.memo
        for t in T.topo([root]):
            if t.id in memo: continue
            memo[t.id] = self._one(t)
        return memo[root.id]
    def ch(self, x):
        return self.memo[x.id] if isinstance(x, T.T) else x
    def _one(self, t):
        op = t.op
        if t.__class__ is R:
            if op == "c": return self.rat(t.args[0])
            if op == "v": return z3.Real(t.args[0])
            if op == "lin":
                s = self.rat(t.args[0])
                return z3.Sum([s] + [self.rat(c) * self.ch(x) for c, x in zip(t.args[1], t.args[2:])])
            if op == "i2r":
                return z3.ToReal(z3.BV2Int(self.ch(t.args[0]), is_signed=bool(t.args[1])))
            a = [self.ch(x) for x in T.children(t)]
            if op == "+": return a[0] + a[1]
            if op == "-": return a[0] - a[1]
            if op == "*": return a[0] * a[1]
            if op == "/":
                q = z3.Real("div!%d" % t.id)
                self.ax[t.id] = [z3.Implies(a[1] != 0, q * a[1] == a[0])]
                return q
            if op == "neg": return -a[0]
            if op == "ite": return z3.If(a[0], a[1], a[2])
            if op == "fn":
                n = t.args[0]
                key = (n, len(a))
                f = self.fns.get(key)
                if f is None: f = self.fns[key] = z3.Function("fn_" + n, *([z3.RealSort()] * (len(a) + 1)))
                if n == "abs": return z3.If(a[0] >= 0, a[0], -a[0])
                y = f(*a)
                if n == "sqrt": self.ax[t.id] = [y >= 0, z3.Implies(a[0] >= 0, y * y == a[0])]
                elif n == "exp": self.ax[t.id] = [y > 0, z3.Implies(a[0] <= 0, y <= 1), z3.Implies(a[0] >= 0, y >= 1), y >= 1 + a[0]]
                elif n in ("cos", "sin"): self.ax[t.id] = [y <= 1, y >= -1]
                elif n == "acos": self.ax[t.id] = [y >= 0, y <= z3.RealVal("3.1415926535897936")]
                elif n == "log": self.ax[t.id] = [z3.Implies(a[0] > 0, y <= a[0] - 1), z3.Implies(a[0] >= 1, y >= 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), y < 0)]
                elif n == "floor":
                    self.ax[t.id] = [y == z3.ToReal(z3.ToInt(a[0]))]
                return y
        elif t.__class__ is I:
            w = t.w
            if op == "v": return z3.BitVec(t.args[0], w)
            if op == "c": return z3.BitVecVal(t.args[0], w)
            a = [self.ch(x) for x in t.args]
            if op == "add": return a[0] + a[1]
            if op == "sub": return a[0] - a[1]
            if op == "mul": return a[0] * a[1]
            if op == "and": return a[0] & a[1]
            if op == "or": return a[0] | a[1]
            if op == "xor": return a[0] ^ a[1]
            if op == "shl": return a[0] << a[1]
            if op == "lshr": return z3.LShR(a[0], a[1])
            if op == "ashr": return a[0] >> a[1]
            if op == "udiv": return z3.UDiv(a[0], a[1])
            if op == "urem": return z3.URem(a[0], a[1])
            if op == "sdiv": return a[0] / a[1]
            if op == "srem": return z3.SRem(a[0], a[1])
            if op == "ite": return z3.If(a[0], a[1], a[2])
            if op == "trunc": return z3.Extract(w - 1, 0, a[0])
            if op == "zext": return z3.ZeroExt(w - t.args[0].w, a[0])
            if op == "sext": return z3.SignExt(w - t.args[0].w, a[0])
            if op == "b2i": return z3.If(a[0], z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        else:
            if op == "v": return z3.Bool(t.args[0])
            a = [self.ch(x) if isinstance(x, T.T) else z3.BoolVal(bool(x)) for x in t.args]
            if op == "not": return z3.Not(a[0])
            if op == "and": return z3.And(a[0], a[1])
            if op == "or": return z3.Or(a[0], a[1])
            if op == "xor": return z3.Xor(a[0], a[1])
            if op == "lt": return a[0] < a[1]
            if op == "le": return a[0] <= a[1]
            if op == "eq": return a[0] == a[1]
            if op == "ult": return z3.ULT(a[0], a[1])
            if op == "ule": return z3.ULE(a[0], a[1])
            if op == "slt": return a[0] < a[1]
            if op == "sle": return a[0] <= a[1]
        raise Unsupported("to z3: " + op)
    def axioms(self, roots):
        out = []
        for t in T.topo(roots):
            if t.id in self.ax: out += self.ax[t.id]
        return out

def model_env(mod):
    env = {}
    for d in mod.decls():
        if d.arity(): continue
        v = mod[d]
        n = d.name()
        if z3.is_rational_value(v): env[n] = float(v.as_fraction())
        elif z3.is_algebraic_value(v): env[n] = float(v.approx(40).as_fraction())
        elif z3.is_bv_value(v): env[n] = v.as_long()
        elif z3.is_true(v): env[n] = True
        elif z3.is_false(v): env[n] = False
    return env

class Solver:
    """feasibility of conjunctions of boolean terms"""
    def __init__(self, timeout=8000):
        self.tr = ToZ3()
        self.timeout = timeout
        self.cache = {}
        self.fv = {}
        self.lazy = False      # True: conditions outside linear arithmetic are taken to be possible both ways (more paths, still sound)
        self._hard = {}
    def hard(self, c):
        h = self._hard.get(c.id)
        if h is None:
            h = False
            for t in T.topo([c]):
                if t.__class__ is not R: continue
                if (t.op == "fn" and t.args[0] != "abs") or (t.op in "*/" and sum(bool(T.free_vars(x)) for x in T.children(t)) > 1) or (t.op == "/" and isinstance(t.args[1], T.T)): h = True; break
            self._hard[c.id] = h
        return h
    def vars_of(self, t):
        v = self.fv.get(t.id)
        if v is None:
            v = self.fv[t.id] = frozenset(T.free_vars(t))
        return v
    def slice(self, conj):
        """conjuncts connected to the last one"""
        last = conj[-1]
        need = set(self.vars_of(last)); rest = list(conj[:-1]); out = [last]
        ch = True
        while ch:
            ch = False; r2 = []
            for c in rest:
                vs = self.vars_of(c)
                if vs & need or not vs: out.append(c); need |= vs; ch = True
                else: r2.append(c)
            rest = r2
        return out
    def check(self, conj, want_model=False, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for c in conj:
            s.add(self.tr.term(c))
        for a in self.tr.axioms(conj): s.add(a)
        t0 = time.time()
        r = s.check()
        STATS.feas += 1; STATS.feas_time += time.time() - t0
        if want_model: return r, (model_env(s.model()) if r == z3.sat else None)
        return r
    def feasible(self, conj):
        cs = []
        for c in conj:
            if c.__class__ is B: cs.append(c)
            elif not c: return False
        if not conj or conj[-1].__class__ is not B: 
            return True
        if self.lazy:
            if self.hard(cs[-1]):
                n = T.bnot(cs[-1])
                return not any(c is n for c in cs[:-1])
            cs = [c for c in cs if not self.hard(c)]
        cs = self.slice(cs)
        k = frozenset(c.id for c in cs)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self.check(cs)
        return r != z3.unsat
    def int_value(self, pc, t):
        x = T.icmp("eq", t, t.args[0] if False else T.ivar("probe!%d" % t.w, t.w))
        cs = self.slice([c for c in pc if c.__class__ is B] + [x])
        r, env = self.check(cs, True)
        if r == z3.unsat: return None
        if r != z3.sat: raise Unsupported("the solver could not find a value for a symbolic integer")
        return env.get("probe!%d" % t.w, 0)
    def spread(self, pc, draw):
        """a random solution of the linear conditions: the variables are drawn one by one"""
        cs = [c for c in pc if c.__class__ is B and not self.hard(c)]
        vs = set()
        for c in cs: vs |= self.vars_of(c)
        s = z3.Solver(); s.set("timeout", 2000)
        for c in cs: s.add(self.tr.term(c))
        if s.check() != z3.sat: return {}
        for k in [k for k in draw if k in vs]:
            for i in range(6):
                v = draw[k]() if i < 5 else None
                if v is None:
                    m = s.model() if s.check() == z3.sat else None
                    if m is None: return {}
                    lo = m.eval(z3.Real(k), model_completion=True)
                    hi = None
                    for tgt in ("max", "min"):
                        o = z3.Optimize(); o.set("timeout", 1000); o.add(s.assertions())
                        (o.maximize if tgt == "max" else o.minimize)(z3.Real(k))
                        if o.check() == z3.sat:
                            q = o.model().eval(z3.Real(k), model_completion=True)
                            if z3.is_rational_value(q):
                                if hi is None: hi = q
                                else: lo = q
                    if hi is not None and z3.is_rational_value(lo):
                        a, b = lo.as_fraction(), hi.as_fraction()
                        for w in (random.uniform(0.05, 0.95), 0.5, 0.3, 0.7):
                            x = float(a) + w * (float(b) - float(a))
                            s.push(); s.add(z3.Real(k) == self.tr.rat(Fraction(x)))
                            if s.check() == z3.sat: break
                            s.pop()
                    break
                s.push(); s.add(z3.Real(k) == self.tr.rat(Fraction(v)))
                if s.check() == z3.sat: break
                s.pop()
        if s.check() != z3.sat: return {}
        return {k: v for k, v in model_env(s.model()).items() if k in draw}
    def model(self, pc, timeout=20000):
        cs = [c for c in pc if c.__class__ is B]
        if not cs: return {}
        r, env = self.check(cs, True, timeout)
        return env if r == z3.sat else None

# ------------------------------------------------------------------ polynomial / rational normal form
class NeedSplit(Exception):
    def __init__(self, c): self.c = c

class Poly:
    """polynomials: dict monomial -> Fraction; monomial = tuple of (atom index, exponent)"""
    pass

def pmul_mono(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))

class Norm:
    """term -> rational function over atoms (variables and function applications)"""
    def __init__(self, cond=None, drop=0):
        self.atoms = {}       # key -> index
        self.alist = []       # index -> (kind, payload)
        self.memo = {}
        self.factors = []     # list of polys (denominator factors)
        self.fkey = {}
        self.cond = cond or {}
        self.rules = {}       # atom index -> ("sq", poly of the square) 
        self.maxterms = 200000
        self.sign = None      # term -> 1 / -1 when its sign is known
        self.deadline = None
        self.opaque_ite = False; self.decide = None; self._asked = set()
    # atoms
    def atom(self, key, payload):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.alist)
            self.atoms[key] = i
            self.alist.append(payload)
        return i
    def padd(self, a, b, s=1):
        if len(a) < len(b) and s == 1: a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + (c if s == 1 else s * c)
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        r = {}
        if len(a) * len(b) > 4000000: raise Unsupported("polynomial too large")
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = pmul_mono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: del r[m]
        r = self.reduce(r)
        if len(r) > self.maxterms: raise Unsupported("polynomial too large")
        if self.deadline is not None and time.time() > self.deadline: raise Unsupported("expansion takes too long")
        return r
    def reduce(self, p):
        """apply s^2 -> arg for square roots etc."""
        if not self.rules: return p
        todo = None
        for m in p:
            for k, e in m:
                if e >= 2 and k in self.rules:
                    todo = True; break
            if todo: break
        if not todo: return p
        r = {}
        for m, c in p.items():
            hit = None
            for k, e in m:
                if e >= 2 and k in self.rules: hit = (k, e); break
            if hit is None:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
                continue
            k, e = hit
            rest = tuple((kk, ee) for kk, ee in m if kk != k)
            if e % 2: rest = pmul_mono(rest, ((k, 1),))
            q = {rest: c}
            sq = self.rules[k]
            for _ in range(e // 2): q = self.pmul(q, sq)
            r = self.padd(r, q)
        return self.reduce(r) if any(e >= 2 and k in self.rules for m in r for k, e in m) else r
    def pnorm(self, p):
        """make the leading coefficient one; returns (constant, poly)"""
        m = min(p)
        c = p[m]
        if c == 1: return c, p
        return c, {k: v / c for k, v in p.items()}
    def factor(self, p):
        k = frozenset(p.items())
        i = self.fkey.get(k)
        if i is None:
            i = len(self.factors); self.factors.append(p); self.fkey[k] = i
        return i
    # rationals: (num poly, den dict factor->exp)
    ONE = {(): Fraction(1)}
    def mkden(self, p):
        """poly -> (constant, den dict); monomial content is split into atom factors"""
        if len(p) == 1:
            (m, c), = p.items()
            d = {}
            for k, e in m:
                d[self.factor({((k, 1),): Fraction(1)})] = e
            return c, d
        # common monomial
        com = None
        for m in p:
            dm = dict(m)
            if com is None: com = dm
            else:
                com = {k: min(e, dm[k]) for k, e in com.items() if k in dm}
            if not com: break
        d = {}
        if com:
            inv = tuple(sorted(com.items()))
            q = {}
            for m, c in p.items():
                dm = dict(m)
                for k, e in inv: dm[k] -= e
                q[tuple(sorted((k, e) for k, e in dm.items() if e))] = c
            p = q
            for k, e in inv: d[self.factor({((k, 1),): Fraction(1)})] = e
        c, p = self.pnorm(p)
        f = self.factor(p)
        d[f] = d.get(f, 0) + 1
        return c, d
    def fpow(self, d):
        r = self.ONE
        for f, e in d.items():
            for _ in range(e): r = self.pmul(r, self.factors[f])
        return r
    def rmul(self, a, b):
        n = self.pmul(a[0], b[0])
        d = dict(a[1])
        for f, e in b[1].items(): d[f] = d.get(f, 0) + e
        return self.cancel(n, d)
    def cancel(self, n, d):
        if not n: return ({}, {})
        if not d: return (n, d)
        # cheap cancellation: monomial factors and num == c*factor
        nd = {}
        for f, e in d.items():
            p = self.factors[f]
            while e and len(p) == 1:
                (m, c), = p.items()
                k = m[0][0]
                if all(any(kk == k for kk, _ in mm) for mm in n):
                    n = {tuple((kk, ee - (1 if kk == k else 0)) for kk, ee in mm if not (kk == k and ee == 1)): cc for mm, cc in n.items()}
                    e -= 1
                else: break
            if e and len(p) > 1 and len(n) == len(p):
                c, q = self.pnorm(n)
                if q == p:
                    n = {(): c}; e -= 1
            if e: nd[f] = e
        return (n, nd)
    def radd(self, a, b, s=1):
        if not a[0]: return b if s == 1 else ({m: -c for m, c in b[0].items()}, b[1])
        if not b[0]: return a
        if a[1] == b[1]: return self.cancel(self.padd(a[0], b[0], s), a[1])
        L = dict(a[1])
        for f, e in b[1].items(): L[f] = max(L.get(f, 0), e)
        ma = {f: e - a[1].get(f, 0) for f, e in L.items() if e > a[1].get(f, 0)}
        mb = {f: e - b[1].get(f, 0) for f, e in L.items() if e > b[1].get(f, 0)}
        n = self.padd(self.pmul(a[0], self.fpow(ma)), self.pmul(b[0], self.fpow(mb)), s)
        return self.cancel(n, L)
    def rdiv(self, a, b):
        if not b[0]: raise NonFinite("division by an identically zero expression")
        c, d = self.mkden(b[0])
        # a * b.den / b.num, cancelling first
        ad = dict(a[1]); extra = {}
        for f, e in b[1].items():
            k = min(e, ad.get(f, 0))
            if k:
                ad[f] -= k
                if not ad[f]: del ad[f]
            if e - k: extra[f] = e - k
        # cancel extra against d
        for f in list(extra):
            k = min(extra[f], d.get(f, 0))
            if k:
                extra[f] -= k; d[f] -= k
                if not d[f]: del d[f]
                if not extra[f]: del extra[f]
        n = self.pmul(a[0], self.fpow(extra))
        if c != 1: n = {m: v / c for m, v in n.items()}
        for f, e in d.items(): ad[f] = ad.get(f, 0) + e
        return self.cancel(n, ad)
    def const(self, c):
        c = Fraction(c)
        return ({(): c} if c else {}, {})
    def key_of(self, r):
        return (frozenset(r[0].items()), frozenset(r[1].items()))
    def is_const(self, r):
        return not r[1] and (not r[0] or (len(r[0]) == 1 and () in r[0]))
    def of(self, x):
        if x.__class__ is not R:
            return self.const(T.frac(x))
        memo = self.memo
        if x.id in memo: return memo[x.id]
        for t in self._topo(x):
            if t.id in memo: continue
            memo[t.id] = self._one(t)
        return memo[x.id]
    def _topo(self, root):
        """topological order, not descending into undecided branches of ites"""
        seen = set(); out = []
        st = [(root, 0)]
        while st:
            t, ph = st.pop()
            if ph: out.append(t); continue
            if t.id in seen or t.id in self.memo: continue
            seen.add(t.id)
            st.append((t, 1))
            if t.op == "ite":
                k = self.cond.get(t.args[0].id)
                if k is None and self.opaque_ite:
                    if self.decide is not None and t.args[0].id not in self._asked:
                        self._asked.add(t.args[0].id)
                        k = self.decide(t.args[0])
                        if k is not None: self.cond[t.args[0].id] = k
                    if k is None: continue
                if k is None:
                    raise NeedSplit(t.args[0])
                c = t.args[1] if k else t.args[2]
                st.append((c, 0)); continue
            for c in T.children(t):
                if c.__class__ is R and c.id not in seen: st.append((c, 0))
        return out
    def _one(self, t):
        op = t.op; memo = self.memo
        if op == "c": return self.const(t.args[0])
        if op == "v": return ({((self.atom(("v", t.args[0]), t), 1),): Fraction(1)}, {})
        if op == "+": return self.radd(memo[t.args[0].id], memo[t.args[1].id])
        if op == "-": return self.radd(memo[t.args[0].id], memo[t.args[1].id], -1)
        if op == "neg":
            a = memo[t.args[0].id]; return ({m: -c for m, c in a[0].items()}, a[1])
        if op == "*": return self.rmul(memo[t.args[0].id], memo[t.args[1].id])
        if op == "/": return self.rdiv(memo[t.args[0].id], memo[t.args[1].id])
        if op == "lin":
            acc = self.const(t.args[0])
            # gather by denominator
            groups = {}
            for c, x in zip(t.args[1], t.args[2:]):
                a = memo[x.id]
                k = frozenset(a[1].items())
                g = groups.get(k)
                if g is None: g = groups[k] = ({}, a[1])
                n = g[0]
                for m, v in a[0].items():
                    w = n.get(m, 0) + c * v
                    if w: n[m] = w
                    else: n.pop(m, None)
            for n, d in groups.values(): acc = self.radd(acc, (n, d))
            return acc
        if op == "ite":
            k = self.cond.get(t.args[0].id)
            if k is None: return ({((self.atom(("ite", t.id), t), 1),): Fraction(1)}, {})
            return memo[(t.args[1] if k else t.args[2]).id]
        if op == "i2r":
            return ({((self.atom(("i2r", t.args[0].id), t), 1),): Fraction(1)}, {})
        if op == "fn": return self.fn(t)
        raise Unsupported("normal form of " + op)
    def fn(self, t):
        n = t.args[0]
        a = [self.memo[x.id] for x in t.args[1:]]
        if n == "exp":
            return self.exp(a[0], t)
        if n == "abs":
            if self.is_const(a[0]): return self.const(abs(a[0][0].get((), 0)))
            if self.sign is not None:
                g = self.sign(t.args[1])
                if g: return a[0] if g > 0 else ({m: -v for m, v in a[0][0].items()}, a[0][1])
            # |x| = |-x|: sign-normalised
            num = a[0][0]
            c = num[min(num)]
            b = a[0] if c > 0 else ({m: -v for m, v in num.items()}, a[0][1])
            k = ("abs", self.key_of(b))
            i = self.atom(k, t)
            if i not in self.rules and not b[1]:
                sq = self.rmul(b, b)
                self.rules[i] = sq[0]
            return ({((i, 1),): Fraction(1)}, {})
        if n == "sqrt":
            if self.is_const(a[0]):
                v = a[0][0].get((), Fraction(0))
                if v >= 0:
                    return self.const(Fraction(math.sqrt(v)))
            k = ("sqrt", self.key_of(a[0]))
            i = self.atom(k, t)
            if i not in self.rules and not a[0][1]: self.rules[i] = a[0][0]
            if a[0][1] and k not in getattr(self, "_sqd", {}):
                # sqrt(n/d): keep as atom with relation via sqrt(n*d)/d when d is known
                pass
            return ({((i, 1),): Fraction(1)}, {})
        if n == "sin":
            i = self.atom(("sin", self.key_of(a[0])), t)
            j = self.atom(("cos", self.key_of(a[0])), T.rfn("cos", t.args[1]))
            self.rules.setdefault(i, {(): Fraction(1), ((j, 2),): Fraction(-1)})
            return ({((i, 1),): Fraction(1)}, {})
        key = (n,) + tuple(self.key_of(x) for x in a)
        i = self.atom(key, t)
        return ({((i, 1),): Fraction(1)}, {})
    def exp(self, a, t):
        """exp of a sum is a product of exp atoms of the summands"""
        if self.is_const(a):
            return self.const(Fraction(math.exp(a[0].get((), 0))))
        if not a[1]:
            r = self.const(1)
            for m, c in a[0].items():
                if m == (): r = self.rmul(r, self.const(Fraction(math.exp(c)))); continue
                r = self.rmul(r, self.expatom(({m: Fraction(1)}, {}), c))
            return r
        # common denominator: one atom per numerator monomial
        r = self.const(1)
        for m, c in a[0].items():
            one = self.cancel({m: Fraction(1)}, a[1])
            cc = one[0][next(iter(one[0]))] if len(one[0]) == 1 else 1
            r = self.rmul(r, self.expatom(({k: v / cc for k, v in one[0].items()}, one[1]), c * cc))
        return r
    def expatom(self, base, c):
        k = ("exp", self.key_of(base), abs(c))
        i = self.atom(k, ("exp", base, abs(c)))
        if c > 0: return ({((i, 1),): Fraction(1)}, {})
        return self.cancel({(): Fraction(1)}, {self.factor({((i, 1),): Fraction(1)}): 1})
    def diff(self, a, b):
        """residual numerator of a - b over a common denominator, and the scale polynomial"""
        x = self.of(a); y = self.of(b)
        if x[1] == y[1]:
            # possibly cancelled differently, same denominators here
            return self.padd(x[0], y[0], -1), x[0], y[0]
        L = dict(x[1])
        for f, e in y[1].items(): L[f] = max(L.get(f, 0), e)
        mx = {f: e - x[1].get(f, 0) for f, e in L.items() if e > x[1].get(f, 0)}
        my = {f: e - y[1].get(f, 0) for f, e in L.items() if e > y[1].get(f, 0)}
        p = self.pmul(x[0], self.fpow(mx)); q = self.pmul(y[0], self.fpow(my))
        return self.padd(p, q, -1), p, q

# ------------------------------------------------------------------ linear forms (dense, float64)
class Lin:
    """value of terms that are linear in the given variables, as float64 vectors"""
    def __init__(self, names):
        self.idx = {n: i for i, n in enumerate(names)}
        self.nv = len(names)
        self.memo = {}
    def of(self, x):
        """(constant, vector)"""
        if x.__class__ is not R: return (float(x), None)
        for t in T.topo([x]):
            if t.id not in self.memo: self.memo[t.id] = self._one(t)
        return self.memo[x.id]
    def _one(self, t):
        op = t.op
        if op == "c": return (float(t.args[0]), None)
        if op == "v":
            i = self.idx.get(t.args[0])
            if i is None: raise Unsupported("unexpected variable %s in a linear form" % t.args[0])
            v = np.zeros(self.nv); v[i] = 1
            return (0.0, v)
        m = self.memo
        if op == "lin":
            c = float(t.args[0]); cs = []; vs = []
            for k, x in zip(t.args[1], t.args[2:]):
                a = m[x.id]; k = float(k); c += k * a[0]
                if a[1] is not None: cs.append(k); vs.append(a[1])
            if not vs: return (c, None)
            return (c, np.dot(np.array(cs), np.array(vs)))
        if op == "neg":
            a = m[t.args[0].id]; return (-a[0], None if a[1] is None else -a[1])
        if op in "+-":
            a = m[t.args[0].id]; b = m[t.args[1].id]; s = 1 if op == "+" else -1
            if b[1] is None: return (a[0] + s * b[0], a[1])
            if a[1] is None: return (a[0] + s * b[0], b[1] if s == 1 else -b[1])
            return (a[0] + s * b[0], a[1] + b[1] if s == 1 else a[1] - b[1])
        if op == "*":
            a = m[t.args[0].id]; b = m[t.args[1].id]
            if a[1] is not None and b[1] is not None: raise Unsupported("product of two linear forms")
            if a[1] is None: a, b = b, a
            return (a[0] * b[0], None if a[1] is None else a[1] * b[0])
        if op == "/":
            a = m[t.args[0].id]; b = m[t.args[1].id]
            if b[1] is not None: raise Unsupported("division by a linear form")
            return (a[0] / b[0], None if a[1] is None else a[1] / b[0])
        raise Unsupported("not linear: " + op)

class Quad(Lin):
    """polynomials of degree <= 2: (const, vector, symmetric matrix)"""
    def _one(self, t):
        op = t.op; m = self.memo
        if op == "c": return (float(t.args[0]), None, None)
        if op == "v":
            i = self.idx.get(t.args[0])
            if i is None: raise Unsupported("unexpected variable %s" % t.args[0])
            v = np.zeros(self.nv); v[i] = 1
            return (0.0, v, None)
        def comb(items):
            c = 0.0; v = None; M = None
            for k, a in items:
                c += k * a[0]
                if a[1] is not None: v = k * a[1] if v is None else v + k * a[1]
                if a[2] is not None: M = k * a[2] if M is None else M + k * a[2]
            return (c, v, M)
        if op == "lin":
            return comb([(1.0, (float(t.args[0]), None, None))] + [(float(k), m[x.id]) for k, x in zip(t.args[1], t.args[2:])])
        if op == "neg": return comb([(-1.0, m[t.args[0].id])])
        if op in "+-": return comb([(1.0, m[t.args[0].id]), (1.0 if op == "+" else -1.0, m[t.args[1].id])])
        if op == "*":
            a = m[t.args[0].id]; b = m[t.args[1].id]
            if a[1] is None and a[2] is None: return comb([(a[0], b)])
            if b[1] is None and b[2] is None: return comb([(b[0], a)])
            if a[2] is not None or b[2] is not None: raise Unsupported("degree above two")
            M = np.outer(a[1], b[1]); M = (M + M.T) / 2
            return (a[0] * b[0], a[0] * b[1] + b[0] * a[1], M)
        if op == "/":
            a = m[t.args[0].id]; b = m[t.args[1].id]
            if b[1] is not None or b[2] is not None: raise Unsupported("division by a polynomial")
            return comb([(1.0 / b[0], a)])
        raise Unsupported("not polynomial: " + op)
    def of(self, x):
        if x.__class__ is not R: return (float(x), None, None)
        for t in T.topo([x]):
            if t.id not in self.memo: self.memo[t.id] = self._one(t)
        return self.memo[x.id]

# ------------------------------------------------------------------ the solver query on a residual
_decided = set()
def q_box(coefs, const, bound, tol, what=""):
    """Is |const + sum c_i x_i| > tol possible with |x_i| <= bound?  The solver decides.
    Coefficients below a threshold are merged into one interval variable (sound)."""
    tol = Fraction(tol)
    k = (tuple(coefs), Fraction(const), bound, tol) if len(coefs) < 2 else None
    if k in _decided: STATS.obligations += 1; return None        # the very same query was answered before
    big = []; slack = Fraction(0)
    thr = float(tol) / (float(bound) * (len(coefs) + 1) * 8.0)
    for i, c in coefs:
        if abs(c) <= thr: slack += abs(Fraction(c)) * Fraction(bound)
        else: big.append((i, Fraction(c)))
    s = z3.SolverFor("QF_LRA"); s.set("timeout", 60000)
    xs = {}
    tr = ToZ3()
    e = [tr.rat(Fraction(const))]
    for i, c in big:
        x = z3.Real("m%s" % (i,)); xs[i] = x
        s.add(x <= tr.rat(bound), x >= tr.rat(-Fraction(bound)))
        e.append(tr.rat(c) * x)
    d = z3.Real("rest"); s.add(d <= tr.rat(slack), d >= tr.rat(-slack))
    e.append(d)
    tot = z3.Sum(e)
    s.add(z3.Or(tot > tr.rat(tol), tot < tr.rat(-tol)))
    t0 = time.time(); r = s.check()
    STATS.queries += 1; STATS.time += time.time() - t0; STATS.obligations += 1
    STATS.largest = max(STATS.largest, len(coefs))
    if r == z3.unsat:
        STATS.unsat += 1
        if k is not None: _decided.add(k)
        return None
    if r == z3.unknown: STATS.unknown += 1; raise Unsupported("solver gave no answer: " + what)
    STATS.sat += 1
    m = s.model()
    out = {}
    for i, x in xs.items():
        v = m.eval(x, model_completion=True)
        out[i] = float(v.as_fraction())
    return out
