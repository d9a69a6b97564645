"""Symbolic execution of the Python run scripts: the real source is run by CPython on
proxy numbers that build z3 terms; a branch on a proxy asks the solver which sides are
possible and every feasible side is followed (by re-execution)."""
import z3, math, time, builtins, os, types, sys
from fractions import Fraction
from terms import Unsupported
from solve import STATS

class Stop(Exception): pass
CTX = None
def rv(x):
    if isinstance(x, (SNum,)): return x.e
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, int): return z3.RealVal(x)
    f = Fraction(x); return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
class Ctx:
    def __init__(self): self.pc = []; self.defs = []; self.ints = []; self.pre = []; self.pos = 0; self.work = None; self.tokens = []; self.n = 0; self.fresh = {}
    def check(self, extra, ms=8000, ints=True, model=False):
        """sat / unsat / unknown for defs + pc + extra"""
        last = z3.unknown
        for mode in ((0, 1) if ints and self.ints else (0,)):
            for mk in ((lambda: z3.SolverFor("QF_NRA")), z3.Solver) if not mode else (z3.Solver,):
                s = mk(); s.set("timeout", ms)
                s.add(*self.defs); s.add(*self.pc); s.add(*extra)
                if mode: s.add(*[z3.IsInt(k) for k in self.ints])
                t = time.time(); r = s.check(); STATS.queries += 1; STATS.time += time.time() - t
                if r == z3.unsat: STATS.unsat += 1; return (r, None) if model else r
                if r == z3.sat: break
            last = r
            if r == z3.sat: STATS.sat += 1
        if model: return last, (s.model() if last == z3.sat else None)
        return last
    def var(self, name, integer=False):
        v = z3.Real(name)
        if integer: self.ints.append(v); return SInt(v)
        return SReal(v)
    def new(self, kind, key, integer=False):
        """the same name for the same definition on every re-execution"""
        self.n += 1
        v = z3.Real("%s!%d" % (kind, self.n))
        if integer: self.ints.append(v)
        return v
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.pre): v = self.pre[self.pos]
        else:
            t = self.check([c]) != z3.unsat; f = self.check([z3.Not(c)]) != z3.unsat
            if not t and not f: raise Stop()
            if t and f: self.work.append(self.pre[:self.pos] + [False])
            v = t; self.pre.append(v)
        self.pos += 1; self.pc.append(c if v else z3.Not(c))
        return v
class SBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return CTX.branch(self.e)
    def __and__(self, o): return SBool(z3.And(self.e, bv(o)))
    def __or__(self, o): return SBool(z3.Or(self.e, bv(o)))
    def __invert__(self): return SBool(z3.Not(self.e))
    __rand__ = __and__; __ror__ = __or__
    def __hash__(self): return id(self)
def bv(o): return o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))
def num(o): return isinstance(o, (SNum, int, float, Fraction))
def isint(o): return isinstance(o, (SInt, int))
class SNum:
    def __init__(self, e): self.e = e
    def _w(self, e, o): return SInt(e) if isinstance(self, SInt) and isint(o) else SReal(e)
    def __add__(self, o): return self._w(self.e + rv(o), o) if num(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return self._w(self.e - rv(o), o) if num(o) else NotImplemented
    def __rsub__(self, o): return self._w(rv(o) - self.e, o) if num(o) else NotImplemented
    def __mul__(self, o): return self._w(self.e * rv(o), o) if num(o) else NotImplemented
    __rmul__ = __mul__
    def __neg__(self): return self._w(-self.e, 1)
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    @staticmethod
    def div(a, b):
        b = rv(b)
        if CTX.branch(b == 0): raise ZeroDivisionError("division by zero")
        q = CTX.new("div", None); CTX.defs.append(q * b == rv(a))
        return SReal(q)
    def __truediv__(self, o): return SNum.div(self, o) if num(o) else NotImplemented
    def __rtruediv__(self, o): return SNum.div(o, self) if num(o) else NotImplemented
    @staticmethod
    def floor(x):
        k = CTX.new("floor", None, True); e = rv(x); CTX.defs += [k <= e, e < k + 1]
        return SInt(k)
    def __floordiv__(self, o):
        r = SNum.floor(SNum.div(self, o)); return r if isint(self) and isint(o) else SReal(r.e)
    def __rfloordiv__(self, o): return num(o) and SNum.__floordiv__(SReal(rv(o)) if not isint(o) else SInt(rv(o)), self)
    def __mod__(self, o): return self - o * (self // o)
    def __pow__(self, n):
        if isinstance(n, SNum): raise Unsupported("power with an unknown exponent")
        if n == int(n):
            n = int(n)
            if n >= 0:
                r = SInt(rv(1)) if isinstance(self, SInt) else SReal(rv(1))
                for _ in range(n): r = r * self
                return r
            return SNum.div(1, self ** (-n))
        if n == 0.5: return ssqrt(self, True)
        if 2 * n == int(2 * n): return ssqrt(self, True) ** int(2 * n)
        raise Unsupported("power %r" % (n,))
    def __rpow__(self, n): raise Unsupported("power with an unknown exponent")
    def __lt__(self, o): return SBool(self.e < rv(o))
    def __le__(self, o): return SBool(self.e <= rv(o))
    def __gt__(self, o): return SBool(self.e > rv(o))
    def __ge__(self, o): return SBool(self.e >= rv(o))
    def __eq__(self, o): return SBool(self.e == rv(o)) if num(o) else False
    def __ne__(self, o): return SBool(self.e != rv(o)) if num(o) else True
    def __hash__(self): return self.e.hash()
    def __bool__(self): return CTX.branch(self.e != 0)
    def tok(self, spec=""):
        CTX.tokens.append((self, spec)); return "\x01%d\x02" % (len(CTX.tokens) - 1)
    def __str__(self): return self.tok()
    __repr__ = __str__
    def __format__(self, spec): return self.tok(spec if spec not in ("d", "s") else "")
    def __trunc__(self): raise Unsupported("int() through __trunc__")
    def __index__(self): raise Unsupported("an unknown number used as an index")
    def __floor__(self): return SNum.floor(self)
    def __ceil__(self): return -SNum.floor(-self)
    def __round__(self, nd=None):
        if isinstance(self, SInt): return self
        if nd is None:
            k = CTX.new("round", None, True); CTX.defs += [k - self.e <= z3.Q(1, 2), self.e - k <= z3.Q(1, 2)]; return SInt(k)
        k = CTX.new("round", None, True); s = 10 ** nd; CTX.defs += [k - self.e * s <= z3.Q(1, 2), self.e * s - k <= z3.Q(1, 2)]
        return SNum.div(SInt(k), s) if nd > 0 else SReal(k / s)
    def is_integer(self):
        return (self - SNum.floor(self)) == 0
class SReal(SNum): pass
class SInt(SNum): pass
def ssqrt(x, py=False):
    e = rv(x)
    if CTX.branch(e < 0):
        if py: raise Unsupported("a complex number")
        raise ValueError("math domain error")
    s = CTX.new("sqrt", None); CTX.defs += [s >= 0, s * s == e]
    return SReal(s)
def to_int(x, *a):
    if isinstance(x, SInt): return x
    if isinstance(x, SReal): return SNum.floor(x) if x >= 0 else -SNum.floor(-x)
    return builtins.int(x, *a)
def to_float(x=0.0): return SReal(x.e) if isinstance(x, SNum) else builtins.float(x)
class _M(type):
    def __instancecheck__(c, o): return isinstance(o, c.real) or isinstance(o, c.sym)
    def __eq__(c, o): return o is c.real or o is c.sym or type.__eq__(c, o)
    def __hash__(c): return id(c)
class IntT(metaclass=_M):
    real = int; sym = SInt
    def __new__(cls, *a): return to_int(*a) if a else 0
class FloatT(metaclass=_M):
    real = float; sym = SReal
    def __new__(cls, *a): return to_float(*a)
def fmath():
    m = types.ModuleType("math")
    for k in dir(math):
        f = getattr(math, k)
        if callable(f):
            def g(*a, _f=f, _k=k):
                if any(isinstance(x, SNum) for x in a): raise Unsupported("math.%s of an unknown number" % _k)
                return _f(*a)
            setattr(m, k, g)
        else: setattr(m, k, f)
    def sq(x): return ssqrt(x) if isinstance(x, SNum) else math.sqrt(x)
    m.sqrt = sq; m.floor = lambda x: SNum.floor(x) if isinstance(x, SNum) else math.floor(x)
    m.ceil = lambda x: -SNum.floor(-x) if isinstance(x, SNum) else math.ceil(x)
    m.trunc = to_int; m.fabs = lambda x: to_float(abs(x)); m.pow = lambda a, b: to_float(a) ** b
    return m
FM = fmath()
def load(path, mods, name):
    """the module at path, run with the given replacements for what it imports"""
    src = open(path).read()
    ns = {"__name__": name, "__file__": path}
    bi = dict(vars(builtins)); bi["int"] = IntT; bi["float"] = FloatT
    def imp(n, g=None, l=None, fl=(), lv=0):
        top = n.split(".")[0]
        if n in mods: return mods[n]
        if top in mods: return mods[top]
        if n == "math": return FM
        if top in ("typing", "__future__", "dataclasses", "functools", "itertools", "collections", "enum", "abc", "re", "string"): return builtins.__import__(n, g, l, fl, lv)
        raise Unsupported("import of " + n)
    bi["__import__"] = imp
    if "open" in mods: bi["open"] = mods["open"]
    bi["print"] = lambda *a, **k: None
    ns["__builtins__"] = bi
    exec(compile(src, path, "exec"), ns)
    return ns
def explore(fn, max_paths=400, base=()):
    """[(ctx, result or exception)] of fn(ctx) over all feasible paths"""
    global CTX
    work = [[]]; out = []
    while work:
        if len(out) >= max_paths: raise Unsupported("more than %d paths" % max_paths)
        c = Ctx(); c.pre = work.pop(); c.work = work; CTX = c
        try: r = fn(c)
        except Stop: continue
        except Unsupported: raise
        except Exception as e: r = e
        STATS.paths += 1
        out.append((c, r))
    return out
