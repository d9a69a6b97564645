"""Hash-consed terms over reals (R), fixed-width integers (I) and booleans (B).

Concrete values stay Python floats / ints / bools and are evaluated natively
(IEEE double for floats); a term appears as soon as one operand is symbolic and
then denotes a value of the exact reals (resp. of the bit-vectors)."""
from fractions import Fraction
import math

class Unsupported(Exception):
    pass

class NonFinite(Exception):
    """a non-finite double met a symbolic value"""

_tab = {}
_vars = {}

def reset():
    _tab.clear(); _vars.clear()

class T:
    __slots__ = ("op", "args", "id", "w")
    def __hash__(self): return self.id
    def __bool__(self):
        raise Unsupported("truth value of a symbolic term %s" % (show(self)[:200],))

_n = [0]
def mk(cls, op, args, w=0):
    k = (cls, op, w) + tuple((a.id if isinstance(a, T) else (a.__class__, a)) for a in args)
    t = _tab.get(k)
    if t is None:
        t = cls.__new__(cls)
        t.op = op; t.args = args; t.w = w
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t

# ---------------------------------------------------------------- reals
def frac(x):
    c = x.__class__
    if c is Fraction: return x
    if c is float:
        if x != x or x in (math.inf, -math.inf): raise NonFinite(repr(x))
        return Fraction(x)
    if c is int: return Fraction(x)
    if c is bool: return Fraction(int(x))
    raise Unsupported("not a number: %r" % (x,))

class R(T):
    __slots__ = ()
    def __add__(a, b): return radd(a, b)
    def __radd__(a, b): return radd(b, a)
    def __sub__(a, b): return rsub(a, b)
    def __rsub__(a, b): return rsub(b, a)
    def __mul__(a, b): return rmul(a, b)
    def __rmul__(a, b): return rmul(b, a)
    def __truediv__(a, b): return rdiv(a, b)
    def __rtruediv__(a, b): return rdiv(b, a)
    def __neg__(a): return rneg(a)
    def __lt__(a, b): return rcmp("lt", a, b)
    def __le__(a, b): return rcmp("le", a, b)
    def __gt__(a, b): return rcmp("lt", b, a)
    def __ge__(a, b): return rcmp("le", b, a)
    def __eq__(a, b): return rcmp("eq", a, b)
    def __ne__(a, b): return bnot(rcmp("eq", a, b))
    __hash__ = T.__hash__
    def __repr__(a): return show(a)

def rconst(x):
    """a term for a constant (only needed inside terms)"""
    if isinstance(x, R): return x
    return mk(R, "c", (frac(x),))

def rvar(name):
    t = mk(R, "v", (name,))
    _vars[name] = t
    return t

def _isc(x):
    return x.__class__ is not R or x.op == "c"

def _cv(x):
    return x.args[0] if x.__class__ is R else frac(x)

def _nonfin(x):
    return x.__class__ is float and (x != x or x in (math.inf, -math.inf))

def radd(a, b):
    if _nonfin(a): return a
    if _nonfin(b): return b
    ca, cb = _isc(a), _isc(b)
    if ca and cb: return rconst(_cv(a) + _cv(b))
    if ca and _cv(a) == 0: return b
    if cb and _cv(b) == 0: return a
    return mk(R, "+", (rconst(a), rconst(b)))

def rsub(a, b):
    if _nonfin(a): return a
    if _nonfin(b): return -b
    ca, cb = _isc(a), _isc(b)
    if ca and cb: return rconst(_cv(a) - _cv(b))
    if cb and _cv(b) == 0: return a
    if ca and _cv(a) == 0: return rneg(b)
    a = rconst(a); b = rconst(b)
    if a is b: return rconst(0)
    return mk(R, "-", (a, b))

def rmul(a, b):
    ca, cb = _isc(a), _isc(b)
    if _nonfin(a) or _nonfin(b):
        raise NonFinite("product of %r and %r" % (a, b))
    if ca and cb: return rconst(_cv(a) * _cv(b))
    if ca:
        v = _cv(a)
        if v == 0: return 0.0
        if v == 1: return b
        if v == -1: return rneg(b)
    if cb:
        v = _cv(b)
        if v == 0: return 0.0
        if v == 1: return a
        if v == -1: return rneg(a)
    return mk(R, "*", (rconst(a), rconst(b)))

div_hook = [None]     # called with (num, den) for every symbolic division

def rdiv(a, b):
    if _nonfin(a): return a
    if _nonfin(b):
        if b != b: return b
        return 0.0
    ca, cb = _isc(a), _isc(b)
    if cb:
        v = _cv(b)
        if v == 0:
            raise NonFinite("division of a symbolic value by zero")
        if ca: return rconst(_cv(a) / v)
        if v == 1: return a
        return rmul(a, Fraction(1) / v)
    if div_hook[0] is not None:
        div_hook[0](a, b)
    if ca and _cv(a) == 0: return 0.0
    return mk(R, "/", (rconst(a), rconst(b)))

def rneg(a):
    if a.__class__ is not R: return -a
    if a.op == "c": return rconst(-a.args[0])
    if a.op == "neg": return a.args[0]
    return mk(R, "neg", (a,))

def rlin(coefs, terms):
    """sum of coefs[i]*terms[i]; coefficients are concrete"""
    cs = []; ts = []
    k = Fraction(0)
    conc = 0.0
    allconc = True
    for c, t in zip(coefs, terms):
        if t.__class__ is R:
            if c == 0: continue
            allconc = False
            if t.op == "c": k += frac(c) * t.args[0]
            else:
                cs.append(frac(c)); ts.append(t)
        else:
            if t == 0 or c == 0: continue
            conc += c * t
    if allconc: return conc
    k += frac(conc)
    if not ts: return rconst(k)
    return mk(R, "lin", (k, tuple(cs)) + tuple(ts))

def rfn(name, *args):
    return mk(R, "fn", (name,) + tuple(rconst(a) for a in args))

def rite(c, a, b):
    if c is True or c is False or c.__class__ is int:
        return a if c else b
    if a is b: return a
    if _nonfin(a) or _nonfin(b):
        raise NonFinite("select with a non-finite arm")
    a = rconst(a); b = rconst(b)
    if a is b: return a
    return mk(R, "ite", (c, a, b))

def rcmp(op, a, b):
    if _nonfin(a) or _nonfin(b):
        # terms denote finite reals
        x = a if a.__class__ is float else 0.0
        y = b if b.__class__ is float else 0.0
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
    ca, cb = _isc(a), _isc(b)
    if ca and cb:
        x, y = _cv(a), _cv(b)
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
    a = rconst(a); b = rconst(b)
    if a is b: return op != "lt"
    return mk(B, op, (a, b))

# ---------------------------------------------------------------- booleans
class B(T):
    __slots__ = ()
    def __and__(a, b): return band(a, b)
    def __rand__(a, b): return band(b, a)
    def __or__(a, b): return bor(a, b)
    def __ror__(a, b): return bor(b, a)
    def __xor__(a, b): return bxor(a, b)
    def __rxor__(a, b): return bxor(b, a)
    def __eq__(a, b): return bnot(bxor(a, b))
    def __ne__(a, b): return bxor(a, b)
    # i1 arithmetic (add/sub are xor, mul is and)
    def __add__(a, b): return bxor(a, b)
    __radd__ = __add__
    __sub__ = __add__
    __rsub__ = __add__
    def __mul__(a, b): return band(a, b)
    __rmul__ = __mul__
    __hash__ = T.__hash__
    def __repr__(a): return show(a)

def _bc(x): return x.__class__ is not B

def bnot(a):
    if _bc(a): return not a
    if a.op == "not": return a.args[0]
    return mk(B, "not", (a,))

def band(a, b):
    if _bc(a): return b if a else False
    if _bc(b): return a if b else False
    if a is b: return a
    return mk(B, "and", (a, b))

def bor(a, b):
    if _bc(a): return True if a else b
    if _bc(b): return True if b else a
    if a is b: return a
    return mk(B, "or", (a, b))

def bxor(a, b):
    if _bc(a): return bnot(b) if a else b
    if _bc(b): return bnot(a) if b else a
    if a is b: return False
    return mk(B, "xor", (a, b))

# ---------------------------------------------------------------- integers
class I(T):
    __slots__ = ()
    def __add__(a, b): return iop("add", a, b)
    def __radd__(a, b): return iop("add", b, a)
    def __sub__(a, b): return iop("sub", a, b)
    def __rsub__(a, b): return iop("sub", b, a)
    def __mul__(a, b): return iop("mul", a, b)
    def __rmul__(a, b): return iop("mul", b, a)
    def __and__(a, b): return iop("and", a, b)
    def __rand__(a, b): return iop("and", b, a)
    def __or__(a, b): return iop("or", a, b)
    def __ror__(a, b): return iop("or", b, a)
    def __xor__(a, b): return iop("xor", a, b)
    def __rxor__(a, b): return iop("xor", b, a)
    def __lt__(a, b): return icmp("ult", a, b)
    def __le__(a, b): return icmp("ule", a, b)
    def __gt__(a, b): return icmp("ult", b, a)
    def __ge__(a, b): return icmp("ule", b, a)
    def __eq__(a, b): return icmp("eq", a, b)
    def __ne__(a, b): return bnot(icmp("eq", a, b))
    def __rshift__(a, b): return iop("lshr", a, b)
    def __rrshift__(a, b): return iop("lshr", b, a)
    def __lshift__(a, b): return iop("shl", a, b)
    def __rlshift__(a, b): return iop("shl", b, a)
    __hash__ = T.__hash__
    def __repr__(a): return show(a)

def ivar(name, w):
    t = mk(I, "v", (name,), w)
    _vars[name] = t
    return t

def iconst(x, w):
    if isinstance(x, I): return x
    return mk(I, "c", (int(x) & ((1 << w) - 1),), w)

def _sx(x, w):
    return x - (1 << w) if x >> (w - 1) else x

_IFOLD = {
    "add": lambda a, b, w: a + b, "sub": lambda a, b, w: a - b,
    "mul": lambda a, b, w: a * b, "and": lambda a, b, w: a & b,
    "or": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b,
    "shl": lambda a, b, w: a << b if b < w else 0,
    "lshr": lambda a, b, w: a >> b if b < w else 0,
    "ashr": lambda a, b, w: _sx(a, w) >> min(b, w - 1),
    "udiv": lambda a, b, w: a // b, "urem": lambda a, b, w: a % b,
    "sdiv": lambda a, b, w: int_sdiv(a, b, w), "srem": lambda a, b, w: int_srem(a, b, w),
}
def int_sdiv(a, b, w):
    a = _sx(a, w); b = _sx(b, w)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def int_srem(a, b, w):
    a = _sx(a, w); b = _sx(b, w)
    r = abs(a) % abs(b)
    return -r if a < 0 else r

def iop(op, a, b):
    if a.__class__ is bool: a = int(a)
    if b.__class__ is bool: b = int(b)
    w = a.w if a.__class__ is I else b.w
    M = (1 << w) - 1
    ac = a.__class__ is int; bc = b.__class__ is int
    if ac: a &= M
    if bc: b &= M
    if ac and bc: return _IFOLD[op](a, b, w) & M
    if bc:
        if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and b == 0: return a
        if op == "and":
            if b == M: return a
            if b == 0: return 0
        if op == "mul":
            if b == 0: return 0
            if b == 1: return a
        if op in ("udiv", "sdiv") and b == 1: return a
    if ac:
        if op in ("add", "or", "xor") and a == 0: return b
        if op == "and":
            if a == M: return b
            if a == 0: return 0
        if op == "mul":
            if a == 0: return 0
            if a == 1: return b
    # constants float to the right / are merged for sums
    if ac and op in ("add", "mul", "and", "or", "xor"):
        a, b = b, a; ac, bc = bc, ac
    if op == "sub" and bc:
        op = "add"; b = (-b) & M
    if op == "add" and bc and a.op == "add" and a.args[1].op == "c":
        s = (a.args[1].args[0] + b) & M
        if s == 0: return a.args[0]
        return mk(I, "add", (a.args[0], iconst(s, w)), w)
    if op == "mul" and bc and a.op == "add" and a.args[1].op == "c":
        return iop("add", iop("mul", a.args[0], b), (a.args[1].args[0] * b) & M)
    if op == "xor" and bc and a.op == "xor" and a.args[1].op == "c":
        return iop("xor", a.args[0], a.args[1].args[0] ^ b)
    a = iconst(a, w); b = iconst(b, w)
    if a is b:
        if op in ("sub", "xor"): return 0
        if op in ("and", "or"): return a
    return mk(I, op, (a, b), w)

def icmp(op, a, b):
    if a.__class__ is bool: a = int(a)
    if b.__class__ is bool: b = int(b)
    w = a.w if a.__class__ is I else b.w
    M = (1 << w) - 1
    if a.__class__ is int and b.__class__ is int:
        a &= M; b &= M
        return {"ult": a < b, "ule": a <= b, "eq": a == b}[op]
    if b.__class__ is int and b < 0: b &= M
    if a.__class__ is int and a < 0: a &= M
    # (x ^ S) <u (y ^ S) is the signed comparison
    S = 1 << (w - 1)
    if op in ("ult", "ule"):
        def sgn(t):
            if t.__class__ is I and t.op == "xor" and t.args[1].op == "c" and t.args[1].args[0] == S:
                return t.args[0]
            return None
        sa = sgn(a); sb = sgn(b)
        if sa is not None and b.__class__ is int: sb = iconst(b ^ S, w)
        if sb is not None and a.__class__ is int: sa = iconst(a ^ S, w)
        if sa is not None and sb is not None:
            return mk(B, "slt" if op == "ult" else "sle", (sa, sb), w)
        if op == "ult" and b.__class__ is int and b == 0: return False
        if op == "ule" and a.__class__ is int and a == 0: return True
    a = iconst(a, w); b = iconst(b, w)
    if a is b: return op != "ult"
    return mk(B, op, (a, b), w)

def iite(c, a, b, w):
    if c is True or c is False or c.__class__ is int:
        return a if c else b
    if a.__class__ is int and b.__class__ is int and a == b: return a
    a = iconst(a, w); b = iconst(b, w)
    if a is b: return a
    return mk(I, "ite", (c, a, b), w)

def itrunc(a, w0, w):
    if a.__class__ is not I: return a & ((1 << w) - 1)
    if a.op in ("zext", "sext") and a.args[0].w == w: return a.args[0]
    if a.op in ("zext", "sext") and a.args[0].w > w: return itrunc(a.args[0], a.args[0].w, w)
    return mk(I, "trunc", (a,), w)

def izext(a, w0, w):
    if a.__class__ is B: return mk(I, "b2i", (a,), w)
    if a.__class__ is not I: return int(a)
    return mk(I, "zext", (a,), w)

def isext(a, w0, w):
    if a.__class__ is B: return iite(a, (1 << w) - 1, 0, w)
    if a.__class__ is not I:
        a = int(a)
        return (a - (1 << w0)) & ((1 << w) - 1) if a >> (w0 - 1) else a
    return mk(I, "sext", (a,), w)

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T): return repr(t)
    if t.op == "v": return t.args[0]
    if t.op == "c": return str(t.args[0])
    if depth == 0: return "..."
    if t.op == "lin":
        k, cs = t.args[0], t.args[1]
        return "lin(%s; %s)" % (float(k), " ".join("%.6g*%s" % (float(c), show(x, depth - 1)) for c, x in list(zip(cs, t.args[2:]))[:6]))
    if t.op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, depth - 1) for x in t.args[1:]))
    return "(%s %s)" % (t.op, " ".join(show(x, depth - 1) for x in t.args))

def children(t):
    if t.op in ("v", "c"): return ()
    if t.op == "lin": return t.args[2:]
    if t.op == "fn": return t.args[1:]
    return t.args

def topo(roots):
    """all sub-terms of the roots, children first (iterative)"""
    seen = set(); out = []
    st = [(r, 0) for r in roots if isinstance(r, T)]
    while st:
        t, ph = st.pop()
        if ph:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, 1))
        for c in children(t):
            if isinstance(c, T) and c.id not in seen: st.append((c, 0))
    return out

def free_vars(*roots):
    return {t.args[0]: t for t in topo(roots) if t.op == "v"}

# ---------------------------------------------------------------- substitution
def subst(root, f, memo=None):
    """root with every real variable replaced by f(name) (a term or a number)"""
    if not isinstance(root, T): return root
    memo = {} if memo is None else memo
    g = lambda x: memo[x.id] if isinstance(x, T) else x
    for t in topo([root]):
        if t.id in memo: continue
        op = t.op; a = t.args
        if t.__class__ is R:
            if op == "v": r = f(a[0])
            elif op == "c": r = t
            elif op == "lin":
                if len(a) > 3 and all(x.op == "v" for x in a[2:]):
                    r = f.lin(a[0], a[1], a[2:]) if hasattr(f, "lin") else rlin((1,) + a[1], (rconst(a[0]),) + tuple(g(x) for x in a[2:]))
                else: r = rlin((1,) + a[1], (rconst(a[0]),) + tuple(g(x) for x in a[2:]))
            elif op == "+": r = radd(g(a[0]), g(a[1]))
            elif op == "-": r = rsub(g(a[0]), g(a[1]))
            elif op == "*": r = rmul(g(a[0]), g(a[1]))
            elif op == "/": r = rdiv(g(a[0]), g(a[1]))
            elif op == "neg": r = rneg(g(a[0]))
            elif op == "ite": r = rite(g(a[0]), g(a[1]), g(a[2]))
            elif op == "fn":
                x = [g(y) for y in a[1:]]
                if all(_isc(y) for y in x):
                    x = [float(_cv(y)) for y in x]
                    if a[0] == "abs": r = abs(x[0])
                    elif a[0] in ("sqrt", "exp", "log", "cos", "sin", "acos", "floor", "pow", "atan2"): r = float(getattr(math, a[0])(*x))
                    else: raise Unsupported("value of " + a[0])
                else: r = rfn(a[0], *x)
            else: raise Unsupported("substitution in " + op)
            if r.__class__ is not R: r = rconst(r)
        elif t.__class__ is B:
            if op in ("lt", "le", "eq") and a[0].__class__ is R: r = rcmp(op, g(a[0]), g(a[1]))
            elif op == "not": r = bnot(g(a[0]))
            elif op == "and": r = band(g(a[0]), g(a[1]))
            elif op == "or": r = bor(g(a[0]), g(a[1]))
            elif op == "xor": r = bxor(g(a[0]), g(a[1]))
            elif any(v.__class__ is R for v in free_vars(t).values()): raise Unsupported("substitution in " + op)
            else: r = t
        else:
            if any(v.__class__ is R for v in free_vars(t).values()): raise Unsupported("substitution in " + op)
            r = t
        memo[t.id] = r
    return memo[root.id]

TVAR = "t!line"
class Line:
    """real inputs restricted to a line: name -> a + b t, with a and b of few binary digits; scalars are fixed"""
    def __init__(self, k, ranges=None):
        self.k = k; self.ranges = ranges or {}; self.t = rvar(TVAR); self.ab = {}; self.memo = {}
    def coef(self, name):
        r = self.ab.get(name)
        if r is None:
            import random
            g = random.Random("%d/%s" % (self.k, name))
            q = self.ranges.get(name, self.ranges.get(name.split("[")[0]))
            if q is None: lo, hi = -1.0, 1.0
            elif isinstance(q, tuple): lo, hi = q
            else: lo = hi = q(g) if callable(q) else float(q)
            m = (lo + hi) / 2; h = (hi - lo) / 2
            u = lambda: g.choice([-8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8]) / 8.0
            p2 = lambda: g.choice([-1.0, -0.5, 0.5, 1.0])
            if h == 0 or ("[" not in name and q is not None): a, b = m + h * u(), 0.0          # a scalar parameter
            elif self.k % 3 == 0: a, b = m + h * u(), h * p2()
            elif self.k % 3 == 1: a, b = (0.0 if lo < 0 < hi else m), h * u()
            else: a, b = m + h * u() / 4, (h * p2() if g.random() < 0.3 else 0.0)
            r = self.ab[name] = (Fraction(a).limit_denominator(1 << 30) if q is not None else Fraction(a), Fraction(b))
        return r
    def __call__(self, name):
        if name == TVAR: return self.t
        a, b = self.coef(name)
        return rlin([1, b], [rconst(a), self.t]) if b else rconst(a)
    def lin(self, k0, cs, vs):
        a = Fraction(k0); b = Fraction(0)
        for c, v in zip(cs, vs):
            if v.args[0] == TVAR: b += c; continue
            x, y = self.coef(v.args[0]); a += c * x; b += c * y
        return rlin([1, b], [rconst(a), self.t]) if b else rconst(a)
    def of(self, x): return subst(x, self, self.memo)
    def value(self, name, t):
        a, b = self.coef(name)
        return float(a) + float(b) * t
    def range(self): return [rcmp("le", rconst(-4), self.t), rcmp("le", self.t, rconst(4))]
