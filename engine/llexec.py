"""Symbolic execution of LLVM IR.

Each IR function is translated to a Python function over Python numbers and
terms (terms.py) the first time it is called; memory is a set of objects with
bounds, liveness and initialisation tracking.  Symbolic branches fork by
re-execution with decision prefixes; feasibility is decided by the solver."""
import re, struct, math, os
from fractions import Fraction
import terms as T
from terms import R, I, B, Unsupported, NonFinite
from llparse import Module, Parser, ParseError, tokenize, split_blocks, SKIPATTR

M64 = (1 << 64) - 1
SHIFT = 36
BASE = 1 << 24
FUNC0 = 1 << 60

class MemError(Exception):
    """the code under test touched memory it must not touch"""

class UninitUse(MemError):
    pass

class CppExc(Exception):
    def __init__(self, what, typ=0, ptr=0):
        Exception.__init__(self, what); self.what = what; self.typ = typ; self.ptr = ptr

class ProgExit(Exception):
    def __init__(self, code, how):
        Exception.__init__(self, "%s(%r)" % (how, code)); self.code = code; self.how = how

class Infeasible(Exception):
    """the path's assumptions are contradictory"""

class Budget(Exception):
    pass

class UndefT:
    __slots__ = ()
    def _u(self, *a): raise UninitUse("use of an uninitialised value")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _u
    __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _u
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __bool__ = __int__ = __float__ = __index__ = _u
    __eq__ = __ne__ = _u
    __hash__ = object.__hash__
    def __repr__(self): return "UNDEF"
UNDEF = UndefT()
class PartT(UndefT):
    """bytes some of which were never written: may be copied, nothing else"""
    __slots__ = ("bs",)
    def __init__(self, bs): self.bs = bs
    def __repr__(self): return "PART"

class BitsOf:
    """the bit pattern of a symbolic double held in an integer register"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def _u(self, *a): raise Unsupported("integer arithmetic on the bits of a symbolic double")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __lshift__ = __rshift__ = _u

class Obj:
    __slots__ = ("idx", "lo", "hi", "d", "s", "kind", "site", "seq", "const", "shared")
    def __init__(self, idx, size, kind, site):
        self.idx = idx
        self.lo = (idx << SHIFT) + BASE
        self.hi = self.lo + size
        self.d = {}; self.s = {}
        self.kind = kind; self.site = site
        self.const = False; self.shared = False

def d2b(x):
    if x.__class__ is float: return struct.unpack('<Q', struct.pack('<d', x))[0]
    if x.__class__ is R: return BitsOf(x)
    return x
def b2d(x):
    if x.__class__ is int or x.__class__ is bool: return struct.unpack('<d', struct.pack('<Q', int(x)))[0]
    if x.__class__ is BitsOf: return x.t
    if x.__class__ is I: raise Unsupported("symbolic integer read as a double")
    return x

def f32(x):
    """rounding to single precision"""
    if x.__class__ is float:
        try: return struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError: return math.copysign(math.inf, x)
    if x.__class__ is R:
        if x.op == "fn" and x.args[0] == "f32": return x
        return T.rfn("f32", x)
    return x
def b2f(x):
    if x.__class__ is int: return struct.unpack('<f', struct.pack('<I', x))[0]
    if x.__class__ is I: raise Unsupported("symbolic integer read as a float")
    return x

def fdiv(a, b):
    if b.__class__ is float and a.__class__ is float:
        if b != 0.0: return a / b
        if a != a or a == 0.0: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b

def sgn(x, w):
    if x.__class__ is I: raise Unsupported("symbolic integer")
    x = int(x)
    return x - (1 << w) if x >> (w - 1) else x

def trunc_(a, w0, w):
    if w == 1:
        if a.__class__ is I: return T.icmp("eq", T.iop("and", a, 1), 1)
        return bool(a & 1)
    return T.itrunc(a, w0, w)

def fuo(a, b):
    return a != a or b != b if a.__class__ is float and b.__class__ is float else _uo(a) or _uo(b)
def _uo(a):
    if a is UNDEF: a._u()
    return a.__class__ is float and a != a

def fcmp(p, a, b):
    if a is UNDEF or b is UNDEF: UNDEF._u()
    if p == 'ord': return not fuo(a, b)
    if p == 'uno': return fuo(a, b)
    if p[0] == 'o':
        if fuo(a, b): return False
        return _fc(p[1:], a, b)
    if p[0] == 'u':
        if fuo(a, b): return True
        return _fc(p[1:], a, b)
    if p == 'true': return True
    return False
def _fc(p, a, b):
    if p == 'eq': return a == b
    if p == 'ne': return a != b
    if p == 'lt': return a < b
    if p == 'le': return a <= b
    if p == 'gt': return a > b
    if p == 'ge': return a >= b
    raise Unsupported("fcmp " + p)

def i2d(a, w, signed):
    if a.__class__ is I:
        return T.mk(R, "i2r", (a, signed))
    a = int(a)
    if signed and a >> (w - 1): a -= 1 << w
    return float(a)

def d2i(x, w, signed):
    if x.__class__ is R:
        if x.op == "c": x = x.args[0]
        elif x.op == "i2r" and x.args[0].w == w: return x.args[0]
        else: raise Unsupported("conversion of a symbolic double to an integer")
    if x is UNDEF: x._u()
    if x.__class__ is float and (x != x or abs(x) == math.inf): raise MemError("conversion of a non-finite double to an integer")
    return int(x) & ((1 << w) - 1)

class Machine:
    mods = {}        # module text -> parsed module
    def __init__(self, text, entry_models):
        self.mod = self.mods.get(text)
        if self.mod is None:
            if len(self.mods) > 40: self.mods.clear(); self.codes.clear()
            self.mod = self.mods[text] = Module(text)
        self.text = text
        self.types = self.mod.types
        self.O = {}
        self.models = entry_models      # name (without @) -> callable(machine, *args)
        self.executed = {}              # function name -> times compiled / called
        self.gaddr = {}
        self.fptr = {}
        self.faddr = {}
        self.gorder = sorted(self.mod.globals)
        self.ns = {}
        self.traced = False; self.compiled = {}
        self._setup_addresses()
        self._setup_ns()
        self.config = {}
        self.solver = None
        self.reset(())

    # ------------------------------------------------------------ addresses
    def _setup_addresses(self):
        for k, g in enumerate(self.gorder):
            self.gaddr[g] = ((k + 1) << SHIFT) + BASE
        for k, f in enumerate(sorted(self.mod.funcs)):
            a = FUNC0 + 16 * k
            self.faddr[f] = a; self.fptr[a] = f
        self.first_dyn = len(self.gorder) + 1

    def sym_addr(self, g):
        if g in self.gaddr: return self.gaddr[g]
        if g in self.faddr: return self.faddr[g]
        if g in self.mod.aliases: return self.const(self.mod.aliases[g], 'ptr')
        raise Unsupported("no such symbol " + g)

    def reset(self, prefix):
        self.O.clear()
        self.running = False
        self.next_idx = self.first_dyn
        self.seq = 0
        self.prefix = list(prefix); self.pos = 0
        self.decisions = []
        self.alts = []
        self.pc = []            # list of boolean terms
        self.known = {}
        self.outs = {}          # name -> {index: value}
        self.marks = []
        self.calls = 0
        self.extra = {}         # per-path model state
        self.assumed = []
        for g in self.gorder:
            ty, init, const, tls = self.mod.globals[g]
            try: size = self.types.size(ty)
            except ParseError: size = 1
            o = Obj(self.gaddr[g] >> SHIFT, size, 'global', g)
            o.const = const
            self.O[o.idx] = o
        for g in self.gorder:
            ty, init, const, tls = self.mod.globals[g]
            if init is not None:
                self.init_global(self.gaddr[g], ty, init)
        self.streams = None
        self.running = True

    def init_global(self, a, ty, v):
        t = self.types.resolve(ty)
        k = v[0]
        if k == 'undef': return
        if k == 'zero':
            self.memset(a, 0, self.types.size(t)); return
        if k == 'str':
            for i, c in enumerate(v[1]): self.store(a + i, c, 1)
            return
        if k == 'agg':
            if t[0] == 's': offs = self.types.offsets(t)
            else:
                es = self.types.size(t[2]); offs = [es * i for i in range(t[1])]
            for o, (et, ev) in zip(offs, v[1]): self.init_global(a + o, et, ev)
            return
        c = self.const(v, t)
        self.store(a, c, self.types.size(t))

    def const(self, v, ty):
        k = v[0]
        if k == 'k': return v[1]
        if k == 'g': return self.sym_addr(v[1])
        if k == 'undef': return self.undef(ty)
        if k == 'zero':
            t = self.types.resolve(ty)
            if t == 'double': return 0.0
            if t == 'ptr' or t[0] == 'i': return 0
            if t[0] == 's': return tuple(self.const(v, x) for x in t[1])
            if t[0] == 'a': return tuple(self.const(v, t[2]) for _ in range(t[1]))
        if k == 'agg': return tuple(self.const(x, t) for t, x in v[1])
        if k == 'cx':
            op = v[1]
            if op == 'gep':
                ops = v[3]
                base = self.const(ops[0][1], ops[0][0])
                off = self.gep_const(v[2], [(t, self.const(x, t)) for t, x in ops[1:]])
                return (base + off) & M64
            if op in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'): return self.const(v[3], v[2])
            if op in ('trunc', 'zext'): return self.const(v[3], v[2]) & ((1 << v[4][1]) - 1)
            if op in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
                a = self.const(v[3], v[2]); b = self.const(v[4], v[2])
                return T.iop(op, T.iconst(a, v[2][1]), T.iconst(b, v[2][1])) if False else \
                    {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[op] & ((1 << v[2][1]) - 1)
        raise Unsupported("constant %r" % (v,))

    def undef(self, ty):
        t = self.types.resolve(ty)
        if t.__class__ is tuple:
            if t[0] == 's': return tuple(self.undef(x) for x in t[1])
            if t[0] == 'a': return tuple(self.undef(t[2]) for _ in range(t[1]))
            if t[0] == 'i': return 0
        if t == 'ptr': return 0
        return UNDEF

    def gep_const(self, ty, idxs):
        off = 0
        t = ty
        for n, (it, v) in enumerate(idxs):
            if n == 0:
                off += sgn(v, it[1]) * self.types.size(t); continue
            t = self.types.resolve(t)
            if t[0] == 's':
                off += self.types.offsets(t)[v]; t = t[1][v]
            else:
                off += sgn(v, it[1]) * self.types.size(t[2]); t = t[2]
        return off

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind, site=""):
        if size.__class__ is not int:
            size = self.concretize(size, 64)
        if size > (1 << 33):
            raise MemError("allocation of %d bytes" % size)
        o = Obj(self.next_idx, size, kind, site)
        self.next_idx += 1
        self.seq += 1
        o.seq = self.seq
        self.O[o.idx] = o
        return o.lo

    def free(self, a, kinds):
        if a == 0: return
        o = self.O.get(a >> SHIFT)
        if o is None: raise MemError("free of memory that is not allocated (double free?)")
        if a != o.lo: raise MemError("free of a pointer into the middle of an object")
        if o.kind not in kinds:
            raise MemError("memory from %s released with the wrong function (%s)" % (o.kind, "/".join(kinds)))
        if self.traced: self.trace('free', a, o.hi - o.lo, o)
        del self.O[o.idx]

    def where(self, a):
        o = self.O.get(a >> SHIFT)
        if o is None: return "address in no live object"
        return "offset %d of a %d-byte object (%s%s)" % (a - o.lo, o.hi - o.lo, o.kind, " " + o.site if o.site else "")

    def obj(self, a, n, what):
        if a.__class__ is not int:
            if a is UNDEF: a._u()
            raise Unsupported("address %r" % (a,))
        o = self.O.get(a >> SHIFT)
        if o is None:
            raise MemError("%s of %d bytes through a pointer to no live object%s" % (what, n, " (null)" if a < 4096 else ""))
        if a < o.lo or a + n > o.hi:
            raise MemError("%s of %d bytes outside its object: %s" % (what, n, self.where(a)))
        return o

    def load(self, a, n):
        """n-byte load -> int/float/R/I/UNDEF (8-byte values keep the class they were stored with)"""
        if a.__class__ is I: return self.load_sym(a, n)
        o = self.obj(a, n, "read")
        if n == 8 and not (a & 7):
            v = o.d.get(a)
            if v is not None: return v
            if not o.s: return UNDEF
        v = o.s.get(a)
        if v is not None and v[1] == n: return v[0]
        bs = [self.byte(o, a + k) for k in range(n)]
        if any(b is None for b in bs):
            if all(b is None for b in bs): return UNDEF
            if any(b.__class__ not in (int, I) and b is not None for b in bs): raise Unsupported("a value made of uninitialised and symbolic bytes")
            return PartT(bs)
        if all(b.__class__ is int for b in bs):
            r = 0
            for k, b in enumerate(bs): r |= b << (8 * k)
            return r
        r = 0
        for k, b in enumerate(bs):
            z = T.izext(b, 8, 8 * n) if b.__class__ is I else T.iconst(b, 8 * n)
            r = T.iop("or", T.iop("shl", z, 8 * k) if k else z, r) if r.__class__ is I or k else z
        return r

    def byte(self, o, a):
        v = o.s.get(a)
        if v is not None and v[1] == 1: return v[0]
        for k in range(8):
            v = o.d.get(a - k)
            if v is not None: return self._sub(v, 8, k)
        for k in range(16):
            v = o.s.get(a - k)
            if v is not None and v[1] > k: return self._sub(v[0], v[1], k)
        return None

    def _sub(self, v, n, k):
        if v.__class__ is float: v = d2b(v) if n == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        if v is UNDEF: return None
        if v.__class__ is PartT: return v.bs[k]
        if v.__class__ is int or v.__class__ is bool: return (int(v) >> (8 * k)) & 255
        if v.__class__ is I: return T.itrunc(T.iop("lshr", v, 8 * k), 8 * n, 8)
        raise Unsupported("byte of a symbolic double")

    def store(self, a, v, n):
        if a.__class__ is I: return self.store_sym(a, v, n)
        o = self.obj(a, n, "write")
        if o.const: 
            if self.running: raise MemError("write to a constant object " + o.site)
        if n == 8 and not o.s and not (a & 7):
            o.d[a] = v; return
        if not (a & 7) and n == 8 and a in o.d:
            o.d[a] = v; return
        e = o.s.get(a)
        if e is not None and e[1] == n:
            o.s[a] = (v, n); return
        self.clear(o, a, n)
        if n == 8 and not (a & 7): o.d[a] = v
        else: o.s[a] = (v, n)

    def clear(self, o, a, n):
        """forget [a,a+n); split entries that straddle the ends"""
        hit = []
        for k in range(a - 7, a + n):
            if k in o.d: hit.append((k, 8))
        if o.s:
            for k in range(a - 15, a + n):
                e = o.s.get(k)
                if e is not None and k + e[1] > a: hit.append((k, e[1]))
        for k, m in hit:
            keep = [x for x in range(k, k + m) if x < a or x >= a + n]
            bs = [(x, self.byte(o, x)) for x in keep]
            if k in o.d and m == 8: del o.d[k]
            else: del o.s[k]
            for x, b in bs:
                if b is not None: o.s[x] = (b, 1)

    def memset(self, a, c, n):
        if n.__class__ is not int: n = self.concretize(n, 64)
        if n == 0: return
        if c.__class__ is not int: raise Unsupported("memset with a symbolic byte")
        c &= 255
        o = self.obj(a, n, "write")
        if self.traced: self.trace('w', a, n, o)
        if o.s or (o.d and (a & 7)): self.clear(o, a, n)
        pat = int.from_bytes(bytes([c]) * 8, 'little')
        e = a + n
        while a < e and (a & 7): o.s[a] = (c, 1); a += 1
        while a + 8 <= e: o.d[a] = pat; a += 8
        if a < e and o.d: self.clear(o, a, e - a)
        while a < e: o.s[a] = (c, 1); a += 1

    def memcpy(self, d, s, n, move=False):
        if n.__class__ is not int: n = self.concretize(n, 64)
        if n == 0: return
        if s.__class__ is I or d.__class__ is I:
            # element-wise with symbolic addresses
            if n % 8: raise Unsupported("symbolic memcpy of %d bytes" % n)
            ld, st = (self.tloadv, self.tstore) if self.traced else (self.load, self.store)
            vals = [ld(T.iop("add", s, 8 * k) if s.__class__ is I else s + 8 * k, 8) for k in range(n // 8)]
            for k, v in enumerate(vals): st(T.iop("add", d, 8 * k) if d.__class__ is I else d + 8 * k, v, 8)
            return
        so = self.obj(s, n, "read"); do = self.obj(d, n, "write")
        if self.traced:
            self.trace('r', s, n, so); self.trace('w', d, n, do)
        if do.const: raise MemError("write to a constant object")
        if not move and so is do and s != d and abs(s - d) < n:
            raise MemError("memcpy between overlapping ranges")
        if not (s & 7) and not (d & 7) and not (n & 7) and not so.s and not do.s:
            sd = so.d
            vals = [sd.get(k) for k in range(s, s + n, 8)]
            dd = do.d; k = d
            for v in vals:
                if v is None: dd.pop(k, None)
                else: dd[k] = v
                k += 8
            return
        ent = []
        k = s
        while k < s + n:
            v = so.d.get(k)
            if v is not None and k + 8 <= s + n: ent.append((k - s, v, 8)); k += 8; continue
            e = so.s.get(k)
            if e is not None and k + e[1] <= s + n: ent.append((k - s, e[0], e[1])); k += e[1]; continue
            b = self.byte(so, k)
            if b is not None: ent.append((k - s, b, 1))
            k += 1
        self.clear(do, d, n)
        for off, v, m in ent:
            a = d + off
            if m == 8 and not (a & 7): do.d[a] = v
            else: do.s[a] = (v, m)

    # symbolic addresses: split into constant object base + symbolic offset
    def sym_obj(self, a):
        c = 0
        if a.op == "add" and a.args[1].op == "c": c = a.args[1].args[0]
        o = self.O.get((c + (1 << 23)) >> SHIFT)
        return o
    def load_sym(self, a, n):
        o = self.sym_obj(a)
        if o is None: return self.load(self.concretize(a, 64), n)
        inb = T.band(T.icmp("ule", o.lo, a), T.icmp("ule", a, o.hi - n))
        if self.decide(inb) is False:
            raise MemError("read outside its object at a symbolic offset of a %d-byte object (%s)" % (o.hi - o.lo, o.kind))
        if n == 8 and not o.s and o.hi - o.lo <= 8 * 4096:
            vals = [(k, v) for k, v in sorted(o.d.items())]
            if vals and all(v.__class__ in (float, R) for k, v in vals) and len(vals) * 8 == o.hi - o.lo:
                if all(v is vals[0][1] for k, v in vals): return vals[0][1]
                r = vals[-1][1]
                for k, v in reversed(vals[:-1]):
                    r = T.rite(T.icmp("eq", a, k), v, r)
                return r
        return self.load(self.concretize(a, 64), n)
    def store_sym(self, a, v, n):
        o = self.sym_obj(a)
        if o is not None:
            inb = T.band(T.icmp("ule", o.lo, a), T.icmp("ule", a, o.hi - n))
            if self.decide(inb) is False:
                raise MemError("write outside its object at a symbolic offset of a %d-byte object (%s)" % (o.hi - o.lo, o.kind))
        self.store(self.concretize(a, 64), v, n)

    def cstr(self, p, limit=1 << 16):
        bs = []
        while True:
            b = self.load(p, 1)
            if b is UNDEF: raise UninitUse("string is not terminated")
            if b.__class__ is I:
                b = self.concretize(b, 8)
            if b == 0: return bytes(bs)
            bs.append(b); p += 1
    def bytes_(self, p, n):
        return [self.load(p + k, 1) for k in range(n)]

    # ------------------------------------------------------------ decisions
    def assume(self, c):
        if c.__class__ is not B:
            if not c: raise Infeasible()
            return
        if c.id in self.known:
            if not self.known[c.id]: raise Infeasible()
            return
        self.learn(c, True)
        self.assumed.append(c)

    def learn(self, c, val):
        self.known[c.id] = val
        n = T.bnot(c)
        if n.__class__ is B: self.known[n.id] = not val
        self.pc.append(c if val else n)

    def decide(self, c):
        if c.__class__ is not B: return bool(c)
        k = self.known.get(c.id)
        if k is not None: return k
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]; self.pos += 1
            self.decisions.append(val)
            self.learn(c, val)
            return val
        hook = getattr(self, "decide_hook", None)
        t = self.solver.feasible(self.pc + [c])
        f = self.solver.feasible(self.pc + [T.bnot(c)]) if t else True
        if t and f:
            if len(self.decisions) > self.config.get("max_decisions", 4000): raise Budget("too many decisions on a path")
            self.alts.append(list(self.decisions) + [False])
            self.decisions.append(True); self.pos += 1
            self.prefix.append(True)
            self.learn(c, True)
            return True
        val = bool(t)
        # implied: not a fork, but keep the fact
        self.decisions.append(val); self.prefix.append(val); self.pos += 1
        self.learn(c, val)
        return val

    def concretize(self, t, w):
        if t.__class__ is not I:
            if t is UNDEF: t._u()
            return int(t)
        for _ in range(100000):
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos], tuple):
                v = self.prefix[self.pos][1]
            else:
                v = self.solver.int_value(self.pc, t)
                if v is None: raise Infeasible()
                self.prefix.insert(self.pos, ("v", v))
            self.decisions.append(("v", v)); self.pos += 1
            if self.decide(T.icmp("eq", t, v)): return v
        raise Unsupported("too many values for a symbolic integer")

    # ------------------------------------------------------------ running
    def call(self, name, *args):
        return self.fn(name if name[0] == '@' else '@' + name)(*args)

    def run_ctors(self):
        g = self.mod.globals.get('@llvm.global_ctors')
        if g is None: return
        init = g[1]
        if init[0] != 'agg': return
        ct = []
        for t, e in init[1]:
            pr = e[1][0][1][1]; f = e[1][1][1]
            ct.append((pr, f[1]))
        for pr, f in sorted(ct, key=lambda x: x[0]):
            self.call(f)

    def fn(self, name):
        k = self.fkey(name)
        return self.ns[k]
    def fkey(self, name):
        if name in self.mod.aliases:
            tgt = self.mod.aliases[name]
            if tgt[0] == 'g': name = tgt[1]
        k = self.fkeys.get(name)
        if k is None:
            a = self.faddr.get(name)
            k = "f_%d" % ((a - FUNC0) // 16) if a is not None else "x_" + name[1:].encode().hex()
            self.fkeys[name] = k
            self.ns[k] = self._stub(name, k)
        return k

    def _stub(self, name, k):
        f = self.mod.funcs.get(name)
        mname = name[1:].strip('"')
        if mname in self.models:
            m = self.models[mname]
            def wrap(*a, m=m): return m(self, *a)
            return wrap
        if f is None or f.decl:
            def und(*a): raise Unsupported("call of the unmodelled external function %s" % mname)
            return und
        def stub(*a):
            fnc = self.compiled.get((name, self.traced))
            if fnc is None: fnc = self.compiled[name, self.traced] = self.compile(f)
            self.ns[k] = fnc
            self.executed[mname] = self.executed.get(mname, 0) + 1
            return fnc(*a)
        return stub

    def callptr(self, p):
        if p.__class__ is not int: p = self.concretize(p, 64)
        n = self.fptr.get(p)
        if n is None: raise MemError("call through a pointer to no function")
        return self.ns[self.fkey(n)]

    def enter(self, n):
        """frame of allocas: returns list to be released"""

    def alloca(self, size, fr):
        o = Obj(self.next_idx, size, 'stack', '')
        o.seq = 0
        self.next_idx += 1
        self.O[o.idx] = o
        fr.append(o.idx)
        return o.lo
    def leave(self, fr):
        O = self.O
        for i in fr: O.pop(i, None)

    def lifetime_start(self, p):
        o = self.O.get(p >> SHIFT) if p.__class__ is int else None
        if o is not None and p == o.lo and o.kind == 'stack':
            o.d = {}; o.s = {}

    def _setup_ns(self):
        m = self
        self.fkeys = {}
        O = self.O
        def ldd(a):       # slow path of a double load
            return b2d(m.load(a, 8))
        def ldq(a):
            v = m.load(a, 8)
            if v is UNDEF or v.__class__ is PartT: return v
            return d2b(v)
        def ldn(a, n, w):
            v = m.load(a, n)
            if w == 1 and v.__class__ is int: return v & 1
            return v
        def st8(a, v):
            try:
                o = O[a >> SHIFT]
                if not (a & 7) and o.lo <= a and a + 8 <= o.hi and not o.s and not o.const:
                    o.d[a] = v; return
            except (KeyError, TypeError):
                pass
            m.store(a, v, 8)
        def stn(a, v, n):
            if v.__class__ is bool: v = int(v)
            elif v.__class__ is B: v = T.izext(v, 1, 8 * n)
            m.store(a, v, n)
        def decide(c):
            if c.__class__ is I: c = T.bnot(T.icmp("eq", c, 0))
            return m.decide(c)
        def sel(c, a, b, kind, w):
            if c.__class__ is not B: return a if c else b
            k = m.known.get(c.id)
            if k is not None: return a if k else b
            if kind == 'd':
                if a is UNDEF or b is UNDEF or T._nonfin(a) or T._nonfin(b): return a if m.decide(c) else b
                return T.rite(c, a, b)
            if kind == 'b':
                return T.bor(T.band(c, a), T.band(T.bnot(c), b))
            if kind == 'i' and a.__class__ in (int, I) and b.__class__ in (int, I):
                return T.iite(c, a, b, w)
            return a if m.decide(c) else b
        def idiv(op, a, b, w):
            if b.__class__ is I:
                if m.decide(T.icmp("eq", b, 0)): raise MemError("integer division by zero")
            elif b == 0: raise MemError("integer division by zero")
            if a.__class__ is I or b.__class__ is I: return T.iop(op, a, b)
            return T._IFOLD[op](a, b, w) & ((1 << w) - 1)
        def landing(ex, clauses, cleanup):
            for c in clauses:
                if c == 0: return (ex.ptr, 1 if c == 0 else c)
                if c == ex.typ: return (ex.ptr, (c >> SHIFT) & 0x7fffffff)
            if cleanup: return (ex.ptr, 0)
            raise ex
        def resume(v, ex): raise ex
        def unreachable(fname): raise MemError("execution reached a point the compiler proved undefined, in " + fname)
        def gepi(base, idx, size, w):
            if idx.__class__ is not I:
                if idx is UNDEF: idx._u()
                idx = int(idx)
                if w < 64 and idx >> (w - 1): idx -= 1 << w
                return (base + idx * size) & M64
            if w < 64: idx = T.isext(idx, w, 64)
            return (base + idx * size) & M64
        def atomicrmw(op, a, v, n, kind):
            # pairs of atomic accesses do not race
            m.in_atomic = True
            try:
                old = m.load(a, n) if not m.traced else m.tload(a, n)
                if kind == 'd': old = b2d(old)
                elif old.__class__ in (float, R): old = d2b(old)
                w = 8 * n; M = (1 << w) - 1
                if op == 'fadd' or op == 'fsub': new = old + v if op == 'fadd' else old - v
                elif op == 'add': new = (old + v) & M
                elif op == 'sub': new = (old - v) & M
                elif op == 'xchg': new = v
                elif op == 'or': new = old | v
                elif op == 'and': new = old & v
                elif op == 'xor': new = old ^ v
                elif op in ('max', 'min'):
                    S = 1 << (w - 1); c = (old ^ S) < (v ^ S)
                    if c.__class__ is B: c = m.decide(c)
                    new = (v if c else old) if op == 'max' else (old if c else v)
                elif op in ('umax', 'umin'):
                    c = old < v
                    if c.__class__ is B: c = m.decide(c)
                    new = (v if c else old) if op == 'umax' else (old if c else v)
                else: raise Unsupported("atomicrmw " + op)
                if m.traced: m.tstore(a, new, n)
                else: m.store(a, new, n)
                return old
            finally:
                m.in_atomic = False
        def cmpxchg(a, c, v, n):
            m.in_atomic = True
            try:
                old = m.load(a, n) if not m.traced else m.tload(a, n)
                old = d2b(old)
                if old.__class__ is BitsOf:
                    eq = c.__class__ is BitsOf and c.t is old.t
                else:
                    eq = old == c
                    if eq.__class__ is B: eq = m.decide(eq)
                if eq:
                    if m.traced: m.tstore(a, v, n)
                    else: m.store(a, v, n)
                return (old, eq)
            finally:
                m.in_atomic = False
        self.in_atomic = False
        self.ns.update(dict(m=m, O=O, R=R, I=I, B=B, T=T, ldd=ldd, ldq=ldq, ldn=ldn, st8=st8, stn=stn, decide=decide,
            sel=sel, idiv=idiv, landing=landing, resume=resume, unreachable=unreachable, gepi=gepi, fdiv=fdiv, f32=f32, b2f=b2f,
            fcmp=fcmp, i2d=i2d, d2i=d2i, trunc_=trunc_, d2b=d2b, b2d=b2d, UNDEF=UNDEF, CppExc=CppExc, M64=M64,
            izext=T.izext, isext=T.isext, iop=T.iop, icmp=T.icmp, alloca=self.alloca, leave=self.leave, atomicrmw=atomicrmw,
            cmpxchg=cmpxchg, inf=math.inf, nan=math.nan, fmod=math.fmod, callptr=self.callptr, lifetime_start=self.lifetime_start,
            tldd=lambda a: b2d(m.tloadv(a, 8)), tldq=lambda a: d2b(m.tload(a, 8)), tldn=lambda a, n, w: m.tload(a, n) & 1 if w == 1 else m.tload(a, n),
            tst=lambda a, v, n: m.tstore(a, v, n)))

    # traced memory accesses (data-race analysis)
    def set_traced(self, on):
        if on != self.traced:
            self.traced = on
            for name, k in self.fkeys.items():
                self.ns[k] = self._stub(name, k)
    def tload(self, a, n):
        o = self.sym_obj(a) if a.__class__ is I else self.O.get(a >> SHIFT)
        self.trace('r', a, n, o)
        return self.load(a, n)
    def tloadv(self, a, n):
        """a load whose value may be any"""
        o = self.sym_obj(a) if a.__class__ is I else self.O.get(a >> SHIFT)
        self.trace('r', a, n, o)
        v = self.havoc_load(a, n, o)
        return self.load(a, n) if v is None else v
    def tstore(self, a, v, n):
        if v.__class__ is bool: v = int(v)
        elif v.__class__ is B: v = T.izext(v, 1, 8 * n)
        o = self.sym_obj(a) if a.__class__ is I else self.O.get(a >> SHIFT)
        self.trace('w', a, n, o)
        if a.__class__ is I and self.havoc_store(a, v, n, o): return
        self.store(a, v, n)
    def trace(self, kind, a, n, o): pass
    def havoc_load(self, a, n, o): return None
    def havoc_store(self, a, v, n, o): return False

    # ------------------------------------------------------------ code generation
    codes = {}       # (module text, function, traced) -> code, functions it calls: many machines run the same module
    def compile(self, f):
        c = self.codes.get((self.text, f.name, self.traced))
        if c is None:
            g = CodeGen(self, f); src = g.generate()
            if os.environ.get("VP_DUMP") and os.environ["VP_DUMP"] in f.name: print(src)
            c = self.codes[self.text, f.name, self.traced] = compile(src, f.name, 'exec'), sorted(g.callees)
        code, callees = c
        for n in callees: self.fkey(n)
        exec(code, self.ns)
        return self.ns.pop("_F_")

OPS = {'fadd': '+', 'fsub': '-', 'fmul': '*'}

class CodeGen:
    def __init__(self, mach, f):
        self.m = mach; self.f = f
        self.ty = mach.types
        self.names = {}; self.callees = set()
    def callee(self, n):
        self.callees.add(n); return self.m.fkey(n)
    def var(self, n):
        v = self.names.get(n)
        if v is None:
            v = self.names[n] = "v%d" % len(self.names)
        return v
    def val(self, v, ty):
        if v[0] == 'l': return self.var(v[1])
        c = self.m.const(v, ty)
        return self.lit(c)
    def lit(self, c):
        if c is UNDEF: return "UNDEF"
        if c.__class__ is float:
            if c != c: return "nan"
            if c in (math.inf, -math.inf): return "inf" if c > 0 else "(-inf)"
            return repr(c) if c >= 0 and not (c == 0 and math.copysign(1, c) < 0) else "(%r)" % c
        if c.__class__ is tuple:
            return "(" + "".join(self.lit(x) + "," for x in c) + ")"
        return repr(c)

    def generate(self):
        blocks = split_blocks(self.f)
        self.idx = {b[0]: i for i, b in enumerate(blocks)}
        self.blocks = blocks
        # parse terminators for the predecessor counts
        self.phis = []
        preds = {b[0]: 0 for b in blocks}
        self.hasalloca = False
        for lab, ins in blocks:
            ph = []
            for s in ins:
                if ' = phi ' in s: ph.append(s)
                if ' = alloca ' in s: self.hasalloca = True
            self.phis.append([self.parse_phi(s) for s in ph])
            for t in self.targets(ins[-1]): preds[t] += 1
        self.preds = preds
        entry = blocks[0][0]
        self.disp = {}
        # blocks that need a dispatch entry: the first, and those with several predecessors
        need = [b[0] for b in blocks if b[0] == entry or preds[b[0]] != 1]
        for n in need: self.disp[n] = len(self.disp)
        self.out = []
        params = ", ".join(self.var(nm) for _, nm in self.f.params)
        hdr = "def _F_(%s):" % (params + (", " if params and self.f.vararg else "") + ("*va" if self.f.vararg else ""))
        bodies = {}
        work = list(need); done = set()
        ind0 = 2 + (1 if self.hasalloca else 0)
        pieces = {}
        while work:
            b = work.pop(0)
            if b in done: continue
            done.add(b)
            self.out = []
            self.extra = []
            self.block(b, 0)
            pieces[b] = self.out
            for e in self.extra:
                if e not in self.disp: self.disp[e] = len(self.disp)
                work.append(e)
        # emit the dispatch tree
        order = sorted(self.disp, key=lambda x: self.disp[x])
        lines = [hdr]
        p = " "
        if self.hasalloca:
            lines.append(" fr = []"); lines.append(" try:"); p = "  "
        lines.append(p + "ex = None")
        if len(order) == 1 and preds[entry] == 0:
            lines += [p + l for l in pieces[entry]]
        else:
            lines.append(p + "b = 0")
            lines.append(p + "while True:")
            self.tree(lines, order, 0, len(order), p + " ", pieces)
        if self.hasalloca:
            lines.append(" finally:"); lines.append("  leave(fr)")
        return "\n".join(lines)

    def tree(self, lines, order, lo, hi, p, pieces):
        if hi - lo == 1:
            lines += [p + l for l in pieces[order[lo]]]
            return
        if hi - lo == 2:
            lines.append(p + "if b == %d:" % lo)
            lines += [p + " " + l for l in pieces[order[lo]]]
            lines.append(p + "else:")
            lines += [p + " " + l for l in pieces[order[lo + 1]]]
            return
        mid = (lo + hi) // 2
        lines.append(p + "if b < %d:" % mid)
        self.tree(lines, order, lo, mid, p + " ", pieces)
        lines.append(p + "else:")
        self.tree(lines, order, mid, hi, p + " ", pieces)

    def targets(self, s):
        return re.findall(r'label (%(?:"[^"]*"|[-\w.$]+))', s)

    def parse_phi(self, s):
        m = re.match(r'(%\S+) = phi (.*)$', s)
        p = Parser(tokenize(m.group(2)), self.ty)
        p.attrs()
        ty = p.type()
        arms = {}
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); l = p.next()[1]; p.expect(']')
            arms[l] = v
            if not p.accept(','): break
        return (m.group(1), ty, arms)

    def emit(self, d, s): self.out.append(" " * d + s)

    def edge(self, src, dst, d):
        ph = self.phis[self.idx[dst]]
        if ph:
            asg = []
            for nm, ty, arms in ph:
                v = self.val(arms[src], ty)
                n = self.var(nm)
                if n != v: asg.append((n, v))
            if asg:
                self.emit(d, ", ".join(a for a, _ in asg) + " = " + ", ".join(b for _, b in asg))
        if dst not in self.disp and d < 40:
            self.block(dst, d)
        else:
            if dst not in self.disp:
                self.disp[dst] = len(self.disp)
            self.extra.append(dst)
            self.emit(d, "b = %d" % self.disp[dst])
            self.emit(d, "continue")

    def block(self, lab, d):
        ins = self.blocks[self.idx[lab]][1]
        for s in ins[:-1]: self.instr(s, d, lab)
        self.term(ins[-1], d, lab)

    def term(self, s, d, lab):
        if s.startswith('ret '):
            if s == 'ret void': self.emit(d, "return None"); return
            p = Parser(tokenize(s), self.ty); p.next()
            t = p.type(); self.emit(d, "return " + self.val(p.value(t), t)); return
        if s.startswith('br label'):
            self.edge(lab, self.targets(s)[0], d); return
        if s.startswith('br '):
            m = re.match(r'br i1 (.*), label (%(?:"[^"]*"|[-\w.$]+)), label (%(?:"[^"]*"|[-\w.$]+))$', s)
            p = Parser(tokenize(m.group(1)), self.ty)
            c = self.val(p.value(('i', 1)), ('i', 1))
            if m.group(2) == m.group(3): self.edge(lab, m.group(2), d); return
            if c in ("True", "False"):
                self.edge(lab, m.group(2) if c == "True" else m.group(3), d); return
            self.emit(d, "if (%s if %s.__class__ is bool else decide(%s)):" % (c, c, c))
            self.edge(lab, m.group(2), d + 1)
            self.emit(d, "else:")
            self.edge(lab, m.group(3), d + 1)
            return
        if s.startswith('switch '):
            m = re.match(r'switch (i\d+) (\S+), label (%(?:"[^"]*"|[-\w.$]+)) \[(.*)\]', s)
            w = int(m.group(1)[1:])
            p = Parser(tokenize(m.group(2)), self.ty)
            v = self.val(p.value(('i', w)), ('i', w))
            first = True
            for cm in re.finditer(r'i\d+ (-?\d+), label (%(?:"[^"]*"|[-\w.$]+))', m.group(4)):
                c = int(cm.group(1)) & ((1 << w) - 1)
                self.emit(d, ("if" if first else "elif") + " decide(%s == %d):" % (v, c)); first = False
                self.edge(lab, cm.group(2), d + 1)
            if first: self.edge(lab, m.group(3), d)
            else:
                self.emit(d, "else:"); self.edge(lab, m.group(3), d + 1)
            return
        if s == 'unreachable':
            self.emit(d, "unreachable(%r)" % self.f.name); return
        if s.startswith('resume '):
            self.emit(d, "raise ex"); return
        if 'invoke ' in s:
            m = re.match(r'(?:(%\S+) = )?(invoke .*) to label (%(?:"[^"]*"|[-\w.$]+)) unwind label (%(?:"[^"]*"|[-\w.$]+))$', s)
            dst, code = self.callexpr(m.group(2)[7:])
            self.emit(d, "ex = None")
            self.emit(d, "try:")
            self.emit(d + 1, ("%s = " % self.var(m.group(1)) if m.group(1) else "") + code)
            self.emit(d, "except CppExc as e_:")
            self.emit(d + 1, "ex = e_")
            self.emit(d, "if ex is None:")
            self.edge(lab, m.group(3), d + 1)
            self.emit(d, "else:")
            self.edge(lab, m.group(4), d + 1)
            return
        raise Unsupported("terminator " + s)

    def callexpr(self, s):
        """text after call/invoke -> (return type, python expression)"""
        p = Parser(tokenize(s), self.ty)
        p.attrs()
        rt = p.type(); p.attrs()
        k, callee = p.next()
        if k == 'w' and callee == 'asm': raise Unsupported("inline assembly")
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t == 'md':
                    while p.peek()[1] not in (',', ')'): p.next()
                    args.append((t, "None"))
                else:
                    args.append((t, self.val(p.value(t), t)))
                if p.accept(')'): break
                p.expect(',')
        av = [a for _, a in args]
        if k == 'gv':
            n = callee[1:].strip('"')
            if n.startswith('llvm.'): return rt, self.intrinsic(n, args, rt)
            return rt, "%s(%s)" % (self.callee(callee), ", ".join(av))
        return rt, "callptr(%s)(%s)" % (self.var(callee), ", ".join(av))

    def intrinsic(self, n, args, rt):
        a = [x for _, x in args]
        if n.startswith(('llvm.lifetime.end', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.stackrestore')): return "None"
        if n.startswith('llvm.lifetime.start'): return "lifetime_start(%s)" % a[1]
        if n.startswith('llvm.stacksave'): return "0"
        if n.startswith('llvm.memcpy'): return "m.memcpy(%s, %s, %s)" % (a[0], a[1], a[2])
        if n.startswith('llvm.memmove'): return "m.memcpy(%s, %s, %s, True)" % (a[0], a[1], a[2])
        if n.startswith('llvm.memset'): return "m.memset(%s, %s, %s)" % (a[0], a[1], a[2])
        if n.startswith('llvm.expect'): return a[0]
        if n.startswith('llvm.trap'): return "unreachable(%r)" % self.f.name
        if n.startswith('llvm.threadlocal.address'): return a[0]
        if n.startswith('llvm.eh.typeid.for'): return "((%s >> 36) & 0x7fffffff)" % a[0]
        if n.startswith('llvm.launder') or n.startswith('llvm.strip'): return a[0]
        mm = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)$', n)
        if mm:
            w = int(mm.group(2))
            return "m.minmax(%r, %s, %s, %d)" % (mm.group(1), a[0], a[1], w)
        mm = re.match(r'llvm\.abs\.i(\d+)$', n)
        if mm: return "m.iabs(%s, %d)" % (a[0], int(mm.group(1)))
        mm = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if mm: return "m.ovf(%r, %r, %s, %s, %d)" % (mm.group(1), mm.group(2), a[0], a[1], int(mm.group(3)))
        mm = re.match(r'llvm\.(usub|uadd)\.sat\.i(\d+)$', n)
        if mm: return "m.sat(%r, %s, %s, %d)" % (mm.group(1), a[0], a[1], int(mm.group(2)))
        mm = re.match(r'llvm\.fsh[lr]\.i(\d+)$', n)
        if mm: return "m.fsh(%r, %s, %s, %s, %d)" % (n[5:9], a[0], a[1], a[2], int(mm.group(1)))
        mm = re.match(r'llvm\.(ctlz|cttz|ctpop)\.i(\d+)$', n)
        if mm: return "m.bits(%r, %s, %d)" % (mm.group(1), a[0], int(mm.group(2)))
        mm = re.match(r'llvm\.(fabs|sqrt|exp|log|cos|sin|pow|floor|ceil|rint|nearbyint|round|trunc|fma|minnum|maxnum|copysign|exp2|log10|log2|powi)\.f64(?:\.i32)?$', n)
        if mm:
            return "%s(%s)" % (self.callee('@' + {'minnum': 'fmin', 'maxnum': 'fmax'}.get(mm.group(1), mm.group(1))), ", ".join(a))
        if n.startswith('llvm.fmuladd.f64'): return "(%s*%s+%s)" % tuple(a)
        if n.startswith('llvm.is.constant'): return "False"
        if n.startswith('llvm.objectsize'): return repr(M64)
        return "m.unsup(%r)" % n

    def instr(self, s, d, lab):
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', s)
        if m: dst, body = self.var(m.group(1)), m.group(2)
        else: dst, body = None, s
        op = body.split(None, 1)[0]
        tr = self.m.traced
        if op == 'phi': return
        if op in ('tail', 'musttail', 'notail'):
            op = 'call'; body = body.split(None, 1)[1]
        if op == 'call':
            rt, code = self.callexpr(body[5:])
            if code in ("None", "0") and dst is None: return
            self.emit(d, ("%s = " % dst if dst else "") + code); return
        rest = body[len(op) + 1:]
        if op == 'landingpad':
            p = Parser(tokenize(rest), self.ty); p.type()
            cl = []; cleanup = False
            while p.i < len(p.t):
                if p.accept('cleanup'): cleanup = True
                elif p.accept('catch'):
                    t = p.type(); cl.append(self.m.const(p.value(t), t))
                else: raise Unsupported("landingpad " + rest)
            self.emit(d, "%s = landing(ex, %r, %r)" % (dst, cl, cleanup)); return
        p = Parser(tokenize(rest), self.ty)
        p.attrs()
        if op in ('load', 'store'):
            if p.accept('atomic') and tr:
                # atomic accesses do not race with each other
                self.emit(d, "m.in_atomic = True")
                self.instr1(p, s, dst, op, d, tr)
                self.emit(d, "m.in_atomic = False")
                return
            return self.instr1(p, s, dst, op, d, tr)
        return self.instr2(p, s, dst, op, d, lab, body, rest, tr)
    def instr1(self, p, s, dst, op, d, tr):
        p.accept('volatile')
        if op == 'load':
            t = p.type(); p.expect(','); p.type(); a = self.val(p.value('ptr'), 'ptr')
            t = self.ty.resolve(t)
            if t == 'double':
                if tr: self.emit(d, "%s = tldd(%s)" % (dst, a))
                else:
                    self.emit(d, "try:")
                    self.emit(d + 1, "%s = O[%s >> 36].d[%s]" % (dst, a, a))
                    self.emit(d, "except (KeyError, TypeError): %s = ldd(%s)" % (dst, a))
                    self.emit(d, "if %s.__class__ is not float: %s = b2d(%s)" % (dst, dst, dst))
            elif t == 'float':
                self.emit(d, "%s = b2f(m.load(%s, 4))" % (dst, a))
            elif t == 'ptr' or t == ('i', 64):
                if tr: self.emit(d, "%s = tldq(%s)" % (dst, a))
                else:
                    self.emit(d, "try:")
                    self.emit(d + 1, "%s = O[%s >> 36].d[%s]" % (dst, a, a))
                    self.emit(d, "except (KeyError, TypeError): %s = ldq(%s)" % (dst, a))
                    self.emit(d, "if %s.__class__ is not int: %s = d2b(%s)" % (dst, dst, dst))
            elif t[0] == 'i' and t[1] <= 128:
                self.emit(d, "%s = %sldn(%s, %d, %d)" % (dst, "t" if tr else "", a, self.ty.size(t), t[1]))
            elif t[0] == 's':
                offs = self.ty.offsets(t); ps = []
                for o, et in zip(offs, t[1]):
                    et = self.ty.resolve(et)
                    f = "ldd(%s + %d)" if et == 'double' else "ldq(%s + %d)" if self.ty.size(et) == 8 else "ldn(%%s + %%d, %d, %d)" % (self.ty.size(et), et[1])
                    ps.append(("t" if tr else "") + f % (a, o))
                self.emit(d, "%s = (%s,)" % (dst, ", ".join(ps)))
            else: self.emit(d, "m.unsup(%r)" % s)
            return
        if op == 'store':
            t = p.type(); v = self.val(p.value(t), t); p.expect(','); p.type(); a = self.val(p.value('ptr'), 'ptr')
            t = self.ty.resolve(t)
            if t[0] == 's':
                for k, (o, et) in enumerate(zip(self.ty.offsets(t), t[1])):
                    self.emit(d, "%sst%s(%s + %d, %s[%d], %d)" % ("t" if tr else "", "" if tr else "n", a, o, v, k, self.ty.size(et)))
                return
            n = self.ty.size(t)
            if tr: self.emit(d, "tst(%s, %s, %d)" % (a, v, n))
            elif n == 8 and t != ('i', 1): self.emit(d, "st8(%s, %s)" % (a, v))
            else: self.emit(d, "stn(%s, %s, %d)" % (a, v, n))
    def instr2(self, p, s, dst, op, d, lab, body, rest, tr):
        if op == 'getelementptr':
            t = p.type(); p.expect(','); p.type(); base = self.val(p.value('ptr'), 'ptr')
            off = 0; dyn = []
            first = True; ct = t
            while p.accept(','):
                it = p.type(); iv = p.value(it)
                if first: es = self.ty.size(ct); first = False; isstruct = False
                else:
                    ct = self.ty.resolve(ct)
                    if ct[0] == 's':
                        k = iv[1]; off += self.ty.offsets(ct)[k]; ct = ct[1][k]; continue
                    ct = ct[2]; es = self.ty.size(ct)
                if iv[0] == 'k': off += sgn(iv[1], it[1]) * es
                else: dyn.append((self.val(iv, it), es, it[1]))
            if not dyn:
                if off == 0: self.emit(d, "%s = %s" % (dst, base))
                else: self.emit(d, "%s = %s + %d" % (dst, base, off) if off > 0 else "%s = (%s + %d) & M64" % (dst, base, off))
            else:
                e = base
                if off: e = "(%s + %d)" % (e, off)
                for v, es, w in dyn:
                    if w == 64: e = "((%s + %s*%d) & M64)" % (e, v, es)
                    else: e = "gepi(%s, %s, %d, %d)" % (e, v, es, w)
                self.emit(d, "%s = %s" % (dst, e))
            return
        if op == 'alloca':
            t = p.type(); n = "1"
            if p.accept(','):
                if p.peek()[1] != 'align':
                    it = p.type(); n = self.val(p.value(it), it)
            self.emit(d, "%s = alloca(%d*%s, fr)" % (dst, self.ty.size(t), n)); return
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            while op == 'fcmp' and pred in SKIPATTR: pred = p.next()[1]
            t = p.type(); a = self.val(p.value(t), t); p.expect(','); b = self.val(p.value(t), t)
            if op == 'fcmp':
                self.emit(d, "%s = fcmp(%r, %s, %s)" % (dst, pred, a, b)); return
            t = self.ty.resolve(t)
            w = 64 if t == 'ptr' else t[1]
            o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
            if pred[0] == 's':
                S = 1 << (w - 1)
                a = str(int(a) ^ S) if re.match(r'\d+$', a) else "(%s ^ %d)" % (a, S)
                b = str(int(b) ^ S) if re.match(r'\d+$', b) else "(%s ^ %d)" % (b, S)
            self.emit(d, "%s = %s %s %s" % (dst, a, o, b)); return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = p.type(); a = self.val(p.value(t), t); p.expect(','); b = self.val(p.value(t), t)
            if t not in ('double', 'float'): self.emit(d, "m.unsup(%r)" % s); return
            if op == 'fdiv': self.emit(d, "%s = fdiv(%s, %s)" % (dst, a, b))
            elif op == 'frem': self.emit(d, "%s = fmod(%s, %s)" % (dst, a, b))
            else: self.emit(d, "%s = %s %s %s" % (dst, a, OPS[op], b))
            if t == 'float': self.emit(d, "%s = f32(%s)" % (dst, dst))
            return
        if op == 'fneg':
            t = p.type(); self.emit(d, "%s = -%s" % (dst, self.val(p.value(t), t))); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            t = p.type(); a = self.val(p.value(t), t); p.expect(','); b = self.val(p.value(t), t)
            w = t[1]; M = (1 << w) - 1
            if op in ('add', 'sub', 'mul'):
                if w == 1: e = "(%s %s %s)" % (a, {'add': '^', 'sub': '^', 'mul': '&'}[op], b)
                else: e = "(%s %s %s) & %d" % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, M)
            elif op in ('and', 'or', 'xor'): e = "%s %s %s" % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
            elif op == 'shl': e = "(%s << %s) & %d" % (a, b, M)
            elif op == 'lshr': e = "%s >> %s" % (a, b)
            elif op == 'ashr': e = "m.ashr(%s, %s, %d)" % (a, b, w)
            else: e = "idiv(%r, %s, %s, %d)" % (op, a, b, w)
            self.emit(d, "%s = %s" % (dst, e)); return
        if op in ('trunc', 'zext', 'sext', 'uitofp', 'sitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'addrspacecast'):
            t = p.type(); a = self.val(p.value(t), t); p.expect('to'); t2 = self.ty.resolve(p.type())
            t = self.ty.resolve(t)
            if op == 'trunc': e = "trunc_(%s, %d, %d)" % (a, t[1], t2[1])
            elif op == 'zext': e = "izext(%s, %d, %d)" % (a, t[1], t2[1])
            elif op == 'sext': e = "isext(%s, %d, %d)" % (a, t[1], t2[1])
            elif op in ('uitofp', 'sitofp') and t2 == 'double': e = "i2d(%s, %d, %r)" % (a, t[1], op == 'sitofp')
            elif op in ('uitofp', 'sitofp') and t2 == 'float': e = "f32(i2d(%s, %d, %r))" % (a, t[1], op == 'sitofp')
            elif op == 'fptrunc' and t == 'double' and t2 == 'float': e = "f32(%s)" % a
            elif op == 'fpext' and t == 'float' and t2 == 'double': e = a
            elif op in ('fptosi', 'fptoui') and t in ('double', 'float'): e = "d2i(%s, %d, %r)" % (a, t2[1], op == 'fptosi')
            elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'): e = a
            elif op == 'bitcast':
                if t == t2: e = a
                elif t == 'double' and t2 == ('i', 64): e = "d2b(%s)" % a
                elif t2 == 'double' and t == ('i', 64): e = "b2d(%s)" % a
                else: e = "m.unsup(%r)" % s
            else: e = "m.unsup(%r)" % s
            self.emit(d, "%s = %s" % (dst, e)); return
        if op == 'select':
            p.type(); c = self.val(p.value(('i', 1)), ('i', 1)); p.expect(',')
            t = p.type(); a = self.val(p.value(t), t); p.expect(','); p.type(); b = self.val(p.value(t), t)
            t = self.ty.resolve(t)
            kind = 'd' if t in ('double', 'float') else 'b' if t == ('i', 1) else 'i' if t[0] == 'i' else 'p'
            w = t[1] if kind in 'ib' else 64
            self.emit(d, "%s = (%s if %s else %s) if %s.__class__ is bool else sel(%s, %s, %s, %r, %d)" % (dst, a, c, b, c, c, a, b, kind, w)); return
        if op == 'freeze':
            t = p.type(); self.emit(d, "%s = %s" % (dst, self.val(p.value(t), t))); return
        if op == 'extractvalue':
            t = p.type(); v = self.val(p.value(t), t)
            while p.accept(','): v = "%s[%s]" % (v, p.next()[1])
            self.emit(d, "%s = %s" % (dst, v)); return
        if op == 'insertvalue':
            t = p.type(); v = self.val(p.value(t), t); p.expect(','); et = p.type(); e = self.val(p.value(et), et); p.expect(',')
            k = int(p.next()[1])
            self.emit(d, "%s = %s[:%d] + (%s,) + %s[%d:]" % (dst, v, k, e, v, k + 1)); return
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()[1]; p.type(); a = self.val(p.value('ptr'), 'ptr'); p.expect(','); t = p.type(); v = self.val(p.value(t), t)
            self.emit(d, "%satomicrmw(%r, %s, %s, %d, %r)" % ("%s = " % dst if dst else "", o, a, v, self.ty.size(t), 'd' if t == 'double' else 'i')); return
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile')
            p.type(); a = self.val(p.value('ptr'), 'ptr'); p.expect(','); t = p.type(); c = self.val(p.value(t), t); p.expect(','); p.type(); v = self.val(p.value(t), t)
            self.emit(d, "%s = cmpxchg(%s, %s, %s, %d)" % (dst, a, c, v, self.ty.size(t))); return
        if op == 'fence': return
        self.emit(d, "m.unsup(%r)" % s)

# helpers reached from generated code
def _minmax(self, op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if op[0] == 'u': return (min if op == 'umin' else max)(a, b)
        sa, sb = sgn(a, w), sgn(b, w)
        return (a if sa <= sb else b) if op == 'smin' else (a if sa >= sb else b)
    if op[0] == 'u': c = T.icmp("ult", a, b)
    else:
        S = 1 << (w - 1)
        c = T.icmp("ult", T.iop("xor", T.iconst(a, w), S) if a.__class__ is I else a ^ S, T.iop("xor", b, S) if b.__class__ is I else b ^ S)
    if c.__class__ is not B: c = bool(c)
    return T.iite(c, a, b, w) if op[1:] == 'min' else T.iite(c, b, a, w)
def _iabs(self, a, w):
    if a.__class__ is int: return abs(sgn(a, w)) & ((1 << w) - 1)
    neg = T.icmp("ule", 1 << (w - 1), a)
    return T.iite(neg, T.iop("sub", 0, a), a, w)
def _ovf(self, s, op, a, b, w):
    M = (1 << w) - 1
    if a.__class__ is I or b.__class__ is I:
        # widen
        ext = T.izext if s == 'u' else T.isext
        A = ext(a, w, 2 * w); Bv = ext(b, w, 2 * w)
        r = T.iop(op, A if A.__class__ is I else T.iconst(A, 2 * w), Bv)
        lo = T.itrunc(r, 2 * w, w)
        return (lo, T.bnot(T.icmp("eq", ext(lo, w, 2 * w), r)))
    x, y = (a, b) if s == 'u' else (sgn(a, w), sgn(b, w))
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    ok = 0 <= r <= M if s == 'u' else -(1 << (w - 1)) <= r < (1 << (w - 1))
    return (r & M, not ok)
def _sat(self, op, a, b, w):
    M = (1 << w) - 1
    if op == 'usub':
        if a.__class__ is int and b.__class__ is int: return max(0, a - b)
        return T.iite(T.icmp("ult", a, b), 0, T.iop("sub", a, b), w)
    if a.__class__ is int and b.__class__ is int: return min(M, a + b)
    raise Unsupported("uadd.sat")
def _fsh(self, op, a, b, c, w):
    c = c % w
    v = (a << w) | b
    return ((v << c) >> w if op == 'fshl' else v >> c) & ((1 << w) - 1)
def _bits(self, op, a, w):
    if a.__class__ is not int: raise Unsupported(op)
    if op == 'ctpop': return bin(a).count('1')
    if op == 'ctlz': return w - a.bit_length()
    return w if a == 0 else (a & -a).bit_length() - 1
def _ashr(self, a, b, w):
    if a.__class__ is int and b.__class__ is int: return (sgn(a, w) >> b) & ((1 << w) - 1)
    return T.iop("ashr", a, b)
def _unsup(self, what): raise Unsupported(what)
Machine.minmax = _minmax; Machine.iabs = _iabs; Machine.ovf = _ovf; Machine.sat = _sat; Machine.fsh = _fsh
Machine.bits = _bits; Machine.ashr = _ashr; Machine.unsup = _unsup
