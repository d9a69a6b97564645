"""Models of the environment: libm, allocation, C strings, exceptions, OpenMP,
FFTW, streams and files.  (SHTns is in shtmodel.py.)"""
import math, struct, re
from fractions import Fraction
import terms as T
from terms import R, I, B, Unsupported, NonFinite
from llexec import (MemError, UninitUse, CppExc, ProgExit, Infeasible, UNDEF, BitsOf, d2b, b2d, sgn, M64, SHIFT)

MODELS = {}
def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco

# ---------------------------------------------------------------- libm
def issym(x):
    if x is UNDEF: x._u()
    return x.__class__ is R
def cval(x):
    return float(x.args[0]) if x.op == "c" else None

def ipow(x, n):
    r = None; b = x
    while n:
        if n & 1: r = b if r is None else r * b
        n >>= 1
        if n: b = b * b
    return 1.0 if r is None else r

@model("pow")
def m_pow(m, x, y):
    if not issym(x) and not issym(y):
        try: return math.pow(x, y)
        except OverflowError: return math.inf
        except ValueError: return math.inf if x == 0 else math.nan
    if issym(y):
        if y.op == "c": y = float(y.args[0])
        else:
            if x.__class__ is float and x == 10.0: return T.rfn("exp", T.rlin([math.log(10.0)], [y]))
            return T.rfn("pow", x, y)
    if y != y or abs(y) == math.inf: raise Unsupported("pow(symbolic, %r)" % y)
    if y == int(y) and abs(y) <= 200:
        n = int(y)
        if n == 0: return 1.0
        if n > 0: return ipow(x, n)
        return T.rdiv(1.0, ipow(x, -n))
    if 2 * y == int(2 * y) and abs(y) < 100:
        k = int(2 * y)
        s = m_sqrt(m, x)
        return ipow(s, k) if k > 0 else T.rdiv(1.0, ipow(s, -k))
    if abs(3 * y - round(3 * y)) < 1e-15: return T.rfn("pow", x, y)
    return T.rfn("pow", x, y)

@model("sqrt")
def m_sqrt(m, x):
    if issym(x): return T.rfn("sqrt", x)
    return math.sqrt(x) if x >= 0 else math.nan
@model("exp")
def m_exp(m, x):
    if issym(x): return T.rfn("exp", x)
    try: return math.exp(x)
    except OverflowError: return math.inf
@model("log")
def m_log(m, x):
    if issym(x): return T.rfn("log", x)
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
@model("log10")
def m_log10(m, x):
    if issym(x): return T.rfn("log", x) / math.log(10.0)
    return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)
@model("log2")
def m_log2(m, x):
    if issym(x): return T.rfn("log", x) / math.log(2.0)
    return math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan)
@model("fabs", "abs_d")
def m_fabs(m, x):
    if issym(x):
        if x.op == "fn" and x.args[0] in ("abs", "exp", "sqrt"): return x
        if x.op == "neg": return m_fabs(m, x.args[0])
        return T.rfn("abs", x)
    return abs(x)
def trig(name, f):
    def g(m, x):
        if issym(x): return T.rfn(name, x)
        try: return f(x)
        except ValueError: return math.nan
        except OverflowError: return math.inf
    MODELS[name] = g
for _n, _f in dict(tan=math.tan, asin=math.asin, atan=math.atan, sinh=math.sinh, cosh=math.cosh, tanh=math.tanh).items(): trig(_n, _f)
@model("acos")
def m_acos(m, x):
    if issym(x):
        if x.op == "fn" and x.args[0] == "cos": pass
        return T.rfn("acos", x)
    return math.acos(x) if -1 <= x <= 1 else math.nan
def _acosarg(x):
    # x = c*acos(y), c = 1
    if x.op == "fn" and x.args[0] == "acos": return x.args[1]
    return None
@model("cos")
def m_cos(m, x):
    if issym(x):
        y = _acosarg(x)
        return y if y is not None else T.rfn("cos", x)
    return math.cos(x)
@model("sin")
def m_sin(m, x):
    if issym(x):
        y = _acosarg(x)
        return T.rfn("sqrt", 1.0 - y * y) if y is not None else T.rfn("sin", x)
    return math.sin(x)
@model("atan2")
def m_atan2(m, y, x):
    if issym(x) or issym(y): return T.rfn("atan2", y, x)
    return math.atan2(y, x)
@model("hypot")
def m_hypot(m, x, y):
    if issym(x) or issym(y): return T.rfn("sqrt", x * x + y * y)
    return math.hypot(x, y)
@model("cbrt")
def m_cbrt(m, x):
    if issym(x): return T.rfn("cbrt", x)
    return math.copysign(abs(x) ** (1 / 3), x)
@model("floor")
def m_floor(m, x):
    if issym(x): return T.rfn("floor", x)
    return float(math.floor(x)) if math.isfinite(x) else x
@model("ceil")
def m_ceil(m, x):
    if issym(x): return -T.rfn("floor", -x)
    return float(math.ceil(x)) if math.isfinite(x) else x
@model("round")
def m_round(m, x):
    if issym(x): raise Unsupported("round of a symbolic value")
    return math.copysign(math.floor(abs(x) + 0.5), x)
@model("fmod")
def m_fmod(m, x, y):
    if issym(x) or issym(y): raise Unsupported("fmod")
    return math.fmod(x, y)
@model("fma")
def m_fma(m, x, y, z): return x * y + z
@model("fmin")
def m_fmin(m, x, y):
    if issym(x) or issym(y): return T.rite(x < y, x, y)
    return min(x, y)
@model("fmax")
def m_fmax(m, x, y):
    if issym(x) or issym(y): return T.rite(x < y, y, x)
    return max(x, y)
@model("copysign")
def m_copysign(m, x, y):
    if issym(x) or issym(y): raise Unsupported("copysign")
    return math.copysign(x, y)
@model("__muldc3")
def m_muldc3(m, a, b, c, d): return (a * c - b * d, a * d + b * c)
@model("__divdc3")
def m_divdc3(m, a, b, c, d):
    from llexec import fdiv
    q = c * c + d * d
    return (fdiv(a * c + b * d, q), fdiv(b * c - a * d, q))
@model("cabs")
def m_cabs(m, a, b): return m_hypot(m, a, b)
@model("cexp")
def m_cexp(m, a, b):
    e = m_exp(m, a)
    return (e * m_cos(m, b), e * m_sin(m, b))
@model("carg")
def m_carg(m, a, b): return m_atan2(m, b, a)
@model("_ZSt4fabsd")
def m_stdfabs(m, x): return m_fabs(m, x)
@model("abs", "labs", "llabs")
def m_abs(m, x):
    return m.iabs(x, 64)

# ---------------------------------------------------------------- allocation
@model("_Znwm")
def m_new(m, n): return m.alloc(n, "new")
@model("_Znam")
def m_newa(m, n): return m.alloc(n, "new[]")
@model("_ZdlPv")
def m_del(m, p): m.free(p, ("new",))
@model("_ZdlPvm")
def m_dels(m, p, n): m.free(p, ("new",))
@model("_ZdaPv", "_ZdaPvm")
def m_dela(m, p, n=0): m.free(p, ("new[]",))
@model("malloc")
def m_malloc(m, n): return m.alloc(n, "malloc")
@model("aligned_alloc")
def m_aligned(m, al, n): return m.alloc(n, "malloc")
@model("calloc")
def m_calloc(m, a, b):
    p = m.alloc(a * b, "malloc"); m.memset(p, 0, a * b); return p
@model("realloc")
def m_realloc(m, p, n):
    q = m.alloc(n, "malloc")
    if p:
        o = m.obj(p, 0, "realloc")
        m.memcpy(q, p, min(n, o.hi - o.lo)); m.free(p, ("malloc",))
    return q
@model("free")
def m_free(m, p): m.free(p, ("malloc",))
@model("fftw_malloc")
def m_fmalloc(m, n): return m.alloc(n, "fftw_malloc")
@model("fftw_alloc_real")
def m_fallocr(m, n): return m.alloc(8 * n, "fftw_malloc")
@model("fftw_alloc_complex")
def m_fallocc(m, n): return m.alloc(16 * n, "fftw_malloc")
@model("fftw_free")
def m_ffree(m, p): m.free(p, ("fftw_malloc",))
@model("shtns_malloc")
def m_smalloc(m, n): return m.alloc(n, "shtns_malloc")
@model("shtns_free")
def m_sfree(m, p): m.free(p, ("shtns_malloc",))

# ---------------------------------------------------------------- C strings
@model("memcpy")
def m_memcpy(m, d, s, n): m.memcpy(d, s, n); return d
@model("memmove")
def m_memmove(m, d, s, n): m.memcpy(d, s, n, True); return d
@model("memset")
def m_memset(m, d, c, n): m.memset(d, c, n); return d
@model("strlen")
def m_strlen(m, p): return len(m.cstr(p))
@model("memcmp", "bcmp")
def m_memcmp(m, a, b, n):
    if n.__class__ is not int: n = m.concretize(n, 64)
    for k in range(n):
        x = m.load(a + k, 1); y = m.load(b + k, 1)
        if x is UNDEF or y is UNDEF: raise UninitUse("memcmp of uninitialised bytes")
        e = T.icmp("eq", x, y) if x.__class__ is I or y.__class__ is I else x == y
        if e.__class__ is B: e = m.decide(e)
        if not e:
            lt = T.icmp("ult", x, y) if x.__class__ is I or y.__class__ is I else x < y
            if lt.__class__ is B: lt = m.decide(lt)
            return 0xffffffff if lt else 1
    return 0
@model("strcmp")
def m_strcmp(m, a, b):
    x = m.cstr(a); y = m.cstr(b)
    return 0 if x == y else (0xffffffff if x < y else 1)
@model("strncmp")
def m_strncmp(m, a, b, n):
    x = m.cstr(a)[:n]; y = m.cstr(b)[:n]
    return 0 if x == y else (0xffffffff if x < y else 1)
@model("memchr")
def m_memchr(m, p, c, n):
    for k in range(n):
        x = m.load(p + k, 1)
        e = (x == (c & 255)) if x.__class__ is int else T.icmp("eq", x, c & 255)
        if m.decide(e): return p + k
    return 0
@model("isspace")
def m_isspace(m, c):
    if c.__class__ is int: return 1 if c in (32, 9, 10, 11, 12, 13) else 0
    return T.izext(T.bor(T.icmp("eq", c, 32), T.band(T.icmp("ule", 9, c), T.icmp("ule", c, 13))), 1, 32)
@model("__errno_location")
def m_errno(m):
    p = m.extra.get("errno")
    if p is None:
        p = m.extra["errno"] = m.alloc(4, "static", "errno"); m.store(p, 0, 4)
    return p

def numtext(m, p):
    """the text at p up to something that cannot belong to a number; symbolic bytes are classified (digit / sign / ... / other)
    by case distinction.  Returns (bytes with digits replaced by '0' where symbolic, {position: byte term})"""
    out = bytearray(); sym = {}; other = 0
    while True:
        b = m.load(p + len(out), 1)
        if b is UNDEF: raise UninitUse("string is not terminated")
        if b.__class__ is I:
            k = len(out)
            if m.decide(T.band(T.icmp("ule", 48, b), T.icmp("ule", b, 57))): sym[k] = b; b = 48
            else:
                for c in b" .+-eE":
                    if m.decide(T.icmp("eq", b, c)): b = c; break
                else:
                    if m.decide(T.band(T.icmp("ule", 9, b), T.icmp("ule", b, 13))): b = 32
                    else: b = 0; other += 1
        if b == 0 or len(out) > 400: return bytes(out), sym
        out.append(b)
def numval(txt, sym, off, w):
    """value of the digits at off (sign allowed), with symbolic digits"""
    neg = txt[:1] == b"-"; v = 0 if w else 0.0
    for i, ch in enumerate(txt):
        if ch in b"+-": continue
        d = sym.get(off + i)
        if d is None: d = ch - 48
        else: d = T.iop("sub", T.izext(d, 8, 64), 48)
        if w:
            v = v * 10 & M64 if v.__class__ is int else T.iop("mul", v, 10)
            v = (v + d) & M64 if v.__class__ is int and d.__class__ is int else T.iop("add", v, d)
        else:
            d = float(d) if d.__class__ is int else T.mk(R, "i2r", (d, True))
            v = v * 10.0 + d
    if neg: v = (-v & M64 if v.__class__ is int else T.iop("sub", 0, v)) if w else -v
    return v
NUMTOK = re.compile(rb"[ \t\n\r\v\f]*\x01(\d+)\x02")
@model("strtod", "strtold")
def m_strtod(m, p, endp):
    s, sym = numtext(m, p)
    t = NUMTOK.match(s)
    if t:
        n = t.end(); v = m.config["tokens"][int(t.group(1))]
        if v.__class__ is I: v = T.mk(R, "i2r", (v, True))
    else:
        q = re.match(rb"[ \t\n\r\v\f]*([-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf(inity)?|nan))", s, re.I)
        if q:
            n = q.end(); v = float(q.group(1))
            if any(q.start(1) <= k < n for k in sym):
                if not re.fullmatch(rb"[-+]?\d+", q.group(1)): raise Unsupported("number with symbolic digits and a point or exponent")
                v = numval(q.group(1), sym, q.start(1), 0)
        else: n = 0; v = 0.0
    if endp: m.store(endp, p + n, 8)
    return v
def m_strtoi(m, p, endp, base, w=64, signed=True):
    s, sym = numtext(m, p)
    t = NUMTOK.match(s)
    if t:
        n = t.end(); v = m.config["tokens"][int(t.group(1))]
        if v.__class__ is R: v = T.ivar("int_of_" + v.args[0] if v.op == "v" else "int_of_%d" % v.id, 64)     # some integer
        elif v.__class__ is float: v = int(v)
        if v.__class__ is int: v &= M64
        elif v.w != 64: v = T.isext(v, v.w, 64)
    else:
        q = re.match(rb"[ \t\n\r\v\f]*([-+]?\d+)", s)
        if q:
            n = q.end(); v = int(q.group(1)); v = max(-(1 << 63), min((1 << 63) - 1, v)) & M64
            if any(q.start(1) <= k < n for k in sym):
                if len(q.group(1)) > 17: raise Unsupported("long symbolic number")
                v = numval(q.group(1), sym, q.start(1), 64)
        else: n = 0; v = 0
    if endp: m.store(endp, p + n, 8)
    return v
for _n in ("strtol", "__isoc23_strtol", "strtoll", "__isoc23_strtoll", "strtoul", "__isoc23_strtoul", "strtoull", "__isoc23_strtoull"): MODELS[_n] = m_strtoi
@model("atoi")
def m_atoi(m, p): return T.itrunc(m_strtoi(m, p, 0, 10), 64, 32)
@model("atof")
def m_atof(m, p): return m_strtod(m, p, 0)

# ---------------------------------------------------------------- exceptions, exit
def thrower(name, what):
    def f(m, *a):
        msg = ""
        try: msg = m.cstr(a[0]).decode('latin1') if a else ""
        except Exception: pass
        raise CppExc(what + (": " + msg if msg else ""), m.sym_typ(what))
    MODELS[name] = f
TYPES = {"std::bad_alloc": "@_ZTISt9bad_alloc", "std::logic_error": "@_ZTISt11logic_error", "std::length_error": "@_ZTISt12length_error",
         "std::out_of_range": "@_ZTISt12out_of_range", "std::invalid_argument": "@_ZTISt16invalid_argument", "std::bad_array_new_length": "@_ZTISt20bad_array_new_length",
         "std::bad_function_call": "@_ZTISt17bad_function_call"}
import llexec
def sym_typ(self, what):
    g = TYPES.get(what)
    return self.gaddr.get(g, 1) if g else 1
llexec.Machine.sym_typ = sym_typ
for _n, _w in (("_ZSt17__throw_bad_allocv", "std::bad_alloc"), ("_ZSt19__throw_logic_errorPKc", "std::logic_error"),
               ("_ZSt20__throw_length_errorPKc", "std::length_error"), ("_ZSt20__throw_out_of_rangePKc", "std::out_of_range"),
               ("_ZSt24__throw_invalid_argumentPKc", "std::invalid_argument"), ("_ZSt24__throw_out_of_range_fmtPKcz", "std::out_of_range"),
               ("_ZSt28__throw_bad_array_new_lengthv", "std::bad_array_new_length"), ("_ZSt25__throw_bad_function_callv", "std::bad_function_call")):
    thrower(_n, _w)
@model("__cxa_allocate_exception")
def m_cxaalloc(m, n): return m.alloc(n, "exception")
@model("__cxa_free_exception")
def m_cxafree(m, p): m.free(p, ("exception",))
@model("__cxa_throw")
def m_cxathrow(m, p, typ, d): raise CppExc("C++ exception", typ, p)
@model("__cxa_begin_catch")
def m_bc(m, p): m.extra.setdefault("catch", []).append(p); return p
@model("__cxa_end_catch")
def m_ec(m):
    c = m.extra.get("catch")
    if c: c.pop()
@model("__cxa_rethrow")
def m_rt(m): raise CppExc("rethrown", 0, (m.extra.get("catch") or [0])[-1])
@model("__gxx_personality_v0")
def m_pers(m, *a): raise Unsupported("personality")
@model("_ZSt9terminatev", "abort", "__clang_call_terminate")
def m_term(m, *a): raise ProgExit(134, "abort")
@model("quick_exit")
def m_qexit(m, c): raise ProgExit(sgn(c, 32), "quick_exit")
@model("exit", "_Exit", "_exit")
def m_exit(m, c): raise ProgExit(sgn(c, 32), "exit")
@model("__assert_fail")
def m_af(m, *a):
    try: msg = m.cstr(a[0]).decode()
    except Exception: msg = "?"
    raise MemError("assertion failed: " + msg)
@model("__cxa_atexit", "__cxa_thread_atexit", "__cxa_thread_atexit_impl", "atexit", "at_quick_exit")
def m_atexit(m, *a): return 0
def _none(m, *a): return None
def _zero(m, *a): return 0
@model("__cxa_guard_acquire")
def m_guard(m, p):
    v = m.load(p, 1)
    if m.traced: pass
    return 0 if v == 1 else 1
@model("__cxa_guard_release")
def m_guardr(m, p): m.store(p, 1, 1)
MODELS["__cxa_guard_abort"] = _none

# ---------------------------------------------------------------- OpenMP, one thread
@model("__kmpc_fork_call")
def m_fork(m, loc, argc, fnp, *args):
    hook = m.config.get("fork_hook"); out = m.extra.get("fork_depth", 0)
    if hook is not None and not out: hook(m, fnp, args)
    m.extra["fork_depth"] = out + 1
    h = m.extra.get("race")
    if h is not None: h.depth += 1
    g = m.alloc(4, "static", "gtid"); t = m.alloc(4, "static", "tid")
    m.store(g, 0, 4); m.store(t, 0, 4)
    m.callptr(fnp)(g, t, *args)
    m.extra["fork_depth"] = out
    if h is not None: h.depth -= 1
    m.O.pop(g >> SHIFT, None); m.O.pop(t >> SHIFT, None)
def kmpc_init(w, signed):
    n = w // 8
    def f(m, loc, gtid, sched, plast, plo, pup, pst, incr, chunk):
        h = m.extra.get("race")
        lo = m.load(plo, n); up = m.load(pup, n)
        if h is not None and h.take(m, plast, plo, pup, pst, lo, up, incr, w): return
        m.store(plast, 1, 4)
        if sched == 33:
            c = chunk if chunk else 1
            m.store(pup, T.iop("sub", T.iop("add", lo, c), 1) if lo.__class__ is I else (lo + c - 1) & ((1 << w) - 1), n)
            m.store(pst, c, n)
        else:
            m.store(pst, (up - lo + 1) & ((1 << w) - 1), n)
    return f
for _n, _w, _s in (("4", 32, True), ("4u", 32, False), ("8", 64, True), ("8u", 64, False)):
    MODELS["__kmpc_for_static_init_" + _n] = kmpc_init(_w, _s)
    def _dinit(m, loc, gtid, sched, lb, ub, st, chunk, w=_w):
        m.extra.setdefault("disp", []).append([lb, ub, st, w, False])
    def _dnext(m, loc, gtid, plast, plo, pup, pst, w=_w):
        n = w // 8
        d = m.extra["disp"][-1]
        if d[4]:
            m.extra["disp"].pop()
            if m.extra.get("race") is not None: m.extra["race"].fini(m)
            return 0
        d[4] = True
        h = m.extra.get("race")
        m.store(plo, d[0], n); m.store(pup, d[1], n); m.store(pst, d[2], n); m.store(plast, 1, 4)
        if h is not None: h.take(m, plast, plo, pup, pst, d[0], d[1], d[2], w)
        return 1
    MODELS["__kmpc_dispatch_init_" + _n] = _dinit
    MODELS["__kmpc_dispatch_next_" + _n] = _dnext
    MODELS["__kmpc_dispatch_fini_" + _n] = _none
def _fini(m, *a):
    h = m.extra.get("race")
    if h is not None: h.fini(m)
MODELS["__kmpc_for_static_fini"] = _fini
def _barrier(m, *a):
    h = m.extra.get("race")
    if h is not None: h.barrier(m)
MODELS["__kmpc_barrier"] = _barrier
@model("__kmpc_reduce_nowait", "__kmpc_reduce")
def m_reduce(m, *a):
    h = m.extra.get("race")
    if h is not None: h.reduce(m, a); h.lock(m, "reduce")
    return 1
def _endred(m, *a):
    h = m.extra.get("race")
    if h is not None: h.unlock(m, "reduce")
MODELS["__kmpc_end_reduce_nowait"] = _endred; MODELS["__kmpc_end_reduce"] = _endred
@model("__kmpc_critical", "__kmpc_critical_with_hint")
def m_crit(m, loc, gtid, name, *a):
    h = m.extra.get("race")
    if h is not None: h.lock(m, name)
@model("__kmpc_end_critical")
def m_ecrit(m, loc, gtid, name):
    h = m.extra.get("race")
    if h is not None: h.unlock(m, name)
def _one(name):
    def begin(m, *a):
        h = m.extra.get("race")
        if h is not None and h.depth == 0: h.lock(m, name)
        return 1
    def end(m, *a):
        h = m.extra.get("race")
        if h is not None and h.depth == 0: h.unlock(m, name)
    return begin, end
MODELS["__kmpc_single"], MODELS["__kmpc_end_single"] = _one("single")
for _n in ("master", "masked"): MODELS["__kmpc_" + _n], MODELS["__kmpc_end_" + _n] = _one("master")
for _n in ("__kmpc_push_num_threads", "__kmpc_push_proc_bind", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_flush", "omp_set_num_threads",
           "omp_set_nested", "omp_set_max_active_levels", "omp_set_dynamic", "omp_init_lock", "omp_destroy_lock"): MODELS[_n] = _none
@model("__kmpc_global_thread_num", "omp_get_level")
def m_gtn(m, *a): return 0
@model("omp_get_thread_num")
def m_tn(m, *a):
    h = m.extra.get("race")
    if h is not None: return h.tid(m)
    return 0
@model("omp_in_parallel")
def m_inpar(m, *a): return 1 if m.extra.get("race") is not None else 0
@model("omp_get_num_threads", "omp_get_max_threads", "omp_get_num_procs")
def m_nthr(m, *a):
    h = m.extra.get("race")
    if h is not None: return h.nthreads(m)
    return 1
@model("omp_get_wtime")
def m_wtime(m): return 0.0
@model("omp_set_lock")
def m_slock(m, p):
    h = m.extra.get("race")
    if h is not None: h.lock(m, ("l", p))
@model("omp_unset_lock")
def m_ulock(m, p):
    h = m.extra.get("race")
    if h is not None: h.unlock(m, ("l", p))

# ---------------------------------------------------------------- FFTW
def _fftw(m): return m.extra.setdefault("fftw", {"plans": {}, "n": 0, "gen": 0})
def rd(m, p, n):
    """n doubles"""
    if m.traced:
        m.trace('r', p, 8 * n, m.O.get(p >> SHIFT) if p.__class__ is int else m.sym_obj(p))
    out = []
    for k in range(n):
        v = b2d(m.load(p + 8 * k, 8))
        out.append(v)
    return out
def wr(m, p, vals):
    if m.traced:
        m.trace('w', p, 8 * len(vals), m.O.get(p >> SHIFT) if p.__class__ is int else m.sym_obj(p))
    for k, v in enumerate(vals): m.store(p + 8 * k, v, 8)
def planner(m):
    """the planner is not thread safe: model it as one shared location"""
    p = m.extra.get("planner")
    if p is None:
        p = m.extra["planner"] = m.alloc(8, "static", "FFTW planner state")
        m.O[p >> SHIFT].seq = 0
        m.O[p >> SHIFT].shared = True
        m.store(p, 0, 8)
    if m.traced: m.trace('w', p, 8, m.O[p >> SHIFT])
@model("fftw_plan_r2r_1d")
def m_plan(m, n, i, o, kind, flags):
    planner(m)
    f = _fftw(m)
    n = sgn(n, 32)
    if kind not in (3, 4, 5): raise Unsupported("FFTW kind %d" % kind)
    if kind == 3 and n < 2: return 0
    if not (flags & 64):        # not FFTW_ESTIMATE: planning overwrites the arrays
        for p in (i, o):
            m.obj(p, 8 * n, "write")
            f["n"] += 1
            wr(m, p, [T.rvar("fftw!%d!%d" % (f["n"], k)) for k in range(n)])
    a = m.alloc(16, "fftw_plan")
    m.store(a, 0, 8)
    f["plans"][a] = (n, kind, i == o, f["gen"], i, o)
    return a
def plan_of(m, p):
    f = _fftw(m)
    d = f["plans"].get(p)
    if d is None: raise MemError("use of something that is not a live FFTW plan")
    if d[3] != f["gen"]: raise MemError("use of an FFTW plan after fftw_cleanup")
    return d
_dct = {}
def dct_matrix(n, kind):
    M = _dct.get((n, kind))
    if M is None:
        if kind == 3:
            # exact index reduction keeps the entries accurate
            c = [math.cos(math.pi * k / (n - 1)) for k in range(2 * (n - 1))]
            c = [_cospi(k, n - 1) for k in range(2 * (n - 1))]
            M = []
            for k in range(n):
                row = [1.0] + [2 * c[(j * k) % (2 * (n - 1))] for j in range(1, n - 1)] + [(-1.0) ** k]
                M.append(row)
        elif kind == 5:
            M = [[2 * _cospi((2 * j + 1) * k, 2 * n) for j in range(n)] for k in range(n)]
        else:
            M = [[1.0] + [2 * _cospi(j * (2 * k + 1), 2 * n) for j in range(1, n)] for k in range(n)]
        _dct[(n, kind)] = M
    return M
def _cospi(a, b):
    a %= 2 * b
    if a > b: a = 2 * b - a
    if 2 * a == b: return 0.0
    if 2 * a > b: return -math.cos(math.pi * (b - a) / b)
    return math.cos(math.pi * a / b)
def _exec(m, d, i, o):
    n, kind, inpl, gen, _, _ = d
    if (i == o) != inpl: raise MemError("FFTW plan for %s transforms executed %s" % (("in-place", "out of place") if inpl else ("out-of-place", "in place")))
    x = rd(m, i, n)
    for v in x:
        if v is UNDEF: raise UninitUse("FFTW transform of uninitialised data")
    if m.config.get("fftw") == "opaque":
        y = [T.rfn("dct%d_%d_%d" % (kind, n, k), *x) if any(v.__class__ is R for v in x) else sum(a * b for a, b in zip(dct_matrix(n, kind)[k], x)) for k in range(n)]
    else:
        y = [T.rlin(row, x) for row in dct_matrix(n, kind)]
    wr(m, o, y)
@model("fftw_execute_r2r")
def m_exec(m, p, i, o):
    _exec(m, plan_of(m, p), i, o)
@model("fftw_execute")
def m_exec0(m, p):
    d = plan_of(m, p); _exec(m, d, d[4], d[5])
@model("fftw_destroy_plan")
def m_destroy(m, p):
    planner(m)
    plan_of(m, p)
    del _fftw(m)["plans"][p]
    m.free(p, ("fftw_plan",))
@model("fftw_cleanup", "fftw_cleanup_threads")
def m_cleanup(m):
    planner(m)
    _fftw(m)["gen"] += 1
for _n in ("fftw_init_threads", "fftw_plan_with_nthreads", "fftw_make_planner_thread_safe", "fftw_forget_wisdom"): MODELS[_n] = _zero

# ---------------------------------------------------------------- streams and files
class Stream:
    __slots__ = ("kind", "name", "mode", "open", "buf", "pos", "state", "prec", "width", "flags", "fill", "std")
    def __init__(self, kind):
        self.kind = kind; self.name = None; self.open = kind == 1; self.buf = []; self.pos = 0
        self.state = 0; self.prec = 6; self.width = 0; self.flags = 2048 | 8; self.fill = 32; self.mode = 0
class Streams:
    def __init__(self):
        self.tab = {1: Stream(2), 2: Stream(2), 3: Stream(2)}
        for k in (1, 2, 3): self.tab[k].open = True
        self.next = 4
        self.files = {}         # name -> list of tokens
        self.inputs = {}        # name -> list of bytes / symbolic bytes
        self.opens = []         # (name, mode)
def S(m):
    if m.streams is None:
        m.streams = Streams()
        for k, v in m.config.get("files", {}).items(): m.streams.inputs[k] = list(v)
    return m.streams
def st(m, h):
    if h.__class__ is not int: raise Unsupported("stream handle")
    s = S(m).tab.get(h)
    if s is None: raise MemError("use of a destroyed stream")
    if m.traced and s.kind in (0, 1):
        o = m.extra.get(("stream", h))
        if o is not None: m.trace('w', o, 8, m.O.get(o >> SHIFT))
    return s
@model("vp_s_new")
def m_snew(m, kind):
    ss = S(m); h = ss.next; ss.next += 1
    ss.tab[h] = Stream(kind)
    m.extra[("stream", h)] = m.alloc(8, "static", "stream")
    return h
@model("vp_s_del")
def m_sdel(m, h): S(m).tab.pop(h, None)
@model("vp_s_open")
def m_sopen(m, h, p, n, mode):
    s = st(m, h)
    name = bytes(x if x.__class__ is int else m.concretize(x, 8) for x in m.bytes_(p, n)).decode('latin1')
    s.name = name; s.mode = mode; ss = S(m)
    ss.opens.append((name, mode))
    if mode & 16:
        if m.config.get("open_fails", lambda n: False)(name): s.state |= 2; return
        if name not in ss.files: ss.files[name] = list(m.config.get("existing", {}).get(name, []))
        if mode & 32 or (mode & 16 and not (mode & (1 | 8))):
            ss.files[name] = []
        s.buf = ss.files[name]; s.open = True; s.state = 0
    else:
        src = ss.inputs.get(name)
        if src is None: s.state |= 2; return
        s.buf = src; s.pos = 0; s.open = True; s.state = 0
@model("vp_s_close")
def m_sclose(m, h):
    s = st(m, h)
    if s.kind == 0: s.open = False; s.buf = []
@model("vp_s_is_open")
def m_sisopen(m, h): return 1 if st(m, h).open else 0
@model("vp_s_state")
def m_sstate(m, h): return st(m, h).state
@model("vp_s_setstate")
def m_ssetstate(m, h, v): st(m, h).state = v
def put(m, h, tok):
    s = st(m, h)
    if s.kind == 2: 
        if m.config.get("keep_stdout"): s.buf.append((h, tok))
        s.width = 0
        return
    if not s.open: s.state |= 4; return
    if s.state & 6: return
    s.buf.append(tok); s.width = 0
@model("vp_s_dbl")
def m_sdbl(m, h, x):
    s = st(m, h); put(m, h, ("dbl", x, s.prec, s.flags, s.width))
@model("vp_s_int")
def m_sint(m, h, x, bits):
    if x.__class__ is int:
        x = sgn(x, 64)
        puts(m, h, str(x).encode())
    else: put(m, h, ("int", x))
@model("vp_s_uint")
def m_suint(m, h, x, bits):
    if x.__class__ is int: puts(m, h, str(x).encode())
    else: put(m, h, ("int", x))
@model("vp_s_bool")
def m_sbool(m, h, x):
    s = st(m, h); puts(m, h, (b"true" if x & 1 else b"false") if s.flags & 4 else (b"1" if x & 1 else b"0"))
def puts(m, h, bs):
    s = st(m, h)
    if s.width > len(bs):
        pad = [s.fill] * (s.width - len(bs))
        bs = list(bs) + pad if s.flags & 64 else pad + list(bs)
    for b in bs: put(m, h, b)
@model("vp_s_str")
def m_sstr(m, h, p, n): puts(m, h, m.bytes_(p, n if n.__class__ is int else m.concretize(n, 64)))
@model("vp_s_raw")
def m_sraw(m, h, p, n):
    for b in m.bytes_(p, n): put(m, h, b)
@model("vp_s_chr")
def m_schr(m, h, c): puts(m, h, [c])
@model("vp_s_ptr")
def m_sptr(m, h, p): puts(m, h, b"0xp")
@model("vp_s_prec")
def m_sprec(m, h, p):
    s = st(m, h); o = s.prec; p = sgn(p, 64)
    if p >= 0: s.prec = p
    return o
@model("vp_s_width")
def m_swidth(m, h, p):
    s = st(m, h); o = s.width; p = sgn(p, 64)
    if p >= 0: s.width = p
    return o
@model("vp_s_flags")
def m_sflags(m, h, se, cl):
    s = st(m, h); o = s.flags
    s.flags = (s.flags & ~cl | se) & 0xffff
    return o
@model("vp_s_fill")
def m_sfill(m, h, c):
    s = st(m, h); o = s.fill; c = sgn(c, 32)
    if c >= 0: s.fill = c
    return o
@model("vp_s_get")
def m_sget(m, h):
    s = st(m, h)
    if s.pos >= len(s.buf): return 0xffffffff
    c = s.buf[s.pos]; s.pos += 1
    return tok_char(c)
def tok_char(c):
    if c.__class__ is int: return c
    if c.__class__ is I: return T.izext(c, 8, 32)
    raise Unsupported("reading back a formatted number")
@model("vp_s_peek")
def m_speek(m, h):
    s = st(m, h)
    return 0xffffffff if s.pos >= len(s.buf) else tok_char(s.buf[s.pos])
@model("vp_s_tell")
def m_stell(m, h): return st(m, h).pos
@model("vp_s_seek")
def m_sseek(m, h, p, w):
    s = st(m, h); p = sgn(p, 64); s.pos = p if w == 0 else s.pos + p if w == 1 else len(s.buf) + p
@model("vp_s_strsize")
def m_sss(m, h): return len(st(m, h).buf)
@model("vp_s_strget")
def m_ssg(m, h, i): return tok_char(st(m, h).buf[i])
@model("vp_s_strset")
def m_sset(m, h, p, n):
    s = st(m, h); s.buf = m.bytes_(p, n); s.pos = 0
@model("vp_s_flush")
def m_sflush(m, h): pass

# C stdio: enough for diagnostics and simple writers
FMT = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diuxXeEfFgGcsp%])')
def fmt_tokens(m, fmt, args):
    out = []; pos = 0; args = list(args)
    for x in FMT.finditer(fmt):
        out += list(fmt[pos:x.start()].encode('latin1')); pos = x.end()
        fl, wd, pr, ln, cv = x.groups()
        if cv == '%': out.append(37); continue
        if wd == '*': wd = args.pop(0)
        if pr == '*': pr = args.pop(0)
        a = args.pop(0)
        if cv in 'di':
            if a.__class__ is not int: out.append(("int", a)); continue
            s = str(sgn(a, 64 if ln in ('l', 'll', 'z', 'j') else 32))
            out += list(s.rjust(int(wd or 0), '0' if '0' in fl else ' ').encode())
        elif cv in 'ux': out += list((str(a) if cv == 'u' else '%x' % a).rjust(int(wd or 0)).encode())
        elif cv in 'eEfFgG': out.append(("dbl", a, int(pr) if pr is not None else 6, {'e': 2, 'f': 1, 'g': 0}[cv.lower()], int(wd or 0)))
        elif cv == 's': out += list(m.cstr(a))
        elif cv == 'c': out.append(a & 255)
        else: out += list(b"?")
    out += list(fmt[pos:].encode('latin1'))
    return out
def fput(m, h, toks):
    for t in toks: put(m, h, t)
@model("printf")
def m_printf(m, f, *a): fput(m, 1, fmt_tokens(m, m.cstr(f).decode('latin1'), a)); return 1
@model("puts")
def m_puts(m, p): fput(m, 1, list(m.cstr(p)) + [10]); return 1
@model("putchar")
def m_putchar(m, c): fput(m, 1, [c & 255]); return c
@model("fopen", "fopen64")
def m_fopen(m, n, md):
    mode = m.cstr(md).decode()
    h = m_snew(m, 0); s = st(m, h)
    name = m.cstr(n).decode('latin1'); ss = S(m)
    mm = {'w': 16 | 32, 'a': 16 | 1, 'r': 8}[mode[0]]
    ss.opens.append((name, mm))
    if mm & 16:
        if name not in ss.files or mm & 32: ss.files[name] = [] if mm & 32 else list(m.config.get("existing", {}).get(name, []))
        s.buf = ss.files[name]
    else:
        if name not in ss.inputs: return 0
        s.buf = ss.inputs[name]
    s.open = True; s.name = name
    a = m.alloc(8, "FILE"); m.extra[("FILE", a)] = h
    return a
@model("fprintf")
def m_fprintf(m, fp, f, *a):
    h = m.extra.get(("FILE", fp), 2)
    fput(m, h, fmt_tokens(m, m.cstr(f).decode('latin1'), a)); return 1
@model("fputs")
def m_fputs(m, p, fp): fput(m, m.extra.get(("FILE", fp), 2), list(m.cstr(p))); return 1
@model("fputc")
def m_fputc(m, c, fp): fput(m, m.extra.get(("FILE", fp), 2), [c & 255]); return c
@model("fclose")
def m_fclose(m, fp):
    m.extra.pop(("FILE", fp)); m.free(fp, ("FILE",)); return 0
@model("fflush")
def m_fflush(m, fp): return 0
@model("snprintf", "sprintf")
def m_snprintf(m, p, n, f, *a):
    toks = fmt_tokens(m, m.cstr(f).decode('latin1'), a)
    if any(t.__class__ is tuple for t in toks):
        bs = b""
        for t in toks:
            if t.__class__ is tuple:
                if t[0] != "dbl" or t[1].__class__ is not float: raise Unsupported("formatting a symbolic number into a string")
                bs += ('%%%s.%d%s' % (t[4] or '', t[2], {0: 'g', 1: 'f', 2: 'e'}[t[3]]) % t[1]).encode()
            else: bs += bytes([t])
    else: bs = bytes(toks)
    full = len(bs)
    bs = bs[:max(0, n - 1)] if n else b""
    if n:
        for k, c in enumerate(bs): m.store(p + k, c, 1)
        m.store(p + len(bs), 0, 1)
    return full
@model("vsnprintf")
def m_vsn(m, *a): raise Unsupported("vsnprintf")
@model("system")
def m_system(m, p): raise Unsupported("system()")
@model("time")
def m_time(m, p): return 0
@model("getenv")
def m_getenv(m, p): return 0

# ---------------------------------------------------------------- harness interface
@model("vp_real")
def m_vpreal(m, name, i):
    n = m.cstr(name).decode()
    f = m.config.get("reals")
    k = "%s[%d]" % (n, sgn(i, 64))
    v = f(n, sgn(i, 64)) if f is not None else None
    if v is None: v = T.rvar(k)
    if m.line is not None and v.__class__ is R: v = m.line.of(v)
    m.extra.setdefault("inputs", {})[k] = v
    return v
@model("vp_dbl")
def m_vpdbl(m, name):
    n = m.cstr(name).decode()
    v = m.config[n] if n in m.config else T.rvar(n)
    if m.line is not None and v.__class__ is R: v = m.line.of(v)
    if v.__class__ is not R: v = float(v)
    m.extra.setdefault("inputs", {})[n] = v
    return v
@model("vp_size")
def m_vpsize(m, name):
    n = m.cstr(name).decode()
    if n not in m.config: raise Unsupported("harness size %s not configured" % n)
    m.extra.setdefault("inputs", {})[n] = int(m.config[n])
    return int(m.config[n]) & M64
@model("vp_int")
def m_vpint(m, name):
    n = m.cstr(name).decode()
    if n in m.config:
        v = m.config[n]
        if v.__class__ is not I: v = int(v) & M64
    else: v = T.ivar(n, 64)
    m.extra.setdefault("inputs", {})[n] = v
    return v
@model("vp_out")
def m_vpout(m, name, i, x):
    m.outs.setdefault(m.cstr(name).decode(), {})[sgn(i, 64)] = x
@model("vp_outi")
def m_vpouti(m, name, i, x):
    m.outs.setdefault(m.cstr(name).decode(), {})[sgn(i, 64)] = x
@model("vp_assume")
def m_vpassume(m, c):
    if c.__class__ is I: c = T.bnot(T.icmp("eq", c, 0))
    m.assume(c)
@model("vp_mark")
def m_vpmark(m, name):
    n = m.cstr(name).decode()
    m.marks.append((n, m.next_idx, {o.idx for o in m.O.values() if o.kind not in ("global", "stack", "static")}))
@model("vp_live")
def m_vplive(m):
    n = sum(o.hi - o.lo for o in m.O.values() if o.kind not in ("global", "stack", "static"))
    return n + (64 * len(m.streams.tab) if m.streams is not None else 0)
