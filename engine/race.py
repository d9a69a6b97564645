"""Conflicts between the threads of a parallel region.

The region's body is executed once per path with the iteration it is given a variable, every access to memory
that other threads can reach being recorded; two copies of the record, for two different threads, are then put to
the solver: is there a pair of iterations and a pair of accesses, one of them a write, that overlap?"""
import terms as T
from terms import R, I, B, Unsupported
from llexec import SHIFT, UNDEF, MemError, ProgExit, sgn
import models

class Race:
    def __init__(self, m, name):
        self.name = name; self.idx0 = m.next_idx; self.depth = 0; self.phase = 0; self.locks = (); self.log = {}
        self.nloops = 0; self.loop = None; self.its = {}; self.iter_idx = None; self.special = set(); self.info = {}; self.tidvar = None
        self.written = set(); self.exposed = {}; self.pw = set(); self.carried = []; self.ver = {}; self.memo = {}; self.bytid = []
        self.tls = {m.gaddr[g] >> SHIFT for g in m.gorder if m.mod.globals[g][3]}
        self.m = m; self.nh = 0
    # ---- work sharing
    def take(self, m, plast, plo, pup, pst, lo, up, incr, w):
        if self.depth: return False
        if lo.__class__ is not int or up.__class__ is not int: raise Unsupported("loop bounds that are not known")
        if incr != 1: raise Unsupported("loop increment %r" % (incr,))
        n = w // 8; a, b = sgn(lo, w), sgn(up, w)
        self.close()
        if a > b: return False
        k = self.nloops; self.nloops += 1
        if a == b: i = lo
        else:
            i = T.ivar("it!%d" % k, w)
            m.assume(T.icmp("sle", lo, i)); m.assume(T.icmp("sle", i, up))
        for p in (plast, plo, pup, pst): self.special.add(p >> SHIFT)
        m.store(plo, i, n); m.store(pup, i, n); m.store(pst, (up - lo + 1) & ((1 << w) - 1), n)
        m.store(plast, T.iite(T.icmp("eq", i, up), 1, 0, 32) if i.__class__ is I else 1, 4)
        self.loop = k; self.its[k] = (i, a, b); self.iter_idx = m.next_idx
        self.written = set(); self.exposed = {}; self.pw = set()
        return True
    def close(self):
        if self.loop is not None:
            for g, o in self.exposed.items():
                if g in self.pw: self.carried.append(o); break
        self.loop = None; self.iter_idx = None
    def fini(self, m):
        if not self.depth: self.close()
    def barrier(self, m):
        if not self.depth: self.close(); self.phase += 1
    def lock(self, m, x): self.locks += (x,)
    def unlock(self, m, x):
        l = list(self.locks)
        if x in l: l.reverse(); l.remove(x); l.reverse()
        self.locks = tuple(l)
    def tid(self, m):
        if self.depth: return 0
        if self.tidvar is None:
            self.tidvar = T.ivar("tid!", 32); m.assume(T.icmp("sle", 0, self.tidvar)); m.assume(T.icmp("sle", self.tidvar, 2))
        return self.tidvar
    def nthreads(self, m): return 1 if self.depth else 3
    def reduce(self, m, a):
        # (loc, gtid, number, size, data, func, lock): private partial results, combined by the run-time
        data = a[4]
        for k in range(a[2]):
            p = m.load(data + 8 * k, 8)
            if p.__class__ is int:
                self.special.add(p >> SHIFT)
                self.carried = [x for x in self.carried if x[0] != p >> SHIFT]
    # ---- memory
    def trace(self, kind, a, n, o):
        if o is None or o.const: return
        i = o.site if o.shared else o.idx
        if o.shared or (i < self.idx0 and i not in self.tls):
            k = (i, kind, a.id if a.__class__ is I else a, a.__class__ is I, n, self.phase, frozenset(self.locks), self.m.in_atomic, self.loop)
            if k not in self.log:
                self.log[k] = a
                if i not in self.info: self.info[i] = (o.kind, o.site, o.hi - o.lo, o.lo)
        elif self.loop is not None and i < self.iter_idx and i not in self.special and kind != 'free':
            gs = [("s", a.id)] if a.__class__ is I else [(i, g) for g in range(a >> 3, (a + n + 7) >> 3)]
            if kind == 'w': self.written.update(gs); self.pw.update(gs)
            else:
                for g in gs:
                    if g not in self.written: self.exposed[g] = (i, o.kind, o.site, o.hi - o.lo)
    def doubles(self, o):
        if o is None or o.s or (o.hi - o.lo) % 8 or len(o.d) * 8 != o.hi - o.lo: return False
        return all(v.__class__ is float or v.__class__ is R for v in o.d.values())
    def inside(self, a, n, o, what):
        m = self.m
        inb = T.band(T.icmp("ule", o.lo, a), T.icmp("ule", a, o.hi - n))
        if m.decide(inb) is False: raise MemError("%s outside its object at a symbolic offset of a %d-byte object (%s)" % (what, o.hi - o.lo, o.kind))
    def fresh(self):
        self.nh += 1
        return T.rvar("h!%d" % self.nh)
    def havoc_load(self, a, n, o):
        if a.__class__ is not I or not self.doubles(o): return None
        self.inside(a, n, o, "read")
        k = (a.id, self.ver.get(o.idx, 0))
        v = self.memo.get(k)
        if v is None: v = self.memo[k] = self.fresh()
        return v
    def havoc_store(self, a, v, n, o):
        if n != 8 or v.__class__ not in (float, R) or not self.doubles(o): return False
        self.inside(a, n, o, "write")
        self.ver[o.idx] = self.ver.get(o.idx, 0) + 1
        for k in o.d: o.d[k] = self.fresh()
        return True
    def tstore(self, a, v, n):
        m = self.m
        o = m.sym_obj(a) if a.__class__ is I else m.O.get(a >> SHIFT)
        if o is not None and a.__class__ is int: self.ver[o.idx] = self.ver.get(o.idx, 0) + 1
        if self.tidvar is not None and not self.depth and isinstance(v, T.T) and o is not None and (o.shared or o.idx < self.idx0):
            if "tid!" in T.free_vars(v): self.bytid.append((o.kind, o.site, o.hi - o.lo))
        m.__class__.tstore(m, a, v, n)

def hook(target, state=None):
    """target None: only list the regions; otherwise stop at the target-th and record it"""
    def f(m, fnp, args):
        name = m.fptr.get(fnp, "?"); ls = m.extra.setdefault("regions", [])
        ls.append(name)
        if target is None or len(ls) - 1 != target: return
        if state is not None: state(m)
        r = m.extra["race"] = Race(m, name)
        g = m.alloc(4, "static", "gtid"); t = m.alloc(4, "static", "tid")
        r.special |= {g >> SHIFT, t >> SHIFT}
        m.store(g, 0, 4); m.store(t, 0, 4)
        m.set_traced(True); m.extra["fork_depth"] = 1
        m.trace = r.trace; m.havoc_load = r.havoc_load; m.havoc_store = r.havoc_store; m.tstore = r.tstore
        try:
            m.callptr(fnp)(g, t, *args)
            r.close()
        finally:
            m.set_traced(False)
            for x in ("trace", "havoc_load", "havoc_store", "tstore"): m.__dict__.pop(x, None)
        raise ProgExit(0, "race")
    return f

def rename(t, sub, memo):
    for x in T.topo([t]):
        if x.id in memo: continue
        if x.op == "v": memo[x.id] = T.mk(x.__class__, "v", (x.args[0] + sub,) + tuple(x.args[1:]), x.w)
        elif any(isinstance(y, T.T) for y in x.args): memo[x.id] = T.mk(x.__class__, x.op, tuple(memo[y.id] if isinstance(y, T.T) else y for y in x.args), x.w)
        elif any(isinstance(y, tuple) for y in x.args): raise Unsupported("renaming of %s" % x.op)
        else: memo[x.id] = x
    return memo[t.id]

def ints_only(pc):
    """the conditions about whole numbers (leaving out the others can only add candidates)"""
    return [c for c in pc if c.__class__ is B and all(x.__class__ is I for x in T.free_vars(c).values())]

def split(a):
    if a.__class__ is int: return a, None
    if a.op == "add" and a.args[1].op == "c": return a.args[1].args[0], a.args[0]
    return 0, a
M64 = (1 << 64) - 1
def overlap(A, nb, Bt, mb):
    """condition: [A,A+nb) and [B,B+mb) overlap"""
    return T.icmp("ult", T.iop("add", T.iop("sub", A, Bt), mb - 1), nb + mb - 1)

def conflicts(paths, solver, stat):
    """(description or None, ...) for each shared object that the region writes; stat counts queries"""
    out = []
    written = {}
    for p in paths:
        for k in p.extra["race"].log:
            if k[1] != 'r': written[k[0]] = p.extra["race"].info[k[0]]
    # objects are numbered in order of creation, the same on every path up to the region
    for o in sorted(written, key=str):
        out.append((written[o], pair(paths, o, solver, stat)))
    return out

def groups(p, o):
    g = {}
    r = p.extra["race"]
    for k, a in r.log.items():
        if k[0] == o: g.setdefault(k[5:], []).append((k[1], a, k[4]))
    return g

def pair(paths, o, solver, stat):
    G = [groups(p, o) for p in paths]
    for x in range(len(paths)):
        if not G[x]: continue
        for y in range(x, len(paths)):
            if not G[y]: continue
            P, Q = paths[x].extra["race"], paths[y].extra["race"]
            base = None
            for (ph1, l1, at1, lp1), A in G[x].items():
                for (ph2, l2, at2, lp2), Bs in G[y].items():
                    if ph1 != ph2 or (l1 & l2) or (at1 and at2): continue
                    if not any(k != 'r' for k, _, _ in A) and not any(k != 'r' for k, _, _ in Bs): continue
                    if base is None:
                        memo = {}
                        base = ints_only(paths[x].pc) + [rename(c, "'", memo) for c in ints_only(paths[y].pc)]
                        if P.tidvar is not None and Q.tidvar is not None: base.append(T.bnot(T.icmp("eq", P.tidvar, rename(Q.tidvar, "'", memo))))
                    cs = list(base)
                    if lp1 is not None and lp1 == lp2:
                        i, j = P.its[lp1][0], Q.its[lp2][0]
                        if j.__class__ is I: j = rename(j, "'", memo)
                        ne = T.bnot(T.icmp("eq", i, j)) if (i.__class__ is I or j.__class__ is I) else i != j
                        if ne is False: continue
                        if ne is not True: cs.append(ne)
                    r = query(A, Bs, memo, cs, solver, stat)
                    if r is not None: return r + (P.its.get(lp1), Q.its.get(lp2), lp1 is not None and lp1 == lp2)
    return None

def query(A, Bs, memo, cs, solver, stat):
    fa = {}; fb = {}
    for src, d, ren in ((A, fa, False), (Bs, fb, True)):
        for k, a, n in src:
            c, f = split(a)
            if f is not None and ren: f = rename(f, "'", memo)
            d.setdefault(f.id if f is not None else None, (f, []))[1].append((k != 'r', c, n))
    hit = None
    for f, X in fa.values():
        for g, Y in fb.values():
            if not any(w for w, _, _ in X) and not any(w for w, _, _ in Y): continue
            if f is None and g is None:
                e = cover(X, Y)
                if e is None: continue
                alts = [True]
            else:
                D = (T.iop("sub", f if f is not None else 0, g) if g is not None else f)
                seen = set(); alts = []
                for w1, c1, n1 in X:
                    for w2, c2, n2 in Y:
                        if not (w1 or w2): continue
                        k = ((c1 - c2) & M64, n1, n2)
                        if k in seen: continue
                        seen.add(k)
                        alts.append(T.icmp("ult", T.iop("add", D, (c1 - c2 + n2 - 1) & M64), n1 + n2 - 1))
                if not alts: continue
            if any(x is True for x in alts): cond = cs
            else:
                alts = [x for x in alts if x is not False]
                if not alts: continue
                b = alts[0]
                for x in alts[1:]: b = T.bor(b, x)
                cond = cs + [b]
            if any(x is False for x in cond): continue
            r, mod = solver([x for x in cond if x.__class__ is B])
            stat(str(r))
            if str(r) == "unsat": continue
            if str(r) == "unknown": raise Unsupported("no answer from the solver")
            return (mod, len(X), len(Y))
    return None

def cover(X, Y):
    """do two sets of fixed ranges overlap with a write?"""
    for P, Q in ((X, Y), (Y, X)):
        cells = set()
        for w, a, n in P:
            if w: cells.update(range(a, a + n))
        for w, a, n in Q:
            for c in range(a, a + n):
                if c in cells: return c
    return None
