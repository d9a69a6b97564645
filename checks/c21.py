from eom import *
EXPLANATION = ("Symbolic execution of the Params constructor (std::ifstream, std::getline, stringstream, stoi and stod run as their own IR or as byte-level models) on a parameter file in which every value is an unknown number, one line's bytes are unknown, and the order of the lines varies. "
               "For every path the solver decides that each getter returns what the rule 'first line starting with exactly this name' gives for those bytes, and that the program ends with a failure status exactly when a name is missing.")
UP = ["params"]
INTS = dict(nt="nt", nx="nx", nl="nl", nm="nm", nlat="nlat", nphi="nphi", t_step_save="t_step_save", l_ang="l_ang", m_ang="m_ang")
DBLS = dict(dt="dt", compactification_length="cl", Rmin="Rmin", Rmax="Rmax", black_hole_mass="bh_mass", black_hole_spin="bh_spin", km1="km1", k0="k0", k1="k1", k2="k2", V2="V2", V3="V3", V4="V4", amp="amp", rl="rl", ru="ru")
STRS = dict(initial_data_type="id", initial_data_direction="initial_data_direction")
H = '#include "vp.h"\n#include "params.hpp"\nextern "C" void vp_main() {\n  vp_mark("start"); Params p("params.txt"); vp_mark("read");\n' + \
    "".join('  vp_outi("%s",0,(long)(int)p.%s());\n' % x for x in INTS.items()) + "".join('  vp_out("%s",0,p.%s());\n' % x for x in DBLS.items()) + \
    "".join('  { std::string s=p.%s(); vp_outi("%s.n",0,(long)s.size()); for (size_t i=0;i<s.size();i++) vp_outi("%s",(long)i,(long)(unsigned char)s[i]); }\n' % (g, n, n) for n, g in STRS.items()) + "}\n"
FAILS = "ends with a failure"
WS = (32, 9, 10, 11, 12, 13)
class Fork(Exception): pass
def leaves(c, p, fn):
    """results of fn(dec), where dec(condition) answers a condition on the path; both answers possible: both are followed"""
    work = [[]]; out = []; memo = c.__dict__.setdefault("_dec", {})
    while work:
        pre = work.pop(); pos = [0]; conds = []
        def dec(x):
            if x.__class__ is not B: return bool(x)
            if pos[0] < len(pre): v = pre[pos[0]]
            else:
                k = (id(p), tuple(y.id for y in conds), x.id)
                if k not in memo:
                    memo[k] = (p, c.solver.feasible(p.pc + conds + [x]), c.solver.feasible(p.pc + conds + [T.bnot(x)]))
                _, t, f = memo[k]
                if t and f: work.append(list(pre) + [False])
                v = bool(t); pre.append(v)
            pos[0] += 1; conds.append(x if v else T.bnot(x))
            return v
        r = fn(dec); out.append((conds, r))
    return out
def eqb(a, b): return a == b if a.__class__ is int and b.__class__ is int else T.icmp("eq", a, b)
def is_ws(dec, x): return any(dec(eqb(x, w)) for w in WS)
def number(dec, tok, tokens, real):
    """value of a numeric token, FAILS when there is none, None when it is outside what is decided here"""
    if not tok: return FAILS
    if tok[0].__class__ is int and tok[0] == 1:
        return tokens[int(bytes(tok[1:tok.index(2)]))]
    if all(x.__class__ is int for x in tok):
        q = re.match(rb"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)" if real else rb"[-+]?\d+", bytes(tok), re.I)
        return FAILS if not q else float(q.group(0)) if real else int(q.group(0))
    if len(tok) > 1: return None
    if not dec(T.band(T.icmp("ule", 48, tok[0]), T.icmp("ule", tok[0], 57))): return FAILS
    d = T.iop("sub", T.izext(tok[0], 8, 64), 48)
    return T.mk(R_, "i2r", (d, True)) if real else d
def spec(dec, buf, tokens):
    """what the parameter file means: name -> value, or FAILS"""
    lines = []; cur = []
    for x in buf:
        if dec(eqb(x, 10)): lines.append(cur); cur = []
        else: cur.append(x)
    if cur: lines.append(cur)
    out = {}
    for n in ORDER:
        nb = n.encode()
        for ln in lines:
            if len(ln) < len(nb) or (len(ln) > len(nb) and ln[len(nb)].__class__ is int and ln[len(nb)] != 32): continue
            if any(x.__class__ is int and x != y for x, y in zip(ln, nb)): continue
            if len(ln) > len(nb) and not dec(eqb(ln[len(nb)], 32)): continue
            if not all(dec(eqb(x, y)) for x, y in zip(ln, nb)): continue
            rest = ln[len(nb) + 1:]; i = 0
            while i < len(rest) and is_ws(dec, rest[i]): i += 1
            j = i
            while j < len(rest) and not is_ws(dec, rest[j]): j += 1
            tok = rest[i:j]
            v = tok if n in STRS else number(dec, tok, tokens, n in DBLS)
            break
        else: v = FAILS
        if v is FAILS: return FAILS
        out[n] = v
    return out
def run(C, label, pieces, order, tokens, end=b"\n"):
    """pieces: list of (bytes / terms); the file is their concatenation"""
    def nat(env):
        out = bytearray()
        for x in pieces:
            if x.__class__ is bytes:
                k = 0
                while k < len(x):
                    if x[k] == 1:
                        e = x.index(2, k); t = tokens[int(x[k + 1:e])]; v = evaluate([t], env, default=lambda t: 0)[0]
                        out += (("%.17g" % v) if t.__class__ is R_ else "%d" % sgn(v, t.w)).encode(); k = e + 1
                    else: out.append(x[k]); k += 1
            else: out.append(evaluate([x], env, default=lambda t: 88)[0])
        return {"params.txt": bytes(out)}
    buf = []
    for x in pieces: buf += list(x) if x.__class__ is bytes else [x]
    syms = [x for x in buf if x.__class__ is not int]
    c = C.case(label, H, units=UP, config=dict(files={"params.txt": buf}, tokens=tokens, vars=syms + tokens), nat_files=nat, ranges={x.args[0]: (32, 126) for x in syms}, max_paths=3000)
    c.run(expect_normal=False)
    def confirm(o):
        data = list(nat(o.env)["params.txt"])
        w = spec(bool, data, None)
        if w is FAILS:
            if o.rc == 0 or any(x == "read" for x in o.marks): return "a needed name has no value, but the program ended with status %r (%s)" % (o.rc, "after reading" if o.ended else "early")
            return None
        if o.rc != 0: return "every name has a value, but the program ended with status %r" % o.rc
        for n, v in w.items():
            if n in STRS:
                g = [o.outs.get(n, {}).get(i) for i in range(o.outs.get(n + ".n", {}).get(0, 0))]
                if g != list(v): return "%s is read as %r, expected %r" % (n, g, v)
            else:
                g = o.outs.get(n, {}).get(0)
                if g is None or (float(g) != float(v)): return "%s is read as %r, expected %r" % (n, g, v)
        return None
    for p in c.paths:
        for conds, w in leaves(c, p, lambda dec: spec(dec, buf, tokens)):
            lab = c.label
            failed = p.end is not None and (p.end[0] == "exc" or (p.end[0] == "exit" and p.end[1] != 0))
            C.obligation()
            if p.end is not None and p.end[0] == "mem":
                C.fail(c, p, lab + " reads no foreign memory", p.end[1], lambda o: confirm(o) or c.abnormal(o), conj=conds[-1:], san=True); continue
            if w is FAILS:
                if failed and not any(x[0] == "read" for x in p.marks): C.discharge(lab + " missing name ends the program with a failure")
                else: C.fail(c, p, lab + " missing name ends the program with a failure", "ended as %r" % (p.end,), confirm, conj=[T_and(conds)] if conds else None)
                continue
            if p.end is not None:
                if any(v is None for v in w.values()): C.undecided_(lab, "symbolic token of several characters"); continue
                C.fail(c, p, lab + " complete file is accepted", "ended as %r" % (p.end,), confirm, conj=[T_and(conds)] if conds else None); continue
            C.discharge()
            for n, v in w.items():
                if v is None: C.obligation(); C.undecided_(lab + " " + n, "symbolic token of several characters"); continue
                C.obligation(); L = lab + " value of " + n
                if n in STRS:
                    k = p.outs[n + ".n"][0]
                    got = [p.outs[n].get(i) for i in range(k)] if k.__class__ is int else None
                    conj = [] if got is not None and len(got) == len(v) else None
                    if conj is not None: conj = [(g, x if x.__class__ is int else T.izext(x, 8, 64)) for g, x in zip(got, v)]
                else: conj = [(p.outs[n][0], v)]
                bad = None
                if conj is None: bad = T_and(conds) if conds else True
                else:
                    for g, x in conj:
                        if g is x: continue
                        if n in DBLS:
                            e = T.rcmp("eq", g, x)
                        else:
                            if x.__class__ is I and x.w < 64: x = T.isext(x, x.w, 64)
                            if g.__class__ is int and x.__class__ is int: e = (sgn(g, 64) == x)
                            else: e = T.icmp("eq", g, x)
                        if e is True or (e.__class__ is bool and e): continue
                        if e.__class__ is bool: bad = T_and(conds) if conds else True; break
                        q = [y for y in p.pc if y.__class__ is B] + conds + [T.bnot(e)]
                        t0 = time.time(); r = str(c.solver.check(q)); STATS.queries += 1; STATS.time += time.time() - t0
                        if r == "unsat": continue
                        if r == "unknown": bad = "unknown"; break
                        bad = T_and(conds + [T.bnot(e)]); break
                if bad is None: C.discharge(L)
                elif bad.__class__ is str: C.undecided_(L, "no answer from the solver")
                else: C.fail(c, p, L, "another value than the file's", confirm, conj=[bad] if bad.__class__ is B else None)
    return c
def T_and(cs):
    r = cs[0]
    for x in cs[1:]: r = T.band(r, x)
    return r
def tokens_for():
    t = {}
    for n in ORDER:
        t[n] = T.ivar("t_" + n, 32) if n in INTS else T.rvar("t_" + n) if n in DBLS else None
    return t
TEXT = dict(initial_data_type=b"compact_pulse", initial_data_direction=b"outgoing")
def layout(order):
    """lines with unknown values"""
    t = tokens_for(); toks = []; lines = []
    for n in order:
        if n in STRS: lines.append(n.encode() + b" " + TEXT[n] + b"\n")
        else: lines.append(n.encode() + b" \x01%d\x02\n" % len(toks)); toks.append(t[n])
    return lines, toks
OTHER = [b"home_dir /a/b c\n", b"output_dir None\n", b"rl_0 -1.0\n", b"ru_0 3.0\n", b"use_cheb False\n", b"out_stem /x\n", b"\n", b"Rminimum 3\n", b"# nx 5\n", b" nx 6\n", b"nx2 7\n"]
def check(C):
    warm(H, units=UP, cfgs=[()])
    jobs = []
    def free(order, at, L, name):
        def f(C):
            lines, toks = layout(order)
            b = [T.ivar("b%d" % i, 8) for i in range(L)]
            ex = T.ivar("t_extra", 32)
            head = b"".join(lines[:at]); tail = b"".join(lines[at:])
            run(C, "%s, %d unknown bytes before line %d" % (name, L, at), [head] + b + [b"\n" + tail], order, toks)
        jobs.append((name + " free", f))
    def templ(order, at, n, pat, name, drop):
        def f(C):
            o2 = [x for x in order if x != n] if drop else order
            lines, toks = layout(o2)
            nb = n.encode(); pieces = []; k = 0
            for x in pat(nb):
                if x is None: pieces.append(T.ivar("b%d" % k, 8)); k += 1
                else: pieces.append(x)
            v = b"ingoing" if n in STRS else b"77" if n in INTS else b"-0.25"
            j = min(at, len(lines))
            run(C, "%s, line like '%s'%s" % (name, b"".join(b"?" if x is None else x for x in pat(nb)).decode(), " without the real one" if drop else ""), [b"".join(lines[:j])] + pieces + [b" " + v + b"\n" + b"".join(lines[j:])], o2, toks)
        jobs.append((name + " " + n, f))
    rev = ORDER[::-1]; srt = sorted(ORDER); mix = ORDER[13:] + ORDER[:13]
    import random as rnd
    g = rnd.Random(5); sh1 = list(ORDER); g.shuffle(sh1)
    orders = [("written order", ORDER), ("reversed", rev), ("sorted", srt), ("rotated", mix), ("shuffled", sh1)]
    def plain(nm, order, extra, end):
        def f(C):
            lines, toks = layout(order)
            if extra:
                g = rnd.Random(9); L2 = list(lines)
                for x in OTHER: L2.insert(g.randrange(len(L2) + 1), x)
                lines = L2
            data = b"".join(lines)
            if not end: data = data[:-1]
            c = run(C, "%s%s%s" % (nm, " with other lines" if extra else "", "" if end else ", no newline at the end"), [data], order, toks)
            if end: c.validate()
        jobs.append((nm, f))
    for nm, o in orders:
        plain(nm, o, False, True); plain(nm, o, True, False)
    for i, (nm, o) in enumerate(orders[:2] if not C.thorough else orders):
        for at in ((0, 9) if not C.thorough else (0, 5, 14, 27)):
            free(o, at, 3 if not C.thorough else 4, nm)
    for L in (1, 2): free(ORDER, 0, L, "short"); free(ORDER, 27, L, "short")
    P = [lambda nb: [None, nb], lambda nb: [nb, None], lambda nb: [None, nb[1:]], lambda nb: [nb[:-1], None], lambda nb: [nb[:-1]], lambda nb: [nb[:1], None, nb[1:]]]
    if C.thorough: P += [lambda nb: [nb, None, None], lambda nb: [None, None, nb], lambda nb: [nb[:1], None] + ([nb[2:]] if len(nb) > 2 else [])]
    for i, n in enumerate(ORDER):
        for j, pat in enumerate(P):
            for drop in (False, True):
                if not C.thorough and (i + j + drop) % 2: continue
                nm, o = orders[(i + j) % len(orders)]
                templ(o, (0, 11, 27)[(i + j) % 3] if not drop else (0, 27)[j % 2], n, pat, nm, drop)
    C.parallel(jobs)
    C.bounds.append("27 parameters; 5 orders of the lines; one further line of up to %d unknown bytes (any of the 256 values, so it may split into lines) at several places, or a name with %s unknown characters added, changed or removed; with and without the real line" % (4 if C.thorough else 3, "1-2" if C.thorough else "one"))
    C.assumptions += ["numeric values are unknown 32-bit integers / reals as tokens (the conversion of decimal text is the C library's)", "lines are shorter than the stream buffers"]
