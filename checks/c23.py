from pyr import *
import c21
from c21 import H, UP, INTS, DBLS, STRS
from eom import ORDER
EXPLANATION = ("runscript_template.py and Sim.launch_run are executed by CPython on proxy numbers (file system, time and subprocess are recorders); the parameter file they write, with its unknown numbers, is then the input of the symbolically executed Params constructor of the solver. "
               "The solver decides that each getter returns the value the script ended up with under that name, and the recorded launch command is resolved against the recorded files and working directory.")
def spec_exact(sp):
    """does this format keep a double?"""
    q = re.fullmatch(r"[<>^=+ -]*\d*(?:\.(\d+))?([eEgGfr]?)", sp or "")
    if not sp: return True
    if q is None or q.group(1) is None: return False
    return (q.group(2) in "eE" and q.group(2) and int(q.group(1)) >= 16) or (q.group(2) in "gG" and int(q.group(1)) >= 17)
def solver_commands(w, A):
    """(argv, cwd) of every launch of the solver binary the recorded calls lead to"""
    out = []
    bins = {posixpath.normpath(b) for b in w.copies}
    def words(s):
        lx = shlex.shlex(s, posix=True, punctuation_chars="|&;<>()"); lx.whitespace_split = True; lx.commenters = ""
        return list(lx)
    def line(s, cwd, depth=0):
        try: ws = words(s)
        except ValueError: return
        cmds = [[]]; skip = False
        for x in ws:
            if set(x) <= set("|&;()") and x: cmds.append([])
            else: cmds[-1].append(x)
        for c in cmds: cwd = simple(c, cwd, depth)
    def simple(c, cwd, depth):
        i = 0
        while i < len(c) and (c[i] in ("time", "exec", "nohup", "srun", "env", "nice") or re.match(r"[A-Za-z_]\w*=", c[i])): i += 1
        c = c[i:]
        if not c: return cwd
        args = []; k = 1
        while k < len(c):
            if re.fullmatch(r"\d*[<>]+&?\d*", c[k]) or c[k] in (">", "<", ">>", ">&", "2"):
                if c[k] == "2" and k + 1 < len(c) and c[k + 1].startswith(">"): k += 1
                k += 2 if k + 1 < len(c) and c[k] in (">", "<", ">>", ">&") else 1
                continue
            args.append(c[k]); k += 1
        if c[0] == "cd" and args: return posixpath.normpath(posixpath.join(cwd, args[0]))
        if c[0] in ("sbatch", "sh", "bash") and args:
            if args[0] == "-c" and len(args) > 1: line(args[1], cwd, depth + 1); return cwd
            f = posixpath.normpath(posixpath.join(cwd, args[-1]))
            if f in w.files and depth < 3:
                d = cwd
                for s in w.files[f].split("\n"):
                    s = s.strip()
                    if s and not s.startswith("#"): line(s, d, depth + 1)
            else: out.append((None, "%s %s: no such script was written" % (c[0], args[-1])))
            return cwd
        b = posixpath.basename(c[0])
        if b == posixpath.basename(str(A.get("bin_name", ""))): out.append(([posixpath.normpath(posixpath.join(cwd, c[0]))] + args, cwd))
        return cwd
    for cmd, cwd in w.calls:
        if isinstance(cmd, (list, tuple)): simple([str(x) for x in cmd], cwd, 0)
        else: line(cmd, cwd)
    return out
def command_problem(w, A, params_path):
    cs = solver_commands(w, A)
    if not cs: return "no command starts the solver"
    for argv, cwd in cs:
        if argv is None: return cwd
        if argv[0] not in w.copies and not argv[0].startswith(HOME + "/Bin/"): return "the command starts %s, which is not there" % argv[0]
        if len(argv) != 3: return "the solver gets %d arguments: %r" % (len(argv) - 1, argv[1:])
        if posixpath.normpath(posixpath.join(cwd, argv[1])) != params_path: return "the parameter file passed is %s in %s, the one written is %s" % (argv[1], cwd, params_path)
        od = posixpath.normpath(posixpath.join(cwd, argv[2]))
        if od != w.path(A["output_dir"]): return "the output directory passed is %s in %s, the run's is %s" % (argv[2], cwd, A["output_dir"])
    return None
def variants(th):
    out = []
    for cheb in (False, True):
        for comp in ("home", "della"):
            for t, od, d in ((True, None, "ingoing"), (False, "/my_run", "outgoing")) if not th else [(t, od, d) for t in (True, False) for od in (None, "/my_run") for d in ("ingoing", "outgoing", "time_symmetric")]:
                out.append(dict(use_cheb=cheb, computer=comp, time_it=t, output_dir=od, initial_data_direction=d, out_stem="/scratch/u/sf"))
    return out
def check(C):
    import eom
    eom.warm(H, units=UP, cfgs=[()])
    C.parallel([(json.dumps(v), lambda C, v=v: one(C, v)) for v in variants(C.thorough)])
    C.bounds += ["all numeric settings of the template (reals / integers of any value in their domain) at once, both discretisations, launch on this machine and through sbatch, with and without a given output directory and timing; text values: each initial-data direction"]
    C.assumptions += ["str() of a Python float is read back exactly by std::stod", "integer settings fit in 32 bits", "text settings contain no white space", "a batch job starts in the directory it was submitted from"]
def one(C, choices):
    lab = "launch[%s,%s%s%s]" % ("cheb" if choices["use_cheb"] else "fd", choices["computer"], ",timed" if choices["time_it"] else "", ",own directory" if choices["output_dir"] else "")
    def fn(ctx):
        V = Vals(ctx); w = World()
        for b in ("default_fd.run", "default_cheb.run"): w.copies[HOME + "/Bin/" + b] = None
        sim = template(w, choices, V, lambda self, Base: Base.launch_run(self))
        if sim is None: raise Unsupported("the template does not launch a run")
        return V.v, dict(vars(sim)), w
    try: paths = P.explore(fn)
    except Unsupported as e: C.undecided_(lab, "Unsupported: %s" % e); return
    for n in ("sim_class.py: Sim.launch_run", "sim_class.py: Sim.write_sim_params", "sim_class.py: Sim.make_output_dir", "sim_class.py: Sim.write_slurm_script", "runscript_template.py: settings"): STATS.functions[n] = 1
    done = {}
    for ctx, r in paths:
        P.CTX = ctx
        if isinstance(r, Exception):
            C.obligation(); fail(C, lab + " launches", ctx, choices, None, "raises %r" % r); continue
        V, A, w = r
        txt = [(p, t) for p, t in w.files.items() if re.search(r"^(nx|dt) ", t, re.M)]
        C.obligation()
        if not txt: fail(C, lab + " writes a parameter file", ctx, choices, None, "no file has the parameters"); continue
        C.discharge()
        path, text = txt[-1]
        C.obligation()
        bad = command_problem(w, A, path)
        if bad is None: C.discharge(lab + " command passes the parameter file and the output directory")
        else: fail(C, lab + " command passes the parameter file and the output directory", ctx, choices, None, bad); continue
        # the solver reads this file
        used = sorted({int(x) for x in re.findall("\x01(\\d+)\x02", text)})
        ren = {k: i for i, k in enumerate(used)}
        t2 = re.sub("\x01(\\d+)\x02", lambda q: "\x01%d\x02" % ren[int(q.group(1))], text)
        toks = []
        for k in used:
            x, sp = ctx.tokens[k]
            toks.append(T.ivar("tok%d" % ren[k], 32) if isinstance(x, P.SInt) else T.rvar("tok%d" % ren[k]))
        key = t2
        if key not in done:
            c = C.case("solver reads the file of " + lab, H, units=UP, config=dict(files={"params.txt": list(t2.encode())}, tokens=toks, vars=toks))
            c.run(expect_normal=False); done[key] = c
        c = done[key]
        for p in c.paths:
            C.obligation()
            if p.end is not None: fail(C, lab + " the solver accepts the file", ctx, choices, None, "ended as %r" % (p.end,)); continue
            C.discharge(lab + " the solver accepts the file")
            for n in list(INTS) + list(DBLS) + list(STRS):
                C.obligation(); L = lab + " " + n
                if n not in A: fail(C, L, ctx, choices, n, "the script has no such value"); continue
                a = A[n]
                if n in STRS:
                    kk = p.outs[n + ".n"][0]; got = [p.outs[n].get(i) for i in range(kk)] if kk.__class__ is int else None
                    if got == list(str(a).encode()): C.discharge(L)
                    else: fail(C, L, ctx, choices, n, "reads %r" % (got,))
                    continue
                g = p.outs[n][0]; why = None
                t = g
                if isinstance(g, T.T):
                    hit = [k for k in toks if k.args[0] in T.free_vars(g)]
                    if len(hit) == 1:
                        h = hit[0]
                        if n in INTS: e = T.icmp("eq", g, T.isext(h, 32, 64)) if h.__class__ is I else False
                        else: e = T.rcmp("eq", g, h if h.__class__ is R else T.mk(R, "i2r", (h, True)))
                        if e is True or (e.__class__ is B and str(c.solver.check([y for y in p.pc if y.__class__ is B] + [T.bnot(e)])) == "unsat"): t = h
                        elif h is t: pass
                        else: t = g if g is not h else h
                if isinstance(t, T.T) and t.op == "v" and t.args[0].startswith("tok"):
                    x, sp = ctx.tokens[used[int(t.args[0][3:])]]
                    if n in V and ctx.check([P.rv(V[n]) != P.rv(a)]) != z3.unsat: why = "not the setting"
                    elif not spec_exact(sp): why = "written with the format %r" % sp
                    elif n in INTS and not isinstance(x, P.SInt): why = "not written as an integer"
                    elif not isinstance(a, (P.SNum, int, float)): why = "the script's value is %r" % (a,)
                    elif ctx.check([P.rv(x) != P.rv(a)]) != z3.unsat: why = "another value than the script's"
                elif isinstance(t, T.T): why = "not the written number"
                else:
                    v = float(sgn(t, 64)) if n in INTS and t.__class__ is int else float(t)
                    if not isinstance(a, (P.SNum, int, float)): why = "the script's value is %r" % (a,)
                    elif not isinstance(a, P.SNum): why = None if float(a) == v else "%r for %r" % (v, a)
                    elif ctx.check([P.rv(a) != P.rv(v)]) != z3.unsat: why = "a constant %r" % v
                if why is None: C.discharge(L)
                else: fail(C, L, ctx, choices, n, why)
    C.witness(lab + " launches on %d feasible paths" % len(paths))
FAKE = r'''#!/bin/sh
d=%s
printf '%%s\n' "$(pwd)" "$0" "$@" > $d/record.$$
'''
def fail(C, lab, ctx, choices, name, why):
    k = re.sub(r"\[.*?\]", "", lab); n0 = C.fails_done.get(k, 0); C.fails_done[k] = n0 + 1
    if n0 >= 2 or len(C.rec["viol"]) >= 5: return
    names = {}
    from c22 import zvars
    for d in ctx.defs + ctx.pc:
        for x in zvars(d): names[str(x)] = x
    rng = random.Random(C.seed + 5)
    usual = {"nx": 33, "nlat": 12, "nphi": 16, "evolve_time": 40, "num_saved_times": 7, "cfl": 0.75, "black_hole_mass": 1.5123456789, "black_hole_spin": 0.7, "compactification_length": 13.123456789, "nl": 5, "nm": 4, "rl_0": 1.2, "ru_0": 3.1,
             "km1": 0.123456789012, "k0": 1.1, "k1": 0.21, "k2": 0.31, "V2": 1.3, "V3": 0.7, "V4": 55.5, "l_ang": 3, "m_ang": 2, "amp": 0.00123456789}
    cands = []
    r, m = ctx.check([names[n] == z3.RealVal(str(v)) for n, v in usual.items() if n in names], 5000, True, True)
    if m is None: r, m = ctx.check([names[n] == z3.RealVal(str(v)) for n, v in usual.items() if n in names and rng.random() < 0.6], 5000, True, True)
    if m is not None: cands.append({n: zval(m, x) for n, x in names.items() if "!" not in n})
    cands.append({})
    cands.append(dict(usual, nx=65, nlat=20, nphi=24))
    for N in cands:
        N = dict(usual, **N)
        for n in list(N):
            if n in ("nx", "nlat", "nphi", "nl", "nm", "num_saved_times", "l_ang", "m_ang", "num_omp_levels", "num_threads"): N[n] = int(round(N[n]))
        bad = replay(C, choices, N)
        if bad:
            C.report_raw(lab, why, bad, dict(property=C.pid, settings=dict(N, **choices), observed=bad)); return
    C.rec["unconfirmed"].append("%s: %s" % (lab, why))
def replay(C, choices, N):
    d = scratch()
    try:
        os.makedirs(d + "/Bin"); os.makedirs(d + "/bin"); os.makedirs(d + "/stem"); os.makedirs(d + "/Output")
        for f in ("Bin/default_fd.run", "Bin/default_cheb.run"):
            open(os.path.join(d, f), "w").write(FAKE % d); os.chmod(os.path.join(d, f), 0o755)
        open(d + "/bin/sbatch", "w").write('#!/bin/sh\nexec bash "$1"\n'); os.chmod(d + "/bin/sbatch", 0o755)
        for x in ("Bin", "stem", "Output"): os.chmod(os.path.join(d, x), 0o777)
        ch = dict(choices, out_stem=d + "/stem")
        rc, A, out = pyr_native(ch, N, d)
        if rc != 0 or A is None: return ("the script ends with status %r: %s" % (rc, out[-400:])) if "Traceback" in out else None
        recs = [open(os.path.join(d, f)).read().split("\n")[:-1] for f in os.listdir(d) if f.startswith("record.")]
        if not recs: return "the solver was not started: " + out[-300:]
        for q in recs:
            cwd, argv = q[0], q[2:]
            if len(argv) != 2: return "the solver was started with arguments %r" % (argv,)
            pf = os.path.join(cwd, argv[0]); od = os.path.realpath(os.path.join(cwd, argv[1]))
            if od != os.path.realpath(os.path.join(d, A["output_dir"])): return "the solver gets the output directory %s, the run's is %s" % (od, A["output_dir"])
            if not os.path.isfile(pf): return "the solver gets the parameter file %s, which does not exist" % pf
            data = open(pf, "rb").read()
            case = C.case("replay", H, units=UP, nat_files=lambda env: {"params.txt": data})
            o = case.native_inputs({}, {})
            if o.rc != 0 or not o.ended: return "the solver ends with status %r on the parameter file" % o.rc
            for n in list(INTS) + list(DBLS):
                v = o.outs.get(n, {}).get(0); want = A.get(n)
                if want is None: return "the script has no value %s" % n
                if v is None or float(v) != float(want): return "the solver reads %s = %r, the script has %r" % (n, v, want)
                if n in N and n not in ("dt",) and n in ("nx", "nl", "nm", "nlat", "nphi", "black_hole_mass", "black_hole_spin", "compactification_length", "km1", "k0", "k1", "k2", "V2", "V3", "V4", "l_ang", "m_ang", "amp") and float(v) != float(N[n]): return "the solver reads %s = %r, the setting is %r" % (n, v, N[n])
            for n in STRS:
                s = bytes(o.outs.get(n, {}).get(i) for i in range(o.outs.get(n + ".n", {}).get(0, 0))).decode("latin1")
                if s != str(A.get(n)): return "the solver reads %s = %r, the script has %r" % (n, s, A.get(n))
                if n in choices and s != choices[n]: return "the solver reads %s = %r, the setting is %r" % (n, s, choices[n])
        return None
    finally: shutil.rmtree(d, ignore_errors=True)
def pyr_native(ch, N, d): return native(ch, N, False, d)
