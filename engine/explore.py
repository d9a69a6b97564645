"""Depth-first exploration of all feasible paths of a harness."""
import sys, time
import terms as T
from terms import B, Unsupported, NonFinite
from llexec import Machine, MemError, UninitUse, CppExc, ProgExit, Infeasible, Budget
import models, shtmodel
from solve import Solver, STATS
sys.setrecursionlimit(20000)

class Path: pass

def machine(irtext, config=None):
    m = Machine(irtext, models.MODELS)
    m.solver = Solver()
    m.solver.lazy = bool(config.get("lazy"))
    m.config = dict(config or {})
    m.overridden = []; m.line = m.config.get("line")
    if m.config.get("override"):
        import re
        m.models = dict(m.models)
        for pat, f in m.config["override"]:
            for n, fn in m.mod.funcs.items():
                if not fn.decl and "." not in n and re.match(pat, n[1:].strip('"')):
                    m.models[n[1:].strip('"')] = f; m.overridden.append(n)
    return m

def explore(m, entry="vp_main", max_paths=2000, on_path=None, args=()):
    """all paths; each Path has pc, outs, marks, end (None / ('exit', code) / ('exc', what) / ('mem', what)), extra, streams"""
    work = [[]]
    out = []
    while work:
        pre = work.pop()
        m.reset(pre)
        p = Path(); p.end = None; p.line = m.line
        try:
            m.run_ctors()
            m.running = True
            for c in m.config.get("pre", ()): m.assume(m.line.of(c) if m.line is not None else c)
            if m.line is not None:
                for c in m.line.range(): m.assume(c)
            m.call(entry, *args)
        except Infeasible:
            work += m.alts; continue
        except ProgExit as e: p.end = ("exit", e.code, e.how)
        except CppExc as e: p.end = ("exc", e.what)
        except MemError as e: p.end = ("mem", str(e), e.__class__.__name__)
        except NonFinite as e: p.end = ("nonfinite", str(e))
        p.pc = list(m.pc); p.outs = m.outs; p.marks = m.marks; p.extra = m.extra; p.streams = m.streams
        p.known = dict(m.known); p.decisions = list(m.decisions)
        p.live = {o.idx: (o.kind, o.site, o.hi - o.lo) for o in m.O.values() if o.kind not in ("global", "stack", "static")}
        work += m.alts
        out.append(p)
        STATS.paths += 1
        if on_path is not None: on_path(p)
        if len(out) > max_paths: raise Budget("more than %d paths" % max_paths)
    for k, v in m.executed.items():
        STATS.functions[k] = STATS.functions.get(k, 0) + v
    return out
