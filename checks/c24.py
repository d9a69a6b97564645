from gr import *
EXPLANATION = ("Symbolic execution of Csv::write, write_R_psl, write_n_psl and write_x_y_z (with Grid, Sphere and Cheb under them; file streams are byte-level models that keep numbers as terms). "
               "For every path the file's name, header and rows are taken apart; the solver decides that each row's value is the one of the point named by the row's own coordinates, for all field contents, and that a row is present exactly when the point is selected.")
UO = ["cheb", "finite_diff", "sphere", "grid", "io"]
H = r'''
#include "vp.h"
#include "grid.hpp"
#include "io.hpp"
#include <cmath>
extern "C" void vp_main() {
  GRID
  Sphere s(g.nl(),g.nm(),nlat,nphi);
#if USE_CHEB
  Cheb q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#else
  FD q(nx,vp_dbl("Rmin"),vp_dbl("Rmax"));
#endif
  const long what=vp_size("what"), M=nlat*nphi, sc=vp_size("save_coords"), itm=vp_size("itm");
  const size_t NV=what==0 ? vp_size("len") : N;
  std::vector<double> v(NV); for (size_t i=0;i<NV;i++) v[i]=vp_real("v",(long)i);
  const std::string name=vp_size("name")==0 ? "dir/f" : "rho_x.y";
  vp_mark("begin");
  if (what==0) Csv::write(name,itm,v);
  if (what==1) Csv::write_R_psl(g,name,sc,itm,v);
#if USE_CHEB
  if (what==2) Csv::write_n_psl(g,name,sc,itm,v);
#endif
  if (what==3) Csv::write_x_y_z(g,name,sc,itm,vp_dbl("vmin"),vp_dbl("vmax"),vp_dbl("rmin"),vp_dbl("rmax"),v);
  vp_mark("written");
  for (size_t i=0;i<NV;i++) vp_out("v1",(long)i,v[i]);
  for (size_t ix=0;ix<nx;ix++) vp_out("R",(long)ix,q.pt(ix));
  for (size_t it=0;it<nlat;it++) vp_out("th",(long)it,s.theta(it));
  for (size_t ip=0;ip<nphi;ip++) vp_out("ph",(long)ip,s.phi(ip));
  if (what==1 || what==2) {
    std::vector<double> P(nx*nl);
    for (size_t ix=0;ix<nx;ix++) {
      std::vector<double> x(M), y(nl,4.0);
      for (size_t it=0;it<nlat;it++) for (size_t ip=0;ip<nphi;ip++) x[s.indx(it,ip)]=v[g.indx_R_th_ph(ix,it,ip)];
      s.power_spectrum(x,y);
      for (size_t l=0;l<nl;l++) P[nl*ix+l]=y[l];
    }
#if USE_CHEB
    if (what==2) for (size_t l=0;l<nl;l++) {
      std::vector<double> x(nx), y(nx);
      for (size_t ix=0;ix<nx;ix++) x[ix]=std::sqrt(P[nl*ix+l]);
      q.to_ch(x,y);
      for (size_t ix=0;ix<nx;ix++) P[nl*ix+l]=y[ix];
    }
#endif
    for (size_t k=0;k<nx*nl;k++) vp_out("ps",(long)k,P[k]);
  }
}
'''
H = PRE + H.replace('#include "vp.h"\n#include "grid.hpp"\n', "")
DIRS = lambda env: {"dir/": ""}
NAMES = ["dir/f", "rho_x.y"]
HEAD = {1: ["R", "l", "log(value)"], 2: ["n", "l", "log(value)"], 3: ["x", "y", "z", "value"]}
KIND = {0: "", 1: "_RPsl", 2: "_NPsl", 3: "_XYZ"}
class Bad(Missing): pass
def numtok(t):
    """number and whether its text keeps it"""
    x, prec, fl, w = t[1:5]; f = fl & 3
    if x.__class__ is R: return x, (f == 0 and prec >= 15) or (f == 2 and prec >= 14) or (f == 1 and prec >= 15)
    if x.__class__ is not float and x.__class__ is not int: return x, True
    s = ("%.*e" if f == 2 else "%.*f" if f == 1 else "%.*g") % (prec if f or prec else 1, x)
    return x, abs(float(s) - x) <= 1e-13 * abs(x)
def table(o, name):
    """rows of cells of a csv file; a cell is (number term or float or text, exact)"""
    if o.native:
        if name not in o.files: raise Bad("there is no file %s; files: %s" % (name, sorted(o.files)))
        txt = o.files[name]
        if txt and not txt.endswith("\n"): raise Bad("the file does not end with a newline")
        out = []
        for ln in txt.split("\n")[:-1]:
            row = []
            for c in ln.split(","):
                try: row.append((float(c), True))
                except ValueError: row.append((c, True))
            out.append(row)
        return out
    fs = o.path.streams.files if o.path.streams is not None else {}
    if name not in fs: raise Bad("there is no file %s; files: %s" % (name, sorted(fs)))
    memo = o.path.extra.setdefault("tables", {})
    if name in memo: return memo[name]
    out = []; row = []; cell = []
    def close():
        d = [t for t in cell if t.__class__ is tuple]
        if d:
            if len(d) > 1 or any(t.__class__ is not tuple and t != 32 for t in cell): raise Bad("a cell with more than a number: %r" % (cell[:9],))
            if d[0][0] == "int": row.append((d[0][1], True))
            else: row.append(numtok(d[0]))
        else:
            if any(t.__class__ is not int for t in cell): raise Unsupported("symbolic text")
            s = bytes(cell).decode("latin1")
            try: row.append((float(s), True))
            except ValueError: row.append((s, True))
        cell.clear()
    for t in fs[name]:
        if t == 44: close()
        elif t == 10: close(); out.append(row); row = []
        else: cell.append(t)
    if cell or row: raise Bad("the file does not end with a newline")
    memo[name] = out
    return out
def rows_of(o, name, what, head):
    t = table(o, name)
    if head:
        if not t or [c[0] for c in t[0]] != HEAD[what]: raise Bad("the first line is %r, not the column labels %r" % ([c[0] for c in t[0]] if t else None, HEAD[what]))
        t = t[1:]
    for r in t:
        if len(r) != (len(HEAD[what]) if what else 1): raise Bad("a row with %d columns: %r" % (len(r), r))
        if any(c[0].__class__ is str for c in r): raise Bad("a row that is not numbers: %r" % (r,))
    return t
def keyed(o, name, what, head, keys):
    """key index -> row; every row's coordinates must be those of one of the keys, no key twice"""
    memo = o.__dict__.setdefault("_keyed", {})
    if name in memo: return memo[name]
    arr = np.array(keys); got = {}
    for r in rows_of(o, name, what, head):
        co = []
        for c, ex in r[:-1]:
            if c.__class__ in (R, I): raise Unsupported("symbolic coordinates")
            co.append(float(c))
        d = np.abs(arr - np.array(co)).max(axis=1); j = int(d.argmin())
        if d[j] > 1e-10: raise Bad("a row for %r, which is no grid point" % (co,))
        if not all(ex for c, ex in r[:-1]): raise Bad("coordinates %r are written with too few digits" % (co,))
        if j in got: raise Bad("two rows for %r" % (co,))
        got[j] = r[-1]
    memo[name] = got
    return got
def keys_of(o, s, cfg, what):
    if what == 1: return [(float(o["R", ix]), float(l)) for ix in range(s["nx"]) for l in range(s["nl"])]
    if what == 2: return [(float(n), float(l)) for n in range(s["nx"]) for l in range(s["nl"])]
    out = [None] * (s["nx"] * s["nlat"] * s["nphi"])
    for ix, it, ip in points(s):
        r, t, f = float(o["R", ix]), float(o["th", it]), float(o["ph", ip])
        out[idx3(s, cfg, ix, it, ip)] = (r * math.sin(t) * math.cos(f), r * math.sin(t) * math.sin(f), r * math.cos(t))
    return out
def structure(C, c, p, lab, fn):
    """fn(o) raises Bad when the file is not as stated"""
    lab = c.label + " " + lab
    C.obligation()
    def conf(o):
        try: fn(o)
        except Bad as e: return str(e)
    try: fn(Sym(c, p))
    except (Bad, Missing) as e: C.fail(c, p, lab, str(e), conf); return False
    except Unsupported as e: C.undecided_(lab, str(e)); return False
    C.discharge(lab); return True
def power_job(s, cfg, what, ix0, sc, itm, nm, geo):
    def f(C):
        N = s["nx"] * s["nlat"] * s["nphi"]
        rng = random.Random(11)
        M = s["nlat"] * s["nphi"]
        base = [rng.uniform(-1, 1) for _ in range(N)]
        tiny = {ix for ix in range(s["nx"]) if ix % 3 == 2 and ix != ix0}
        def reals(n, i):
            if i // M == ix0: return None
            return base[i] * (1e-9 if i // M in tiny else 1.0)
        c = C.case("%s of %s, unknown sphere %d, save %d%s" % ("R-l table" if what == 1 else "n-l table", sh_str(s), ix0, itm, "" if sc else ", no labels"), H, cfg=cfg, units=UO, nat_files=DIRS,
                   config=dict(s, **geo, what=what, save_coords=sc, itm=itm, name=nm, len=0, reals=reals, lazy=True), ranges=dict(v=(-0.5, 0.5)), max_paths=4000)
        c.run()
        name = "%s%s_%d.csv" % (NAMES[nm], KIND[what], itm)
        low = math.log(10.0)
        for p in c.good():
            try: keys = keys_of(Sym(c, p), s, cfg, what)
            except (Missing, TypeError) as e: C.undecided_(c.label, "coordinates: %s" % e); continue
            def full(o):
                g = keyed(o, name, what, sc, keys)
                if len(g) != len(keys): raise Bad("%d rows for %d points" % (len(g), len(keys)))
                for j, (x, ex) in g.items():
                    if not ex: raise Bad("the value at %r is written with too few digits" % (keys[j],))
            if not structure(C, c, p, "labels and one row per point", full): continue
            C.obligation()
            fs = [n for n in p.streams.files if p.streams.files[n]]
            if fs == [name]: C.discharge()
            else: C.fail(c, p, c.label + " one file", "files %r" % fs, lambda o: None if [n for n in o.files] == [name] else "files %r" % sorted(o.files))
            for j in range(len(keys)):
                def want(o):
                    x = o["ps", j]
                    if x.__class__ is not R: return math.log(x) / low if x >= 1e-16 else -16.0
                    cd = T.rcmp("lt", x, 1e-16)
                    if cd.__class__ is B and not o.native:
                        pcs = [q for q in o.path.pc if q.__class__ is B]
                        if not c.solver.feasible(pcs + [cd]): return o.log(x) / low
                        if not c.solver.feasible(pcs + [T.bnot(cd)]): return -16.0
                    return o.ite(cd, -16.0, o.log(x) / low)
                c.eq(p, "value at %s %s" % (("radius" if what == 1 else "mode"), divmod(j, s["nl"])), lambda o: (keyed(o, name, what, sc, keys)[j][0], want(o)), ntol=1e-6)
        c.validate()
    return f
def xyz_job(s, cfg, mode, sc, itm, nm, geo):
    def f(C):
        N = s["nx"] * s["nlat"] * s["nphi"]
        rng = random.Random(13)
        base = [rng.uniform(-1, 1) for _ in range(N)]
        base[0] = 0.5; 
        if N > 2: base[2] = -0.5
        free = {1, N // 2, N - 1} if mode == "values" else set()
        reals = lambda n, i: None if i in free else base[i]
        q = dict(s, **geo, what=3, save_coords=sc, itm=itm, name=nm, len=0, reals=reals)
        rg = dict(v=(-1, 1), vmin=(0.0, 0.6), vmax=(0.3, 1.0), rmin=(geo["Rmin"] - 0.2, geo["Rmax"]), rmax=(geo["Rmin"], geo["Rmax"] + 0.5))
        if mode == "values": q.update(vmin=0.25, vmax=0.75, rmin=geo["Rmin"] - 0.1, rmax=geo["Rmax"] + 0.1)
        elif mode == "vrange": q.update(rmin=geo["Rmin"] - 0.1, rmax=geo["Rmax"] + 0.1)
        elif mode == "rrange": q.update(vmin=0.1, vmax=0.9)
        c = C.case("Cartesian table of %s, unknown %s, save %d%s" % (sh_str(s), {"values": "values", "vrange": "value range", "rrange": "radius range"}[mode], itm, "" if sc else ", no labels"), H, cfg=cfg, units=UO, nat_files=DIRS, config=q, ranges=rg, max_paths=4000)
        c.run()
        name = "%s%s_%d.csv" % (NAMES[nm], KIND[3], itm)
        eps = 1e-9; nsel = set()
        for p in c.good():
            try: keys = keys_of(Sym(c, p), s, cfg, 3)
            except (Missing, TypeError) as e: C.undecided_(c.label, "coordinates: %s" % e); continue
            rad = [math.sqrt(sum(x * x for x in k)) for k in keys]
            def full(o):
                for j, (x, ex) in keyed(o, name, 3, sc, keys).items():
                    if not ex: raise Bad("the value at %r is written with too few digits" % (keys[j],))
            if not structure(C, c, p, "labels and rows of grid points", full): continue
            nsel.add(len(keyed(Sym(c, p), name, 3, sc, keys)))
            for j in range(N):
                def sel(o):
                    a = o.abs(o["v1", j]); lim = [o.v("vmin"), o.v("vmax"), o.v("rmin"), o.v("rmax")]
                    if j in keyed(o, name, 3, sc, keys): return o.And(a > lim[0] - eps, a < lim[1] + eps, rad[j] > lim[2] - eps, rad[j] < lim[3] + eps)
                    return o.Or(a <= lim[0] + eps, a >= lim[1] - eps, lim[2] >= rad[j] - eps, lim[3] <= rad[j] + eps)
                c.holds(p, "point %d is listed when selected" % j, sel)
                if j in keyed(Sym(c, p), name, 3, sc, keys):
                    def val(o):
                        g = keyed(o, name, 3, sc, keys)
                        if j not in g: raise Missing("no row for point %d" % j)
                        return g[j][0], o.v("v", j)
                    c.eq(p, "value of point %d" % j, val)
        C.require(len(nsel) > 1, "different selections in " + c.label)
        c.validate()
    return f
def plain_job(n, itm, nm):
    def f(C):
        s = shape(9, 1, 0, 2, 2)
        c = C.case("plain list of %d values, save %d" % (n, itm), H, units=UO, nat_files=DIRS, config=dict(s, cl=20.0, Rmin=1.0, Rmax=2.0, what=0, save_coords=0, itm=itm, name=nm, len=n)).run()
        name = "%s_%d.csv" % (NAMES[nm], itm)
        for p in c.good():
            def full(o):
                r = rows_of(o, name, 0, False)
                if len(r) != n: raise Bad("%d rows for %d values" % (len(r), n))
                for x in r:
                    if not x[0][1]: raise Bad("a value is written with too few digits")
            if not structure(C, c, p, "one value per line", full): continue
            for j in range(n): c.eq(p, "value %d" % j, lambda o: (rows_of(o, name, 0, False)[j][0][0], o.v("v", j)))
        c.validate()
    return f
def closed_job(what, cfg):
    def f(C):
        s = shape(9, 1, 0, 2, 2)
        c = C.case("unwritable %s" % (KIND[what] or "list"), H, cfg=cfg, units=UO, nat_files=DIRS, config=dict(s, cl=20.0, Rmin=1.0, Rmax=2.0, vmin=0.1, vmax=0.9, rmin=0.0, rmax=5.0, what=what, save_coords=1, itm=0, name=0, len=3, reals=lambda n, i: 0.3 + 0.01 * i, open_fails=lambda n: True)).run()
        for p in c.good():
            C.obligation()
            if any(p.streams.files.values()) or not any(x[0] == "written" for x in p.marks): C.undecided_(c.label, "output after a failed open")
            else: C.discharge(c.label + " is reported, and the program goes on")
    return f
def check(C):
    S = [shape(3, 2, 1, 3, 4), shape(4, 3, 2, 4, 5)]
    if C.thorough: S += [shape(9, 2, 2, 3, 5), shape(5, 4, 3, 5, 8)]
    G = [dict(cl=20.0, Rmin=0.75, Rmax=20.0), dict(cl=10.0, Rmin=2.0, Rmax=3.5)]
    warm(H, units=UO); jobs = []
    k = 0
    for s in S:
        for cfg in CFGS:
            for ix0 in range(s["nx"]) if C.thorough else (k % s["nx"], (k + 1) % s["nx"]):
                jobs.append(("R-l", power_job(s, cfg, 1, ix0, k % 3 != 1, (0, 7, 12, 1234567)[k % 4], k % 2, G[k % 2]))); k += 1
            if "cheb" in cfg:
                s2 = dict(s, nl=min(s["nl"], 2), nm=min(s["nm"], 2))
                jobs.append(("n-l", power_job(s2, cfg, 2, k % s["nx"], k % 3 != 1, (0, 3)[k % 2], k % 2, G[k % 2]))); k += 1
    for s in (shape(3, 1, 1, 2, 3), shape(2, 2, 1, 3, 4)):
        for cfg in CFGS:
            if "cheb" in cfg and s["nx"] < 3: continue
            for mode in ("values", "vrange", "rrange"):
                jobs.append(("xyz", xyz_job(s, cfg, mode, k % 3 != 1, (0, 5, 31)[k % 3], k % 2, G[k % 2]))); k += 1
    for n, itm in ((1, 0), (6, 41)): jobs.append(("plain", plain_job(n, itm, n % 2)))
    for w in (0, 1, 3): jobs.append(("closed", closed_job(w, ("contig",))))
    C.parallel(jobs)
    C.bounds.append("grid shapes %s for the spectra (one sphere of unknown data at a time, the other spheres concrete, some below the floor), 3x2x3 and 2x3x4 for the Cartesian table; four configurations; save indices 0 to 1234567; two file stems; with and without labels" % ", ".join(map(sh_str, S)))
    C.assumptions += ["SHTns and FFTW transforms are the exact ones of their documentation", "doubles are treated as real numbers; a number written with at least 15 significant digits counts as the number", "the file did not exist before (the run script makes a new directory)"]
