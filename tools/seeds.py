"""the planted bugs (see seed.py)"""
ALL = "cheb finite_diff sphere grid field params scalar_eom initial_data io"
FDC = "-DSHTNS_CONTIGUOUS_LONGITUDES"; CHC = FDC + " -DUSE_CHEB"
PAR = r'''
static void params(const std::string &extra = "", int nx = 17, int nt = 11, int ts = 3) {
   std::ofstream o("params.txt"); o.precision(17);
   o << extra << "nt " << nt << "\nnx " << nx << "\nnl 3\nnm 3\nnlat 5\nnphi 8\nt_step_save " << ts << "\ndt 0.001\ncompactification_length 20\nRmax 20\nRmin 1.8\nblack_hole_mass 1\nblack_hole_spin 0.4\nkm1 0.1\nk0 1\nk1 0.2\nk2 0.3\nV2 0.1\nV3 0.2\nV4 0.3\ninitial_data_type compact_pulse\ninitial_data_direction ingoing\namp 0.3\nrl 2.5\nru 30\nl_ang 2\nm_ang 1\n";
}
'''
SEEDS = []
def S(**k): SEEDS.append(k)
S(id="c02-spacing", prop="C02", src="finite_diff",
  edits=[("Source/finite_diff.cpp", "const double dx2 = pow(_dx,2);", "const double dx2 = _dx/(_n-1);")],
  needs="an interval whose length is not one", breaks="the second derivative scales with the inverse of the spacing instead of its square",
  demo=r'''#include "finite_diff.hpp"
#include "chk.hpp"
int main() { FD d(20, 1.5, 4.0); std::vector<double> v(20), w(20);
   for (int i = 0; i < 20; i++) v[i] = std::pow(d.pt(i), 3);
   d.der2(v, w); for (int i = 0; i < 20; i++) NEAR(w[i], 6 * d.pt(i), 1e-8); END; }
''')
S(id="c03-inplace", prop="C03", src="finite_diff",
  edits=[("Source/finite_diff.cpp", "      -         (eps/256.)*(  1.0) *v[i-4]\n", "      -         (eps/256.)*(  1.0) *((i<8) ? v[i-4] : tmp[i-4])\n")],
  needs="short-wavelength data at least four points away from the left filtered point", breaks="the filter reads already filtered values, so it is not one symmetric convolution of the unfiltered data",
  demo=r'''#include "finite_diff.hpp"
#include "chk.hpp"
int main() { int n = 40; FD d(n, 0, 1); std::vector<double> v(n); for (int i = 0; i < n; i++) v[i] = (i % 2) ? -1 : 1;
   d.filter(v); for (int i = 4; i < n - 4; i++) NEAR(v[i], 0, 1e-12); END; }
''')
S(id="c05-jacobian", prop="C05", src="cheb",
  edits=[("Source/cheb.cpp", "_jacobian{(_upper-_lower) / 2.0},", "_jacobian{(_upper-fabs(_lower)) / 2.0},")],
  needs="an interval that starts below zero", breaks="nodes and derivative are scaled for the wrong interval",
  demo=r'''#include "cheb.hpp"
#include "chk.hpp"
int main() { int n = 16; Cheb d(n, -1, 3); std::vector<double> v(n), w(n); for (int i = 0; i < n; i++) v[i] = std::pow(d.lower() + (d.upper() - d.lower()) / 2 * (1 + std::cos(M_PI * i / (n - 1))), 3);
   d.der(v, w); for (int i = 0; i < n; i++) { double x = 1 + 2 * std::cos(M_PI * i / (n - 1)); NEAR(w[i], 3 * x * x, 1e-9); } END; }
''')
S(id="c07-pt", prop="C07", src="finite_diff",
  edits=[("Source/finite_diff.cpp", "return _dx*i + _lower;", "return _dx*(i + _lower);")],
  needs="a lower bound that is not zero", breaks="the whole grid is shifted: the lower bound is scaled by the spacing",
  demo=r'''#include "finite_diff.hpp"
#include "chk.hpp"
int main() { FD d(11, 2, 7); for (int i = 0; i < 11; i++) NEAR(d.pt(i), 2 + 0.5 * i, 1e-12); END; }
''')
S(id="c10-cl", prop="C10", src="cheb finite_diff sphere grid",
  edits=[("Source/grid.cpp", "(-2.0/cl)*pow(1.0 - (_radial.pt(ix)/cl),3);", "(-2.0/Rmax)*pow(1.0 - (_radial.pt(ix)/cl),3);")],
  needs="an outer edge that is not the compactification length", breaks="the second radial derivative uses the wrong chain-rule factor",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
int main() { double L = 10; size_t nx = 65; Grid g(L, 2.0, 6.0, nx, 2, 2, 4, 6); std::vector<double> v(nx*24), w(nx*24);
   for (size_t i = 0; i < nx*24; i++) { double r = g.R_to_r(g.R_th_ph(i)[0]); v[i] = 1/r; }
   g.set_partial2_r(v, w);
   for (size_t i = 0; i < nx*24; i++) { double r = g.R_to_r(g.R_th_ph(i)[0]); NEAR(w[i], 2/(r*r*r), 1e-5); } END; }
''')
S(id="c13-filter-m", prop="C13", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];", "Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[(l-m)%(_lmax+1)];")],
  needs="a mode with high l and small m", breaks="zonal modes are damped twice while sectoral modes are damped once, so the weight grows with m",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
#include <complex>
static double gain(Sphere &s, int l, int m) { std::vector<double> v = s.compute_ylm(l, m), w = v; s.filter(w); double a = 0, b = 0; for (size_t i = 0; i < v.size(); i++) { a += v[i]*w[i]; b += v[i]*v[i]; } return a/b; }
int main() { Sphere s(8, 8, 12, 20); for (int l = 0; l <= 8; l++) for (int m = 0; m < l; m++) TRUE(gain(s, l, m+1) <= gain(s, l, m) + 1e-9); END; }
''')
S(id="c14-power", prop="C14", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "p[l] += 2.0*(pow(r_Ylm,2) + pow(i_Ylm,2));", "p[l] += 2.0*(pow(r_Ylm + i_Ylm,2));")],
  needs="a field whose coefficient has both a real and an imaginary part", breaks="the power picks up the cross term of real and imaginary part",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
int main() { Sphere s(4, 4, 6, 10); std::vector<double> v(s.nSph()), p(4);
   for (size_t t = 0; t < 6; t++) for (size_t q = 0; q < 10; q++) v[s.indx(t, q)] = std::sqrt(15/(8*M_PI))*std::sin(s.theta(t))*std::cos(s.theta(t))*std::cos(s.phi(q) - 0.7);
   s.power_spectrum(v, p); NEAR(p[2], 0.5, 1e-9); NEAR(p[1], 0, 1e-9); END; }
''')
S(id="c16-edge", prop="C16", src="cheb finite_diff sphere grid", flags=CHC,
  edits=[("Source/grid.cpp", "      const double upr = inter_radial[_nx-1];", "      const double upr = inter_radial[_nx-1 - (_nx%2)];")],
  needs="an odd number of radial points", breaks="the outermost radial value is replaced by its neighbour's",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
int main() { for (size_t nx = 16; nx < 18; nx++) { Grid g(10, 2, 10, nx, 8, 8, 10, 18); size_t N = nx*180; std::vector<double> v(N), w;
   for (size_t i = 0; i < N; i++) v[i] = std::exp(0.3*g.R_th_ph(i)[0]); w = v; g.filter(w);
   for (size_t t = 0; t < 10; t++) for (size_t p = 0; p < 18; p++) { NEAR(w[g.indx_R_th_ph(0,t,p)], v[g.indx_R_th_ph(0,t,p)], 1e-9); NEAR(w[g.indx_R_th_ph(nx-1,t,p)], v[g.indx_R_th_ph(nx-1,t,p)], 1e-9); } } END; }
''')
EOM = r'''#include "scalar_eom.hpp"
#include "chk.hpp"
''' + PAR
S(id="c17-retro", prop="C17", src=ALL,
  edits=[("Source/scalar_eom.cpp", "_p_dphi_dr_f[indx] = 2.*a*pow(inv_r,2)/Sigma;", "_p_dphi_dr_f[indx] = 2.*fabs(a)*pow(inv_r,2)/Sigma;")],
  needs="a black hole that spins the other way (negative spin)", breaks="the frame-dragging term has the wrong sign, so the time derivative is not that of the wave equation",
  demo=EOM + r'''
/* mirror symmetry: spin a with f(phi) is spin -a with f(-phi) */
static std::vector<double> run(double sg) { params(); { std::ifstream i("params.txt"); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); size_t k = s.find("spin 0.4"); s.replace(k, 8, sg > 0 ? "spin 0.4" : "spin -0.4"); std::ofstream o("params.txt"); o << s; }
   Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi();
   Scalar_eom e(g, q); std::vector<double> f(N), p(N), fk(N), pk(N), out(N);
   for (size_t i = 0; i < N; i++) { double R = g.R_th_ph(i)[0], th = g.R_th_ph(i)[1], ph = g.R_th_ph(i)[2]*sg; f[i] = 0.1*std::cos(0.3*R)*std::sin(th)*std::cos(ph - 0.4); p[i] = 0; }
   e.set_k(g, f, p, fk, pk);
   for (size_t x = 0; x < q.nx(); x++) for (size_t t = 0; t < q.nlat(); t++) for (size_t k = 0; k < q.nphi(); k++) out[g.indx_R_th_ph(x,t,k)] = pk[g.indx_R_th_ph(x,t, sg > 0 ? k : (q.nphi()-k)%q.nphi())];
   return out; }
int main() { std::vector<double> a = run(1), b = run(-1); for (size_t i = 0; i < a.size(); i++) NEAR(a[i], b[i], 1e-9); END; }
''')
S(id="c18-level4", prop="C18", src=ALL,
  edits=[("Source/scalar_eom.cpp", "         f.l[i] = f.n[i] + _dt*f.k[i];\n         p.l[i] = p.n[i] + _dt*p.k[i];", "         f.l[i] = f.n[i] + _dt*f.k[i];\n         p.l[i] = p.n[i] + _dt*p.k[i]*(f.k[i]<0 ? 0.5 : 1.0);")],
  needs="points at which the field decreases", breaks="the fourth stage starts from half a step of p where f decreases, so the step is not fourth-order Runge-Kutta",
  demo=EOM + r'''
/* no space dependence: on a flat mode the step is RK4 of an ordinary differential equation pointwise at R=cl, where only the potential and p^2 terms remain */
int main() { params("", 17); Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi();
   Scalar_eom e(g, q); Field f("f", N, 0.2), p("p", N, -0.5);
   Field F("f", N, 0.2), P("p", N, -0.5);
   e.time_step(g, f, p);
   double h = q.dt(); std::vector<double> kf[4], kp[4], lf(F.n), lp(P.n); g.filter(F.n); g.filter(P.n); lf = F.n; lp = P.n;
   for (int s = 0; s < 4; s++) { kf[s].resize(N); kp[s].resize(N); e.set_k(g, lf, lp, kf[s], kp[s]); double c = s < 2 ? 0.5 : 1; for (size_t i = 0; i < N; i++) { lf[i] = F.n[i] + c*h*kf[s][i]; lp[i] = P.n[i] + c*h*kp[s][i]; } }
   for (size_t i = 0; i < N; i++) { NEAR(f.np1[i], F.n[i] + h/6*(kf[0][i] + 2*kf[1][i] + 2*kf[2][i] + kf[3][i]), 1e-13); NEAR(p.np1[i], P.n[i] + h/6*(kp[0][i] + 2*kp[1][i] + 2*kp[2][i] + kp[3][i]), 1e-13); } END; }
''')
S(id="c20-negative", prop="C20", src=ALL,
  edits=[("Source/initial_data.cpp", "      if (fabs(f[grid.indx_R_th_ph(ix,it,ip)]) > max_val) {\n         max_val = fabs(f[grid.indx_R_th_ph(ix,it,ip)]);", "      if (f[grid.indx_R_th_ph(ix,it,ip)] > max_val) {\n         max_val = f[grid.indx_R_th_ph(ix,it,ip)];")],
  needs="a mode whose largest value on the grid is negative (l=2, m=0 has its extremum at the pole: the choice l=3,m=1 on an even grid, or an odd azimuthal count)", breaks="the field is scaled by its largest positive value, not by its largest magnitude",
  demo=r'''#include "initial_data.hpp"
#include "chk.hpp"
''' + PAR + r'''
int main() { params("l_ang 1\nm_ang 1\nnphi 7\n"); Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi();
   std::vector<double> f(N), p(N); ID::compact_pulse(q, g, f, p); double m = 0; for (size_t i = 0; i < N; i++) m = std::max(m, std::fabs(f[i])); NEAR(m, 0.3, 1e-12);
   for (int l = 1; l <= 3; l++) { params("l_ang " + std::to_string(l) + "\nm_ang 1\nnlat 6\n"); Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi();
   std::vector<double> f(N), p(N); ID::compact_pulse(q, g, f, p); double m = 0; for (size_t i = 0; i < N; i++) m = std::max(m, std::fabs(f[i])); NEAR(m, 0.3, 1e-12); }
   params("l_ang 2\nm_ang 0\nnlat 4\nnl 3\n"); { Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi();
   std::vector<double> f(N), p(N); ID::compact_pulse(q, g, f, p); double m = 0; for (size_t i = 0; i < N; i++) m = std::max(m, std::fabs(f[i])); NEAR(m, 0.3, 1e-12); }
   END; }
''')
S(id="c21-prefix", prop="C21", src="params",
  edits=[("Source/params.cpp", "      std::getline(linestream, name, ' ');\n      if (name==find_this_var) {\n\n", "      std::getline(linestream, name, ' ');\n      if (name.compare(0,find_this_var.size(),find_this_var)==0) {\n\n")],
  needs="an earlier line whose name begins with a parameter's name", breaks="a longer name is taken for the parameter",
  demo=r'''#include "params.hpp"
#include "chk.hpp"
''' + PAR + r'''
int main() { params("dt_max 5\nnlat_fine 99\n"); Params q("params.txt"); NEAR(q.dt(), 0.001, 1e-15); TRUE(q.nlat() == 5); END; }
''')

S(id="c22-saves", prop="C22",
  edits=[("sim_class.py", "         self.nt/float(self.num_saved_times)\n      )", "         round(self.nt/float(self.num_saved_times))\n      )")],
  needs="a number of steps that is not close to a multiple of the number of saves from above", breaks="the saving interval is rounded up, so fewer snapshots than requested are saved",
  py=r"""import sys, os
sys.path.insert(0, sys.argv[1]); from sim_class import Sim
bad = 0
for num in range(1, 800):
    s = Sim(); s.black_hole_mass = 1.0; s.black_hole_spin = 0.3; s.compactification_length = 20.0; s.evolve_time = 10.0; s.num_saved_times = num
    s.nx = 65; s.nl = 8; s.nm = 8; s.nlat = 16; s.nphi = 20; s.use_cheb = False; s.cfl = 0.5; s.rl_0 = 1.1; s.ru_0 = 3.0
    s.set_derived_params(); n = (s.nt - 1)//s.t_step_save + 1
    if n < min(num, s.nt): bad += 1; print(num, "requested,", n, "saved")
sys.exit(1 if bad else 0)
""")
S(id="c23-digits", prop="C23",
  edits=[("sim_class.py", "               f.write('{} {}\\n'.format(param,attrs[param]))", "               f.write('{} {:.10g}\\n'.format(param,attrs[param]) if type(attrs[param])==float else '{} {}\\n'.format(param,attrs[param]))")],
  needs="a setting or derived value with more than ten significant digits", breaks="the solver evolves with rounded parameters, not those the script derived",
  py=r"""import sys, os
repo = sys.argv[1]; sys.path.insert(0, repo); from sim_class import Sim
s = Sim(); s.black_hole_mass = 1.0; s.black_hole_spin = 0.9999; s.compactification_length = 20.0; s.evolve_time = 10.0; s.num_saved_times = 7
s.nx = 8193; s.nl = 8; s.nm = 8; s.nlat = 16; s.nphi = 20; s.use_cheb = False; s.cfl = 0.75; s.rl_0 = 1.1; s.ru_0 = 3.0
s.set_derived_params(); s.output_dir = os.getcwd(); s.write_sim_params()
d = dict(l.rstrip("\n").split(" ", 1) for l in open("params.txt"))
bad = [n for n in ("dt", "Rmin", "rl", "ru") if float(d[n]) != getattr(s, n)]
print(bad); sys.exit(1 if bad else 0)
""")
S(id="c23-batch", prop="C23",
  edits=[("sim_class.py", "         f.write('\\n'+self.run_str+'\\n')", "         f.write('\\n'+self.run_str.replace(' .','')+'\\n')")],
  needs="a launch through the batch system", breaks="the batch script starts the solver without the output directory",
  py=r"""import sys, os, subprocess
repo = sys.argv[1]; sys.path.insert(0, repo); import sim_class
sim_class.subprocess.call = lambda *a, **k: 0
s = sim_class.Sim(); s.black_hole_mass = 1.0; s.black_hole_spin = 0.5; s.compactification_length = 20.0; s.evolve_time = 10.0; s.num_saved_times = 7
s.nx = 65; s.nl = 8; s.nm = 8; s.nlat = 16; s.nphi = 20; s.use_cheb = False; s.cfl = 0.75; s.rl_0 = 1.1; s.ru_0 = 3.0
s.recompile = False; s.bin_name = "x.run"; s.computer = "batch"; s.out_stem = os.getcwd(); s.output_dir = "/out"; s.time_it = False; s.num_omp_levels = 1; s.num_threads = 2; s.walltime = "1"; s.memory = "1"; s.email = "x"
os.mkdir("Bin"); open("Bin/x.run", "w").close(); s.launch_run()
t = open("out/run.slurm").read(); l = [x for x in t.split("\n") if "./x.run" in x][0]
print(l); sys.exit(0 if l.split()[1:3] == ["params.txt", "."] else 1)
""")
S(id="c01-edge", prop="C01", src="finite_diff",
  edits=[("Source/finite_diff.cpp", "   for (size_t i=3; i<_n-3; i++) {\n      dv[i] = (\n", "   dv[_n/2-1] = (v[_n/2]-v[_n/2-2])/(2.0*_dx);\n   for (size_t i=3+(_n==9); i<_n-3; i++) {\n      dv[i] = (\n")],
  needs="the smallest supported grid, nine points", breaks="one node of a nine-point grid gets only a second-order derivative",
  demo=r'''#include "finite_diff.hpp"
#include "chk.hpp"
int main() { for (int n = 9; n < 40; n++) { FD d(n, 1, 3); std::vector<double> v(n), w(n); for (int i = 0; i < n; i++) v[i] = std::pow(d.pt(i), 5);
   d.der(v, w); for (int i = 0; i < n; i++) NEAR(w[i], 5*std::pow(d.pt(i), 4), 1e-7); } END; }
''')
S(id="c04-ends", prop="C04", src="cheb",
  edits=[("Source/cheb.cpp", "   ch[_n-1] /= (2.0*(_n-1));\n", "   ch[_n-1] /= ((_n%2) ? 1.0 : 2.0)*(_n-1);\n")],
  needs="an odd number of points and data that reaches the highest mode", breaks="the coefficient of the highest mode comes out twice as large",
  demo=r'''#include "cheb.hpp"
#include "chk.hpp"
int main() { for (int n = 4; n < 20; n++) { Cheb d(n, -1, 2); std::vector<double> v(n), c(n); for (int i = 0; i < n; i++) v[i] = rnd();
   std::vector<double> w = v; d.to_ch(w, c); for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += c[k]*std::cos(M_PI*k*i/(n-1)); NEAR(s, v[i], 1e-11); } } END; }
''')
S(id="c06-weights", prop="C06", src="cheb",
  edits=[("Source/cheb.cpp", "      ch_tmp[i] *= _low_pass[i];\n", "      ch_tmp[i] *= (fabs(ch_tmp[i])<1.0) ? _low_pass[i] : 1.0;\n")],
  needs="data whose high coefficient has magnitude one or more", breaks="large high modes are not damped, so the weight is not fixed",
  demo=r'''#include "cheb.hpp"
#include "chk.hpp"
int main() { int n = 24; for (double a = 0.25; a < 5; a *= 2) { Cheb d(n, 0, 1); std::vector<double> v(n), w; for (int i = 0; i < n; i++) v[i] = a*std::cos(M_PI*i*(n-1)/(n-1)); w = v; d.filter(w); for (int i = 0; i < n; i++) TRUE(std::fabs(w[i]) < 0.01*a); } END; }
''')
S(id="c08-phi", prop="C08", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "   return i_ph*2.0*M_PI/((_shtns->nphi)*(_shtns->mres));", "   return i_ph*M_PI/((_shtns->nphi)/2*(_shtns->mres));")],
  needs="an odd number of azimuthal points", breaks="the azimuthal coordinates are those of a grid with one point less",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
int main() { for (int np = 6; np < 14; np++) { Sphere s(2, 2, 4, np); for (int i = 0; i < np; i++) NEAR(s.phi(i), 2*M_PI*i/np, 1e-12); } END; }
''')
S(id="c09-copy", prop="C09", src="cheb finite_diff sphere grid",
  edits=[("Source/grid.hpp", "      for (size_t ix=0; ix<_nx; ix++) {\n         out[ix] = in[indx_r_l(ix,il)];", "      for (size_t ix=0; ix<_nx; ix++) {\n         out[ix] = fabs(in[indx_r_l(ix,il)]);")],
  needs="a table with negative entries", breaks="reading a column of an (R,l) table loses the signs",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
int main() { Grid g(10, 2, 8, 12, 3, 2, 5, 8); std::vector<double> v(36), w(12); for (auto &x : v) x = rnd();
   for (int l = 0; l < 3; l++) { g.get_row_n(l, v, w); for (int i = 0; i < 12; i++) NEAR(w[i], v[g.indx_r_l(i, l)], 0); } END; }
''')
S(id="c11-top", prop="C11", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "      Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];\n", "      Ylm_tmp[LM(_shtns,l,m)] *= _lap[std::max(l,2*m)>_lmax ? std::max(m,l) - (m==_mmax && l+1==_lmax) : l];\n")],
  needs="content in the mode with the largest m and the last but one l", breaks="that single mode gets the eigenvalue of the degree below",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
int main() { Sphere s(6, 5, 10, 16); for (int l = 0; l <= 6; l++) for (int m = 0; m <= (l < 5 ? l : 5); m++) { std::vector<double> v = s.compute_ylm(l, m), w(v.size()); s.laplace_beltrami(v, w); for (size_t i = 0; i < v.size(); i++) NEAR(w[i], -l*(l+1.0)*v[i], 1e-9); } END; }
''')
S(id="c12-real", prop="C12", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "      vX[i] = -vrvl.real() + pow(partial_phi_v[i],2);", "      vX[i] = -vrvl.real() + partial_phi_v[i]*fabs(partial_phi_v[i]);")],
  needs="points at which the field decreases with azimuth", breaks="the azimuthal part counts negative where the field decreases",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
int main() { Sphere s(4, 4, 8, 12); double c = std::sqrt(3/(4*M_PI)); std::vector<double> v(s.nSph()), w(s.nSph());
   for (size_t t = 0; t < 8; t++) for (size_t p = 0; p < 12; p++) v[s.indx(t, p)] = std::sin(s.theta(t))*std::cos(s.phi(p));
   s.sphereX(v, w); for (size_t t = 0; t < 8; t++) for (size_t p = 0; p < 12; p++) NEAR(w[s.indx(t, p)], std::pow(std::cos(s.theta(t))*std::cos(s.phi(p)), 2) + std::pow(std::sin(s.phi(p)), 2), 1e-9); (void)c; END; }
''')
S(id="c15-skip", prop="C15", src="cheb finite_diff sphere grid",
  edits=[("Source/grid.cpp", "      _sphere.sphereX(inter, inter_vX);\n\n      set_row_th_ph(ix, inter_vX, vX); ", "      if (ix==0 || inter[0]!=0.0) _sphere.sphereX(inter, inter_vX);\n\n      set_row_th_ph(ix, inter_vX, vX); ")],
  needs="a sphere on which the field is zero at the first angular point but not elsewhere", breaks="the output on that sphere is zero, not the operator applied to it",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
int main() { Grid g(10, 2, 8, 12, 3, 3, 6, 8); size_t N = 12*48; std::vector<double> v(N), w(N, 77.0);
   for (size_t i = 0; i < N; i++) v[i] = std::sin(g.R_th_ph(i)[1])*std::sin(g.R_th_ph(i)[2]); g.set_sphereX(v, w);
   for (size_t i = 0; i < N; i++) NEAR(w[i], std::pow(std::cos(g.R_th_ph(i)[1])*std::sin(g.R_th_ph(i)[2]), 2) + std::pow(std::cos(g.R_th_ph(i)[2]), 2), 1e-9); END; }
''')
S(id="c19-potential", prop="C19", src=ALL,
  edits=[("Source/scalar_eom.cpp", "         +  (_v3/6. )*pow(f[i],3)\n         +  (_v4/24.)*pow(f[i],4)", "         +  (_v3/6. )*pow(fabs(f[i]),3)\n         +  (_v4/24.)*pow(f[i],4)")],
  needs="a negative field and a cubic potential", breaks="the cubic part of the potential energy has the wrong sign where the field is negative",
  demo=EOM + r'''
int main() { params(""); Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi(); Scalar_eom e(g, q);
   for (double c = -0.8; c < 1; c += 0.2) { std::vector<double> f(N, c), p(N, 0.0), r(N); e.set_rho(g, f, p, r); for (size_t i = 0; i < N; i++) NEAR(r[i], 0.05*c*c + 0.2/6*c*c*c + 0.3/24*c*c*c*c, 1e-12); } END; }
''')
S(id="c24-last", prop="C24", src=ALL,
  edits=[("Source/io.cpp", "         &&  (magnitude(grid.x_y_z(i))<rmax)\n", "         &&  (grid.x_y_z(i)[0]<rmax && grid.x_y_z(i)[1]<rmax && grid.x_y_z(i)[2]<rmax)\n")],
  needs="points outside the outer radius whose three coordinates are each below it", breaks="points beyond the requested radius appear in the table",
  demo=r'''#include "io.hpp"
#include "chk.hpp"
int main() { Grid g(10, 2, 8, 12, 3, 2, 6, 8); size_t N = 12*48; std::vector<double> v(N, 1.0); Csv::write_x_y_z(g, "f", false, 0, 0.1, 10, 2.5, 6.0, v);
   std::ifstream in("f_XYZ_0.csv"); std::string s; int n = 0; while (std::getline(in, s)) { double x, y, z; TRUE(std::sscanf(s.c_str(), "%lf,%lf,%lf", &x, &y, &z) == 3); double r = std::sqrt(x*x + y*y + z*z); TRUE(r < 6 && r > 2.5); n++; } TRUE(n > 0); END; }
''')
MAIN = r'''#define main solver_main
#include "main.cpp"
#undef main
#include "chk.hpp"
''' + PAR + r'''
#include <sys/stat.h>
static void solve() { mkdir("o", 0755); char a[] = "x", b[] = "params.txt", c[] = "o"; char *v[] = {a, b, c, nullptr}; solver_main(3, v); }
static std::vector<std::vector<double>> table(const std::string &f) { std::ifstream in(f); std::vector<std::vector<double>> t; std::string s; std::getline(in, s); while (std::getline(in, s)) { double a, b, c; if (std::sscanf(s.c_str(), "%lf,%lf,%lf", &a, &b, &c) == 3) t.push_back({a, b, c}); } return t; }
'''
S(id="c25-rho", prop="C25", src=ALL,
  edits=[("Source/main.cpp", "            scalar_eom.set_rho(grid, f.np1, p.np1, rho);\n", "            scalar_eom.set_rho(grid, f.np1, p.n, rho);\n")],
  needs="a comparison of the saved energy density with the state it belongs to", breaks="the saved energy density mixes the new field with the derivative of the previous step",
  demo=MAIN + r'''
int main() { params("dt 0.05\n", 17, 6, 5); solve();
   Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi(); Scalar_eom e(g, q); Field f("f", N, 0), p("p", N, 0); std::vector<double> rho(N);
   ID::compact_pulse(q, g, f.n, p.n); for (int s = 0; s < 5; s++) { e.time_step(g, f, p); f.shift(); p.shift(); }
   e.set_rho(g, f.n, p.n, rho); Csv::write_R_psl(g, "want", true, 0, rho);
   auto a = table("o/rho_RPsl_1.csv"), b = table("want_RPsl_0.csv"); TRUE(a.size() == b.size() && !a.empty()); for (size_t i = 0; i < a.size() && i < b.size(); i++) NEAR(a[i][2], b[i][2], 1e-9); END; }
''')
S(id="c26-shared", prop="C26", src="cheb finite_diff sphere grid",
  edits=[("Source/grid.cpp", "#pragma omp parallel for\n   for (size_t it=0; it<_nlat; it++) {\n   for (size_t ip=0; ip<_nphi; ip++) {\n      std::vector<double> inter(    _nx);\n      std::vector<double> inter_dv( _nx);\n      std::vector<double> inter_ddv(_nx);\n", "   std::vector<double> inter(    _nx);\n   std::vector<double> inter_dv( _nx);\n#pragma omp parallel for\n   for (size_t it=0; it<_nlat; it++) {\n   for (size_t ip=0; ip<_nphi; ip++) {\n      std::vector<double> inter_ddv(_nx);\n")],
  needs="more than one thread working on the second radial derivative at once", breaks="the threads share their scratch rows, so the result depends on the schedule",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
#include <omp.h>
int main() { size_t nx = 2001; Grid g(10, 2, 8, nx, 2, 2, 16, 16); size_t N = nx*256; std::vector<double> v(N), a(N), b(N); for (auto &x : v) x = rnd();
   omp_set_num_threads(1); g.set_partial2_r(v, a); omp_set_num_threads(4); for (int k = 0; k < 10; k++) { g.set_partial2_r(v, b); for (size_t i = 0; i < N; i++) NEAR(b[i], a[i], 1e-9*std::fabs(a[i])); } END; }
''')
S(id="c27-tv", prop="C27", src="cheb finite_diff sphere grid",
  edits=[("Source/grid.cpp", "                  v[indx_R_th_ph(ix, it, ip+1)] \n               -  v[indx_R_th_ph(ix, it, ip)]\n               ,2)", "                  v[indx_R_th_ph(ix, it, (ip+1)%(_nphi-1))] \n               -  v[indx_R_th_ph(ix, it, ip)]\n               ,2)")],
  needs="azimuthal variation across the last forward neighbour", breaks="the last azimuthal difference wraps to the first point",
  demo=r'''#include "grid.hpp"
#include "chk.hpp"
int main() { Grid g(10, 2, 8, 10, 2, 2, 5, 8); size_t N = 400; std::vector<double> v(N); for (auto &x : v) x = rnd(); double s = 0;
   for (int x = 0; x < 9; x++) for (int t = 0; t < 4; t++) for (int p = 0; p < 7; p++) { double c = v[g.indx_R_th_ph(x,t,p)], a = v[g.indx_R_th_ph(x+1,t,p)] - c, b = v[g.indx_R_th_ph(x,t+1,p)] - c, d = v[g.indx_R_th_ph(x,t,p+1)] - c; s += std::sqrt(a*a + b*b + d*d); }
   NEAR(g.total_variation(v), s/N, 1e-12); END; }
''')
S(id="c28-leak", prop="C28", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "      lv[i] = Sph_tmp[i];\n   }\n   free(Sph_tmp);\n   free(Ylm_tmp);\n", "      lv[i] = Sph_tmp[i];\n   }\n   free(Sph_tmp);\n   if (lv[0]==lv[0] && lv[0]!=0.0) free(Ylm_tmp);\n")],
  needs="a long run in which the lowered field vanishes at the first angular point (outside the pulse)", breaks="each such call leaks one temporary array",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
#include <malloc.h>
int main() { Sphere s(8, 8, 12, 20); std::vector<double> v(s.nSph(), 0.0); std::vector<cplx> w(s.nSph()); for (int i = 0; i < 10; i++) s.lower(v, w);
   size_t a = mallinfo2().uordblks; for (int i = 0; i < 1000; i++) s.lower(v, w); size_t b = mallinfo2().uordblks; TRUE(b < a + 100000); END; }
''')
S(id="c29-weights", prop="C29", src="sphere", sht=True,
  edits=[("Source/sphere.cpp", "      Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];", "      static const std::vector<double> w(_low_pass);\n      Ylm_tmp[LM(_shtns,l,m)] *= w[l]*w[m];")],
  needs="two spherical objects with different numbers of modes in one program", breaks="the second object filters with the first one's weights",
  demo=r'''#include "sphere.hpp"
#include "chk.hpp"
static std::vector<double> run(Sphere &s) { std::vector<double> v(s.nSph(), 0.0); for (int l = 0; l <= 4; l++) { std::vector<double> y = s.compute_ylm(l, 0); for (size_t i = 0; i < v.size(); i++) v[i] += y[i]; } s.filter(v); return v; }
int main() { Sphere b(8, 8, 12, 20); run(b); Sphere s(4, 4, 12, 20); std::vector<double> v = run(s), p(4), q(4); s.power_spectrum(v, p); NEAR(p[0], 1, 1e-9); std::vector<double> y = s.compute_ylm(4, 0); double d = 0, n = 0; for (size_t i = 0; i < v.size(); i++) { d += std::fabs(v[i]); }
   Sphere s2(5, 5, 12, 20); std::vector<double> t = s2.compute_ylm(4, 0); (void)n; std::vector<double> c = s2.compute_ylm(4, 0); std::vector<double> pw(5); s2.power_spectrum(v, pw); TRUE(pw[4] < 1e-12); (void)d; END; }
''')
S(id="c30-stale", prop="C30", src=ALL,
  edits=[("Source/scalar_eom.cpp", "         grid.set_partial_phi(f, _dphi_f);\n      }\n      #pragma omp section\n      {\n         grid.set_sphereX(f, _sphereX_f);\n      }\n   }", "         static const double *last=nullptr; /* same field as last time */\n         if (f.data()!=last) grid.set_partial_phi(f, _dphi_f);\n         last = f.data();\n      }\n      #pragma omp section\n      {\n         grid.set_sphereX(f, _sphereX_f);\n      }\n   }")],
  needs="two evaluations of the energy density on the same array with new contents, or with time derivatives evaluated in between", breaks="the azimuthal derivative of an earlier field enters the energy density",
  demo=EOM + r'''
int main() { params(""); Params q("params.txt"); Grid g(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()); size_t N = q.nx()*q.nlat()*q.nphi(); Scalar_eom e(g, q), e2(g, q);
   std::vector<double> f(N), p(N, 0.0), a(N), b(N); for (size_t i = 0; i < N; i++) f[i] = 0.1*std::cos(g.R_th_ph(i)[0])*std::sin(g.R_th_ph(i)[1])*std::cos(g.R_th_ph(i)[2]);
   e.set_rho(g, f, p, a); for (size_t i = 0; i < N; i++) f[i] = 0.1*std::cos(g.R_th_ph(i)[0])*std::sin(g.R_th_ph(i)[1])*std::sin(g.R_th_ph(i)[2]); e.set_rho(g, f, p, a);
   std::vector<double> h = f; e2.set_rho(g, h, p, b); for (size_t i = 0; i < N; i++) NEAR(a[i], b[i], 1e-12); END; }
''')
