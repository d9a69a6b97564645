/* Reference implementation of the part of SHTns this code base uses:
 * orthonormal, Condon-Shortley, Gauss grid; slow and exact. */
#define VP_INIT = 0
#include <shtns.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <algorithm>
struct ref { shtns_info info; bool phi; std::vector<double> ct, st, w; std::vector<unsigned short> li, mi; std::vector<double> P; };
static double &PP(ref *r, int it, int l, int m) { return r->P[((size_t)it * (r->info.lmax + 1) + l) * (r->info.lmax + 1) + m]; }
#define SET(F, T, V) (*const_cast<T *>(&(F)) = (V))
static void die(const char *s) { fprintf(stderr, "shtns: %s\n", s); abort(); }
extern "C" {
void shtns_verbose(int) {}
int shtns_use_threads(int) { return 1; }
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm) {
   if (mres != 1 || norm != sht_orthonormal || lmax < 1 || mmax < 0 || mmax > lmax) die("create");
   ref *r = (ref *)calloc(1, sizeof(ref)); new (r) ref();
   SET(r->info.lmax, unsigned short, lmax); SET(r->info.mmax, unsigned short, mmax); SET(r->info.mres, unsigned short, 1);
   unsigned n = 0; for (int m = 0; m <= mmax; m++) for (int l = m; l <= lmax; l++) { r->li.push_back(l); r->mi.push_back(m); n++; }
   SET(r->info.nlm, unsigned, n); SET(r->info.nlm_cplx, unsigned, (mmax + 1) * (mmax + 1) + (lmax - mmax) * (2 * mmax + 1));
   SET(r->info.li, const unsigned short *, r->li.data()); SET(r->info.mi, const unsigned short *, r->mi.data());
   return &r->info;
}
int shtns_set_grid(shtns_cfg c, enum shtns_type fl, double, int nlat, int nphi) {
   ref *r = (ref *)c; int flags = int(fl), lmax = c->lmax;
   int t = flags & 255; if (t != 0 && t != 1 && t != 6) die("grid type");
   if (nlat <= c->lmax || nphi <= 2 * c->mmax) die("grid size");
   r->phi = flags & SHT_PHI_CONTIGUOUS;
   r->ct.resize(nlat); r->st.resize(nlat); r->w.resize(nlat);
   for (int i = 0; i < nlat; i++) {
      double x = cos(M_PI * (i + 0.75) / (nlat + 0.5)), dp = 1;
      for (int k = 0; k < 100; k++) {
         double p0 = 1, p1 = x; for (int n = 2; n <= nlat; n++) { double p2 = ((2 * n - 1) * x * p1 - (n - 1) * p0) / n; p0 = p1; p1 = p2; }
         if (nlat == 1) { p1 = x; p0 = 1; }
         dp = nlat * (x * p1 - p0) / (x * x - 1); double dx = p1 / dp; x -= dx; if (fabs(dx) < 1e-16) break;
      }
      r->ct[i] = x; r->st[i] = sqrt(1 - x * x); r->w[i] = 2 / ((1 - x * x) * dp * dp);
   }
   if (flags & SHT_SOUTH_POLE_FIRST) { std::reverse(r->ct.begin(), r->ct.end()); std::reverse(r->st.begin(), r->st.end()); std::reverse(r->w.begin(), r->w.end()); }
   r->P.assign((size_t)nlat * (lmax + 1) * (lmax + 1), 0);
   for (int i = 0; i < nlat; i++) {
      double x = r->ct[i], s = r->st[i];
      PP(r, i, 0, 0) = 0.5 / sqrt(M_PI);
      for (int m = 1; m <= lmax; m++) PP(r, i, m, m) = -sqrt((2 * m + 1) / (2.0 * m)) * s * PP(r, i, m - 1, m - 1);
      for (int m = 0; m < lmax; m++) PP(r, i, m + 1, m) = sqrt(2 * m + 3.0) * x * PP(r, i, m, m);
      for (int m = 0; m <= lmax; m++) for (int l = m + 2; l <= lmax; l++)
         PP(r, i, l, m) = sqrt((4.0 * l * l - 1) / (l * l - m * m)) * (x * PP(r, i, l - 1, m) - sqrt(((l - 1.0) * (l - 1.0) - m * m) / (4.0 * (l - 1) * (l - 1) - 1)) * PP(r, i, l - 2, m));
   }
   SET(c->nlat, unsigned, nlat); SET(c->nphi, unsigned, nphi); SET(c->nspat, unsigned, nlat * nphi); SET(c->nlat_2, unsigned short, (nlat + 1) / 2);
   SET(c->nlat_padded, unsigned, nlat); SET(c->ct, const double *, r->ct.data()); SET(c->st, const double *, r->st.data());
   return nlat * nphi;
}
void shtns_destroy(shtns_cfg c) { ref *r = (ref *)c; r->~ref(); free(r); }
void shtns_reset() {}
void *shtns_malloc(size_t n) { return malloc(n); }
void shtns_free(void *p) { free(p); }
static size_t sp(ref *r, int it, int ip) { return r->phi ? (size_t)r->info.nphi * it + ip : (size_t)r->info.nlat * ip + it; }
void spat_to_SH(shtns_cfg c, double *V, cplx *Q) {
   ref *r = (ref *)c; int nlat = c->nlat, nphi = c->nphi; std::vector<cplx> o(c->nlm);
   for (unsigned k = 0; k < c->nlm; k++) { int l = r->li[k], m = r->mi[k]; cplx a = 0;
      for (int it = 0; it < nlat; it++) for (int ip = 0; ip < nphi; ip++) { double ph = 2 * M_PI * m * ip / nphi; a += V[sp(r, it, ip)] * r->w[it] * (2 * M_PI / nphi) * PP(r, it, l, m) * cplx(cos(ph), -sin(ph)); }
      o[k] = m ? a : cplx(a.real(), 0); }
   for (unsigned i = 0; i < c->nspat; i++) V[i] = 1e33 + i;   /* SHTns does not keep its input */
   for (unsigned k = 0; k < c->nlm; k++) Q[k] = o[k];
}
void SH_to_spat(shtns_cfg c, cplx *Q, double *V) {
   ref *r = (ref *)c; int nlat = c->nlat, nphi = c->nphi; std::vector<double> o(c->nspat);
   for (int it = 0; it < nlat; it++) for (int ip = 0; ip < nphi; ip++) { double a = 0;
      for (unsigned k = 0; k < c->nlm; k++) { int l = r->li[k], m = r->mi[k]; double ph = 2 * M_PI * m * ip / nphi; double re = Q[k].real() * cos(ph) - Q[k].imag() * sin(ph);
         a += PP(r, it, l, m) * (m ? 2 * re : Q[k].real()); }
      o[sp(r, it, ip)] = a; }
   std::copy(o.begin(), o.end(), V);
}
static int lmc(shtns_cfg c, int l, int m) { int M = c->mmax; return l <= M ? l * (l + 1) + m : M * (2 * l - M) + l + m; }
void spat_cplx_to_SH(shtns_cfg c, cplx *Z, cplx *A) {
   ref *r = (ref *)c; int nlat = c->nlat, nphi = c->nphi, M = c->mmax; std::vector<cplx> o(c->nlm_cplx);
   for (int l = 0; l <= c->lmax; l++) for (int m = -std::min(l, M); m <= std::min(l, M); m++) { cplx a = 0;
      for (int it = 0; it < nlat; it++) for (int ip = 0; ip < nphi; ip++) { double ph = 2 * M_PI * m * ip / nphi; double p = PP(r, it, l, abs(m)) * (m < 0 && (m & 1) ? -1 : 1);
         a += Z[sp(r, it, ip)] * (r->w[it] * (2 * M_PI / nphi) * p) * cplx(cos(ph), -sin(ph)); }
      o[lmc(c, l, m)] = a; }
   for (unsigned i = 0; i < c->nspat; i++) Z[i] = cplx(1e33 + i, -1e33);
   std::copy(o.begin(), o.end(), A);
}
void SH_to_spat_cplx(shtns_cfg c, cplx *A, cplx *Z) {
   ref *r = (ref *)c; int nlat = c->nlat, nphi = c->nphi, M = c->mmax; std::vector<cplx> o(c->nspat);
   for (int it = 0; it < nlat; it++) for (int ip = 0; ip < nphi; ip++) { cplx a = 0;
      for (int l = 0; l <= c->lmax; l++) for (int m = -std::min(l, M); m <= std::min(l, M); m++) { double ph = 2 * M_PI * m * ip / nphi; double p = PP(r, it, l, abs(m)) * (m < 0 && (m & 1) ? -1 : 1); a += A[lmc(c, l, m)] * p * cplx(cos(ph), sin(ph)); }
      o[sp(r, it, ip)] = a; }
   std::copy(o.begin(), o.end(), Z);
}
}
