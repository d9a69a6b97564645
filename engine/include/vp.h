/* Harness interface. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
extern "C" {
double vp_real(const char *name, long i);   /* an arbitrary real, named name[i] */
long   vp_size(const char *name);           /* a configuration integer, concrete */
double vp_dbl(const char *name);            /* a configuration number: concrete or an arbitrary real */
long   vp_int(const char *name);            /* an arbitrary integer (or concrete) */
void   vp_out(const char *name, long i, double x);
void   vp_outi(const char *name, long i, long x);
void   vp_assume(int c);
void   vp_mark(const char *name);
long   vp_live(void);                       /* bytes of memory and streams in use */
}
#include <vector>
static inline std::vector<double> vp_vec(const char *name, size_t n) { std::vector<double> v(n); for (size_t i=0;i<n;i++) v[i]=vp_real(name,(long)i); return v; }
static inline void vp_outv(const char *name, const std::vector<double> &v) { for (size_t i=0;i<v.size();i++) vp_out(name,(long)i,v[i]); }
#endif
