/* Forced into every source of the race replay: makes what FFTW touches visible to the thread sanitizer. */
#ifndef VP_FFTWTRACE
#define VP_FFTWTRACE
#include <complex>
#include <fftw3.h>
#ifdef __cplusplus
#include <map>
#include <mutex>
struct vp_arr { double *in, *out; long n; };
inline std::map<fftw_plan, vp_arr> &vp_plans() { static std::map<fftw_plan, vp_arr> m; return m; }
inline std::mutex &vp_pm() { static std::mutex m; return m; }
inline volatile long &vp_planner() { static volatile long x; return x; }
static inline void vp_touch(double *i, double *o, long n) { volatile double s; for (long k = 0; k < n; k++) { s = i[k]; (void)s; } volatile double *q = o; for (long k = 0; k < n; k++) q[k] = q[k]; }
static inline fftw_plan vp_plan_r2r(int n, double *i, double *o, fftw_r2r_kind k, unsigned f) {
   vp_planner() = vp_planner() + 1; std::lock_guard<std::mutex> l(vp_pm());
   fftw_plan p = fftw_plan_r2r_1d(n, i, o, k, f); vp_plans()[p] = vp_arr{i, o, n}; return p; }
static inline void vp_exec(fftw_plan p) { const vp_arr a = vp_plans().at(p); vp_touch(a.in, a.out, a.n); fftw_execute(p); }
static inline void vp_exec_r2r(fftw_plan p, double *i, double *o) { const vp_arr a = vp_plans().at(p); fftw_execute_r2r(p, i, o); vp_touch(i, o, a.n); }
static inline void vp_destroy(fftw_plan p) { vp_planner() = vp_planner() + 1; std::lock_guard<std::mutex> l(vp_pm()); vp_plans().erase(p); fftw_destroy_plan(p); }
#define fftw_plan_r2r_1d vp_plan_r2r
#define fftw_execute vp_exec
#define fftw_execute_r2r vp_exec_r2r
#define fftw_destroy_plan vp_destroy
#endif
#endif
