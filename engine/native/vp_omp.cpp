/* A small OpenMP run-time (the entry points gcc's code calls) on plain threads, so that the
 * thread sanitizer sees exactly the ordering OpenMP guarantees, and so that the number of
 * threads and the assignment of iterations to them can be chosen:
 *   VP_THREADS  number of threads of an outermost region (1 when nested)
 *   VP_SEQ=1    threads of a region run one after the other;  VP_SEQ=2: in reverse order */
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <vector>
#include <memory>
namespace {
int conf(const char *n, int d) { const char *s = getenv(n); return s ? atoi(s) : d; }
/* a work share as one thread sees it: chunk number id, id+n, id+2n, ... (a legal schedule, and no
 * lock that would order threads by accident) */
struct Work { long start = 0, end = 0, incr = 1, chunk = 1, k = 0; bool up = true; };
struct Team {
   int n; std::mutex m; std::condition_variable cv; int waiting = 0; unsigned gen = 0;
};
struct Me { Team *team; int id; };
thread_local Me me = {nullptr, 0};
thread_local Work cur;
thread_local int depth = 0;
std::mutex crit, atom, namedm; std::map<void **, std::unique_ptr<std::mutex>> named;
int nthreads(unsigned req) { if (depth) return 1; return req ? (int)req : conf("VP_THREADS", 1); }
void barrier() {
   Team *t = me.team; if (!t || t->n == 1) return;
   if (conf("VP_SEQ", 0)) _Exit(88);
   std::unique_lock<std::mutex> l(t->m);
   unsigned g = t->gen;
   if (++t->waiting == t->n) { t->waiting = 0; t->gen++; t->cv.notify_all(); }
   else t->cv.wait(l, [&] { return t->gen != g; });
}
void run(void (*fn)(void *), void *data, int n) {
   Team t; t.n = n; Me old = me;
   auto body = [&](int id) { Me o = me; int d = depth; me = {&t, id}; Work w = cur; depth = d + 1; fn(data); me = o; depth = d; cur = w; };
   const int seq = conf("VP_SEQ", 0);
   if (n == 1) body(0);
   else if (seq) {
      /* one thread after the other (only for regions without barriers inside) */
      for (int k = 0; k < n; k++) { int id = seq == 2 ? n - 1 - k : k; std::thread th([&, id] { body(id); }); th.join(); }
   } else {
      std::vector<std::thread> v; for (int id = 1; id < n; id++) v.emplace_back([&, id] { body(id); });
      body(0);
      for (auto &x : v) x.join();
   }
   me = old;
}
void set(long s, long e, long inc, long ch) { cur = Work(); cur.start = s; cur.end = e; cur.incr = inc; cur.chunk = ch > 0 ? ch : 1; cur.up = inc > 0; cur.k = me.team ? me.id : 0; }
bool take(long *a, long *b) {
   const long s = cur.start + cur.k * cur.chunk * cur.incr; cur.k += me.team ? me.team->n : 1;
   if (cur.up ? s >= cur.end : s <= cur.end) return false;
   long e = s + cur.chunk * cur.incr; if (cur.up ? e > cur.end : e < cur.end) e = cur.end;
   *a = s; *b = e; return true;
}
bool start(long s, long e, long inc, long ch, long *a, long *b) { set(s, e, inc, ch); return take(a, b); }
}
extern "C" {
int omp_get_thread_num() { return me.team ? me.id : 0; }
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_max_threads() { return depth ? 1 : conf("VP_THREADS", 1); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return me.team && me.team->n > 1; }
int omp_get_level() { return depth; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return 0; }
void omp_init_lock(void **l) { *l = new std::mutex; }
void omp_destroy_lock(void **l) { delete (std::mutex *)*l; }
void omp_set_lock(void **l) { ((std::mutex *)*l)->lock(); }
void omp_unset_lock(void **l) { ((std::mutex *)*l)->unlock(); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, nthreads(n)); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { n = nthreads(n); run(fn, data, n); return n; }
void GOMP_barrier() { barrier(); }
bool GOMP_loop_start(long, long, long, long, long, long *, long *, void *, void **) { abort(); }
#define LOOP(K) bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return start(s, e, i, c, a, b); } \
   bool GOMP_loop_##K##_next(long *a, long *b) { return take(a, b); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return take(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return take(a, b); }
#define ULOOP(K) bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return start(s, e, (long)i, c, (long *)a, (long *)b); } \
   bool GOMP_loop_ull_##K##_next(unsigned long long *a, unsigned long long *b) { return take((long *)a, (long *)b); }
ULOOP(dynamic) ULOOP(nonmonotonic_dynamic) ULOOP(guided) ULOOP(nonmonotonic_guided)
struct PL { void (*fn)(void *); void *data; long s, e, i, c; };
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { \
   n = nthreads(n); PL p = {fn, data, s, e, i, c}; run([](void *q) { PL *p = (PL *)q; set(p->s, p->e, p->i, p->c); p->fn(p->data); }, &p, n); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() { long a, b; return take(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { set(1, (long)n + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void *); void *data; unsigned count; };
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
   n = nthreads(n); PS p = {fn, data, count};
   run([](void *q) { PS *p = (PS *)q; set(1, (long)p->count + 1, 1, 1); p->fn(p->data); }, &p, n);
}
bool GOMP_single_start() { return !me.team || me.id == 0; }
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
static std::mutex &nm(void **p) { std::lock_guard<std::mutex> l(namedm); auto &x = named[p]; if (!x) x.reset(new std::mutex); return *x; }
void GOMP_critical_name_start(void **p) { nm(p).lock(); }
void GOMP_critical_name_end(void **p) { nm(p).unlock(); }
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
}
