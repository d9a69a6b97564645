/* Native side of the harness interface: values come from the file in $VP_IN,
 * outputs go to $VP_OUT. */
#include "vp.h"
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
static std::map<std::string, double> vals;
static FILE *out = nullptr;
static void init() {
   if (out) return;
   const char *f = getenv("VP_IN"), *o = getenv("VP_OUT");
   out = o ? fopen(o, "w") : stderr;
   if (!out) out = stderr;
   FILE *in = f ? fopen(f, "r") : nullptr;
   if (!in) return;
   char n[512]; double x;
   while (fscanf(in, "%511s %lf", n, &x) == 2) vals[n] = x;
   fclose(in);
}
static double look(const std::string &n) {
   init();
   auto it = vals.find(n);
   if (it == vals.end()) return 0.0;
   return it->second;
}
extern "C" {
double vp_real(const char *n, long i) { return look(std::string(n) + "[" + std::to_string(i) + "]"); }
long vp_size(const char *n) { return (long)look(n); }
double vp_dbl(const char *n) { return look(n); }
long vp_int(const char *n) { return (long)look(n); }
void vp_out(const char *n, long i, double x) { init(); fprintf(out, "d %s %ld %.17g\n", n, i, x); fflush(out); }
void vp_outi(const char *n, long i, long x) { init(); fprintf(out, "i %s %ld %ld\n", n, i, x); fflush(out); }
void vp_assume(int c) { init(); if (!c) { fprintf(out, "assume\n"); fflush(out); _Exit(77); } }
void vp_mark(const char *n) { init(); fprintf(out, "m %s\n", n); fflush(out); }
long vp_live(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
void vp_main();
}
int main() { init(); vp_main(); fprintf(out, "end\n"); fclose(out); return 0; }
