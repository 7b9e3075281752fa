// Native side of the harness API: replays recorded inputs against the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
static std::vector<double> in_; static size_t pos_ = 0; static std::vector<long> par_; static bool fail_ = false; static std::string only_;
static double next(const char *n, double lo, double hi, double dflt) {
    double v = pos_ < in_.size() ? in_[pos_] : dflt; pos_++;
    if (v < lo) v = lo; if (v > hi) v = hi; printf("VP-IN %s %a\n", n, v); return v; }
extern "C" {
double vp_double(const char *n, double lo, double hi) { return next(n, lo, hi, lo > 0 ? lo : hi < 0 ? hi : 0); }
float vp_float(const char *n, double lo, double hi) { return (float)next(n, lo, hi, lo > 0 ? lo : hi < 0 ? hi : 0); }
int vp_int(const char *n, int lo, int hi) { return (int)next(n, lo, hi, lo); }
int vp_choice(const char *n, int lo, int hi) { return (int)next(n, lo, hi, lo); }
void vp_assume(int c) { if (!c) { printf("VP-ASSUME\n"); fflush(stdout); _Exit(77); } }
static void bad(const char *l, const char *why) { printf("VP-FAIL %s %s\n", l, why); fflush(stdout); fail_ = true; }
void vp_assert(int c, const char *l) { if (!c) { bad(l, ""); _Exit(3); } }
void vp_close(double a, double b, double tol, const char *l) { if (!(fabs(a - b) <= tol)) { char t[200]; snprintf(t, 200, "got %.17g expected %.17g tolerance %.3g", a, b, tol); bad(l, t); } }
void vp_same(double a, double b, const char *l) { if (!(a == b || (a != a && b != b))) { char t[200]; snprintf(t, 200, "%.17g vs %.17g", a, b); bad(l, t); } }
void vp_observe(const char *n, double v) { printf("VP-OBS %s %a\n", n, v); }
void vp_reach(const char *l) { printf("VP-REACH %s\n", l); }
int vp_param(int i) { return i < (int)par_.size() ? (int)par_[i] : 0; }
int vp_isfinite(double d) { return std::isfinite(d); }
int vp_heap_objects(void) { return -1; }
void vp_print(const char *n, double v) { printf("VP-PRINT %s %.17g\n", n, v); }
}
int main(int argc, char **argv) {
    if (argc > 1) { FILE *f = fopen(argv[1], "r"); char b[256]; while (f && fscanf(f, "%255s", b) == 1) in_.push_back(strtod(b, 0)); if (f) fclose(f); }
    if (argc > 2) { char *p = argv[2]; while (*p) { par_.push_back(strtol(p, &p, 10)); if (*p == ',') p++; } }
    bool std_ = true; try { vp_main(); } catch (...) { printf("VP-EXCEPTION\n"); fflush(stdout); std_ = false; }
    fflush(stdout); if (!std_) _Exit(4); _Exit(fail_ ? 3 : 0);
}
extern "C" void vp_log_point(double) {}
/* Fortran I/O used only by a warning in dlamch.c; the library leaves it to libf2c */
extern "C" { __attribute__((weak)) int s_wsfe(void *) { return 0; } __attribute__((weak)) int do_fio(int *, char *, int) { return 0; } __attribute__((weak)) int e_wsfe(void) { return 0; } }
