#ifndef UTIL_H
#define UTIL_H
#include "vp.h"
#include <vector>
#include <cmath>
#include <cstddef>
#include <stdexcept>
typedef std::vector<double> V;
static inline V sym(const char *nm, int n, double lo, double hi) { V v(n); for (int i = 0; i < n; i++) v[i] = vp_double(nm, lo, hi); return v; }
/* fixed, irregular values in [-1,1] for parts of a scenario that need not be symbolic */
static inline double det(int i) { unsigned x = (unsigned)i * 2654435761u + 12345u; x ^= x >> 13; x *= 2246822519u; x ^= x >> 16; return (double)(x % 20001) / 10000.0 - 1.0; }
static inline V detv(int n, int seed) { V v(n); for (int i = 0; i < n; i++) v[i] = det(i + 1000 * seed); return v; }
/* heap array of exactly n doubles (red zones on both sides) */
struct Arr { double *p; int n; Arr(int n_, double fill = 0) : p(new double[n_ > 0 ? n_ : 1]), n(n_) { for (int i = 0; i < n; i++) p[i] = fill; }
  Arr(const V &v) : p(new double[v.size() ? v.size() : 1]), n(v.size()) { for (int i = 0; i < n; i++) p[i] = v[i]; }
  ~Arr() { delete[] p; } double &operator[](int i) { return p[i]; } operator double *() { return p; } private: Arr(const Arr &); Arr &operator=(const Arr &); };
static inline double cosk(long k, long n) { k %= n; if (k < 0) k += n; return cos(2 * M_PI * (double)k / (double)n); }
static inline double sink(long k, long n) { k %= n; if (k < 0) k += n; return sin(2 * M_PI * (double)k / (double)n); }
/* definition of the DFT, sign -1 forward, +1 inverse (unscaled) */
static inline void dft(int n, const V &re, const V &im, int sign, V &ro, V &io) {
  ro.assign(n, 0); io.assign(n, 0);
  V c(n), s(n); for (int i = 0; i < n; i++) { c[i] = cosk(i, n); s[i] = sign * sink(i, n); }
  for (int k = 0; k < n; k++) { double sr = 0, si = 0; for (int t = 0; t < n; t++) { int a = (int)(((long)k * t) % n); sr += re[t] * c[a]; si += re[t] * s[a]; if (!im.empty()) { sr -= im[t] * s[a]; si += im[t] * c[a]; } } ro[k] = sr; io[k] = si; } }
#define CLOSEV(a, b, n, tol, lab) for (int i_ = 0; i_ < (int)(n); i_++) vp_close((a)[i_], (b)[i_], tol, lab)
#define SAMEV(a, b, n, lab) for (int i_ = 0; i_ < (int)(n); i_++) vp_same((a)[i_], (b)[i_], lab)
#define OBSV(a, n, lab) for (int i_ = 0; i_ < (int)(n); i_++) vp_observe(lab, (a)[i_])
#endif
