#include "util.h"
#include "dsp/signalconditioning/DFProcess.h"
#include <algorithm>
/* params: mode, n, filter kind, pre, post, alpha, flags (1 positive only, 2 delta), number of symbolic entries, scale/1000
   0 against the reference around irregular data; 1 same with an earlier call; 2 entries free in the box */
static const double A0[] = {1}, B0[] = {1}, A1[] = {1, -0.5}, B1[] = {0.25, 0.25}, A2[] = {1, -0.5949, 0.2348}, B2[] = {0.16, 0.32, 0.16}, A3[] = {1, 0.3, -0.2, 0.1}, B3[] = {0.4, 0.3, 0.2, 0.1};
static const double *AA[] = {A0, A1, A2, A3}, *BB[] = {B0, B1, B2, B3};
static V filt(const V &x, const double *a, const double *b, int o) { V y(x.size(), 0.0); for (int i = 0; i < (int)x.size(); i++) { double v = 0; for (int k = 0; k <= o; k++) if (i - k >= 0) v += b[k] * x[i - k]; for (int k = 1; k <= o; k++) if (i - k >= 0) v -= a[k] * y[i - k]; y[i] = v; } return y; }
V reference(const V &x, int kind, int pre, int post, int alpha, bool pos, double delta) {
    int n = x.size(), o = kind; double mn = x[0], s = 0; for (int i = 0; i < n; i++) { if (x[i] < mn) mn = x[i]; double p = 1; for (int k = 0; k < alpha; k++) p *= fabs(x[i]); s += p; }
    double norm = s / n; if (alpha == 2) norm = sqrt(norm); else if (alpha != 1) norm = pow(norm, 1.0 / alpha);
    V d(n); for (int i = 0; i < n; i++) d[i] = (x[i] - mn) / norm;
    int f = 3 * o; V e(n + 2 * f, 0.0); for (int i = 0; i < n; i++) e[i + f] = d[i]; for (int k = 1; k <= f; k++) if (k < n) { e[f - k] = 2 * d[0] - d[k]; e[f + n - 1 + k] = 2 * d[n - 1] - d[n - 1 - k]; }
    e = filt(e, AA[kind], BB[kind], o); std::reverse(e.begin(), e.end()); e = filt(e, AA[kind], BB[kind], o); std::reverse(e.begin(), e.end());
    V r(n); for (int i = 0; i < n; i++) { int a = std::max(0, i - pre), b = std::min(n - 1, i + post); V w(e.begin() + f + a, e.begin() + f + b + 1);
        std::sort(w.begin(), w.end()); int k = w.size(); double m = k % 2 ? w[k / 2] : (w[k / 2] + w[k / 2 - 1]) / 2;
        double v = e[f + i] - m - delta; r[i] = pos && v < 0 ? 0 : v; }
    return r;
}
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), kind = vp_param(2), pre = vp_param(3), post = vp_param(4), alpha = vp_param(5), fl = vp_param(6), ns = vp_param(7); double sc = vp_param(8) / 1000.0;
    DFProcConfig c; c.length = n; c.LPOrd = kind; c.LPACoeffs = (double *)AA[kind]; c.LPBCoeffs = (double *)BB[kind]; c.winPre = pre; c.winPost = post; c.AlphaNormParam = alpha; c.isMedianPositive = fl & 1; c.delta = fl & 2 ? 0.25f : 0.f;
    DFProcess p(c); V x = detv(n, 7); for (int i = 0; i < n; i++) x[i] = 1 + fabs(x[i]) * 3 + (i % 5 == 2 ? 3 : 0); 
    if (mode == 1) { V z = detv(n, 8); for (int i = 0; i < n; i++) z[i] = 0.5 + fabs(z[i]); Arr d(n); p.process(&z[0], d.p); }
    for (int j = 0; j < ns && j < n; j++) { int i = ns >= n ? j : (int)((long)j * n / ns + (j * 7) % 3) % n; double d = vp_double("x", mode == 2 ? 0 : -sc, sc); x[i] = mode == 2 ? 0.5 + d : x[i] + d; }
    Arr s(x), d(n, -77); p.process(s, d); SAMEV(s, x, n, "input unchanged");
    if (n > 0) { V r = reference(x, kind, pre, post, alpha, fl & 1, c.delta); CLOSEV(d, r, n, 1e-6, "normalised, filtered and relative to the moving median"); }
    if (fl & 1) for (int i = 0; i < n; i++) vp_assert(d[i] >= 0, "never negative with the positive option");
    if (mode == 1 && n > 0) { DFProcess q(c); Arr e(n); q.process(s, e); CLOSEV(e, d, n, 1e-9, "independent of earlier calls"); }
    OBSV(d, n, "d"); vp_reach("end");
}
