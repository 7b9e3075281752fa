#include "util.h"
extern "C" {
#include "hmm/hmm.h"
void baum_welch(double *p0, double **a, double **mu, double **cov, int N, int T, int L, double **x, double ***xi, double **gamma);
void forward_backwards(double ***xi, double **gamma, double *loglik, double *loglik1, double *loglik2, int iter, int N, int T, double *p0, double **a, double **b);
}
static double **mat(int r, int c) { double **p = new double *[r]; for (int i = 0; i < r; i++) { p[i] = new double[c]; for (int j = 0; j < c; j++) p[i][j] = -77; } return p; }
/* mode 0: posteriors (0, N, T, seed, which: bit0 b symbolic, bit1 p0 symbolic, bit2 a symbolic, bit3 zero transitions, iter)   1: re-estimation (1, N, T, L, sym x?, last state only at the end?)   2: initial model (2, N, T, L)   3: training end to end (3, N, T, L, seed) */
static double q32(double x) { return floor(x * 32 + 0.5) / 32; }
static void fb() {
    double W = vp_param(6) / 1024.0;
    int N = vp_param(1), T = vp_param(2), sd = vp_param(3), w = vp_param(4), iter = vp_param(5); double **a = mat(N, N), **b = mat(T, N), **g = mat(T, N); double *p0 = new double[N]; double ***xi = new double **[T]; for (int t = 0; t < T; t++) xi[t] = mat(N, N);
    for (int i = 0; i < N; i++) { p0[i] = q32(0.4 + 0.3 * det(i + sd)) + (w & 2 ? vp_double("p0", -W, W) : 0); for (int j = 0; j < N; j++) a[i][j] = ((w & 8) && (i + 2 * j + sd) % 3 == 0 && i != j) ? 0 : q32(0.4 + 0.3 * det(i * 5 + j + sd * 17 + 50)) + (w & 4 ? vp_double("a", -W, W) : 0); }
    for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) b[t][i] = q32(1 + 0.7 * det(t * 9 + i + sd * 3 + 200)) + (w & 1 ? vp_double("b", -W, W) : 0);
    double ll = 0.75, l1 = -3, l2 = -4; forward_backwards(xi, g, &ll, &l1, &l2, iter, N, T, p0, a, b);
    long total = 1; for (int t = 0; t < T; t++) total *= N; double P = 0; std::vector<V> G(T, V(N, 0.0)); std::vector<V> X(T, V(N * N, 0.0)); V pre(T, 0.0);
    for (int u = 0; u < T; u++) { long tt = 1; for (int t = 0; t <= u; t++) tt *= N; for (long c = 0; c < tt; c++) { long v = c; double s = 1; int prev = 0; for (int t = 0; t <= u; t++) { int k = v % N; v /= N; s *= (t ? a[prev][k] : p0[k]) * b[t][k]; prev = k; } pre[u] += s; } }
    for (long c = 0; c < total; c++) { long v = c; double s = 1; int prev = 0; std::vector<int> st(T); for (int t = 0; t < T; t++) { int k = v % N; v /= N; s *= (t ? a[prev][k] : p0[k]) * b[t][k]; prev = st[t] = k; } P += s; for (int t = 0; t < T; t++) { G[t][st[t]] += s; if (t + 1 < T) X[t][st[t] * N + st[t + 1]] += s; } }
    for (int t = 0; t < T; t++) { double s = 0; for (int i = 0; i < N; i++) { s += g[t][i]; vp_observe("g", g[t][i]); vp_close(g[t][i] * P, G[t][i], 1e-7, "posterior state probability"); vp_assert(g[t][i] >= 0, "posterior non-negative"); } vp_close(s, 1, 1e-7, "posteriors sum to one"); }
    for (int t = 0; t + 1 < T; t++) { double s = 0; for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) { r += xi[t][i][j]; vp_observe("x", xi[t][i][j]); vp_close(xi[t][i][j] * P, X[t][i * N + j], 1e-7, "posterior transition probability"); } s += r; vp_close(r, g[t][i], 1e-7, "transition and state posteriors agree"); } vp_close(s, 1, 1e-7, "transition posteriors sum to one"); }
    for (int j = 0; j < N && T > 1; j++) { double r = 0; for (int i = 0; i < N; i++) r += xi[T - 2][i][j]; vp_close(r, g[T - 1][j], 1e-7, "transition and state posteriors agree"); }
    double L = 0; for (int t = 0; t < T; t++) { double q = t ? pre[t] / pre[t - 1] : pre[t]; L += log(q); } vp_observe("ll", ll); vp_close(ll, L, 1e-7, "log-likelihood"); vp_same(l1, 0.75, "previous log-likelihood kept");
}
static void bw() {
    int N = vp_param(1), T = vp_param(2), L = vp_param(3), sx = vp_param(4), late = vp_param(5); double **a = mat(N, N), **mu = mat(N, L), **cov = mat(L, L), **x = mat(T, L), **g = mat(T, N), *p0 = new double[N]; double ***xi = new double **[T]; for (int t = 0; t < T; t++) xi[t] = mat(N, N); V m0(N * L);
    for (int i = 0; i < N; i++) { p0[i] = 5; for (int d = 0; d < L; d++) mu[i][d] = m0[i * L + d] = det(i * 3 + d + 40); }
    for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) x[t][d] = sx ? vp_double("x", -2, 2) : det(t * 5 + d) * 2;
    /* any consistent posteriors: xi free, gamma its margins; the last gamma the column margin of the last xi */
    std::vector<V> X(T, V(N * N)); for (int t = 0; t + 1 < T; t++) for (int i = 0; i < N; i++) { g[t][i] = 0; for (int j = 0; j < N; j++) { bool none = late && (i == N - 1 || (j == N - 1 && t != T - 2)); xi[t][i][j] = X[t][i * N + j] = none ? 0 : vp_double("xi", 0.01, 0.5); g[t][i] += xi[t][i][j]; } }
    for (int i = 0; i < N; i++) { g[T - 1][i] = 0; for (int j = 0; j < N; j++) g[T - 1][i] += xi[T - 2][j][i]; } std::vector<V> G(T, V(N)); for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) G[t][i] = g[t][i];
    baum_welch(p0, a, mu, cov, N, T, L, x, xi, g);
    for (int i = 0; i < N; i++) { vp_same(p0[i], G[0][i], "initial probability is the first posterior"); double sg = 0, sa = 0; for (int t = 0; t + 1 < T; t++) sg += G[t][i]; for (int j = 0; j < N; j++) { double sxi = 0; for (int t = 0; t + 1 < T; t++) sxi += X[t][i * N + j]; vp_observe("a", a[i][j]); vp_close(a[i][j] * sg, sxi, 1e-10, "transition probability"); vp_assert(a[i][j] >= 0, "transition probability non-negative"); sa += a[i][j]; } if (late && i == N - 1) vp_same(sa, 0, "no transitions from a state never left"); else vp_close(sa, 1, 1e-9, "transitions from a state sum to one");
        double sall = sg + G[T - 1][i]; for (int d = 0; d < L; d++) { double r = 0; for (int t = 0; t < T; t++) r += G[t][i] * x[t][d]; vp_observe("mu", mu[i][d]); vp_close(mu[i][d] * sall, r, 1e-9, "mean is the posterior-weighted average"); } }
    for (int d = 0; d < L; d++) for (int e = 0; e < L; e++) { double s = 0; for (int i = 0; i < N; i++) for (int t = 0; t < T; t++) s += G[t][i] * (x[t][d] - m0[i * L + d]) * (x[t][e] - m0[i * L + e]); vp_observe("cov", cov[d][e]); vp_close(cov[d][e], s / T, 1e-9, "pooled covariance"); }
    for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) vp_same(g[t][i], G[t][i], "posteriors unchanged");
}
static void init() {
    int N = vp_param(1), T = vp_param(2), L = vp_param(3); double **x = mat(T, L); for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) x[t][d] = det(t * 7 + d + 5) * 2 + vp_double("x", -0.2, 0.2); V xs; for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) xs.push_back(x[t][d]);
    model_t *m = hmm_init(x, T, L, N); vp_assert(m->N == N && m->L == L, "sizes recorded"); double sp = 0;
    for (int i = 0; i < N; i++) { vp_assert(m->p0[i] > 0, "initial probability positive"); sp += m->p0[i]; double sa = 0; for (int j = 0; j < N; j++) { vp_assert(m->a[i][j] > 0, "transition probability positive"); sa += m->a[i][j]; } vp_close(sa, 1, 1e-12, "transitions from a state sum to one"); } vp_close(sp, 1, 1e-12, "initial probabilities sum to one");
    for (int d = 0; d < L; d++) { double mean = 0, c = 0; for (int t = 0; t < T; t++) mean += xs[t * L + d]; mean /= T; for (int t = 0; t < T; t++) c += (xs[t * L + d] - mean) * (xs[t * L + d] - mean); c /= T - 1; for (int e = 0; e < L; e++) if (e == d) vp_close(m->cov[d][d], c, 1e-9, "initial variance"); else vp_same(m->cov[d][e], 0, "initial covariance diagonal"); for (int i = 0; i < N; i++) { double u = m->mu[i][d] - mean; vp_assert(u * u <= 0.0626 * c, "initial means near the global mean"); } }
    for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) vp_same(x[t][d], xs[t * L + d], "observations unchanged");
    hmm_close(m);
}
static void train() {
    int N = vp_param(1), T = vp_param(2), L = vp_param(3), sd = vp_param(4); double **x = mat(T, L); for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) x[t][d] = 0.4 * det(t * 7 + d + sd * 50) + (t / 3) % 2 * 2.0; model_t *m = hmm_init(x, T, L, N); hmm_train(x, T, m); double sp = 0;
    for (int i = 0; i < N; i++) { vp_assert(m->p0[i] >= 0, "initial probability non-negative"); sp += m->p0[i]; double sa = 0; for (int j = 0; j < N; j++) { vp_assert(m->a[i][j] >= 0, "transition probability non-negative"); sa += m->a[i][j]; } vp_close(sa, 1, 1e-6, "transitions from a state sum to one"); for (int d = 0; d < L; d++) { vp_assert(m->mu[i][d] > -1 && m->mu[i][d] < 3, "means within the data"); } } vp_close(sp, 1, 1e-6, "initial probabilities sum to one"); for (int d = 0; d < L; d++) { vp_assert(m->cov[d][d] > 0, "variance positive"); for (int e = 0; e < L; e++) vp_close(m->cov[d][e], m->cov[e][d], 1e-9, "covariance symmetric"); } }
void vp_main() { int mode = vp_param(0); if (mode == 0) fb(); else if (mode == 1) bw(); else if (mode == 2) init(); else train(); vp_reach("end"); }
