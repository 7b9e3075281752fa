#include "util.h"
extern "C" {
#include "hmm/hmm.h"
}
/* params: N, T, L, model seed, mode (0: every observation sequence; 1: every model probability, fixed observations; 2: some transitions and starts impossible; 3: narrow covariance, observations far from every state; 4: a state no other leads to) */
static double **mat(int r, int c) { double **p = new double *[r]; for (int i = 0; i < r; i++) { p[i] = new double[c]; for (int j = 0; j < c; j++) p[i][j] = 0; } return p; }
void vp_main() {
    int N = vp_param(0), T = vp_param(1), L = vp_param(2), sd = vp_param(3), mode = vp_param(4);
    model_t m; m.N = N; m.L = L; m.p0 = new double[N]; m.a = mat(N, N); m.mu = mat(N, L); m.cov = mat(L, L);
    for (int i = 0; i < N; i++) { m.p0[i] = mode == 1 ? vp_double("p0", 0.01, 1) : (mode == 2 && i == sd % N && N > 1) ? 0 : 0.3 + 0.25 * det(i + sd * 7);
        for (int j = 0; j < N; j++) m.a[i][j] = mode == 1 ? vp_double("a", 0.01, 1) : ((mode == 2 && (i * 2 + j + sd) % 3 == 0) || (mode == 4 && j == sd % N)) ? 0 : 0.3 + 0.28 * det(i * 13 + j * 5 + sd * 31 + 100);
        for (int d = 0; d < L; d++) m.mu[i][d] = det(i * 3 + d + sd * 11 + 300) + (mode == 3 ? 100 : 0); }
    for (int d = 0; d < L; d++) for (int e = 0; e < L; e++) m.cov[d][e] = (d == e ? 0.5 + 0.2 * d : 0.15) / (mode == 3 ? 4096 : 1);
    double **x = mat(T, L); for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) x[t][d] = mode == 1 ? det(t * 7 + d + sd) : vp_double("x", -2, 2);
    V xs, as, ps; for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) xs.push_back(x[t][d]); for (int i = 0; i < N; i++) { ps.push_back(m.p0[i]); for (int j = 0; j < N; j++) as.push_back(m.a[i][j]); }
    int *q = new int[T]; for (int t = 0; t < T; t++) q[t] = -7; viterbi_decode(x, T, &m, q);
    for (int t = 0; t < T; t++) { vp_assert(q[t] >= 0 && q[t] < N, "decoded state is a state"); vp_observe("q", q[t]); for (int d = 0; d < L; d++) vp_same(x[t][d], xs[t * L + d], "observations unchanged"); }
    for (int i = 0; i < N; i++) { vp_same(m.p0[i], ps[i], "model unchanged"); for (int j = 0; j < N; j++) vp_same(m.a[i][j], as[i * N + j], "model unchanged"); }
    /* log-likelihood of emission differences: -1/2 (x-mu)' C^-1 (x-mu), inverse written out for L <= 2 */
    double i00, i01 = 0, i11 = 0; if (L == 1) i00 = 1 / m.cov[0][0]; else { double D = m.cov[0][0] * m.cov[1][1] - m.cov[0][1] * m.cov[1][0]; i00 = m.cov[1][1] / D; i11 = m.cov[0][0] / D; i01 = -m.cov[0][1] / D; }
    std::vector<V> e(T, V(N)); for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) { double u = x[t][0] - m.mu[i][0]; double s = u * i00 * u; if (L == 2) { double w = x[t][1] - m.mu[i][1]; s += 2 * u * i01 * w + w * i11 * w; } e[t][i] = -0.5 * s; }
    std::vector<V> la(N, V(N)); V lp(N); for (int i = 0; i < N; i++) { lp[i] = ps[i] == 0 ? -1e300 : log(ps[i]); for (int j = 0; j < N; j++) la[i][j] = as[i * N + j] == 0 ? -1e300 : log(as[i * N + j]); }
    long total = 1; for (int t = 0; t < T; t++) total *= N; double best = 0; bool okq = true, any = false;
    { double s = 0; for (int t = 0; t < T; t++) { if ((t ? la[q[t - 1]][q[t]] : lp[q[0]]) == -1e300) okq = false; else s += (t ? la[q[t - 1]][q[t]] : lp[q[0]]) + e[t][q[t]]; } best = s; }
    for (long c = 0; c < total; c++) { long v = c; double s = 0; int prev = 0; bool ok = true; for (int t = 0; t < T; t++) { int k = v % N; v /= N; if ((t ? la[prev][k] : lp[k]) == -1e300) { ok = false; break; } s += (t ? la[prev][k] : lp[k]) + e[t][k]; prev = k; } if (!ok) continue; any = true; if (okq) vp_assert(best >= s - (mode == 3 ? 1e-4 : 1e-9), "no sequence is more likely than the decoded one"); }
    if (any) vp_assert(okq, "a possible sequence is decoded when there is one");
    vp_reach("end");
}
