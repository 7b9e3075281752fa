#include "util.h"
#include "maths/pca/pca.h"
extern "C" { void covcol(double **data, int n, int m, double **symmat); void tred2(double **a, int n, double *d, double *e); void tqli(double *d, double *e, int n, double **z); }
struct M { int r, c; double **p; M(int r_, int c_) : r(r_), c(c_), p(new double *[r_ ? r_ : 1]) { for (int i = 0; i < r; i++) { p[i] = new double[c ? c : 1]; for (int j = 0; j < c; j++) p[i][j] = 0; } } ~M() { for (int i = 0; i < r; i++) delete[] p[i]; delete[] p; } double *operator[](int i) { return p[i]; } private: M(const M &); };
/* mode 0: covariance (0, n, m)   1: tridiagonal reduction (1, n, base, nsym, width*1000, scale 2^-k)   2: tridiagonal eigensolver, any z (2, n, base, rows of z)   3: projection, orthogonal columns of symbolic spread (3, m, ncomp)   4: projection of irregular data (4, n, m, ncomp, seed, scale 2^-k) */
static void cov() { int n = vp_param(1), m = vp_param(2); M d(n, m), s(m, m); V x = sym("x", n * m, -1, 1); for (int i = 0; i < n * m; i++) d[i / m][i % m] = x[i];
    covcol(d.p, n, m, s.p); V mean(m, 0.0); for (int j = 0; j < m; j++) { for (int i = 0; i < n; i++) mean[j] += x[i * m + j]; mean[j] /= n; }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { vp_observe("d", d[i][j]); vp_close(d[i][j], x[i * m + j] - mean[j], 1e-13, "columns centred"); }
    for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) { double c = 0; for (int i = 0; i < n; i++) c += (x[i * m + a] - mean[a]) * (x[i * m + b] - mean[b]); vp_observe("s", s[a][b]); vp_close(s[a][b], c, 1e-12 * n, "covariance"); vp_same(s[a][b], s[b][a], "symmetric"); } }
static void base(int n, int b, V &A) { A.assign(n * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A[i * n + j] = A[j * n + i] = det(i * 37 + j * 11 + b * 531) + (i == j ? 0.3 * i : 0); if (b % 3 == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i + j) % 2) A[i * n + j] = 0; }
static void tri() { int n = vp_param(1); V A; base(n, vp_param(2), A); int cnt = vp_param(3); for (int c = 0, k = 0; c < n && k < cnt; c++) for (int r = c; r < n && k < cnt; r++, k++) { if (vp_param(2) % 3 == 2 && (r + c) % 2) continue; double e = vp_double("e", -vp_param(4) / 1000.0, vp_param(4) / 1000.0); A[r * n + c] += e; if (r != c) A[c * n + r] = A[r * n + c]; }
    double sc = pow(2.0, -vp_param(5)); for (int i = 0; i < n * n; i++) A[i] *= sc;
    M z(n, n); for (int i = 0; i < n * n; i++) z[i / n][i % n] = A[i]; Arr d(n, -5), e(n, -5); tred2(z.p, n, d, e);
    for (int i = 0; i < n; i++) { vp_observe("d", d[i]); vp_observe("e", e[i]); } vp_same(e[0], 0, "no element above the first");
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0, t = 0; for (int k = 0; k < n; k++) { s += z[k][i] * z[k][j]; t += z[i][k] * z[j][k]; } vp_close(s, i == j, 1e-7, "transformation orthogonal"); vp_close(t, i == j, 1e-7, "transformation orthogonal"); }
    /* A Z = Z T */
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double l = 0, r = z[i][j] * d[j]; for (int k = 0; k < n; k++) l += A[i * n + k] * z[k][j]; if (j > 0) r += z[i][j - 1] * e[j]; if (j + 1 < n) r += z[i][j + 1] * e[j + 1]; vp_close(l / sc, r / sc, 1e-7, "similarity A Z = Z T"); } }
static void ql() { int n = vp_param(1), b = vp_param(2), R = n; V d0(n), e0(n); for (int i = 0; i < n; i++) { d0[i] = det(b * 71 + i) * 2; e0[i] = i ? det(b * 91 + i + 40) : 123; if (b % 4 == 3 && i == n / 2) e0[i] = 0; if (b % 4 == 2) d0[i] = 1 + i; }
    M q(n, n), z(R, n); V x = sym("z", R * n, -1, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q[i][j] = i == j; z[i][j] = x[i * n + j]; }
    Arr d(d0), e(e0), d2(d0), e2(e0); tqli(d, e, n, q.p); tqli(d2, e2, n, z.p);
    for (int j = 0; j < n; j++) { vp_same(d2[j], d[j], "eigenvalues do not depend on z"); vp_observe("ev", d[j]); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0, l = d0[i] * q[i][j] - d[j] * q[i][j]; for (int k = 0; k < n; k++) s += q[k][i] * q[k][j]; if (i) l += e0[i] * q[i - 1][j]; if (i + 1 < n) l += e0[i + 1] * q[i + 1][j]; vp_close(s, i == j, 1e-9, "eigenvectors orthonormal"); vp_close(l, 0, 1e-9, "T q = lambda q");
        double w = 0; for (int k = 0; k < n; k++) w += x[i * n + k] * q[k][j]; vp_observe("z", z[i][j]); vp_close(z[i][j], w, 1e-9, "every row of z is rotated by the eigenvectors"); } }
static void had() { int m = vp_param(1), nc = vp_param(2), n = 2 * m; M d(n, m); V s = sym("s", m, 0.1, 4);
    V X(n * m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { X[i * m + j] = i == 2 * j ? 1 : i == 2 * j + 1 ? -1 : 0; d[i][j] = i == 2 * j ? s[j] : i == 2 * j + 1 ? -s[j] : 0; }
    pca_project(d.p, n, m, nc);
    /* columns are orthogonal, so the components are the columns themselves by decreasing spread */
    V v(nc); for (int k = 0; k < nc; k++) { int hit = 0; for (int j = 0; j < m; j++) { double dotp = 0; for (int i = 0; i < n; i++) dotp += d[i][k] * X[i * m + j]; dotp /= 2; if (dotp > 1e-6 || dotp < -1e-6) { hit++; v[k] = s[j]; vp_close(fabs(dotp), s[j], 1e-9, "coordinate along one axis"); } } vp_assert(hit == 1, "one axis per component"); if (k) vp_assert(v[k] <= v[k - 1] + 1e-9, "largest variance first"); }
    int bigger = 0; for (int j = 0; j < m; j++) if (s[j] > v[nc - 1] + 1e-6) bigger++; vp_assert(bigger < nc, "the leading components are kept");
    for (int i = 0; i < n; i++) for (int k = 0; k < nc; k++) vp_observe("p", d[i][k]); }
static void irr() { int n = vp_param(1), m = vp_param(2), nc = vp_param(3), sd = vp_param(4); M d(n, m); V X(n * m), mean(m, 0.0); for (int i = 0; i < n * m; i++) X[i] = det(i + sd * 997) * (1 + (sd + (i % m) * 3) % 4); for (int i = 0; i < n * m; i++) { d[i / m][i % m] = X[i]; mean[i % m] += X[i] / n; } for (int i = 0; i < n * m; i++) X[i] -= mean[i % m];
    M C(m, m); double tr = 0; for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) for (int i = 0; i < n; i++) C[a][b] += X[i * m + a] * X[i * m + b]; for (int a = 0; a < m; a++) tr += C[a][a];
    double sc = pow(2.0, -vp_param(5)); for (int i = 0; i < n * m; i++) d[i / m][i % m] *= sc; pca_project(d.p, n, m, nc); for (int i = 0; i < n * m; i++) d[i / m][i % m] /= sc; double prev = 1e300, tot = 0; for (int k = 0; k < nc; k++) { double v = 0; for (int i = 0; i < n; i++) v += d[i][k] * d[i][k]; vp_assert(v <= prev * (1 + 1e-9), "largest variance first"); prev = v; tot += v;
        for (int l = 0; l < k; l++) { double c = 0; for (int i = 0; i < n; i++) c += d[i][k] * d[i][l]; vp_close(c, 0, 1e-8, "components uncorrelated"); }
        V w(m, 0.0); double nn = 0; for (int a = 0; a < m; a++) { for (int i = 0; i < n; i++) w[a] += X[i * m + a] * d[i][k]; w[a] /= v; nn += w[a] * w[a]; } vp_close(nn, 1, 1e-8, "unit direction"); for (int a = 0; a < m; a++) { double c = -v * w[a]; for (int b = 0; b < m; b++) c += C[a][b] * w[b]; vp_close(c, 0, 1e-7, "direction is an eigenvector"); } for (int i = 0; i < n; i++) { double p = 0; for (int a = 0; a < m; a++) p += X[i * m + a] * w[a]; vp_close(d[i][k], p, 1e-8, "coordinates"); vp_observe("p", d[i][k]); } }
    if (nc < m) vp_assert((tr - tot) / (m - nc) <= prev * (1 + 1e-9), "rest carries less variance"); else vp_close(tot, tr, 1e-7, "all variance kept");
    for (int i = 0; i < n; i++) for (int k = nc; k < m; k++) vp_close(d[i][k], X[i * m + k], 1e-12, "other columns stay centred data"); }
void vp_main() { int mode = vp_param(0); if (mode == 0) cov(); else if (mode == 1) tri(); else if (mode == 2) ql(); else if (mode == 3) had(); else irr(); vp_reach("end"); }
