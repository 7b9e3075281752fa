#include "util.h"
extern "C" {
int dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
double ddot_(int *, double *, int *, double *, int *);
void cblas_dgemm(int order, int ta, int tb, int m, int n, int k, double alpha, const double *a, int lda, const double *b, int ldb, double beta, double *c, int ldc);
double cblas_ddot(int n, const double *x, int ix, const double *y, int iy);
int dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info);
int dgetri_(int *n, double *a, int *lda, int *ipiv, double *work, int *lwork, int *info);
void invert(double **cov, int L, double **icov, double *detcov);
}
/* params: mode ...  0: matrix product (0, m, n, k, pad, coefficient set, symbolic coefficients?) all transposes and both interfaces
   1: dot product (1, n, incx, incy)   2: LU + inverse (2, n, base, nsym, width*1000)   3: singular (3, n, column)   4: invert (4, n, base, nsym, width*1000)   5: non-square LU (5, m, n, base) */
static double coef(int set, int which) { static const double t[6][2] = {{1, 0}, {1, 1}, {0.5, -2}, {0, 1}, {0, 0.5}, {-1.5, 0}}; return t[set][which]; }
static void gemm() {
    int m = vp_param(1), n = vp_param(2), k = vp_param(3), pad = vp_param(4), set = vp_param(5); int ta = vp_choice("ta", 0, 1), tb = vp_choice("tb", 0, 1), api = vp_choice("api", 0, 2);
    double al = coef(set, 0), be = coef(set, 1); if (vp_param(6)) { al = vp_double("alpha", -1, 1); be = vp_double("beta", -1, 1); }
    V A = sym("a", m * k, -1, 1), B = sym("b", k * n, -1, 1), C = sym("c", m * n, -1, 1); /* logical row-major */
    bool row = api == 2; /* storage order as seen by the routine */
    int ra = ta ? k : m, ca = ta ? m : k, rb = tb ? n : k, cb = tb ? k : n;
    int lda = (row ? ca : ra) + pad, ldb = (row ? cb : rb) + (pad ? 2 : 0), ldc = (row ? n : m) + pad;
    Arr sa(lda * (row ? ra : ca), 7.0), sb(ldb * (row ? rb : cb), 8.0), sc(ldc * (row ? m : n), 9.0);
#define AT(i, j, ld) (row ? (i) * (ld) + (j) : (j) * (ld) + (i))
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) sa[ta ? AT(j, i, lda) : AT(i, j, lda)] = A[i * k + j];
    for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) sb[tb ? AT(j, i, ldb) : AT(i, j, ldb)] = B[i * n + j];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sc[AT(i, j, ldc)] = C[i * n + j];
    char N = 'N', Tt = 'T'; 
    if (api == 0) dgemm_(ta ? &Tt : &N, tb ? &Tt : &N, &m, &n, &k, &al, sa, &lda, sb, &ldb, &be, sc, &ldc);
    else cblas_dgemm(row ? 101 : 102, ta ? 112 : 111, tb ? 112 : 111, m, n, k, al, sa, lda, sb, ldb, be, sc, ldc);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int t = 0; t < k; t++) s += A[i * k + t] * B[t * n + j]; double r = al * s + be * C[i * n + j]; vp_observe("c", sc[AT(i, j, ldc)]); vp_close(sc[AT(i, j, ldc)], r, 1e-12 * (k + 2), "product element"); }
    for (int u = 0; u < sc.n; u++) { int p = u % ldc; if (p >= (row ? n : m)) vp_same(sc[u], 9.0, "padding of the result untouched"); }
    for (int u = 0; u < sa.n; u++) if (u % lda >= (row ? ca : ra)) vp_same(sa[u], 7.0, "padding of the operand untouched");
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) vp_same(sa[ta ? AT(j, i, lda) : AT(i, j, lda)], A[i * k + j], "operand a unchanged");
    for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) vp_same(sb[tb ? AT(j, i, ldb) : AT(i, j, ldb)], B[i * n + j], "operand b unchanged");
}
static void dot() {
    int n = vp_param(1), ix = vp_param(2), iy = vp_param(3); int ax = ix < 0 ? -ix : ix, ay = iy < 0 ? -iy : iy;
    V x = sym("x", n, -1, 1), y = sym("y", n, -1, 1); Arr sx(n ? (n - 1) * ax + 1 : 0, 5), sy(n ? (n - 1) * ay + 1 : 0, 6); double s = 0;
    for (int i = 0; i < n; i++) { sx[ix < 0 ? (n - 1 - i) * ax : i * ax] = x[i]; sy[iy < 0 ? (n - 1 - i) * ay : i * ay] = y[i]; s += x[i] * y[i]; }
    double r = ddot_(&n, sx, &ix, sy, &iy), q = cblas_ddot(n, sx, ix, sy, iy); vp_observe("dot", r); vp_close(r, s, 1e-13 * (n + 1), "dot product"); vp_same(q, r, "both interfaces agree");
}
/* irregular, well-conditioned base matrices; base picks how the large entries are permuted so that pivoting exchanges rows */
static void base(int m, int n, int b, V &A) { A.assign(m * n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i * n + j] = 0.4 * det(i * 131 + j * 17 + b * 977) / (n > 8 ? 4 : 1);
    for (int j = 0; j < n && j < m; j++) { int i = b % 4 == 0 ? j : b % 4 == 1 ? (j + 1) % (m < n ? m : n) : b % 4 == 2 ? (m < n ? m : n) - 1 - j : (j * 2 + 1) % (m < n ? m : n); if (b % 4 == 3 && (m < n ? m : n) % 2 == 0) i = j ^ 1; A[i * n + j] += (j % 3 == 1 ? -1 : 1) * (1.5 + 0.1 * (j % 7)); } }
static void perturb(V &A, int n, int cnt, double w) { /* last column first, then spread */ int N = A.size(); for (int c = 0; c < cnt; c++) { int p = c < n ? (N - 1 - c * n) : (c * 5 + 1) % N; if (p < 0) p = (c * 3) % N; A[p] += vp_double("e", -w, w); } }
static void lu(bool viaInvert) {
    int n = vp_param(1), b = vp_param(2); V A; base(n, n, b, A); perturb(A, n, vp_param(3), vp_param(4) / 1000.0);
    if (viaInvert) {
        double **c = new double *[n], **ic = new double *[n]; Arr *cs = 0; for (int i = 0; i < n; i++) { c[i] = new double[n]; ic[i] = new double[n]; for (int j = 0; j < n; j++) c[i][j] = A[i * n + j]; } (void)cs;
        double d = -1; invert(c, n, ic, &d);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vp_observe("inv", ic[i][j]); vp_same(c[i][j], A[i * n + j], "matrix unchanged"); double s = 0; for (int k = 0; k < n; k++) s += c[i][k] * ic[k][j]; vp_close(s, i == j ? 1 : 0, 1e-9, "inverse"); }
        double D = 0; if (n == 1) D = A[0]; else if (n == 2) D = A[0] * A[3] - A[1] * A[2]; else if (n == 3) D = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]);
        if (n <= 3) { vp_assert(d >= 0, "determinant magnitude non-negative"); vp_close(d, fabs(D), 1e-9, "determinant magnitude"); }
        return; }
    int lda = n + (n < 9 ? 2 : 0); Arr a(lda * n, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[j * lda + i] = A[i * n + j];
    int *ip = new int[n]; int info = -7; dgetrf_(&n, &n, a, &lda, ip, &info); vp_assert(info == 0, "factorisation reported as successful");
    /* P A = L U with |L| <= 1 */
    V P = A; for (int i = 0; i < n; i++) { int p = ip[i] - 1; vp_assert(p >= i && p < n, "row exchange index in range"); for (int j = 0; j < n; j++) { double t = P[i * n + j]; P[i * n + j] = P[p * n + j]; P[p * n + j] = t; } }
    if (n <= 12) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k <= i && k <= j; k++) s += (k == i ? 1.0 : a[k * lda + i]) * a[j * lda + k]; vp_close(s, P[i * n + j], 1e-9, "P A = L U"); if (j < i) { double l = a[j * lda + i]; vp_assert(l <= 1.000001 && l >= -1.000001, "multipliers at most one"); } }
    int lw = -1; double best = 0; dgetri_(&n, a, &lda, ip, &best, &lw, &info); vp_assert(info == 0 && best >= n, "workspace query");
    lw = n > 12 ? (int)best : n; Arr w(lw); info = -7; dgetri_(&n, a, &lda, ip, w, &lw, &info); vp_assert(info == 0, "inversion reported as successful");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vp_observe("inv", a[j * lda + i]); if (n > 12 && (i + j) % 5) continue; double s = 0; for (int k = 0; k < n; k++) s += A[i * n + k] * a[j * lda + k]; vp_close(s, i == j ? 1 : 0, 1e-9, "inverse"); }
    for (int u = 0; u < a.n; u++) if (u % lda >= n) vp_same(a[u], 3, "padding untouched");
}
static void singular() { int n = vp_param(1), c = vp_param(2); V A; base(n, n, 0, A); for (int i = 0; i < n; i++) A[i * n + c] = 0; /* zero column: every other entry stays */
    Arr a(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[j * n + i] = A[i * n + j] + (j == n - 1 && c != n - 1 ? vp_double("e", -0.01, 0.01) : 0); int *ip = new int[n]; int info = 0; dgetrf_(&n, &n, a, &n, ip, &info); vp_assert(info == c + 1, "first zero pivot reported"); int lw = n; Arr w(n); dgetri_(&n, a, &n, ip, w, &lw, &info); vp_assert(info == c + 1, "inversion refuses a singular matrix");
    int m1 = -1; dgetrf_(&m1, &n, a, &n, ip, &info); vp_assert(info == -1, "bad size reported"); }
static void rect() { int m = vp_param(1), n = vp_param(2), k = m < n ? m : n; V A; base(m, n, vp_param(3), A); for (int i = 0; i < m; i++) A[i * n + n - 1] += vp_double("e", -0.01, 0.01);
    Arr a(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[j * m + i] = A[i * n + j]; int *ip = new int[k]; int info = -7; dgetrf_(&m, &n, a, &m, ip, &info); vp_assert(info == 0, "factorisation reported as successful");
    V P = A; for (int i = 0; i < k; i++) { int p = ip[i] - 1; vp_assert(p >= i && p < m, "row exchange index in range"); for (int j = 0; j < n; j++) { double t = P[i * n + j]; P[i * n + j] = P[p * n + j]; P[p * n + j] = t; } }
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int q = 0; q < k && q <= i && q <= j; q++) s += (q == i ? 1.0 : a[q * m + i]) * a[j * m + q]; vp_close(s, P[i * n + j], 1e-9, "P A = L U"); } }
void vp_main() { int mode = vp_param(0); if (mode == 0) gemm(); else if (mode == 1) dot(); else if (mode == 2) lu(false); else if (mode == 4) lu(true); else if (mode == 3) singular(); else rect(); vp_reach("end"); }
