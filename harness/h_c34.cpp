#include "util.h"
#include "dsp/wavelet/Wavelet.h"
#include <string>
/* params: mode, type, N. 0: analysis/synthesis of a symbolic periodic signal of N samples; 1: names; 2: filters replaced on repeated calls */
static double tolOf(int t) { return t == Wavelet::Daubechies_40 ? 1e-3 : t == Wavelet::Meyer ? 1e-4 : t == Wavelet::Symlet_30 ? 5e-7 : t == Wavelet::Coiflet_5 ? 5e-8 : 1e-9; }
void vp_main() {
    int mode = vp_param(0), t = vp_param(1);
    if (mode == 1) {
        int a = vp_choice("a", 0, Wavelet::LastType), b = vp_choice("b", 0, Wavelet::LastType);
        std::string x = Wavelet::getWaveletName((Wavelet::Type)a), y = Wavelet::getWaveletName((Wavelet::Type)b);
        vp_assert(!x.empty(), "name not empty"); vp_assert((a == b) == (x == y), "names distinct"); vp_reach("end"); return;
    }
    V l, h; Wavelet::createDecompositionFilters((Wavelet::Type)t, l, h); int n = l.size();
    vp_assert(n > 0 && n % 2 == 0 && (int)h.size() == n, "both filters have the same even length");
    double tol = tolOf(t), sl = 0, sh = 0; for (int i = 0; i < n; i++) { sl += l[i]; sh += h[i]; }
    vp_close(sl, sqrt(2.0), 1e-10, "low-pass sums to root two"); vp_close(sh, 0, t == Wavelet::Meyer ? 1e-5 : 1e-9, "high-pass sums to zero");
    if (mode == 2) { V l2 = l, h2 = h; Wavelet::createDecompositionFilters(Wavelet::Haar, l2, h2); vp_assert(l2.size() == 2 && h2.size() == 2, "earlier filter contents replaced"); Wavelet::createDecompositionFilters((Wavelet::Type)t, l2, h2); vp_assert(l2 == l && h2 == h, "same filters every time"); vp_reach("end"); return; }
    bool orth = t < Wavelet::Biorthogonal_1_3 || t == Wavelet::Meyer;
    if (orth) for (int i = 0; i < n; i++) vp_close(h[i], (i % 2 ? 1 : -1) * l[n - 1 - i], 1e-12, "high-pass is the alternating flip of the low-pass");
    int N = vp_param(2), M = N / 2; V x = sym("x", N, -1, 1), a(M, 0.0), d(M, 0.0);
    for (int m = 0; m < M; m++) for (int k = 0; k < n; k++) { double v = x[((2 * m - k) % N + N) % N]; a[m] += l[k] * v; d[m] += h[k] * v; }
    for (int m = 0; m < M; m++) { vp_observe("a", a[m]); vp_observe("d", d[m]); }
    if (orth) { // transposed filters reproduce the signal
        V y(N, 0.0); for (int m = 0; m < M; m++) for (int k = 0; k < n; k++) y[((2 * m - k) % N + N) % N] += l[k] * a[m] + h[k] * d[m];
        for (int i = 0; i < N; i++) vp_close(y[i], x[i], tol, "transposed filters reproduce the signal");
    }
    // alias-cancelling synthesis bank built from the same pair: delay of n-1 samples (sign fixed by the impulse response)
    V g0(n), g1(n); for (int k = 0; k < n; k++) { g0[k] = (k % 2 ? -1 : 1) * h[k]; g1[k] = (k % 2 ? 1 : -1) * l[k]; }
    int del = -1; double sg = 0; for (int s = 0; s < 2 * n - 1; s++) { double c = 0; for (int k = 0; k < n; k++) if (s - k >= 0 && s - k < n) c += l[k] * g0[s - k] + h[k] * g1[s - k]; if (fabs(c) > 1) { del = s; sg = c > 0 ? 1 : -1; } }
    vp_assert(del >= 0 && del % 2 == 1, "analysis and synthesis pair has one odd delay"); if (del < 0) return;
    V z(N, 0.0); for (int m = 0; m < M; m++) for (int k = 0; k < n; k++) z[(2 * m + k) % N] += sg * (g0[k] * a[m] + g1[k] * d[m]);
    for (int i = 0; i < N; i++) vp_close(z[(i + del) % N], x[i], tol, "the pair reconstructs the signal");
    vp_reach("end");
}
