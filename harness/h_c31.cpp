#include "util.h"
#include "dsp/onsets/PeakPicking.h"
/* params: mode, n, kind (filter), pre, post, alpha, symbolic entries, scale/1000, thresholds symbolic, seed
   0 irregular detection function with symbolic entries and thresholds; 1 silent, constant and very short input; 2 two calls */
static double A1[] = {1, -0.5}, B1[] = {0.25, 0.25}, A2[] = {1, -0.5949, 0.2348}, B2[] = {0.16, 0.32, 0.16}, A0[] = {1}, B0[] = {1};
static PPickParams cfg(int n, int kind, int pre, int post, int alpha, double a, double c, float delta) { PPickParams p; p.length = n; p.tau = 0.01; p.alpha = alpha; p.cutoff = 0.3; p.LPOrd = kind; p.LPACoeffs = kind == 0 ? A0 : kind == 1 ? A1 : A2; p.LPBCoeffs = kind == 0 ? B0 : kind == 1 ? B1 : B2; p.WinT = PPWinThresh(pre, post); p.QuadThresh = QFitThresh(a, 0, c); p.delta = delta; return p; }
static void check(const V &y, double a, double c, const std::vector<int> &on) { // y: smoothed function
    int n = y.size(), last = -1; std::vector<int> is(n, 0);
    for (size_t k = 0; k < on.size(); k++) { vp_assert(on[k] > last, "strictly increasing"); vp_assert(on[k] >= 0 && on[k] < n, "within the input"); if (on[k] <= last || on[k] < 0 || on[k] >= n) return; last = on[k]; is[on[k]] = 1;
        int i = on[k]; vp_assert(i > 0 && i < n - 1, "has neighbours"); if (i < 1 || i > n - 2) return; vp_assert(y[i] > y[i - 1] && y[i] > y[i + 1], "local maximum of the smoothed function"); vp_assert(y[i] > 0, "positive"); }
    const double e = 1e-8;
    for (int i = 2; i < n - 2; i++) { bool peak = y[i] > y[i - 1] && y[i] > y[i + 1] && y[i] > 0;
        double f = (-3 * y[i - 2] + 12 * y[i - 1] + 17 * y[i] + 12 * y[i + 1] - 3 * y[i + 2]) / 35, h = (2 * y[i - 2] - y[i - 1] - 2 * y[i] - y[i + 1] + 2 * y[i + 2]) / 14; // least-squares parabola through five points
        if (!is[i]) { if (peak) vp_assert(h >= -a - e && f <= c + e, "every peak above the threshold is reported"); } else vp_assert(h < -a + e || f > c - e, "reported peaks are above the threshold"); }
    for (int i = 0; i < n; i++) if (i < 2 || i >= n - 2) vp_assert(!is[i], "no onset at the ends");
}
static V run(PeakPicking &pp, const PPickParams &p, const V &x, double a, double c) {
    int n = x.size(); DFProcConfig d; d.length = n; d.LPOrd = p.LPOrd; d.LPACoeffs = p.LPACoeffs; d.LPBCoeffs = p.LPBCoeffs; d.winPre = p.WinT.pre; d.winPost = p.WinT.post; d.AlphaNormParam = p.alpha; d.isMedianPositive = false; d.delta = p.delta; DFProcess dp(d); // conditioning is decided by C32
    V y(n, 0.0); Arr s(x), t(x); std::vector<int> on; pp.process(s.p, n, on);
    if (n >= 4) { dp.process(t.p, &y[0]); CLOSEV(s, y, n, 1e-9, "the input is replaced by the smoothed function"); for (int i = 0; i < n; i++) y[i] = s[i]; check(y, a, c, on); } else { vp_assert(on.empty(), "too short for an onset"); SAMEV(s, x, n, "short input untouched"); }
    vp_observe("count", (double)on.size()); for (size_t k = 0; k < on.size(); k++) vp_observe("onset", on[k]); OBSV(s, n, "y"); return y;
}
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), kind = vp_param(2), pre = vp_param(3), post = vp_param(4), alpha = vp_param(5), ns = vp_param(6); double sc = vp_param(7) / 1000.0; int th = vp_param(8), seed = vp_param(9);
    double a = 0.05, c = 0.1; float delta = 0; if (th & 1) a = vp_double("a", 0, 0.4); if (th & 2) c = vp_double("c", 0, 1.5); if (th & 4) delta = vp_float("delta", -0.5, 0.5);
    PPickParams p = cfg(n, kind, pre, post, alpha, a, c, delta); PeakPicking pp(p);
    V x = detv(n, 9 + seed); for (int i = 0; i < n; i++) x[i] = 1 + fabs(x[i]) * 3 + (i % 7 == 3 ? 4 : 0);
    for (int j = 0; j < ns && j < n; j++) { int i = (int)((long)j * n / ns + 3) % n; x[i] += vp_double("x", -sc, sc); }
    if (mode == 0) run(pp, p, x, a, c);
    else if (mode == 1) { double g = vp_double("level", 0.5, 2); V k(n, g); run(pp, p, k, a, c); V z(n, 0.0); Arr s(z); std::vector<int> on; pp.process(s.p, n, on); vp_assert(on.empty(), "silence has no onsets"); run(pp, p, x, a, c); std::vector<int> none; double dummy = 0; pp.process(&dummy, 0, none); vp_assert(none.empty(), "empty input has no onsets"); }
    else { V w = detv(n, 60 + seed); for (int i = 0; i < n; i++) w[i] = fabs(w[i]) + 0.1; run(pp, p, w, a, c); run(pp, p, x, a, c); }
    vp_reach("end");
}
