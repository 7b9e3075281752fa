#include "util.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
/* params: which (0 Decimator, 1 DecimatorB), factor, block length, blocks, mode */
static const double B8[8] = {0.060111378492136, -0.257323420830598, 0.420583503165928, -0.222750785197418, -0.222750785197418, 0.420583503165928, -0.257323420830598, 0.060111378492136};
static const double A8[8] = {1, -5.667654878577432, 14.062452278088417, -19.737303840697738, 16.889698874608641, -8.796600612325928, 2.577553446979888, -0.326903916815751};
static const double B4[8] = {0.10133306904918619, -0.2447523353702363, 0.33622528590120965, -0.13936581560633518, -0.13936581560633382, 0.3362252859012087, -0.2447523353702358, 0.10133306904918594};
static const double A4[8] = {1, -3.9035590278139427, 7.5299379980621133, -8.6890803793177511, 6.4578667096099176, -3.0242979431223631, 0.83043385136748382, -0.094420800837809335};
static const double B2[8] = {0.20898944260075727, 0.40011234879814367, 0.819741973072733, 1.0087419911682323, 1.0087419911682325, 0.81974197307273156, 0.40011234879814295, 0.20898944260075661};
static const double A2[8] = {1, 0.0077331184208358217, 1.9853971155964376, 0.19296739275341004, 1.2330748872852182, 0.18705341389316466, 0.23659265908013868, 0.032352924250533946};
static const double BB[8] = {0.029588223638661, 0.177529341831965, 0.443823354579912, 0.591764472773216, 0.443823354579912, 0.177529341831965, 0.029588223638661, 0};
static const double AB[8] = {1, 0, 0.777695961855673, 0, 0.114199425062434, 0, 0.001750925956183, 0};
// impulse response of b/a
static V impulse(const double *b, const double *a, int n) {
    V h(n); for (int i = 0; i < n; i++) { double s = i < 8 ? b[i] : 0; for (int k = 1; k < 8 && k <= i; k++) s -= a[k] * h[i - k]; h[i] = (double)s; } return h; }
// low-pass and keep every step-th sample; all computed on linear combinations of the input
static V stage(const V &x, const V &h, int step) {
    V y; for (int i = 0; i < (int)x.size(); i += step) { double s = 0; for (int k = 0; k <= i; k++) s += h[k] * x[i - k]; y.push_back(s); } return y; }
// combined impulse response of cascaded halving stages, referred to the input rate
static V cascade(int factor, int n) {
    V c(n, 0.0); c[0] = 1; V h = impulse(BB, AB, n);
    for (int f = 1; f < factor; f *= 2) { V d(n, 0.0); for (int i = 0; i < n; i++) if (c[i] != 0) for (int k = 0; i + k * f < n; k++) d[i + k * f] += c[i] * h[k]; c = d; }
    return c; }
static V response(int which, int f, int n) {
    if (which) return cascade(f, n);
    if (f == 1) { V h(n, 0.0); h[0] = 1; return h; }
    return f == 8 ? impulse(B8, A8, n) : f == 4 ? impulse(B4, A4, n) : impulse(B2, A2, n); }
template <typename D> void run(int which, int f, int L, int nb, int mode) {
    int N = L * nb, M = L / f; D d(L, f);
    vp_assert(d.getFactor() == f, "factor reported");
    if (mode == 5) { // unity gain for a constant, after the filter has settled (fixed input)
        Arr in(L, 0.75), out(M); for (int q = 0; q < nb; q++) d.process(in.p, out.p); vp_close(out[M - 1], 0.75, 1e-4, "unity gain at DC"); vp_reach("end"); return;
    }
    V x = sym("x", N, -1, 1);
    V h = response(which, f, N), y(nb * M);
    for (int j = 0; j < nb * M; j++) { double s = 0; for (int k = 0; k <= j * f; k++) s += h[k] * x[j * f - k]; y[j] = s; }
    if (mode == 0) { // stream, block by block, separate exact buffers
        for (int q = 0; q < nb; q++) { Arr in(L), out(M, 7); for (int i = 0; i < L; i++) in[i] = x[q * L + i];
            d.process(in.p, out.p);
            for (int i = 0; i < L; i++) vp_same(in[i], x[q * L + i], "input unchanged");
            for (int j = 0; j < M; j++) { vp_close(out[j], y[q * M + j], 1e-6, "low-passed stream sampled every factor-th sample"); vp_observe("y", out[j]); } }
    } else if (mode == 1) { // in place and overlapping, with another instance interleaved
        D other(L, f); V z = sym("z", N, -1, 1);
        int off = which ? 0 : vp_choice("offset", -2, 2); // destination relative to source (documented for Decimator only)
        for (int q = 0; q < nb; q++) { Arr buf(L + 4, 7); for (int i = 0; i < L; i++) buf[2 + i] = x[q * L + i];
            Arr zi(L), zo(M); for (int i = 0; i < L; i++) zi[i] = z[q * L + i];
            other.process(zi.p, zo.p);
            Arr sep(M); double *dst = which ? sep.p : buf.p + 2 + off;
            d.process(buf.p + 2, dst);
            for (int j = 0; j < M; j++) vp_close(dst[j], y[q * M + j], 1e-6, "in place or overlapping, other instances in use"); }
    } else if (mode == 3) { // float interface
        for (int q = 0; q < nb; q++) { float *in = new float[L], *out = new float[M]; V xf(L); for (int i = 0; i < L; i++) in[i] = (float)x[q * L + i]; for (int j = 0; j < M; j++) out[j] = 7;
            d.process(in, out);
            for (int j = 0; j < M; j++) { vp_close(out[j], y[q * M + j], 1e-4, "float interface agrees up to float rounding"); vp_observe("y", out[j]); }
            delete[] in; delete[] out; }
    }
    vp_reach("end");
}
static void reset(int f, int L, int nb) { // Decimator only: reset restores the initial state
    Decimator d(L, f); int M = L / f, N = L * nb;
    V hs = sym("hist", L, -1, 1), x = sym("x", N, -1, 1), h = response(0, f, N);
    Arr hi(hs), ho(M); d.process(hi.p, ho.p); d.resetFilter();
    for (int q = 0; q < nb; q++) { Arr in(L), out(M, 7); for (int i = 0; i < L; i++) in[i] = x[q * L + i]; d.process(in.p, out.p);
        for (int j = 0; j < M; j++) { int t = q * L + j * f; double s = 0; for (int k = 0; k <= t; k++) s += h[k] * x[t - k]; vp_close(out[j], s, 1e-6, "after reset"); } }
    vp_reach("end"); }
void vp_main() {
    int which = vp_param(0), f = vp_param(1), L = vp_param(2), nb = vp_param(3), mode = vp_param(4);
    if (mode == 2) reset(f, L, nb); else if (which) run<DecimatorB>(which, f, L, nb, mode); else run<Decimator>(which, f, L, nb, mode);
}
