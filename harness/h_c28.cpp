#include "util.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/transforms/FFT.h"
/* params: mode, FS, min, max, BPO, threshold*1e4, symbolic bins (0 = all), normalise mode, seed, 1 = also compare with the input scaled by four
   0 constant-Q map of every spectrum, both calls; 1 chromagram of every spectrum; 2 time-domain frames; 3 silence, then the same frame again; 4 one component at a bin centre */
struct K { int L, k; std::vector<V> re, im; double q; }; // dense kernels by definition
static K kernels(double fs, double mn, double mx, int bpo, double th) {
    K r; r.q = 1 / (pow(2.0, 1.0 / bpo) - 1); r.k = (int)ceil(bpo * log(mx / mn) / log(2.0)); r.L = 1; while (r.L < (int)ceil(r.q * fs / mn)) r.L *= 2;
    for (int b = 0; b < r.k; b++) { int w = (int)ceil(r.q * fs / (mn * pow(2.0, (double)b / bpo))), o = r.L / 2 - w / 2; V x(r.L, 0.0), y(r.L, 0.0), X, Y;
        for (int i = 0; i < w; i++) { double h = 0.54 - 0.46 * cos(2 * M_PI * i / w), a = (2.0 * M_PI * r.q * i) / w; if (w < 2) h = 1; int t = (o + i + r.L / 2) % r.L; x[t] = cos(a) * h / w; y[t] = sin(a) * h / w; } // centre of the window at time zero
        X.assign(r.L, 0.0); Y = X; { FFT f(r.L); f.process(false, &x[0], &y[0], &X[0], &Y[0]); } for (int i = 0; i < r.L; i++) { double m = X[i] * X[i] + Y[i] * Y[i]; vp_assume(fabs(m - th * th) > 1e-13 || th == 0); if (m <= th * th) X[i] = Y[i] = 0; X[i] /= r.L; Y[i] /= -r.L; } r.re.push_back(X); r.im.push_back(Y); }
    return r;
}
static void apply(const K &k, const V &re, const V &im, V &cr, V &ci) { cr.assign(k.k, 0.0); ci.assign(k.k, 0.0); for (int b = 0; b < k.k; b++) for (int c = 1; c < k.L; c++) { if (k.re[b][c] == 0 && k.im[b][c] == 0) continue; cr[b] += k.re[b][c] * re[k.L - c] - k.im[b][c] * im[k.L - c]; ci[b] += k.re[b][c] * im[k.L - c] + k.im[b][c] * re[k.L - c]; } }
static V spec(const char *nm, int L, int ns, int seed, double lo, double hi) { V v(L); for (int i = 0; i < L; i++) v[i] = ns == 0 ? vp_double(nm, lo, hi) : det(seed * 1000 + i); if (ns) for (int j = 0; j < ns; j++) v[(j * L / ns + 1) % L] += vp_double(nm, lo / 8, hi / 8); return v; }
static V fold(const K &k, int bpo, const V &cr, const V &ci) { V c(bpo, 0.0); for (int o = 0; (o + 1) * bpo <= k.k; o++) for (int i = 0; i < bpo; i++) { double a = cr[o * bpo + i], b = ci[o * bpo + i]; c[i] += sqrt(a * a + b * b); } return c; }
static void checkChroma(const double *c, const V &raw, int bpo, int norm) {
    double s = 0, m = 0; for (int i = 0; i < bpo; i++) { s += raw[i]; if (raw[i] > m) m = raw[i]; }
    double d = norm == 1 ? s : norm == 2 ? m : 1; double cs = 0;
    for (int i = 0; i < bpo; i++) { vp_close(c[i] * d, raw[i], 1e-9, norm ? "folded magnitudes, normalised" : "folded magnitudes"); vp_assert(c[i] * d >= -1e-9, "not negative"); cs += c[i]; if (norm == 2) vp_assert(c[i] * d <= m + 1e-9, "peak of one"); vp_observe("c", c[i]); }
    if (norm == 1) vp_close(cs * s, s, 1e-9, "sums to one"); }
void vp_main() {
    int mode = vp_param(0); double fs = vp_param(1), mn = vp_param(2), mx = vp_param(3); int bpo = vp_param(4); double th = vp_param(5) / 1e4; int ns = vp_param(6), norm = vp_param(7), seed = vp_param(8);
    if (mode == 0) {
        CQConfig g; g.FS = fs; g.min = mn; g.max = mx; g.BPO = bpo; g.CQThresh = th; ConstantQ cq(g); K k = kernels(fs, mn, mx, bpo, th);
        vp_assert(cq.getK() == k.k, "number of bins"); vp_assert(cq.getFFTLength() == k.L, "transform length"); vp_assert(cq.getHop() == k.L / 8, "hop"); vp_close(cq.getQ(), k.q, 1e-9, "quality factor"); if (cq.getK() != k.k || cq.getFFTLength() != k.L) return;
        int L = k.L, n = k.k; V re = spec("re", L, ns, 1 + seed, -1, 1), im = spec("im", L, ns, 2 + seed, -1, 1); Arr fr(re), fi(im), cr(n, 7), ci(n, 7); 
        { Arr z(2 * L, 1.0); cq.process(fr, fi, cr, ci); for (int i = 0; i < n; i++) { vp_same(cr[i], 7, "no output before the kernel exists"); vp_same(ci[i], 7, "no output before the kernel exists"); } }
        cq.sparsekernel(); V er, ei; apply(k, re, im, er, ei);
        for (int rep = 0; rep < 2; rep++) { cq.process(fr, fi, cr, ci); CLOSEV(cr, er, n, 1e-9, "real part: product with the kernels"); CLOSEV(ci, ei, n, 1e-9, "imaginary part: product with the kernels"); }
        SAMEV(fr, re, L, "input unchanged"); SAMEV(fi, im, L, "input unchanged");
        Arr il(2 * L); for (int i = 0; i < L; i++) { il[2 * i] = re[i]; il[2 * i + 1] = im[i]; } for (int rep = 0; rep < 2; rep++) { double *o = cq.process(il); for (int i = 0; i < n; i++) { vp_close(o[2 * i], er[i], 1e-9, "interleaved call agrees"); vp_close(o[2 * i + 1], ei[i], 1e-9, "interleaved call agrees"); } }
        OBSV(cr, n, "re"); OBSV(ci, n, "im");
    } else {
        ChromaConfig g; g.FS = fs; g.min = mn; g.max = mx; g.BPO = bpo; g.CQThresh = th; g.normalise = norm == 1 ? MathUtilities::NormaliseUnitSum : norm == 2 ? MathUtilities::NormaliseUnitMax : MathUtilities::NormaliseNone; Chromagram ch(g);
        double top = mn; while (top < mx * (1 - 1e-9)) top *= 2; K k = kernels(fs, mn, top, bpo, th); k.k = ch.getK(); if (k.k > (int)k.re.size()) k.k = k.re.size(); // rounding may add a bin beyond the last octave, which is not folded
        vp_assert(ch.getFrameSize() == k.L, "frame size"); vp_assert(ch.getHopSize() == k.L / 8, "hop"); vp_assert(ch.getK() / bpo * bpo == (int)floor(log(top / mn) / log(2.0) + 0.5) * bpo, "whole octaves"); if (ch.getFrameSize() != k.L) return;
        int L = k.L; V cr, ci;
        if (mode == 1) { V re = spec("re", L, ns, 1 + seed, -1, 1), im = spec("im", L, ns, 2 + seed, -1, 1); Arr fr(re), fi(im); apply(k, re, im, cr, ci); V raw = fold(k, bpo, cr, ci); if (norm) { double s = 0; for (int i = 0; i < bpo; i++) s += raw[i]; vp_assume(s > 1e-3); }
            checkChroma(ch.process(fr, fi), raw, bpo, norm);
            if (vp_param(9)) { Arr f2(L), g2(L); for (int i = 0; i < L; i++) { f2[i] = 4 * re[i]; g2[i] = 4 * im[i]; } V r4(raw); for (int i = 0; i < bpo; i++) r4[i] *= 4; checkChroma(ch.process(f2, g2), r4, bpo, norm); } }
        else if (mode == 2 || mode == 3) { V x = spec("x", L, ns, 3 + seed, -1, 1); Arr in(x);
            if (mode == 3) { Arr z(L, 0.0); for (int rep = 0; rep < 2; rep++) { double *c = ch.process(z); for (int i = 0; i < bpo; i++) vp_same(c[i], 0, "silence gives zeros"); ch.process(in); } }
            V w(L), re, im; for (int i = 0; i < L; i++) w[(i + L / 2) % L] = x[i] * (0.54 - 0.46 * cos(2 * M_PI * i / L)); re.assign(L, 0.0); im = re; { FFTReal f(L); f.forward(&w[0], &re[0], &im[0]); } apply(k, re, im, cr, ci); V raw = fold(k, bpo, cr, ci);
            if (norm) { double s = 0; for (int i = 0; i < bpo; i++) s += raw[i]; vp_assume(s > 1e-3); } checkChroma(ch.process(in), raw, bpo, norm); SAMEV(in, x, L, "input unchanged"); }
    }
    vp_reach("end");
}
