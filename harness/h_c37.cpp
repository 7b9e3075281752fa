#include "util.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
/* params: mode, ... 0 centroid map; 1 L1 normalisation (variant); 2 gram (n, duration*10); 3 change function (n, width); 4 change function of a constant sequence; 5 chroma clear */
static ChromaVector chroma(const char *nm, double lo, double hi) { ChromaVector c; for (int i = 0; i < 12; i++) c[i] = vp_double(nm, lo, hi); return c; }
static TCSVector tcs(const char *nm, int symbolic, int seed) { TCSVector c; for (int i = 0; i < 6; i++) c[i] = symbolic ? vp_double(nm, -1, 1) : det(seed * 6 + i); return c; }
void vp_main() {
    int mode = vp_param(0);
    if (mode == 0) {
        TonalEstimator e; ChromaVector a = chroma("a", -1, 1), b = chroma("b", -1, 1), s; for (int i = 0; i < 12; i++) s[i] = a[i] + b[i];
        TCSVector x = e.transform2TCS(a), y = e.transform2TCS(b), z = e.transform2TCS(s); vp_assert(x.size() == 6, "six components");
        const double r[3] = {1, 0.6, 1.1}, f[3] = {7.0 / 6, 2.0 / 3, 3.0 / 2}; // fifths, major thirds, minor thirds
        for (int c = 0; c < 3; c++) { double ss = 0, cc = 0; for (int p = 0; p < 12; p++) { ss += a[p] * r[c] * sin(f[c] * p * M_PI); cc += a[p] * r[c] * cos(f[c] * p * M_PI); }
            vp_close(x[2 * c], ss, 1e-9, "sine axis of each circle"); vp_close(x[2 * c + 1], cc, 1e-9, "cosine axis of each circle"); }
        for (int i = 0; i < 6; i++) { vp_close(z[i], x[i] + y[i], 1e-9, "additive"); vp_observe("t", x[i]); }
        double m = 0; for (int i = 0; i < 6; i++) m += x[i] * x[i]; double g = x.magnitude(); vp_close(g * g, m, 1e-9, "magnitude is the Euclidean norm");
    } else if (mode == 1) {
        int k = vp_param(1); ChromaVector c = chroma("c", k == 0 ? -1 : k == 1 ? 0 : -1e-9, k < 2 ? 1 : 1e-9); if (k < 2) c[vp_param(2)] = vp_double("big", 0.1, 1); if (k == 3) for (int i = 0; i < 12; i++) c[i] = 0;
        V o(12); double s = 0; for (int i = 0; i < 12; i++) { o[i] = c[i]; s += fabs(o[i]); }
        c.normalizeL1(); double t = 0; for (int i = 0; i < 12; i++) { t += fabs(c[i]); vp_observe("c", c[i]); if (k < 2) vp_close(c[i] * s, o[i], 1e-9, "every component divided by the L1 norm"); else vp_same(c[i], 0, "tiny vectors become zero"); }
        if (k == 1) { double u = 0; for (int i = 0; i < 12; i++) u += c[i]; vp_close(u * s, s, 1e-7, "sums to one"); }
    } else if (mode == 2) {
        int n = vp_param(1); double d = vp_param(2) / 10.0; TCSGram g; g.setFrameDuration(d); std::vector<TCSVector> v; for (int i = 0; i < n; i++) { v.push_back(tcs("v", 1, i)); g.addTCSVector(v[i]); vp_assert(g.getSize() == i + 1, "one entry per vector added"); }
        for (int i = -2; i < n + 3; i++) { TCSVector r = tcs("r", 0, 50 + i); g.getTCSVector(i, r); vp_assert(r.size() == 6, "six components"); for (int j = 0; j < 6; j++) vp_same(r[j], i >= 0 && i < n ? v[i][j] : 0.0, i >= 0 && i < n ? "returns the vector added" : "zero outside the range"); }
        for (int i = 0; i < n; i++) vp_assert(g.getTime(i) == (long)(i * d), "frame time"); vp_assert(g.getDuration() == (long)(n * d), "duration");
        g.clear(); vp_assert(g.getSize() == 0, "cleared"); TCSVector r; g.getTCSVector(0, r); for (int j = 0; j < 6; j++) vp_same(r[j], 0, "zero outside the range");
    } else if (mode == 3 || mode == 4) {
        int n = vp_param(1), w = vp_param(2), at = vp_param(3); TCSGram g; g.setFrameDuration(10); std::vector<TCSVector> v; TCSVector c0 = tcs("c", 1, 0);
        for (int i = 0; i < n; i++) { v.push_back(mode == 4 ? c0 : tcs("v", i >= at && i < at + 2, i)); g.addTCSVector(v[i]); }
        ChangeDFConfig cfg; cfg.smoothingWidth = w; ChangeDetectionFunction f(cfg); ChangeDistance d = f.process(g); vp_assert((int)d.size() == n, "one value per frame");
        int W = 2 * w + 1; double sg = W / (2 * 2.3548); std::vector<V> s(n + 2, V(6, 0.0)); // smoothed; entry 0 and n+1 are the zero vectors outside
        for (int i = 0; i < n; i++) for (int k = -w; k <= w; k++) if (i + k >= 0 && i + k < n) { double q = exp(-(double)(k * k) / (2 * sg * sg)) / (sg * sqrt(2 * M_PI)); for (int j = 0; j < 6; j++) s[i + 1][j] += q * v[i + k][j]; }
        for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < 6; j++) { double e = s[i + 2][j] - s[i][j]; t += e * e; }
            vp_observe("d", d[i]); vp_assert(d[i] >= 0, "non-negative"); vp_close(d[i] * d[i], t, 1e-7, "distance between the smoothed neighbours");
            if (mode == 4 && i - 1 - w >= 0 && i + 1 + w < n) vp_close(d[i], 0, 1e-6, "zero in the interior of a constant sequence"); }
        ChangeDistance e = f.process(g); for (int i = 0; i < n; i++) vp_close(d[i], e[i], 1e-7, "same answer again");
    } else { ChromaVector c = chroma("c", -1, 1); vp_assert(c.size() == 12, "twelve bins"); c.clear(); for (int i = 0; i < 12; i++) vp_same(c[i], 0, "cleared"); TCSVector t; for (int i = 0; i < 6; i++) vp_same(t[i], 0, "new vectors are zero"); }
    vp_reach("end");
}
