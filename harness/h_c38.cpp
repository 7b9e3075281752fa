#include "util.h"
#include "dsp/rhythm/BeatSpectrum.h"
/* params: mode, frames, dims, symbolic frame. 0: against the definition; 1: degenerate feature sets */
static double cosd(const V &a, const V &b) { double p = 0, q = 0, s = 0; for (size_t i = 0; i < a.size(); i++) { p += a[i] * a[i]; q += b[i] * b[i]; s += a[i] * b[i]; } return 1 - s / (sqrt(fabs(p * q)) + 1e-20); }
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), d = vp_param(2), at = vp_param(3); BeatSpectrum bs; std::vector<V> m;
    if (mode == 0) {
        for (int i = 0; i < n; i++) { V f = detv(d, i + 3); if (i == 1) f = detv(d, 900); if (n <= 3) { for (int j = 0; j < d; j++) f[j] = f[j] * 0.5 + 0.8; if (i == at) f = sym("f", d, 0.25, 1); } else { double k = 0; for (int j = 0; j < d; j++) k += f[j] * f[j]; k = sqrt(k); for (int j = 0; j < d; j++) f[j] /= k; if (i >= at && i < at + 2) for (int j = 0; j < d; j++) f[j] += vp_double("f", -0.004, 0.004); } m.push_back(f); }
        V v = bs.process(m); int sz = n / 2; vp_assert((int)v.size() == sz, "one value per lag of half the frames");
        V o(sz, 0.0); for (int l = 1; l <= sz; l++) for (int i = 0; i < sz; i++) o[l - 1] += cosd(m[i], m[i + l]);
        double mx = 0; for (int l = 0; l < sz; l++) if (o[l] > mx) mx = o[l];
        for (int l = 0; l < sz; l++) { vp_observe("v", v[l]); vp_close(v[l] * (mx > 0 ? mx : 1), o[l], 1e-6, "sum of distances of the frame pairs that far apart, over the maximum"); vp_assert((v[l] - 1) * mx <= 1e-6, "at most one"); }
        V w = bs.process(m); vp_assert(w.size() == v.size(), "same size again"); for (int l = 0; l < sz; l++) vp_close(w[l], v[l], 1e-6, "depends only on the features given");
    } else if (mode == 1) { // zero frames, identical frames
        V z(d, 0.0), c = sym("c", d, 0.25, 1); for (int i = 0; i < n; i++) m.push_back(at == 0 ? z : c); V v = bs.process(m); vp_assert((int)v.size() == n / 2, "one value per lag of half the frames");
        if (at == 0) for (int l = 0; l < n / 2; l++) vp_close(v[l], 1, 1e-9, "silent frames are at distance one");
    }
    vp_reach("end");
}
