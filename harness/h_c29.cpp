#include "util.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/transforms/FFT.h"
/* params: mode, rate, fft size, cepstra, c0, window, log power, symbolic entries, scale/1000, seed
   0 spectrum: every coefficient against the definition; 1 time-domain frame; 2 a frame, silence, the frame again; 3 scaling of the input (every band must have energy) */
static V bands(double rate, int n) { V f(42); for (int i = 0; i < 42; i++) f[i] = i < 13 ? 66.6666666 + i * 66.66666666 : (66.6666666 + 12 * 66.66666666) * pow(1.0711703, (double)(i - 12)); return f; }
static V mag(const V &re, const V &im, int n) { V m(n / 2); for (int i = 0; i < n / 2; i++) m[i] = sqrt(re[i] * re[i] + im[i] * im[i]); return m; }
static V ear(double rate, int n, const V &m, double pw, int &empty) {
    V f = bands(rate, n), e(40); empty = 0;
    for (int b = 0; b < 40; b++) { double lo = f[b], c = f[b + 1], hi = f[b + 2], h = 2. / (hi - lo), t = 0; for (int i = 0; i < n / 2; i++) { double fr = ((double)i / (double)n) * rate, w = 0; if (fr > lo && fr <= c) w = h * (fr - lo) / (c - lo); else if (fr > c && fr < hi) w = h * (hi - fr) / (hi - c); t = t + w * m[i]; }
        if (t > 0) e[b] = log10(t); else { e[b] = 0; empty++; } if (pw == 2) e[b] = e[b] * e[b]; }
    return e; }
static double coef(const V &e, int k) { double s = 0, g = (1. / sqrt(20.0)); for (int b = 0; b < 40; b++) { double d = g * cos((double)k * ((double)b + 0.5) / 40.0 * M_PI); if (k == 0) d *= sqrt(2.) / 2.; s = s + d * e[b]; } return s; }
void vp_main() {
    int mode = vp_param(0); double rate = vp_param(1); int n = vp_param(2), nc = vp_param(3), c0 = vp_param(4), win = vp_param(5), pw = vp_param(6), ns = vp_param(7); double sc = vp_param(8) / 1000.0; int seed = vp_param(9);
    MFCCConfig g((int)rate); g.fftsize = n; g.nceps = nc; g.want_c0 = c0; g.window = (WindowType)win; g.logpower = pw; MFCC m(g); int no = nc + (c0 ? 1 : 0), empty;
    vp_assert(m.getfftlength() == n, "frame size");
    if (mode == 0 || mode == 3) {
        V re(n), im(n); for (int i = 0; i < n; i++) { re[i] = det(i + seed * 999); im[i] = det(i + seed * 999 + 50000); } for (int j = 0; j < ns; j++) { int i = (j * (n / 2) / ns + 2) % (n / 2); (j % 2 ? im : re)[i] += vp_double("s", -sc, sc); }
        re.resize(n / 2 + 1); im.resize(n / 2 + 1); Arr r(re), q(im), o(no, 77); V e = ear(rate, n, mag(re, im, n), pw, empty);
        for (int rep = 0; rep < 2; rep++) { int ret = m.process(r.p, q.p, o.p); vp_assert(ret == nc, "number of cepstra"); for (int i = 0; i < no; i++) { double w = coef(e, i + (c0 ? 0 : 1)); vp_close(o[i], w, 1e-9, "cosine transform of the log band magnitudes"); vp_assert(vp_isfinite(o[i]), "finite"); if (!rep) vp_observe("c", o[i]); } }
        SAMEV(r, re, n / 2 + 1, "input unchanged"); SAMEV(q, im, n / 2 + 1, "input unchanged");
        if (mode == 3) { vp_assert(empty == 0, "scenario: every band has energy"); Arr r2(n / 2 + 1), q2(n / 2 + 1), o2(no); for (int i = 0; i <= n / 2; i++) { r2[i] = 4 * re[i]; q2[i] = 4 * im[i]; } m.process(r2.p, q2.p, o2.p); for (int i = 0; i < no; i++) { double ex = 0; if (c0 && i == 0) ex = log10(4.0) * 40 * sqrt(0.5) / sqrt(20.0); vp_close(o2[i], o[i] + ex, 1e-6, "scaling the input changes only the first coefficient"); } }
    } else {
        V x(n), z(n, 0.0), re(n), im(n), w(n); for (int i = 0; i < n; i++) x[i] = det(i + seed * 777); for (int j = 0; j < ns; j++) x[(j * n / ns + 3) % n] += vp_double("s", -sc, sc); Arr in(x), o(no, 5);
        Window<double> wd((WindowType)win, n); w = x; wd.cut(&w[0]); FFTReal f(n); f.forward(&w[0], &re[0], &im[0]); V e = ear(rate, n, mag(re, im, n), pw, empty);
        if (mode == 2) { Arr zi(z), oz(no, 3); m.process(in.p, o.p); m.process(zi.p, oz.p); for (int i = 0; i < no; i++) { vp_assert(vp_isfinite(oz[i]), "finite"); vp_close(oz[i], 0, 1e-9, "silence: no energy in any band"); } }
        int ret = m.process(in.p, o.p); vp_assert(ret == nc, "number of cepstra"); re.resize(n / 2 + 1); im.resize(n / 2 + 1); Arr fr(re), fi(im), o2(no, 8); m.process(fr.p, fi.p, o2.p);
        for (int i = 0; i < no; i++) { vp_close(o[i], coef(e, i + (c0 ? 0 : 1)), 1e-9, "cosine transform of the log band magnitudes"); vp_close(o2[i], o[i], 1e-9, "entry points agree"); vp_observe("c", o[i]); } SAMEV(in, x, n, "input unchanged");
    }
    vp_reach("end");
}
