#include "util.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/transforms/FFT.h"
/* params: mode, type, frame, step, frames, whitening, box*100.
   0 arbitrary spectra against the formula over the current and earlier spectra; 1 both entry points, window; 2 exposed magnitudes of time-domain frames; 3 long concrete history */
static double princ(double a) { return MathUtilities::princarg(a); } // decided by C15
static DFConfig cfg(int type, int n, int step, int whiten, double relax = -1, double floor_ = -1) { DFConfig c; c.stepSize = step; c.frameLength = n; c.DFType = type; c.dbRise = 3; c.adaptiveWhitening = whiten != 0; c.whiteningRelaxCoeff = relax; c.whiteningFloor = floor_; return c; }
struct Ref { // formulas over spectra
    int type, h; bool wh; double relax, flo; V m1, t1, t2, pk; Ref(int ty, int hh, int w, double r, double f) : type(ty), h(hh), wh(w), relax(r < 0 ? 0.9997 : r), flo(f < 0 ? 0.01 : f), m1(hh, 0.0), t1(hh, 0.0), t2(hh, 0.0), pk(hh, 0.0) {}
    V mag, th; double lo, hi; // value in [lo, hi]
    void frame(const V &re, const V &im) {
        mag.assign(h, 0); th.assign(h, 0); double v = 0, extra = 0;
        for (int i = 0; i < h; i++) { mag[i] = sqrt(re[i] * re[i] + im[i] * im[i]); th[i] = atan2(im[i], re[i]);
            if (wh) { double p = mag[i]; if (p < pk[i]) p = p + (pk[i] - p) * relax; if (p < flo) p = flo; pk[i] = p; mag[i] = mag[i] / p; } }
        for (int i = 0; i < h; i++) {
            double m = mag[i];
            if (type == DF_HFC) v += m * (i + 1);
            else if (type == DF_SPECDIFF) v += sqrt(fabs(m * m - m1[i] * m1[i]));
            else if (type == DF_PHASEDEV) v += fabs(princ(th[i] - 2 * t1[i] + t2[i]));
            else if (type == DF_COMPLEXSD) { double d = princ(th[i] - 2 * t1[i] + t2[i]), c = cos(d), s = sin(d), x = m1[i] - m * c, y = m * s; v += sqrt(x * x + y * y); }
            else { double p = m1[i], s = m * m; const double R = pow(10.0, 0.3); if (p > 0) { if (s > p * (R + 1e-6)) v += 1; else if (s > p * (R - 1e-6)) extra += 1; } }
            m1[i] = type == DF_BROADBAND ? m * m : m; t2[i] = t1[i]; t1[i] = th[i];
        }
        lo = v; hi = v + extra;
    }
};
void vp_main() {
    int mode = vp_param(0), type = vp_param(1), n = vp_param(2), step = vp_param(3), F = vp_param(4), w = vp_param(5), h = n / 2 + 1; double box = vp_param(6) / 100.0;
    vp_log_point(pow(10.0, 0.3) + 5e-7); vp_log_point(pow(10.0, 0.3) - 5e-7);
    double rx = w == 2 ? 0.5 : -1, fl = w == 2 ? 0.25 : -1; DetectionFunction df(cfg(type, n, step, w, rx, fl)); Ref ref(type, h, w, rx, fl);
    if (mode == 0) {
        for (int f = 0; f < F; f++) {
            V a(h), b(h); for (int i = 0; i < h; i++) { double e = box > 0 ? box : 4; double ca = box > 0 ? det(f * 50 + i) * 2 : 0, cb = box > 0 ? det(f * 50 + i + 25) * 2 : 0; a[i] = ca + vp_double("re", -e, e); b[i] = cb + vp_double("im", -e, e); }
            if (type == DF_BROADBAND) for (int i = 0; i < h; i++) vp_assume(a[i] * a[i] + b[i] * b[i] > 1e-3); Arr re(a), im(b); ref.frame(a, b); double v = df.processFrequencyDomain(re, im); SAMEV(re, a, h, "input unchanged"); SAMEV(im, b, h, "input unchanged");
            vp_assert(vp_isfinite(v), "finite"); vp_assert(v >= -1e-9, "non-negative");
            if (type == DF_BROADBAND) vp_assert(v >= ref.lo && v <= ref.hi, "value of the documented formula"); else vp_close(v, ref.lo, 1e-7, "value of the documented formula");
            double *m = df.getSpectrumMagnitude(); for (int i = 0; i < h; i++) vp_close(m[i], ref.mag[i], 1e-9, "exposed magnitudes are those of this frame");
            vp_observe("df", v);
        }
    } else if (mode == 1) { // time domain is the windowed, centred spectrum; entry points agree through the real transform
        DetectionFunction dg(cfg(type, n, step, w, rx, fl)); V win(n); for (int i = 0; i < n; i++) win[i] = 0.5 - 0.5 * cos(2 * M_PI * i / n);
        for (int f = 0; f < F; f++) { V x = f == 1 && F > 2 ? V(n, 0.0) : detv(n, 20 + f); double g = vp_double("gain", 0.99, 1.01); for (int i = 0; i < n; i++) x[i] = x[i] * g; Arr s(x);
            double v = df.processTimeDomain(s); SAMEV(s, x, n, "input unchanged");
            V sh(n), re(n), im(n); for (int i = 0; i < n; i++) { int k = (i + n / 2) % n; sh[i] = x[k] * win[k]; } FFTReal fft(n); fft.forward(&sh[0], &re[0], &im[0]); double u = dg.processFrequencyDomain(&re[0], &im[0]);
            vp_close(v, u, 1e-6, "entry points agree"); vp_assert(v >= -1e-9, "non-negative"); double *m = df.getSpectrumMagnitude(), *q = dg.getSpectrumMagnitude(); for (int i = 0; i < h; i++) vp_close(m[i], q[i], 1e-8, "magnitudes agree"); vp_observe("df", v); }
    } else if (mode == 2) { // magnitudes exposed equal the definition
        V z = detv(n, 5); df.processTimeDomain(&z[0]); V x = sym("x", n, -1, 1), sh(n), ro, io; Arr s(x); double v = df.processTimeDomain(s); for (int i = 0; i < n; i++) { int k = (i + n / 2) % n; sh[i] = x[k] * (0.5 - 0.5 * cos(2 * M_PI * k / n)); } dft(n, sh, V(), -1, ro, io);
        double *m = df.getSpectrumMagnitude(); for (int i = 0; i < h; i++) vp_close(m[i] * m[i], ro[i] * ro[i] + io[i] * io[i], 1e-8, "magnitudes of the windowed frame"); vp_assert(v >= -1e-9, "non-negative"); vp_observe("df", v);
    } else { // longer concrete history with one perturbed bin
        for (int f = 0; f < F; f++) { V a = detv(h, 40 + 2 * f), b = detv(h, 41 + 2 * f); if (f % 5 == 2) for (int i = 0; i < h; i++) a[i] = b[i] = 0; if (f >= F - 3) a[f % h] += vp_double("d", -0.01, 0.01); double v = df.processFrequencyDomain(&a[0], &b[0]); ref.frame(a, b); if (type == DF_BROADBAND) vp_assert(v >= ref.lo && v <= ref.hi, "value over a longer history"); else vp_close(v, ref.lo, 1e-7, "value over a longer history"); vp_assert(v >= -1e-9, "non-negative"); vp_observe("df", v); }
    }
    vp_reach("end");
}
