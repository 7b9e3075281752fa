#include "util.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
static double i0ref(double x) { double t = 1, s = 1; for (int i = 1; i < 60; i++) { t *= (x / 2) * (x / 2) / ((double)i * i); s += t; } return s; }
template <typename W> void cuts(const W &w, int n) {
    V x = sym("x", n, -1, 1); Arr src(x), dst(n, 9);
    w.cut(src, dst);
    for (int i = 0; i < n; i++) { vp_close(dst[i], x[i] * w.getWindow()[i], 1e-12, "cut multiplies pointwise"); vp_same(src[i], x[i], "source unchanged"); }
    w.cut(src);
    for (int i = 0; i < n; i++) vp_close(src[i], x[i] * w.getWindow()[i], 1e-12, "in-place cut multiplies pointwise");
}
// params: mode, n, beta*10 or p
void vp_main() {
    int mode = vp_param(0), n = vp_param(1);
    if (mode == 0) { // Kaiser values for concrete beta
        KaiserWindow::Parameters p; p.length = n; p.beta = vp_param(2) / 10.0;
        KaiserWindow w(p); const double *d = w.getWindow();
        vp_assert(w.getLength() == n && (int)w.m_window.size() == n, "requested length");
        for (int i = 0; i < n; i++) {
            double k = n > 1 ? 2.0 * i / (n - 1) - 1.0 : 0; double r = 1 - k * k; if (r < 0) r = 0;
            vp_close(d[i], i0ref(p.beta * sqrt(r)) / i0ref(p.beta), 1e-9, "Bessel definition");
            vp_close(d[i], d[n - 1 - i], 1e-12, "symmetric"); vp_assert(d[i] > 0 && d[i] <= 1 + 1e-12, "positive and at most one");
            vp_observe("k", d[i]);
        }
        if (n % 2) vp_close(d[n / 2], 1.0, 1e-12, "peak of one at the centre");
        cuts(w, n);
    } else if (mode == 1) { // Kaiser with symbolic beta
        KaiserWindow::Parameters p; p.length = n; p.beta = vp_double("beta", 0, vp_param(2) / 10.0);
        KaiserWindow w(p); const double *d = w.getWindow();
        for (int i = 0; i < n; i++) { vp_close(d[i], d[n - 1 - i], 1e-12, "symmetric"); }
        if (n % 2) vp_close(d[n / 2], 1.0, 1e-9, "peak of one at the centre");
    } else if (mode == 2) { // design formulae, symbolic attenuation, concrete transition
        double tr = n / 100.0, att = vp_double("att", 1, 120);
        KaiserWindow::Parameters p = KaiserWindow::parametersForTransitionWidth(att, tr);
        double len = att > 21 ? (att - 7.95) / (2.285 * tr) : 5.79 / tr;
        vp_assert(p.length >= 2, "at least two points");
        vp_assert(p.length - 1 >= len - 1e-6 && p.length - 2 <= len + 1e-6, "length is the rounded-up Kaiser length plus one");
        if (att > 50) vp_close(p.beta, 0.1102 * (att - 8.7), 1e-9, "beta for high attenuation");
        else if (att > 21) { double b = (p.beta - 0.07886 * (att - 21)) / 0.5842; vp_close(b, pow(att - 21, 0.4), 1e-6, "beta for medium attenuation"); }
        else vp_close(p.beta, 0, 0, "beta is zero for low attenuation");
        vp_observe("len", p.length);
    } else if (mode == 3) { // by bandwidth / by transition width, concrete
        double att = n, bw = vp_param(2), sr = vp_param(3);
        KaiserWindow::Parameters p = KaiserWindow::parametersForBandwidth(att, bw, sr), q = KaiserWindow::parametersForTransitionWidth(att, bw * 2 * M_PI / sr);
        vp_assert(p.length == q.length, "bandwidth and transition width agree"); vp_close(p.beta, q.beta, 1e-12, "bandwidth and transition width agree");
        double tr = bw * 2 * M_PI / sr; double len = att > 21 ? (att - 7.95) / (2.285 * tr) : 5.79 / tr;
        vp_assert(p.length == 1 + (int)ceil(len), "Kaiser length");
        double beta = att > 50 ? 0.1102 * (att - 8.7) : att > 21 ? 0.5842 * pow(att - 21, 0.4) + 0.07886 * (att - 21) : 0;
        vp_close(p.beta, beta, 1e-12, "Kaiser beta");
        KaiserWindow a = KaiserWindow::byBandwidth(att, bw, sr), b = KaiserWindow::byTransitionWidth(att, tr);
        vp_assert(a.getLength() == p.length && b.getLength() == p.length, "constructors by bandwidth and transition width");
        for (int i = 0; i < p.length && i < 40; i++) { double k = 2.0 * i / (p.length - 1) - 1.0, r = 1 - k * k; double e = i0ref(beta * sqrt(r < 0 ? 0 : r)) / i0ref(beta); vp_close(a.getWindow()[i], e, 1e-7, "window by bandwidth"); vp_close(b.getWindow()[i], e, 1e-7, "window by transition width"); }
    } else if (mode == 4) { // sinc, concrete spacing
        double p = vp_param(2) / 4.0; SincWindow w(n, p);
        vp_assert(w.getLength() == n && (int)w.m_window.size() == n, "requested length");
        int c = n / 2; // centre: (n-1)/2 for odd, n/2 for even lengths
        for (int i = 0; i < n; i++) { double x = (i - c) * 2 * M_PI / p; vp_close(w.getWindow()[i], i == c ? 1.0 : sin(x) / x, 1e-9, "sinc value"); vp_observe("s", w.getWindow()[i]); }
        cuts(w, n);
    } else { // sinc, symbolic spacing: symmetric, peak 1
        double p = vp_double("p", 1, 64); SincWindow w(n, p);
        vp_assert((int)w.m_window.size() == n, "requested length");
        const double *d = w.getWindow(); int c = n / 2;
        vp_same(d[c], 1.0, "peak of one at the centre");
        for (int k = 1; c + k < n; k++) { vp_close(d[c + k], d[c - k], 1e-9, "symmetric"); double x = k * 2 * M_PI / p; vp_close(d[c + k] * x, sin(x), 1e-9, "sinc value"); }
    }
    vp_reach("end");
}
