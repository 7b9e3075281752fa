#include "util.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/transforms/FFT.h"
/* params: mode, n, hop, frames, box exponent.  0 frequency-domain frames; 1 time-domain frames against the definition of the transform; 2 both entry points; 3 reset */
static void out(int n, V &m, V &t, V &u) { m.assign(n / 2 + 1, -7); t = m; u = m; }
struct Out { Arr m, t, u; int h; Out(int n) : m(n / 2 + 1, -7), t(n / 2 + 1, -7), u(n / 2 + 1, -7), h(n / 2 + 1) {} void obs() { OBSV(m, h, "m"); OBSV(t, h, "t"); OBSV(u, h, "u"); } };
static void rules(Out &o, const V &pt, const V &pu, int n, int hop, bool first) {
    for (int i = 0; i < o.h; i++) {
        double om = 2 * M_PI * hop * i / n, step = o.u[i] - (first ? 0 : pu[i] + om);
        vp_assert(step <= M_PI + 1e-9 && step >= -M_PI - 1e-9, "unwrapped phase within pi of the expected advance");
        double turns = (o.u[i] - o.t[i]) / (2 * M_PI); vp_close(turns, floor(turns + 0.5), 1e-9, "unwrapped phase differs by whole turns");
        vp_assert(o.t[i] <= M_PI + 1e-12 && o.t[i] >= -M_PI - 1e-12, "phase in range");
    }
}
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), hop = vp_param(2), F = vp_param(3), h = n / 2 + 1;
    if (mode == 0) { // frames of arbitrary spectra
        PhaseVocoder pv(n, hop); V pt(h), pu(h);
        for (int f = 0; f < F; f++) {
            V a = sym("re", h, -4, 4), b = sym("im", h, -4, 4); Arr re(a), im(b); Out o(n);
            pv.processFrequencyDomain(re, im, o.m, o.t, o.u); SAMEV(re, a, h, "input unchanged"); SAMEV(im, b, h, "input unchanged");
            for (int i = 0; i < h; i++) { vp_assert(o.m[i] >= 0, "magnitude non-negative"); vp_close(o.m[i] * o.m[i], a[i] * a[i] + b[i] * b[i], 1e-9, "magnitude of the bin"); vp_same(o.t[i], atan2(b[i], a[i]), "phase is the argument of the bin"); }
            rules(o, pt, pu, n, hop, f == 0); for (int i = 0; i < h; i++) { pt[i] = o.t[i]; pu[i] = o.u[i]; } o.obs();
        }
    } else if (mode == 1) { // magnitudes of a time-domain frame against the definition; the frame is centred on time zero
        PhaseVocoder pv(n, hop); V z = detv(n, 3), sh(n), ro, io; { Out o(n); pv.processTimeDomain(&z[0], o.m, o.t, o.u); }
        V x = sym("x", n, -1, 1); Arr a(x); Out o(n); pv.processTimeDomain(a, o.m, o.t, o.u); SAMEV(a, x, n, "input unchanged");
        for (int i = 0; i < n; i++) sh[i] = x[(i + n / 2) % n]; dft(n, sh, V(), -1, ro, io);
        for (int i = 0; i < h; i++) { vp_close(o.m[i] * o.m[i], ro[i] * ro[i] + io[i] * io[i], 1e-8, "magnitude of the transform of the frame"); vp_assert(o.m[i] >= 0, "magnitude non-negative"); }
        o.obs();
    } else if (mode == 2) { // concrete irregular frames: phases against the definition, both entry points, zero-padded silence
        PhaseVocoder pv(n, hop), pw(n, hop); V pt(h), pu(h);
        for (int f = 0; f < F; f++) { V x = f == 1 ? V(n, 0.0) : detv(n, 10 + f), sh(n), ro, io; double g = vp_double("gain", 0.9, 1.1); 
            for (int i = 0; i < n; i++) sh[i] = x[(i + n / 2) % n]; dft(n, sh, V(), -1, ro, io);
            V xs(n); for (int i = 0; i < n; i++) xs[i] = g * x[i]; V re(n), im(n), shs(n); for (int i = 0; i < n; i++) shs[i] = g * sh[i]; FFTReal fft(n); fft.forward(&shs[0], &re[0], &im[0]);
            Out o(n), q(n); pv.processTimeDomain(&xs[0], o.m, o.t, o.u); pw.processFrequencyDomain(&re[0], &im[0], q.m, q.t, q.u);
            for (int i = 0; i < h; i++) { vp_close(o.m[i], q.m[i], 1e-9, "entry points agree (magnitude)"); vp_same(o.t[i], q.t[i], "entry points agree (phase)"); vp_close(o.u[i], q.u[i], 1e-9, "entry points agree (unwrapped)"); vp_close(o.m[i], g * sqrt(ro[i] * ro[i] + io[i] * io[i]), 1e-8, "magnitude of the frame"); }
            o.obs(); }
    } else if (mode == 3) { // after reset, as new
        PhaseVocoder pv(n, hop), pw(n, hop);
        for (int k = 0; k < 2; k++) { for (int f = 0; f < F; f++) { V a = sym("re", h, -4, 4), b = sym("im", h, -4, 4); Out o(n); pv.processFrequencyDomain(&a[0], &b[0], o.m, o.t, o.u); } pv.reset();
            V a = sym("re", h, -4, 4), b = sym("im", h, -4, 4); Out o(n), q(n); pv.processFrequencyDomain(&a[0], &b[0], o.m, o.t, o.u); if (k == 0) { pw.processFrequencyDomain(&a[0], &b[0], q.m, q.t, q.u); SAMEV(o.m, q.m, h, "reset: magnitude"); SAMEV(o.t, q.t, h, "reset: phase"); for (int i = 0; i < h; i++) vp_close(o.u[i], q.u[i], 1e-9, "reset: unwrapped phase as from a new object"); }
            else { PhaseVocoder px(n, hop); px.processFrequencyDomain(&a[0], &b[0], q.m, q.t, q.u); for (int i = 0; i < h; i++) vp_close(o.u[i], q.u[i], 1e-9, "second reset"); } o.obs(); }
    } else { // concrete spectra of known phases: the phase reported is the argument
        PhaseVocoder pv(n, hop); V a(h), b(h); double g = vp_double("gain", 0.5, 2);
        V x(n); int k = F; for (int i = 0; i < n; i++) x[(i + n / 2) % n] = cosk((long)k * i, n) - sink((long)k * i, n); // component k with phase pi/4
        Out o(n); pv.processTimeDomain(&x[0], o.m, o.t, o.u); vp_close(o.t[k], M_PI / 4, 1e-9, "phase of a known component"); vp_close(o.m[k], n / 2.0 * sqrt(2.0), 1e-8, "magnitude of a known component");
        for (int i = 0; i < h; i++) if (i != k) vp_close(o.m[i], 0, 1e-8, "other bins empty"); (void)g; o.obs();
    }
    vp_reach("end");
}
