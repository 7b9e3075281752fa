#include "util.h"
#include "dsp/signalconditioning/FiltFilt.h"
// params: nb, iir, L, H (length of an earlier block)
static V ref(const V &a, const V &b, const V &x) {
    int n = x.size(); V y(n);
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < (int)b.size() && k <= i; k++) s += b[k] * x[i - k]; for (int k = 1; k < (int)a.size() && k <= i; k++) s -= a[k] * y[i - k]; y[i] = s; }
    return y; }
static V rev(const V &x) { return V(x.rbegin(), x.rend()); }
void vp_main() {
    int nb = vp_param(0), iir = vp_param(1), L = vp_param(2), H = vp_param(3), set = nb;
    Filter::Parameters p;
    for (int i = 0; i < nb; i++) { p.b.push_back(0.5 + 0.4 * det(i + 50 * set)); if (iir) p.a.push_back(i ? 0.35 * det(7 * i + 90 * set + 3) / i : 1.0); }
    V x = sym("x", L, -1, 1);
    FiltFilt ff(p);
    if (H) { V h = sym("hist", H, -1, 1); Arr hi(h), ho(H, 7); ff.process(hi, ho, H); SAMEV(hi, h, H, "input unchanged"); }
    Arr in(x), out(L, 7);
    ff.process(in, out, L);
    SAMEV(in, x, L, "input unchanged");
    // reflected extension of the block (odd symmetry about the end samples, zero where the block is too short)
    int e = 3 * (nb - 1); V ext(L + 2 * e, 0.0);
    for (int i = 0; i < L; i++) ext[e + i] = x[i];
    for (int d = 1; d <= e; d++) if (d < L) { ext[e - d] = 2 * x[0] - x[d]; ext[e + L - 1 + d] = 2 * x[L - 1] - x[L - 1 - d]; }
    V y = rev(ref(p.a, p.b, rev(ref(p.a, p.b, ext))));
    for (int i = 0; i < L; i++) vp_close(out[i], y[e + i], 1e-8, "forward then reversed filter of the reflected block");
    OBSV(out, L, "y");
    Arr ip(x); ff.process(ip, ip, L);
    for (int i = 0; i < L; i++) vp_close(ip[i], y[e + i], 1e-8, "in place, and independent of earlier blocks");
    vp_reach("end");
}
