#include "util.h"
#include "dsp/signalconditioning/Filter.h"
// params: mode, nb, iir, L, set
static void coefs(int nb, int iir, int set, V &a, V &b) {
    a.clear(); b.clear();
    for (int i = 0; i < nb; i++) { b.push_back(0.5 + 0.4 * det(i + 50 * set)); if (iir) a.push_back(i ? 0.35 * det(7 * i + 90 * set + 3) / i : 1.0); }
}
static V ref(const V &a, const V &b, const V &x) {
    int n = x.size(); V y(n);
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < (int)b.size() && k <= i; k++) s += b[k] * x[i - k]; for (int k = 1; k < (int)a.size() && k <= i; k++) s -= a[k] * y[i - k]; y[i] = s; }
    return y; }
static bool throws_(const Filter::Parameters &p) { try { Filter f(p); } catch (std::logic_error &) { return true; } return false; }
void vp_main() {
    int mode = vp_param(0), nb = vp_param(1), iir = vp_param(2), L = vp_param(3), set = vp_param(4);
    Filter::Parameters p;
    if (mode == 4) { // invalid sets
        int na = vp_choice("na", 0, 4), k = vp_choice("nb", 0, 4);
        for (int i = 0; i < na; i++) p.a.push_back(i ? 0.25 : 1); for (int i = 0; i < k; i++) p.b.push_back(1);
        bool bad = na == 0 ? k == 0 : na != k;
        vp_assert(throws_(p) == bad, "coefficient sets are rejected exactly when invalid");
        if (!bad) { Filter f(p); vp_assert(f.getOrder() == k - 1, "order is one less than the number of coefficients"); }
        vp_reach("end"); return;
    }
    if (mode == 3) { // symbolic coefficients
        for (int i = 0; i < nb; i++) { p.b.push_back(vp_double("b", -2, 2)); if (iir) p.a.push_back(i ? vp_double("a", -1, 1) : 1.0); }
    } else coefs(nb, iir, set, p.a, p.b);
    V x = sym("x", L, -1, 1), y = ref(p.a, p.b, x);
    Filter f(p);
    vp_assert(f.getOrder() == nb - 1, "order");
    Arr in(x), out(L, 7);
    if (mode == 0 || mode == 3) { // one block
        f.process(in, out, L);
        SAMEV(in, x, L, "input unchanged");
        CLOSEV(out, y, L, 1e-8, "difference equation");
        OBSV(out, L, "y");
        // reset, then in place
        f.reset(); f.process(in, in, L);
        CLOSEV(in, y, L, 1e-8, "after reset, in place");
    } else if (mode == 1) { // two or three blocks at every split, possibly with an empty block
        int s = vp_choice("split", 0, L), inplace = vp_choice("inplace", 0, 1);
        int m = s + (L - s) / 2;
        int cut[4] = {0, s, m, L};
        for (int q = 0; q < 3; q++) { int c0 = cut[q], c1 = cut[q + 1]; Arr bi(c1 - c0), bo(c1 - c0, 7);
            for (int i = c0; i < c1; i++) bi[i - c0] = x[i];
            if (inplace) f.process(bi, bi, c1 - c0); else f.process(bi, bo, c1 - c0);
            for (int i = c0; i < c1; i++) vp_close(inplace ? bi[i - c0] : bo[i - c0], y[i], 1e-8, "blocked output equals the difference equation"); }
        if (vp_choice("again", 0, 1)) { // reset at this point returns to the initial state
            f.reset(); f.process(in, out, L); CLOSEV(out, y, L, 1e-8, "after reset");
        }
    } else if (mode == 2) { // fixed block size over a long stream, reset after an arbitrary prefix
        int bs = vp_choice("bs", 1, 23), pre = vp_choice("pre", 0, 1) ? 17 + bs : 0;
        if (pre) { V h = sym("hist", pre, -1, 1); f.process(&h[0], &h[0], pre); f.reset(); }
        Filter g(p); g.process(in, out, L);
        for (int i = 0; i < L; i += bs) { int c = i + bs > L ? L - i : bs; f.process(&in[i], &in[i], c); }
        SAMEV(in, out, L, "any blocking gives exactly the same output");
        CLOSEV(in, y, L, 1e-8, "difference equation");
    }
    vp_reach("end");
}
