#include "util.h"
#include "dsp/tempotracking/TempoTrack.h"
/* params: mode, lag, window, pre, post, alpha, length, ...
   0 every arrangement of sections: sections, seed; 1 symbolic entries: count, scale/1e6, seed, period, offset of the entries; 2 pulse train, every phase: period, phases from, phases, settled after (frames) */
static TTParams par(double *a, double *b) { TTParams p; p.lagLength = vp_param(1); p.winLength = vp_param(2); p.alpha = vp_param(5); p.LPOrd = 2; a[0] = 1; a[1] = -0.5949; a[2] = 0.2348; b[0] = 0.16; b[1] = 0.32; b[2] = 0.16; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = vp_param(3); p.WinT.post = vp_param(4); return p; }
static void valid(const std::vector<int> &r, const V &t, int n, int L) { int F = (n + L - 1) / L; vp_assert((int)t.size() == F, "one tempo per analysis frame"); std::vector<int> per(F, 0);
    for (size_t i = 0; i < t.size(); i++) vp_assert(t[i] == 0 || (t[i] >= 30 && t[i] <= 180), "no tempo yet or one in range");
    for (size_t i = 0; i < r.size(); i++) { vp_assert(r[i] >= 0 && r[i] < F * L, "beats within the analysis frames"); vp_assert(i == 0 || r[i] > r[i - 1], "beats in order"); if (r[i] >= 0 && r[i] < F * L) per[r[i] / L]++; }
    for (size_t i = 2; i < r.size(); i++) if (r[i] >= 0 && r[i - 2] / L == r[i] / L) vp_assert(r[i] - r[i - 1] == r[i - 1] - r[i - 2], "equally spaced within a frame");
    for (int f = 0; f < F; f++) vp_assert(per[f] >= 1, "a beat in every analysis frame"); }
void vp_main() {
    int mode = vp_param(0), L = vp_param(1), n = vp_param(6); V d(n);
    if (mode == 0) { int s = vp_param(7), seed = vp_param(8), kind[16]; for (int i = 0; i < s; i++) kind[i] = vp_choice("section", 0, 3); for (int i = 0; i < n; i++) { int k = kind[i * s / n]; d[i] = k == 0 ? 0 : k == 1 ? fabs(det(i + 500 * seed)) : k == 2 ? (i % (L / 2 + seed) == 0 ? 5 : 0.1 * fabs(det(i))) : (i % (L - 1) < 2 ? 5 : 0); } }
    else if (mode == 1) { int ns = vp_param(7), seed = vp_param(9), T = vp_param(10); double sc = vp_param(8) / 1e6; for (int i = 0; i < n; i++) d[i] = (T && i % T == 0 ? 5 : 0) + fabs(det(i + 500 * seed)); for (int j = 0; j < ns; j++) d[(j * n / ns + 3 + vp_param(11)) % n] += vp_double("d", 0, sc); }
    else { int T = vp_param(7), ph = vp_choice("phase", vp_param(8), vp_param(8) + vp_param(9) - 1); for (int i = 0; i < n; i++) d[i] = i % T == ph ? 5 : 0.02 * fabs(det(i)); }
    double a[3], b[3]; V t1, t2, t3; std::vector<int> r1, r2, r3;
    { TempoTrack t(par(a, b)); r1 = t.process(d, &t1); valid(r1, t1, n, L); V other; for (int i = 0; i < 3 * L; i++) other.push_back(fabs(det(i + 77)) + (i % 5 == 0)); t.process(other); r2 = t.process(d, &t2); }
    { TempoTrack t(par(a, b)); r3 = t.process(d, 0); }
    vp_assert(r1.size() == r2.size() && r1.size() == r3.size() && t1.size() == t2.size(), "results depend on the input only"); if (r1.size() == r2.size() && r1.size() == r3.size()) for (size_t i = 0; i < r1.size(); i++) { vp_assert(r1[i] == r2[i] && r1[i] == r3[i], "results depend on the input only"); vp_observe("beat", r1[i]); } for (size_t i = 0; i < t1.size() && i < t2.size(); i++) { vp_assert(t1[i] == t2[i], "results depend on the input only"); vp_observe("tempo", t1[i]); }
    if (mode == 2) { int T = vp_param(7), ph = 0; for (int i = 0; i < T; i++) if (d[i] == 5) ph = i; for (size_t i = 0; i < r1.size(); i++) if (r1[i] >= vp_param(10) && r1[i] < n - vp_param(2) - L) { int o = ((r1[i] - ph) % T + T) % T; vp_assert(o <= 2 || o >= T - 2, "beats fall on the pulses"); } }
    { V x(d); std::vector<int> none; V tn; TempoTrack t(par(a, b)); none = t.process(V(), &tn); vp_assert(none.empty() && tn.empty(), "nothing in, nothing out"); for (int i = 0; i < n; i++) vp_same(x[i], d[i], "input unchanged"); }
    { int h0 = vp_heap_objects(); { TempoTrack t(par(a, b)); t.process(d); } vp_assert(vp_heap_objects() == h0, "everything allocated is released"); }
    vp_reach("end");
}
