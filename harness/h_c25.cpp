#include "util.h"
#include "dsp/tempotracking/TempoTrackV2.h"
/* params: n, signal (0 pulses of the given period, 1 irregular, 2 silence, 3 constant, 4 period change, 5 single click), period, tempo hint, constrain, rate*?, increment, symbolic entries (-1: skip the oracle), width*1e6 */
void vp_main() {
    int n = vp_param(0), kind = vp_param(1), P = vp_param(2), hint = vp_param(3); bool con = vp_param(4); int rate = vp_param(5), inc = vp_param(6), ns = vp_param(7); double w = vp_param(8) / 1e6;
    V df(n); for (int i = 0; i < n; i++) { double v = 0.2 + 0.1 * det(i + kind * 31); if (kind == 0) v += i % P == 3 ? 1.5 + 0.2 * det(i) : 0; else if (kind == 1) v += fabs(det(i * 7 + 3)) + (i % P == 0 ? 0.6 : 0); else if (kind == 2) v = 0; else if (kind == 3) v = 0.5; else if (kind == 4) v += i % (i < n / 2 ? P : P + 9) == 3 ? 1.5 : 0; else v = i == P ? 1 : 0; df[i] = v; }
    for (int k = 0; k < ns; k++) { int i = (k * 211 + 37) % (n > 0 ? n : 1); df[i] += vp_double("e", 0, w); }
    V df0(df), bp(n, 0.0), tempi; TempoTrackV2 t(rate, inc); if (hint == 120 && !con) t.calculateBeatPeriod(df, bp, tempi); else t.calculateBeatPeriod(df, bp, tempi, hint, con);
    SAMEV(df, df0, n, "detection function unchanged"); vp_assert((int)bp.size() == n, "one period per frame");
    int T = 0; for (int i = 0; i + 512 < n; i += 128) T++;
    if (T < 2) { vp_assert(tempi.empty(), "too short: no tempo"); for (int i = 0; i < n; i++) vp_same(bp[i], 0, "too short: periods left alone"); vp_reach("end"); return; }
    vp_assert(tempi.size() == bp.size(), "one tempo per frame");
    for (int i = 0; i < n; i++) { int k = i / 128 < T ? i / 128 : T - 1; if (i % 128 == 0) vp_observe("bp", bp[i]); vp_assert(bp[i] >= 20 && bp[i] <= 107 && bp[i] == (int)bp[i], "period in range"); vp_same(bp[i], bp[k * 128], "one period per analysis step"); vp_close(tempi[i], 60.0 * rate / inc / bp[i], 1e-3, "tempo is the rate-converted period"); }
    if (ns < 0) { vp_reach("end"); return; }
    /* the path maximises the product of weighted comb outputs and transition weights */
    double ray = 5167.0 / hint; V wv(128); for (int i = 0; i < 128; i++) wv[i] = con ? exp(-(i - ray) * (i - ray) / (2 * (ray / 4) * (ray / 4))) : i / (ray * ray) * exp(-(double)i * i / (2 * ray * ray));
    std::vector<V> R(T, V(128, 0.0)); const double EPSV = 0.0000008;
    for (int f = 0; f < T; f++) { V x(df.begin() + f * 128, df.begin() + f * 128 + 512);
        V *vs[2] = {&x, &R[f]}; for (int pass = 0; pass < 2; pass++) { V &v = *vs[pass]; int L = v.size();
            if (pass == 1) { V acf(512); for (int l = 0; l < 512; l++) { double s = 0; for (int i = 0; i + l < 512; i++) s += x[i] * x[i + l]; acf[l] = s / (512 - l); } for (int l = 1; l < 127; l++) for (int a = 1; a <= 4; a++) for (int b = 1 - a; b < a; b++) v[l] += acf[a * (l + 1) + b - 1] * wv[l] / (2 * a - 1.0); }
            V pre(L + 1, 0.0); for (int i = 0; i < L; i++) pre[i + 1] = pre[i] + v[i]; V o(L); for (int i = 0; i < L; i++) { int a = i - 8 < 0 ? 0 : i - 8, b = i + 7 > L - 1 ? L - 1 : i + 7; double m = (pre[b + 1] - pre[a]) / (b - a + 1); double d = v[i] - m; o[i] = d < 0 ? 0 : d; } v = o; }
        double s = 0; for (int i = 0; i < 128; i++) { R[f][i] += EPSV; s += R[f][i]; } for (int i = 0; i < 128; i++) R[f][i] /= s + EPSV; }
    V d(128), mine(1); for (int i = 20; i < 108; i++) d[i] = wv[i] * R[0][i]; double got = d[(int)bp[0]], sc = 0; 
    for (int f = 1; f < T; f++) { double mx = 0; for (int i = 20; i < 108; i++) if (d[i] > mx) mx = d[i]; for (int i = 20; i < 108; i++) d[i] /= mx; got /= mx; V e(128, 0.0); for (int j = 20; j < 108; j++) { double best = 0; for (int i = 20; i < 108; i++) { double q = d[i] * exp(-(double)(i - j) * (i - j) / 128.0); if (q > best) best = q; } e[j] = best * R[f][j]; } int pi = (int)bp[(f - 1) * 128], pj = (int)bp[f * 128]; got *= exp(-(double)(pi - pj) * (pi - pj) / 128.0) * R[f][pj]; d = e; }
    for (int j = 20; j < 108; j++) { vp_assert(got >= d[j] * (1 - 1e-6) - 1e-300, "the period path is the best one"); } (void)sc; (void)mine;
    vp_reach("end");
}
