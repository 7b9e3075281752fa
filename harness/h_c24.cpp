#include "util.h"
#include "dsp/tempotracking/TempoTrackV2.h"
/* params: n, period pattern, period, alpha*1000, tightness*100, first symbolic frame, symbolic frames, width*1000 (0: any value in [0,1]) */
static double per(int pat, int p, int i) { return pat == 0 ? p : pat == 1 ? p + (i % 3 == 1) : pat == 2 ? p + 0.5 * (i % 2) : pat == 3 ? (i < 5 ? p : p + 2) : p + 0.3 * (i % 4); }
void vp_main() {
    int n = vp_param(0), pat = vp_param(1), p = vp_param(2); double alpha = vp_param(3) / 1000.0, tight = vp_param(4) / 100.0; int s0 = vp_param(5), sn = vp_param(6); double w = vp_param(7) / 1000.0;
    V df(n), bp(n); for (int i = 0; i < n; i++) { bool s = i >= s0 && i < s0 + sn; df[i] = s && w == 0 ? vp_double("df", 0, 1) : fabs(det(i * 3 + n)) + (i % (p > 1 ? p : 2) == 1 ? 0.8 : 0) + (s ? vp_double("e", 0, w) : 0); bp[i] = per(pat, p, i); }
    V df0(df), bp0(bp), beats; TempoTrackV2 t(44100, 512); if (vp_param(3) == 900 && vp_param(4) == 400) t.calculateBeats(df, bp, beats); else t.calculateBeats(df, bp, beats, alpha, tight);
    SAMEV(df, df0, n, "detection function unchanged"); SAMEV(bp, bp0, n, "periods unchanged");
    if (n == 0) { vp_assert(beats.empty(), "no beats in nothing"); V e; t.calculateBeats(df, V(3, 2.0), e); t.calculateBeats(V(3, 1.0), df, e); vp_assert(e.empty(), "no beats in nothing"); vp_reach("end"); return; }
    vp_assert(!beats.empty(), "some beat");
    int nb = beats.size(); std::vector<int> b(nb); for (int i = 0; i < nb; i++) { b[i] = (int)beats[i]; vp_observe("beat", beats[i]); vp_assert(b[i] >= 0 && b[i] < n && beats[i] == b[i], "beat is a frame of the input"); if (i) vp_assert(b[i] > b[i - 1], "beats strictly increasing"); }
    /* the dynamic programme, written from the objective: score(i) = (1-alpha) df(i) + alpha max_j w(i,j) score(j), j between two and half a period back */
    V cs(n); std::vector<V> W(n, V(n, 0.0)); for (int i = 0; i < n; i++) { int far = (int)floor(2 * bp[i]), near = (int)floor(0.5 * bp[i] + 0.5); double best = 0; for (int d = far; d >= near; d--) { double r = floor(2 * bp[i] + 0.5) - (far - d); /* distance as weighted */ if (i - d < 0) continue; double x = tight * log(r / bp[i]); W[i][i - d] = exp(-0.5 * x * x); double v = W[i][i - d] * cs[i - d]; if (v > best) best = v; } cs[i] = alpha * best + (1 - alpha) * df[i]; }
    for (int k = 1; k < nb; k++) { int i = b[k], j = b[k - 1]; vp_assert(i - j <= 2 * bp[i] && i - j >= (int)floor(0.5 * bp[i] + 0.5), "beats between half and twice the period apart"); double mine = W[i][j] * cs[j]; for (int m = 0; m < i; m++) if (m != j && W[i][m] > 0) vp_assert(mine >= W[i][m] * cs[m] - 1e-9, "each beat links to the best-scoring predecessor"); }
    int tail = (int)(n - bp[n - 1]); if (tail < 0) tail = 0; vp_assert(b[nb - 1] >= tail, "last beat within the final period"); for (int m = tail; m < n; m++) vp_assert(cs[b[nb - 1]] >= cs[m] - 1e-9, "last beat is the best-scoring one");
    { int i = b[0]; double best = 0; for (int m = 1; m < i; m++) if (W[i][m] * cs[m] > best) best = W[i][m] * cs[m]; double z = i > 0 ? W[i][0] * cs[0] : 0; int far = (int)floor(2 * bp[i]); if (i - far > 0) vp_assert(0, "tracking back stops only at the start"); (void)z; vp_assert(best <= (W[i][0] * cs[0] > 0 ? W[i][0] * cs[0] : 0) + 1e-9, "tracking back stops only at the start"); }
    vp_reach("end");
}
