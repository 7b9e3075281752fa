#include "util.h"
#include "maths/Correlation.h"
/* params: n, mode. 0 definition; 1 scaling; 2 larger n with few unknowns */
void vp_main() {
    int n = vp_param(0), mode = vp_param(1); V v = mode == 2 ? detv(n, n) : sym("v", n, mode == 0 ? -10 : 0.01, 10); if (mode == 2) { v[n / 2] = vp_double("v", -2, 2); v[0] = vp_double("v", -2, 2); }
    Arr s(v), d(n, 77); Correlation c; c.doAutoUnBiased(s.p, d.p, n); SAMEV(s, v, n, "source unchanged");
    for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j + i < n; j++) t += v[j] * v[j + i]; t /= (n - i); vp_observe("d", d[i]);
        vp_assert(d[i] > 0, "positive"); vp_close(d[i], t > 0 ? t : 0, 1e-9, "unbiased autocorrelation, floored"); }
    if (mode == 1) { double k = 3; Arr s2(n), d2(n); for (int i = 0; i < n; i++) s2[i] = v[i] * k; Correlation c2; c2.doAutoUnBiased(s2.p, d2.p, n); for (int i = 0; i < n; i++) vp_close(d2[i], k * k * d[i], 1e-9, "scales with the square"); }
    vp_reach("end");
}
