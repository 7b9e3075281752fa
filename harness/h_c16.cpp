#include "util.h"
#include "maths/MathUtilities.h"
/* params: n, symbolic count (0 = all) */
void vp_main() {
    int n = vp_param(0), ns = vp_param(1), pos = vp_param(2); V v = ns ? detv(n, n) : sym("v", n, -10, 10); if (pos) for (int i = 0; i < n; i++) v[i] = v[i] < 0 ? -v[i] : v[i]; for (int k = 0; k < ns; k++) v[(k * 9 + n / 2) % n] = vp_double("v", pos ? 0 : -2, 2);
    V w = v; MathUtilities::adaptiveThreshold(w); vp_assert((int)w.size() == n, "length preserved");
    for (int i = 0; i < n; i++) { int a = i - 8 < 0 ? 0 : i - 8, b = i + 7 > n - 1 ? n - 1 : i + 7; double m = 0; for (int k = a; k <= b; k++) m += v[k]; m /= (b - a + 1); double e = v[i] - m; e = e < 0 ? 0 : e;
        vp_close(w[i], e, 1e-9, "excess over the clipped moving mean"); vp_assert(w[i] >= 0, "non-negative"); if (pos) vp_assert(w[i] <= v[i] + 1e-9, "never exceeds the input"); vp_observe("w", w[i]); }
    vp_reach("end");
}
