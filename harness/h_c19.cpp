#include "util.h"
using std::vector;
#define TPolyFit TPolyFitH // the header defines non-inline functions that also live in PeakPicking.o
#define NSUtility NSUtilityH
#include "maths/Polyfit.h"
/* params: mode, npoints, nterms, abscissa pattern. 0: least squares for all ordinates; 1: exact polynomial data; 2: errors and singular systems; 3: a symbolic abscissa (range/1000); 4: correlation coefficient */
static V absc(int n, int pat) { V x(n); for (int i = 0; i < n; i++) x[i] = pat == 0 ? i : pat == 1 ? i - (n - 1) * 0.5 : pat == 2 ? det(i + 40) * 2 : pat == 3 ? -1.0 * i : pat == 5 ? 0.0625 * i : pat == 6 ? 0.01 * (i + 0.25 * det(i)) : (double)((i * 5) % n) - 0.25 * (n % 3); return x; }
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), t = vp_param(2), pat = vp_param(3);
    if (mode == 0 || mode == 3) {
        V x = absc(n, pat); V y = mode == 3 ? detv(n, 7) : sym("y", n, -1, 1); if (mode == 3) x[n - 1] = x[n - 1] + vp_double("x", 0.5, 0.5 + vp_param(4) / 1000.0);
        V x0 = x, y0 = y, c(t, 9.0); double r = TPolyFit::PolyFit2(x, y, c); vp_assert((int)c.size() == t, "as many coefficients as asked");
        for (int i = 0; i < t; i++) vp_observe("c", c[i]); vp_observe("r", r);
        for (int k = 0; k < t; k++) { double s = 0; for (int i = 0; i < n; i++) { double p = 0, q = 1; for (int j = 0; j < t; j++) { p += c[j] * q; q *= x0[i]; } double w = 1; for (int j = 0; j < k; j++) w *= x0[i]; s += (p - y0[i]) * w; } vp_close(s, 0, mode == 3 ? 1e-4 : 1e-6, "residual orthogonal to every power"); }
        vp_assert(r >= 0 && vp_isfinite(r), "correlation value finite and non-negative"); for (int i = 0; i < n; i++) { vp_same(x[i], x0[i], "points unchanged"); vp_same(y[i], y0[i], "points unchanged"); }
    } else if (mode == 1) {
        V x = absc(n, pat), c = sym("c", t, -1, 1), y(n), d(t, 0.0); for (int i = 0; i < n; i++) { double q = 1; y[i] = 0; for (int j = 0; j < t; j++) { y[i] += c[j] * q; q *= x[i]; } }
        TPolyFit::PolyFit2(x, y, d); double tol = 1e-6; for (int j = 0; j < t; j++) { { vp_close(d[j], c[j], tol, "polynomial data reproduced"); if (pat >= 5) tol *= 16; } vp_observe("d", d[j]); }
    } else if (mode == 2) {
        V x = absc(n, pat), y = sym("y", n, -1, 1), c(t, 3.0), e; V y2(y); y2.push_back(1);
        vp_assert(TPolyFit::PolyFit2(x, y2, c) == 0, "unequal sizes give 0"); vp_assert(TPolyFit::PolyFit2(x, y, e) == 0, "no terms gives 0"); V x1(1, 1.0), y1(1, 2.0); vp_assert(TPolyFit::PolyFit2(x1, y1, c) == 0, "one point gives 0"); for (int j = 0; j < t; j++) vp_same(c[j], 3, "coefficients untouched on error");
        V xs(n, 1.0); if (t > 1) vp_assert(TPolyFit::PolyFit2(xs, y, c) == -1, "coinciding abscissae are singular");
    } else {
        V x = absc(n, pat), y(n); for (int i = 0; i < n; i++) y[i] = det(i + 77); y[1] = vp_double("y", -2, 2); V c(t, 0.0); double r = TPolyFit::PolyFit2(x, y, c); vp_observe("r", r); vp_assert(r >= 0 && r <= 1 + 1e-6, "correlation in [0,1]");
        double s = 0, sy = 0, s2 = 0; for (int i = 0; i < n; i++) { double p = 0, q = 1; for (int j = 0; j < t; j++) { p += c[j] * q; q *= x[i]; } s += (p - y[i]) * (p - y[i]); sy += y[i]; s2 += y[i] * y[i]; }
        vp_close(r * r * (s2 - sy * sy / n), (s2 - sy * sy / n) - s, 1e-6, "square is the explained share of the variance");
    }
    vp_reach("end");
}
