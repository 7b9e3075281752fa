#include "util.h"
#include "maths/MathUtilities.h"
/* params: mode, n, p.  0 unit sum/max, symbolic sign; 1 Lp norm and normaliseLp; 2 alpha norm; 3 thresholds and zero data; 4 none / p=0 */
typedef MathUtilities M;
static double ipow(double a, int p) { double r = 1; for (int i = 0; i < p; i++) r = r * a; return r; }
void vp_main() {
    int mode = vp_param(0), n = vp_param(1), p = vp_param(2);
    if (mode == 0) {
        int pos = p; V v = pos ? sym("v", n, 0.01, 100) : sym("v", n, -100, 100); Arr a(v); V w = v; double s = 0; for (int i = 0; i < n; i++) s += v[i];
        if (pos) { M::normalise(a.p, n, M::NormaliseUnitSum); M::normalise(w, M::NormaliseUnitSum); double t = 0; for (int i = 0; i < n; i++) { vp_close(a[i] * s, v[i], 1e-9, "unit sum divides by the sum"); vp_close(w[i] * s, v[i], 1e-9, "unit sum divides by the sum (vector)"); } OBSV(a, n, "a"); (void)t; }
        else { M::normalise(a.p, n, M::NormaliseUnitMax); M::normalise(w); double m = 0; for (int i = 0; i < n; i++) { double f = fabs(v[i]); m = f > m ? f : m; }
            if (m == 0) { SAMEV(a, v, n, "all-zero data untouched"); } else { vp_assume(m > 1e-3); int one = 0, ok = 1; for (int i = 0; i < n; i++) { vp_close(a[i] * m, v[i], 1e-9, "unit max divides by the peak magnitude"); vp_close(w[i] * m, v[i], 1e-9, "unit max divides by the peak magnitude (vector)"); } } OBSV(a, n, "a"); }
    } else if (mode == 1) {
        V v = sym("v", n, -3, 3); V keep = v; double L = M::getLpNorm(v, p); double t = 0; for (int i = 0; i < n; i++) t += p % 2 ? fabs(ipow(v[i], p)) : ipow(v[i], p);
        vp_assert(L >= -1e-12, "norm non-negative"); vp_close(ipow(L, p), t, 1e-6, "p-th power of the norm is the sum of p-th powers"); vp_observe("L", L);
        V o = M::normaliseLp(v, p, 0.25); vp_assert((int)o.size() == n, "length kept");
        if (L < 0.2499) { double u = 1.0 / pow((double)n, 1.0 / p); for (int i = 0; i < n; i++) vp_close(o[i], u, 1e-9, "equal-component unit vector below the threshold"); }
        else if (L > 0.2501) for (int i = 0; i < n; i++) vp_close(o[i] * L, v[i], 1e-7, "divided by the norm");
        SAMEV(v, keep, n, "input unchanged");
    } else if (mode == 2) {
        V v = sym("v", n, -3, 3); Arr a(v); double r = 5; M::getAlphaNorm(a.p, n, p, &r); double r2 = M::getAlphaNorm(v, p), t = 0; for (int i = 0; i < n; i++) t += ipow(fabs(v[i]), p);
        vp_assert(r >= -1e-12, "alpha norm non-negative"); vp_close(ipow(r, p) * n, t, 1e-6, "alpha norm is the root of the mean power"); vp_close(r, r2, 1e-9, "both forms agree"); vp_observe("r", r); SAMEV(a, v, n, "input unchanged");
    } else if (mode == 3) { // zero data stay zero and finite
        V z(n, 0.0); Arr a(z); M::normalise(a.p, n, M::NormaliseUnitSum); SAMEV(a, z, n, "zero data (sum)"); M::normalise(a.p, n, M::NormaliseUnitMax); SAMEV(a, z, n, "zero data (max)"); V w = z; M::normalise(w, M::NormaliseUnitSum); M::normalise(w, M::NormaliseUnitMax); SAMEV(w, z, n, "zero data (vector)");
        V o = M::normaliseLp(z, p); double u = 1.0 / pow((double)n, 1.0 / p); for (int i = 0; i < n; i++) vp_close(o[i], u, 1e-12, "zero data gives the unit vector of the norm");
        double e = vp_double("scale", 0.5, 2), k = 0; V tiny(n), big(n); for (int i = 0; i < n; i++) { tiny[i] = 1e-9 * (i + 1) * e; big[i] = 1e-3 * (i + 1) * e; } V o2 = M::normaliseLp(tiny, p), o3 = M::normaliseLp(big, p); for (int i = 0; i < n; i++) { vp_close(o2[i], u, 1e-12, "below the default threshold"); vp_close(o3[i] * M::getLpNorm(big, p), big[i], 1e-9, "above the default threshold"); } (void)k;
        V em; vp_assert(M::normaliseLp(em, p).empty(), "empty stays empty");
    } else { V v = sym("v", n, -100, 100); Arr a(v); V w = v; M::normalise(a.p, n, M::NormaliseNone); M::normalise(w, M::NormaliseNone); V o = M::normaliseLp(v, 0); SAMEV(a, v, n, "no normalisation"); SAMEV(w, v, n, "no normalisation (vector)"); SAMEV(o, v, n, "p = 0 changes nothing");
        // unit sum with values of either sign: only a non-zero sum divides
        double s = 0; for (int i = 0; i < n; i++) s += v[i]; V x = v; M::normalise(x, M::NormaliseUnitSum); Arr y(v); M::normalise(y.p, n, M::NormaliseUnitSum); vp_assume(fabs(s) > 0.5); for (int i = 0; i < n; i++) { vp_close(x[i] * s, v[i], 1e-7, "signed data divided by the sum"); vp_close(y[i] * s, v[i], 1e-7, "signed data divided by the sum (array)"); } }
    vp_reach("end");
}
