#include "util.h"
#include <algorithm>
#include "maths/MathUtilities.h"
/* params: mode, n.  0 sum/mean/ranges; 1 median; 2 extrema; 3 circShift; 4 median of long data with few unknowns; 5 empty; 6 extrema of long data */
typedef MathUtilities M;
static void medianIs(const V &w, double r, const char *lab) {
    int n = w.size(); double lo = 0, hi = 0; // r is w[k] for odd n; otherwise the midpoint of two values at the two middle ranks
    if (n % 2) { int in = 0, less = 0, le = 0; for (int i = 0; i < n; i++) { in |= (w[i] == r); less += (w[i] < r); le += (w[i] <= r); } vp_assert(in & (less <= n / 2) & (le > n / 2), lab); return; }
    if (n > 6) { V t = w; std::sort(t.begin(), t.end()); vp_close(r, (t[n / 2 - 1] + t[n / 2]) / 2, 1e-9, lab); return; }
    for (int i = 0; i < n; i++) { int less = 0, le = 0; for (int k = 0; k < n; k++) { less += (w[k] < w[i]); le += (w[k] <= w[i]); }
        lo = ((less <= n / 2 - 1) & (le > n / 2 - 1)) ? w[i] : lo; hi = ((less <= n / 2) & (le > n / 2)) ? w[i] : hi; }
    vp_close(r, (lo + hi) / 2, 1e-9, lab); }
void vp_main() {
    int mode = vp_param(0), n = vp_param(1);
    if (mode == 0) {
        V v = sym("v", n, -100, 100); Arr a(v); double s = 0; for (int i = 0; i < n; i++) s += v[i];
        vp_close(M::sum(a.p, n), s, 1e-9, "sum"); vp_close(M::mean(a.p, n), s / n, 1e-9, "mean");
        int b = vp_choice("start", 0, n - 1), c = vp_choice("count", 0, n - b); double t = 0; for (int i = 0; i < c; i++) t += v[b + i];
        vp_close(M::mean(v, b, c), c ? t / c : 0, 1e-9, "mean of a range"); SAMEV(a, v, n, "input unchanged"); vp_observe("sum", M::sum(a.p, n));
    } else if (mode == 1) { V v = sym("v", n, -100, 100); Arr a(v); double m = M::median(a.p, n); medianIs(v, m, "median"); SAMEV(a, v, n, "input unchanged"); vp_observe("m", m);
    } else if (mode == 4) { V v = detv(n, n); for (int k = 0; k < 2; k++) v[(k * 7 + 3) % n] = vp_double("v", -2, 2); if (n > 6) v[5] = v[6] = v[1]; Arr a(v); double m = M::median(a.p, n); medianIs(v, m, "median"); SAMEV(a, v, n, "input unchanged"); vp_observe("m", m);
    } else if (mode == 2 || mode == 6) {
        V v = mode == 2 ? sym("v", n, -100, 100) : detv(n, n); if (mode == 6) for (int k = 0; k < 3; k++) v[(k * 5 + n - 1) % n] = vp_double("v", -2, 2);
        Arr a(v); double mn = 77, mx = 77; M::getFrameMinMax(a.p, n, &mn, &mx); double m1 = 5, m2 = 5; int i1 = M::getMax(a.p, n, &m1), i2 = M::getMax(v, &m2), i3 = M::getMax(a.p, n), i4 = M::getMax(v);
        int oks = 1, in = 0, inx = 0; for (int i = 0; i < n; i++) { oks &= (mn <= v[i]) & (v[i] <= mx); in |= (mn == v[i]); inx |= (mx == v[i]); } vp_assert(oks & in & inx, "minimum and maximum");
        vp_assert(i1 >= 0 && i1 < n && i1 == i2 && i3 == i1 && i4 == i1, "index of maximum in range and the same in both forms"); vp_same(m1, mx, "maximum value"); vp_same(m2, mx, "maximum value (vector)"); vp_same(v[i1], mx, "index points at the maximum");
        int first = 1; for (int i = 0; i < i1; i++) first &= (v[i] < mx); vp_assert(first, "first maximum"); SAMEV(a, v, n, "input unchanged"); vp_observe("mx", mx); vp_observe("i", i1);
    } else if (mode == 3) { V v = sym("v", n, -100, 100); int k = vp_choice("shift", 0, 2 * n + 1); Arr a(v); M::circShift(a.p, n, k); for (int i = 0; i < n; i++) vp_same(a[(i + k) % n], v[i], "rotation by the given amount"); OBSV(a, n, "r");
    } else { double mn = 1, mx = 1, d = 0; vp_same(M::median(&d, 0), 0, "median of nothing"); vp_same(M::mean(&d, 0), 0, "mean of nothing"); vp_same(M::sum(&d, 0), 0, "sum of nothing"); M::getFrameMinMax(&d, 0, &mn, &mx); vp_same(mn, 0, "min of nothing"); vp_same(mx, 0, "max of nothing"); V e(3, 1.0); vp_same(M::mean(e, 1, 0), 0, "mean of an empty range"); }
    vp_reach("end");
}
