#include "util.h"
#include "maths/MathUtilities.h"
#include <climits>
/* params: mode 0 predicates over the whole int range; 1 gcd with both arguments in [1,hi]; 2 factorial; 3 gcd with a fixed factor */
typedef MathUtilities M;
static unsigned pw(int k) { return 1u << k; }
void vp_main() {
    int mode = vp_param(0);
    if (mode == 0) {
        int x = vp_int("x", INT_MIN, INT_MAX); int is = 0; for (int k = 0; k < 31; k++) is |= (x == (int)pw(k));
        vp_assert((int)M::isPowerOfTwo(x) == is, "isPowerOfTwo is exact"); vp_reach("end");
    } else if (mode == 4) {
        int x = vp_int("x", INT_MIN, 1 << 30); unsigned n = M::nextPowerOfTwo(x); vp_observe("next", n); unsigned e = 1u << 31; for (int k = 30; k >= 0; k--) e = ((int)pw(k) >= x) ? pw(k) : e;
        vp_assert(n == e, "next is the smallest power of two not below"); vp_reach("end");
    } else if (mode == 5) {
        int x = vp_int("x", INT_MIN, INT_MAX); unsigned p = M::previousPowerOfTwo(x), e = 1; vp_observe("prev", p); for (int k = 0; k < 31; k++) e = ((int)pw(k) <= x) ? pw(k) : e;
        vp_assert(p == e, "previous is the largest power of two not above"); vp_reach("end");
    } else if (mode == 6) {
        int x = vp_int("x", INT_MIN, 1 << 30); unsigned r = M::nearestPowerOfTwo(x); vp_observe("near", r); unsigned p = 1, n = 1u << 30; for (int k = 0; k < 31; k++) p = ((int)pw(k) <= x) ? pw(k) : p; for (int k = 30; k >= 0; k--) n = ((int)pw(k) >= x) ? pw(k) : n;
        if (x < 1) n = p = 1; unsigned e = ((unsigned)x - p < n - (unsigned)x) ? p : n; if (x < 1) e = 1;
        vp_assert(r == e, "nearest power of two, ties upwards"); vp_reach("end");
    } else if (mode == 1 || mode == 3) {
        int hi = vp_param(1), f = mode == 3 ? vp_param(2) : 1; int a = vp_int("a", 1, hi) * f, b = vp_int("b", 1, hi) * f, g = M::gcd(a, b);
        vp_assert(g >= 1, "gcd positive"); vp_assert(a % g == 0 && b % g == 0, "gcd divides both");
        int bad = 0; for (int d = 2; d <= hi; d++) bad |= ((a / f) % d == 0) & ((b / f) % d == 0) & (d > g / f); vp_assert(!bad, "no greater common divisor"); vp_observe("g", g); vp_reach("end");
    } else {
        int n = vp_choice("n", -3, 170); double e = n < 0 ? 0 : 1; for (int i = 2; i <= n; i++) e = e * i; double got = M::factorial(n);
        vp_assert(got <= 1.7e308, "finite"); if (n <= 22) vp_same(got, e, "factorial exact"); else vp_close(got / e, 1, 1e-12, "factorial up to rounding"); vp_observe("f", got); vp_reach("end");
    }
}
