#include "util.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
/* params: mode, n. 0 cosine; 1 parallel vectors; 2 defaults; 3 Gaussian; 4 distribution; 5 distribution with zeros; 6 cosine of long vectors */
void vp_main() {
    int mode = vp_param(0), n = vp_param(1); CosineDistance c; KLDivergence k;
    if (mode == 0 || mode == 6) {
        double R = n > 3 ? 1.5 : 3; V a = mode == 0 ? sym("a", n, -R, R) : detv(n, 1), b = mode == 0 ? sym("b", n, -R, R) : detv(n, 2); if (mode == 6) a[1] = vp_double("a", -2, 2); else { a[0] = vp_double("a0", 0.5, R); b[n > 1 ? 1 : 0] = vp_double("b1", -R, -0.5); }
        double p = 0, q = 0, s = 0; for (int i = 0; i < n; i++) { p += a[i] * a[i]; q += b[i] * b[i]; s += a[i] * b[i]; } 
        double d = c.distance(a, b), e = c.distance(b, a); vp_observe("d", d); vp_close(d, e, 1e-9, "symmetric");
        double r = sqrt(p * q); if (mode == 0 && n > 2) { double p2 = 0, q2 = 0; for (int i = n - 1; i >= 0; i--) { p2 += a[i] * a[i]; q2 += b[i] * b[i]; } vp_close(d, 1 - s / (sqrt(p2 * q2) + 1e-20), 1e-7, "one minus the cosine of the angle"); } else vp_close((1 - d) * r, s, 1e-7, "one minus the cosine of the angle"); if (mode == 0 && n <= 1) vp_assert(d >= -1e-6 && d <= 2 + 1e-6, "between 0 and 2");
    } else if (mode == 1) {
        V a = n == 1 ? sym("a", n, -3, 3) : detv(n, 5); if (n > 1) a[1] = vp_double("a1", -2, 2); double t = vp_double("t", 0.25, 4), p = 0; a[0] = vp_double("a0", -3, -0.5); V b(n), m(n); for (int i = 0; i < n; i++) { b[i] = 2 * a[i]; m[i] = -a[i]; } (void)t;
        double d = c.distance(a, b), s = c.distance(a, a), o = c.distance(a, m); vp_close(s, 0, 1e-6, "zero on self"); vp_close(d, 0, 1e-6, "zero for parallel vectors"); vp_close(o, 2, 1e-6, "two for opposite vectors"); vp_observe("d", d);
    } else if (mode == 2) {
        V a = sym("a", n, -3, 3), b = sym("b", n + 1, -3, 3), z(n, 0.0); vp_same(c.distance(a, b), 1, "mismatched sizes give 1"); vp_same(c.distance(b, a), 1, "mismatched sizes give 1"); double d = c.distance(a, z), e = c.distance(z, z); vp_close(d, 1, 1e-12, "zero vector gives 1"); vp_close(e, 1, 1e-12, "two zero vectors give 1"); V em; vp_close(c.distance(em, em), 1, 1e-12, "empty vectors give 1");
        CosineDistance f; vp_close(f.distance(a, z), c.distance(a, z), 0, "no memory of earlier calls");
    } else if (mode == 3) {
        V m1 = sym("m1", n, -3, 3), m2 = sym("m2", n, -3, 3), v1 = sym("v1", n, 0.1, 4), v2 = sym("v2", n, 0.1, 4);
        double d = k.distanceGaussian(m1, v1, m2, v2), e = k.distanceGaussian(m2, v2, m1, v1), s = k.distanceGaussian(m1, v1, m1, v1); vp_observe("d", d); vp_close(d, e, 1e-7, "symmetric"); vp_close(s, 0, 1e-9, "zero on self");
        double t = 0; for (int i = 0; i < n; i++) { double dm = m1[i] - m2[i], x = v1[i] + 1e-20, y = v2[i] + 1e-20; t += x / y + y / x - 2 + dm * dm * (1.0 / x + 1.0 / y); } vp_close(d, t / 2, 1e-7, "symmetrised Gaussian divergence"); if (n <= 1) vp_assert(d >= -1e-6, "non-negative");
    } else {
        double lo = mode == 5 ? 0 : 0.05; V a = sym("a", n, lo, 1), b = sym("b", n, lo, 1);
        double d = k.distanceDistribution(a, b, true), e = k.distanceDistribution(b, a, true), s = k.distanceDistribution(a, a, true), u = k.distanceDistribution(a, b, false), w = k.distanceDistribution(b, a, false); vp_observe("d", d);
        vp_close(d, e, 1e-9, "symmetric"); vp_close(s, 0, 1e-9, "zero on self"); vp_close(d, u + w, 1e-9, "symmetrised is the sum of both directions"); if (mode == 4 && n == 1) vp_assert(d >= -1e-6, "non-negative"); double t = 0; for (int i = 0; i < n; i++) t += a[i] * log10((a[i] + 1e-20) / (b[i] + 1e-20)); vp_close(u, t, 1e-9, "sum of p log(p/q)");
    }
    vp_reach("end");
}
