#include "util.h"
#include "maths/MathUtilities.h"
/* params: mode, k.  0 round; 1 mod with a fixed modulus; 2 mod with symbolic modulus; 3 princarg; 4 half-integers */
typedef MathUtilities M;
static double nearest(double x) { return floor(x + 0.5); }
static const double YS[] = {1, 0.1, 2.5, 6.283185307179586, 17, 0.7};
void vp_main() {
    int mode = vp_param(0), k = vp_param(1);
    if (mode == 0) { double lim = k == 0 ? 4 : k == 1 ? 1000 : 1e8; double x = vp_double("x", -lim, lim), r = M::round(x); vp_observe("r", r);
        vp_assert(floor(r) == r, "a whole number"); vp_assert(r - x <= 0.5 + 1e-7 && x - r <= 0.5 + 1e-7, "nearest"); double o = M::round(-x); vp_same(o, -r, "odd symmetry");
    } else if (mode == 4) { double n = floor(vp_double("n", 0, 1e8)); double h = (2 * n + 1) * 0.5; double r = M::round(h), q = M::round(-h), w = M::round((double)n), v = M::round(-(double)n); vp_same(r, (double)n + 1, "half rounds away from zero"); vp_same(q, -((double)n + 1), "negative half rounds away from zero"); vp_same(w, (double)n, "whole numbers kept"); vp_same(v, -(double)n, "negative whole numbers kept");
    } else if (mode == 1) { double y = YS[k], x = vp_double("x", -60, 60), m = M::mod(x, y); vp_observe("m", m);
        vp_assert(m >= -1e-9 && m <= y + 1e-9, "modulus in [0,y]"); double q = (x - m) / y; vp_close(q, nearest(q), 1e-9, "differs by a whole multiple");
    } else if (mode == 2) { double y = vp_double("y", 0.5, 4), x = vp_double("x", -8, 8), m = M::mod(x, y); vp_observe("m", m); vp_assert(m >= -1e-9 && m <= y + 1e-9, "modulus in [0,y]");
        int j = vp_choice("multiple", -17, 16); vp_assume(j * y <= x); vp_assume(x < (j + 1) * y); double e = m - (x - j * y); vp_assert((e <= 1e-9 && e >= -1e-9) || (e - y <= 1e-9 && e - y >= -1e-9) || (e + y <= 1e-9 && e + y >= -1e-9), "differs by a whole multiple");
    } else if (mode == 5) { // large arguments, away from and around powers of two of the quotient
        static const double CS[] = {0x1p31, 0x1p32 + 77, 3e11, -0x1p31 - 5, -4e11, 0x1p24}; double y = YS[vp_param(2)], c = CS[k] * y, x = vp_double("x", c - 300, c + 300), m = M::mod(x, y); vp_observe("m", m);
        vp_assert(m >= -1e-2 && m <= y + 1e-2, "modulus in [0,y]"); double q = (x - m) / y; vp_close(q, nearest(q), 0.1, "differs by a whole multiple");
    } else { double L = k ? 1000 : 20, x = vp_double("x", -L, L), p = M::princarg(x); vp_observe("p", p); vp_assert(p >= -M_PI - 1e-9 && p <= M_PI + 1e-9, "principal argument within pi"); double q = (x - p) / (2 * M_PI); vp_close(q, nearest(q), 1e-9, "differs by whole turns"); }
    vp_reach("end");
}
