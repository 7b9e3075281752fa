#include "util.h"
#include "dsp/transforms/DCT.h"
// params: n, mode (0 with symbolic history, 1 without)
void vp_main() {
    int n = vp_param(0), mode = vp_param(1);
    DCT dct(n);
    V x = sym("x", n, -1, 1), y = sym("y", n, -1, 1);
    Arr in(x), iny(y), f(n, 7), u(n, 7), b(n, 7), uy(n, 7);
    if (mode == 0) { V h = sym("hist", n, -1, 1); Arr hh(h); dct.inverse(hh, b); dct.forward(hh, f); dct.inverseUnitary(hh, b); dct.forwardUnitary(hh, f); dct.inverse(hh, b); }
    dct.forward(in, f);
    SAMEV(in, x, n, "input unchanged");
    V def(n);
    for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * cosk((long)k * (2 * i + 1), 4L * n); def[k] = 2 * s; }
    CLOSEV(f, def, n, 1e-9, "forward is the type-II cosine sum");
    OBSV(f, n, "f");
    dct.inverse(f, b);
    CLOSEV(b, x, n, 1e-9, "inverse of forward reconstructs the input");
    OBSV(b, n, "b");
    dct.forwardUnitary(in, u);
    for (int k = 0; k < n; k++) vp_close(u[k], def[k] * sqrt((k ? 1.0 : 0.5) / (2.0 * n)), 1e-9, "unitary variant is the orthonormal scaling");
    dct.inverseUnitary(u, b);
    CLOSEV(b, x, n, 1e-9, "unitary inverse reconstructs the input");
    // type-III on arbitrary coefficients
    dct.inverse(iny, b); SAMEV(iny, y, n, "input unchanged");
    for (int i = 0; i < n; i++) { double s = y[0] / 2; for (int k = 1; k < n; k++) s += y[k] * cosk((long)k * (2 * i + 1), 4L * n); vp_close(b[i], s / n, 1e-9, "inverse is the type-III cosine sum"); }
    dct.inverseUnitary(iny, b);
    for (int i = 0; i < n; i++) { double s = y[0] / sqrt((double)n); for (int k = 1; k < n; k++) s += y[k] * sqrt(2.0 / n) * cosk((long)k * (2 * i + 1), 4L * n); vp_close(b[i], s, 1e-9, "unitary inverse is the orthonormal type-III sum"); }
    if (n <= 8) {
        dct.forwardUnitary(iny, uy);
        double p = 0, q = 0; for (int i = 0; i < n; i++) { p += x[i] * y[i]; q += u[i] * uy[i]; }
        vp_close(p, q, 1e-9, "unitary transform preserves inner products");
    }
    vp_reach("end");
}
