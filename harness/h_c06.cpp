#include "util.h"
#include "base/Window.h"
// params: n, float?
template <typename T> void run(int n, double tol) {
    int t = vp_choice("type", 0, 5);
    Window<T> w0((WindowType)t, n);
    int how = vp_choice("copy", 0, 3); // the object itself, a copy, an assigned object of another size or of the same
    Window<T> other((WindowType)((t + 1) % 6), how == 3 ? n : n + 3); if (how >= 2) other = w0;
    Window<T> copy(w0);
    const Window<T> &w = how == 0 ? w0 : how == 1 ? copy : other;
    vp_assert(w.getSize() == n && w.getType() == (WindowType)t, "size and type reported");
    std::vector<T> d = w.getWindowData();
    vp_assert((int)d.size() == n, "window data has the window's length");
    V e(n);
    for (int i = 0; i < n; i++) {
        double c1 = cosk(i, n), c2 = cosk(2L * i, n), c3 = cosk(3L * i, n);
        switch (t) {
        case 0: e[i] = 0.5; break;
        case 1: { if (n == 1) { e[i] = 1; break; } if (n == 2) { e[i] = 0; break; } if (n == 3) { e[i] = i ? 2. / 3. : 0; break; }
            int h = n / 2, dist = i < n - i ? i : n - i; e[i] = dist >= h ? 1.0 : (double)dist / h; break; }
        case 2: e[i] = n > 1 ? 0.54 - 0.46 * c1 : 1; break;
        case 3: e[i] = n > 1 ? 0.5 - 0.5 * c1 : 1; break;
        case 4: e[i] = n > 1 ? 0.42 - 0.5 * c1 + 0.08 * c2 : 1; break;
        case 5: e[i] = n > 1 ? 0.35875 - 0.48829 * c1 + 0.14128 * c2 - 0.01168 * c3 : 1; break;
        }
    }
    double peak = t == 0 ? 0.5 : t == 2 ? 1.0 : 1.0;
    for (int i = 0; i < n; i++) {
        vp_close(d[i], e[i], tol, "textbook value");
        vp_assert(d[i] <= peak + tol && d[i] >= -tol, "within the peak");
        if (i) vp_close(d[i], d[n - i], tol, "symmetric about the centre");
        vp_observe("w", d[i]);
    }
    // pointwise application to a symbolic signal, out of place, in place, exact buffers
    std::vector<T> x(n); T *src = new T[n], *dst = new T[n];
    for (int i = 0; i < n; i++) { x[i] = (T)(sizeof(T) == 4 ? vp_float("x", -1, 1) : vp_double("x", -1, 1)); src[i] = x[i]; dst[i] = 9; }
    w.cut(src, dst);
    for (int i = 0; i < n; i++) { vp_close(dst[i], x[i] * (T)e[i], tol, "cut multiplies pointwise"); vp_same(src[i], x[i], "source unchanged"); }
    w.cut(src);
    for (int i = 0; i < n; i++) vp_close(src[i], x[i] * (T)e[i], tol, "in-place cut multiplies pointwise");
    delete[] src; delete[] dst;
    vp_reach("end");
}
void vp_main() { int n = vp_param(0); if (vp_param(1)) run<float>(n, 1e-5); else run<double>(n, 1e-12); }
