#include "util.h"
#include "maths/MedianFilter.h"
/* params: mode, size, percentile*10, pushes, type(0 double,1 int)
   mode 0: symbolic pushes; 1: fixed history then symbolic pushes; 2: static filter of symbolic data; 3: reset; 4: NaN input */
static int rankix(int size, double p) { int i = (int)floor(size * p / 100); return i < 0 ? 0 : i >= size ? size - 1 : i; }
// r is the element at rank ix of w: in w, at most ix elements smaller, more than ix not larger
template <typename T> static void isrank(const std::vector<T> &w, int ix, T r, const char *lab) {
    int in = 0, less = 0, le = 0; for (size_t i = 0; i < w.size(); i++) { in |= (w[i] == r); less += (w[i] < r); le += (w[i] <= r); }
    vp_assert(in & (less <= ix) & (le > ix), lab); }
template <typename T> T val(const char *n); template <> double val(const char *n) { return vp_double(n, -10, 10); } template <> int val(const char *n) { return vp_int(n, -3, 3); }
template <typename T> void run() {
    int mode = vp_param(0), size = vp_param(1), np = vp_param(3); double pc = vp_param(2) / 10.0; int ix = rankix(size, pc);
    if (mode == 2) { std::vector<T> in; for (int i = 0; i < np; i++) in.push_back(val<T>("v")); std::vector<T> keep = in;
        std::vector<T> out = MedianFilter<T>::filter(size, in); vp_assert((int)out.size() == np, "output as long as the input");
        for (int j = 0; j < np; j++) { std::vector<T> w; for (int k = 0; k < size; k++) { int t = j + size / 2 - k; w.push_back(t >= 0 && t < np ? in[t] : T(0)); } isrank(w, rankix(size, 50), out[j], "median of the window centred on each position"); vp_observe("o", out[j]); vp_assert(in[j] == keep[j], "input unchanged"); }
        vp_reach("end"); return; }
    MedianFilter<T> f(size, (float)pc); std::vector<T> w(size, T(0));
    vp_assert(f.getSize() == size, "size reported"); vp_assert(f.get() == T(0), "zero before the first push");
    int H = mode == 1 ? 2 * size + 3 : mode == 3 ? size + 2 : 0;
    for (int i = 0; i < H; i++) { T v = T(floor(det(i + 7) * 6)); f.push(v); w.erase(w.begin()); w.push_back(v); isrank(w, ix, f.get(), "percentile of the latest window"); }
    if (mode == 3) { for (int i = 0; i < 2; i++) f.push(val<T>("h")); f.reset(); w.assign(size, T(0)); vp_assert(f.get() == T(0), "zero after reset"); }
    if (mode == 4) { f.push(T(5)); double z = 0; f.push(T(z / z)); f.push(T(7)); for (int i = 0; i < 3; i++) w.erase(w.begin()); w.push_back(5); w.push_back(0); w.push_back(7); if (size < 3) w.erase(w.begin(), w.begin() + (w.size() - size)); isrank(w, ix, f.get(), "a NaN is replaced by zero"); }
    for (int i = 0; i < np; i++) { T v = val<T>("v"); f.push(v); w.erase(w.begin()); w.push_back(v);
        isrank(w, ix, f.get(), "percentile of the latest window"); vp_observe("m", f.get()); }
    for (int q = 0; q <= 100; q += 25) isrank(w, rankix(size, q), f.getAt((float)q), "any percentile on request");
    isrank(w, ix, f.get(), "percentile unaffected by queries");
    f.setPercentile(100); isrank(w, size - 1, f.get(), "percentile changed to maximum"); f.setPercentile(0); isrank(w, 0, f.get(), "percentile changed to minimum");
    vp_reach("end");
}
void vp_main() { if (vp_param(4)) run<int>(); else run<double>(); }
