#include "util.h"
#include "dsp/signalconditioning/Framer.h"
/* params: mode, frame, hop, L. mode 3: symbolic length and number of calls; mode 0: every source length 0..L (L = param 3); mode 1: source replaced, reconfigured and reset */
static void run(Framer &f, const V &src, int frame, int hop, int calls, const char *lab) {
    int len = src.size();
    for (int k = 0; k < calls; k++) {
        Arr d(frame, -7.0); f.getFrame(d);
        for (int i = 0; i < frame; i++) { long at = (long)k * hop + i; vp_same(d[i], at < len ? src[at] : 0.0, lab); }
        vp_observe("f", d[0]);
    }
}
void vp_main() {
    int mode = vp_param(0), frame = vp_param(1), hop = vp_param(2), L = vp_param(3);
    if (mode == 3) {                     /* the announced length is a symbolic integer; the rest of the array must never show */
        V s = sym("s", L, 1, 2); Arr a(s); Framer f; int len = vp_int("len", 0, L); f.configure(frame, hop); f.setSource(a, len);
        int m = f.getMaxNoFrames(); vp_assert((long)m * hop >= len && (long)m * hop - len < hop, "announced frames cover the source");
        int calls = vp_int("calls", 0, (L + hop - 1) / hop + 2);
        for (int r = 0; r < 2; r++) {
            int k = 0;
            for (; k < calls; k++) {
                Arr d(frame, -7.0); f.getFrame(d);
                for (int i = 0; i < frame; i++) {
                    int at = k * hop + i;
                    if (at < L && at < len) vp_same(d[i], s[at], "frame is the source at its hop, zero padded"); else vp_same(d[i], 0.0, "frame is the source at its hop, zero padded");
                }
            }
            f.resetCounters();
        }
        for (int i = 0; i < L; i++) vp_same(a[i], s[i], "source untouched");
        vp_reach("end"); return;
    }
    int len = vp_choice("len", mode == 2 ? L : 0, L);
    V s = sym("s", len, -1, 1); Arr a(s); Framer f; f.configure(frame, hop); f.setSource(a, len);
    int m = f.getMaxNoFrames(); vp_assert((long)m * hop >= len && (len == 0 ? m == 0 : (long)(m - 1) * hop < len), "announced frames cover the source");
    if (mode == 0 || mode == 2) {
        int extra = (frame + hop - 1) / hop + 3; run(f, s, frame, hop, m + extra, "frame is the source at its hop, zero padded");
        f.resetCounters(); run(f, s, frame, hop, m < 2 ? m : 2, "reset restarts from the beginning");
    } else {
        int c = vp_choice("calls", 0, 3); run(f, s, frame, hop, c, "frame is the source at its hop, zero padded");
        int len2 = vp_choice("len2", 0, 4); V t = sym("t", len2, -1, 1); Arr b(t);
        f.resetCounters(); f.setSource(b, len2); vp_assert(f.getMaxNoFrames() == (len2 + hop - 1) / hop, "announced frames cover the new source");
        run(f, t, frame, hop, f.getMaxNoFrames() + 2, "new source from its beginning");
        f.configure(frame + 1, hop + 1); f.setSource(a, len); run(f, s, frame + 1, hop + 1, f.getMaxNoFrames() + 1, "reconfigured frame and hop");
    }
    for (int i = 0; i < len; i++) vp_same(a[i], s[i], "source untouched");
    vp_reach("end");
}
