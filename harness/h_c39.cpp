#include "util.h"
#include "base/Pitch.h"
/* params: mode, lo pitch, hi pitch, concert pitch * 10. 0: there and back, every detune in [-49.9,49.9]; 1: octaves, concert pitch, monotone; 2: any detune is normalised; 3: frequency first */
void vp_main() {
    int mode = vp_param(0), m = vp_choice("pitch", vp_param(1), vp_param(2)); float A = vp_param(3) / 10.0f;
    if (mode == 0 || mode == 2) {
        double R = mode == 0 ? 49.9 : 149.5; float c = vp_float("cents", -R, R); if (mode == 2) vp_assume(c >= 50.1f || c <= -50.1f);
        float f = Pitch::getFrequencyForPitch(m, c, A), back = -1000; vp_observe("f", f); vp_assert(f > 0, "frequency positive");
        int p = Pitch::getPitchForFrequency(f, &back, A);
        if (mode == 0) { vp_assert(p == m, "same pitch back"); vp_close(back, c, 0.02, "same detune back"); } else vp_close(100.0 * p + back, 100.0 * m + c, 0.02, "pitch and detune preserve the total");
        vp_assert(back >= -50.01f && back < 50.0f, "detune within half a semitone"); int q = Pitch::getPitchForFrequency(f, 0, A); vp_assert(q == p, "detune result is optional");
    } else if (mode == 1) {
        float c = vp_float("cents", -50, 50), f = Pitch::getFrequencyForPitch(m, c, A), g = Pitch::getFrequencyForPitch(m + 12, c, A), h = Pitch::getFrequencyForPitch(m + 1, c, A);
        vp_close(g, 2.0 * f, 1e-4 * A * pow(2.0, (m - 56) / 12.0) + 1e-6 * A, "an octave doubles"); vp_assert(h > f, "increasing in pitch"); float d = vp_float("d", -50, 50); vp_assume(d >= c + 1); float k = Pitch::getFrequencyForPitch(m, d, A); vp_assert(k > f, "increasing in detune"); float r = Pitch::getFrequencyForPitch(69, 0, A); vp_close(r, A, 1e-4 * A, "concert pitch at A");
    }
    vp_reach("end");
}
