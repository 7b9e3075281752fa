#include "util.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/rateconversion/Decimator.h"
#include "base/Pitch.h"
/* params: mode, rate, decimation, hop overlap, averaging ms, median ms, frames, symbolic frames, symbolic samples per frame, scale/1e6, tuning
   0 histories: every sequence of three kinds of frame (and silence), each at every level, against the definition; 1 symbolic samples; 2 chords: key answered for a triad, rate etc. as before, frames = root */
static const double MAJ[36] = { 0.0384, 0.0629, 0.0258, 0.0121, 0.0146, 0.0106, 0.0364, 0.0610, 0.0267, 0.0126, 0.0121, 0.0086, 0.0364, 0.0623, 0.0279, 0.0275, 0.0414, 0.0186, 0.0173, 0.0248, 0.0145, 0.0364, 0.0631, 0.0262, 0.0129, 0.0150, 0.0098, 0.0312, 0.0521, 0.0235, 0.0129, 0.0142, 0.0095, 0.0289, 0.0478, 0.0239 };
static const double MIN[36] = { 0.0375, 0.0682, 0.0299, 0.0119, 0.0138, 0.0093, 0.0296, 0.0543, 0.0257, 0.0292, 0.0519, 0.0246, 0.0159, 0.0234, 0.0135, 0.0291, 0.0544, 0.0248, 0.0137, 0.0176, 0.0104, 0.0352, 0.0670, 0.0302, 0.0222, 0.0349, 0.0164, 0.0174, 0.0297, 0.0166, 0.0222, 0.0401, 0.0202, 0.0175, 0.0270, 0.0146 };
struct Ref { // the definition: chroma of each decimated frame, mean of the recent ones, correlation with each rotated profile, median of the recent keys
    int dec, fr, nb, nm; Decimator *d; Chromagram *c; std::vector<V> hist; std::vector<int> keys; V maj, min, str; bool silent;
    Ref(double rate, int df, double ha, double ma, double tune) : dec(df) { double FS = rate / df; if (FS < 1) FS = 1; ChromaConfig g; g.FS = FS; g.min = Pitch::getFrequencyForPitch(48, 0, tune); g.max = Pitch::getFrequencyForPitch(96, 0, tune); g.BPO = 36; g.CQThresh = 0.0054; g.normalise = MathUtilities::NormaliseUnitMax; c = new Chromagram(g); fr = c->getFrameSize(); nb = (int)ceil(ha * FS / fr); nm = (int)ceil(ma * FS / fr); d = new Decimator(fr * df, df); }
    ~Ref() { delete c; delete d; }
    static V corr(const V &h, const double *p) { double mp = 0; for (int i = 0; i < 36; i++) mp += p[i]; mp /= 36; double ss = 0, sp = 0; for (int i = 0; i < 36; i++) { ss += h[i] * h[i]; sp += (p[i] - mp) * (p[i] - mp); } V r(36, 0.0); if (!(ss > 0)) return r; double den = sqrt(ss * sp);
        for (int k = 0; k < 36; k++) { double s = 0; for (int i = 0; i < 36; i++) s += h[i] * (p[(i - k + 2 + 36) % 36] - mp); r[k] = s / den; } return r; }
    int frame(const V &x) { V in(x), y(fr); d->process(&in[0], &y[0]); double *ch = c->process(&y[0]); hist.push_back(V(ch, ch + 36)); int n = hist.size() < (size_t)nb ? hist.size() : nb; V m(36, 0.0); double z = 0; for (int i = 0; i < 36; i++) { for (int t = 0; t < n; t++) m[i] += hist[hist.size() - 1 - t][i]; m[i] /= n; z += m[i]; } for (int i = 0; i < 36; i++) m[i] -= z / 36;
        maj = corr(m, MAJ); min = corr(m, MIN); str.assign(24, 0.0); for (int i = 0; i < 24; i++) { const V &v = i < 12 ? maj : min; int b = i % 12 * 3; str[i] = v[b]; if (v[b + 1] > str[i]) str[i] = v[b + 1]; if (v[b + 2] > str[i]) str[i] = v[b + 2]; }
        int best = 0; for (int i = 1; i < 24; i++) if (str[i] > str[best]) best = i; keys.push_back(best + 1); int k = keys.size() < (size_t)nm ? keys.size() : nm; std::vector<int> s(keys.end() - k, keys.end()); for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (s[j] < s[i]) { int t = s[i]; s[i] = s[j]; s[j] = t; } return s[(k + 1) / 2 - 1]; }
};
static GetKeyMode::Config config(int rate, double tune) { return GetKeyMode::Config(rate, (float)tune); }
void vp_main() {
    int mode = vp_param(0), rate = vp_param(1), df = vp_param(2), ov = vp_param(3), F = vp_param(6), nf = vp_param(7), ns = vp_param(8); double sc = vp_param(9) / 1e6, tune = vp_param(10) ? vp_param(10) : 440;
    GetKeyMode::Config g = config(rate, tune); vp_assert(g.hpcpAverage == 10 && g.medianAverage == 10 && g.frameOverlapFactor == 1 && g.decimationFactor == 8, "defaults"); g.decimationFactor = df; g.frameOverlapFactor = ov; g.hpcpAverage = vp_param(4) / 1000.0; g.medianAverage = vp_param(5) / 1000.0;
    GetKeyMode k(g); Ref r(rate, df, g.hpcpAverage, g.medianAverage, tune); int B = r.fr * df; vp_assert(k.getBlockSize() == B, "block size"); vp_assert(k.getHopSize() == r.fr / ov * df, "hop size");
    double all = mode == 2 && df == 1 ? vp_double("gain", 0.1, 10) : 1;
    for (int f = 0; f < F; f++) {
        V x(B, 0.0); if (mode == 0) { int kind = f >= F - nf ? vp_choice("kind", 0, 3) : (f * 5 + f / 3) % 4; double gain = df > 1 ? all : f >= F - nf ? vp_double("gain", 0.25, 4) : 1; if (kind) for (int i = 0; i < B; i++) x[i] = gain * det(kind * B + i); }
        else { for (int i = 0; i < B; i++) x[i] = mode == 2 ? 0.3 * sin(2 * M_PI * i * 130.8127826502993 * pow(2.0, nf / 12.0) / rate) + 0.3 * sin(2 * M_PI * i * 130.8127826502993 * pow(2.0, (nf + (ns ? 3 : 4)) / 12.0) / rate) + 0.3 * sin(2 * M_PI * i * 130.8127826502993 * pow(2.0, (nf + 7) / 12.0) / rate) : det(f * B + i); if (mode == 1 && f >= F - nf) for (int j = 0; j < ns; j++) x[(j * B / ns + 3) % B] += vp_double("x", -sc, sc); if (mode == 2) for (int i = 0; i < B; i++) x[i] *= all; }
        Arr in(x); int key = k.process(in.p), want = r.frame(x); SAMEV(in, x, B, "input unchanged"); vp_assert(key >= 1 && key <= 24, "key number"); double *s = k.getKeyStrengths(); for (int i = 0; i < 24; i++) { vp_assert(vp_isfinite(s[i]), "finite"); vp_close(s[i], r.str[i], 1e-7, "correlation with the profile of the key"); vp_observe("strength", s[i]); }
        bool silent = true; for (int i = 0; i < 24; i++) if (r.str[i] != 0) silent = false; if (silent) r.keys.back() = 0; bool known = true; for (int i = 0; i < r.nm && i < (int)r.keys.size(); i++) if (!r.keys[r.keys.size() - 1 - i]) known = false; if (known) vp_assert(key == want, "median of the best keys");
        if (mode == 2) vp_assert(key == nf + 1 + (ns ? 12 : 0), "key of the triad"); vp_observe("key", key);
    }
    vp_reach("end");
}
