#include "util.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/transforms/FFT.h"
/* params: mode, ...
   0 buffering: factor, increment, pushes, symbolic samples in the last block (0 = none: one symbolic gain), resets
   1 down-beats: rate, factor, increment, beats, beat spacing (frames*4), audio length, symbolic samples, scale/1e6, bars (beats per bar; 0 default), seed, kind
   2 edge cases: rate, factor, increment, bars */
static std::vector<float> block(int inc, int seed) { std::vector<float> v(inc); for (int i = 0; i < inc; i++) v[i] = (float)det(seed * 131 + i); return v; }
static void thresh(V &d) { int n = d.size(); V s(n); for (int i = 0; i < n; i++) { int a = i - 8 > 0 ? i - 8 : 0, b = i + 7 < n - 1 ? i + 7 : n - 1; double m = 0; for (int k = a; k <= b; k++) m += d[k]; s[i] = m / (b - a + 1); } for (int i = 0; i < n; i++) { d[i] -= s[i]; if (d[i] < 0) d[i] = 0; } }
static double js(V a, V b) { int n = a.size() / 4; if (n > 512) n = 512; double sa = 0, sb = 0, r = 0; for (int i = 0; i < n; i++) { a[i] += 2.2204e-16; b[i] += 2.2204e-16; sb += b[i]; sa += a[i]; } 
    for (int i = 0; i < n; i++) { double q = b[i] / sb, p = a[i] / sa, m = 0.5 * p + 0.5 * q; r = r + (-m * log(m)) + (0.5 * (p * log(p))) + (0.5 * (q * log(q))); } return r; }
static void spacing(const std::vector<int> &d, int nb, int bar) { for (size_t i = 0; i < d.size(); i++) { vp_assert(d[i] >= 0 && d[i] < nb, "indices into the beats"); vp_assert(i == 0 ? d[i] < bar : d[i] == d[i - 1] + bar, "one down-beat per bar"); }
    if (d.size()) vp_assert(d.back() + bar >= nb, "no bar left out"); else vp_assert(nb < bar, "no bar left out"); }
void vp_main() {
    int mode = vp_param(0);
    if (mode == 0) {
        int f = vp_param(1), inc = vp_param(2), np = vp_param(3), ns = vp_param(4), resets = vp_param(5), o = inc / f; DownBeat db(44100, f, inc); size_t len = 77;
        db.getBufferedAudio(len); vp_assert(len == 0, "empty at first");
        int f1 = f > 8 ? 8 : f, f2 = f / f1; Decimator *a = f1 > 1 ? new Decimator(inc, f1) : 0, *b = f2 > 1 ? new Decimator(inc / f1, f2) : 0; float g = ns ? 1.0f : vp_float("gain", -2, 2);
        for (int r = 0; r <= resets; r++) { std::vector<float> want;
            for (int p = 0; p < np; p++) { std::vector<float> in = block(inc, p + 100 * r), t(inc), u(inc); for (int i = 0; i < inc; i++) in[i] *= g; if (p == np - 1 || p == 0) for (int j = 0; j < ns; j++) in[(j * inc) / ns] += vp_float("s", -1, 1);
                float *blk = new float[inc]; for (int i = 0; i < inc; i++) blk[i] = in[i]; db.pushAudioBlock(blk); for (int i = 0; i < inc; i++) vp_same(blk[i], in[i], "input unchanged"); delete[] blk;
                if (!a) u = in; else if (!b) a->process(&in[0], &u[0]); else { a->process(&in[0], &t[0]); b->process(&t[0], &u[0]); }
                for (int i = 0; i < o; i++) want.push_back(u[i]); const float *got = db.getBufferedAudio(len); vp_assert(len == want.size(), "length buffered"); if (len != want.size()) return;
                if (p == np - 1 || p % 16 == 0) for (size_t i = 0; i < len; i++) vp_close(got[i], want[i], 1e-6, "decimated audio in order, nothing lost"); }
            db.resetAudioBuffer(); db.getBufferedAudio(len); vp_assert(len == 0, "reset empties the buffer"); }
        delete a; delete b;
    } else if (mode == 1) {
        double rate = vp_param(1); int f = vp_param(2), inc = vp_param(3), nb = vp_param(4), sp = vp_param(5), al = vp_param(6), ns = vp_param(7); double sc = vp_param(8) / 1e6; int bar = vp_param(9), seed = vp_param(10), kind = vp_param(11);
        DownBeat db(rate, f, inc); if (bar) db.setBeatsPerBar(bar); else bar = 4; std::vector<double> beats; for (int i = 0; i < nb; i++) beats.push_back(i * sp / 4.0 + (kind == 1 ? (i % 3) * 0.25 : 0) + (kind == 2 ? 0.5 : 0));
        std::vector<float> au(al); for (int i = 0; i < al; i++) { int bt = i * f / inc * 4 / sp; au[i] = (float)(det(i + 977 * seed) * (0.2 + (bt % bar == seed % bar ? 1 : 0.1) * fabs(det(bt + 31 * seed)))); if (kind == 3) au[i] = 0; }
        for (int j = 0; j < ns; j++) au[(j * al / ns + 2) % al] += vp_float("s", -sc, sc);
        float *x = new float[al]; for (int i = 0; i < al; i++) x[i] = au[i];
        for (int rep = 0; rep < 2; rep++) { std::vector<int> d; std::vector<double> sd; db.findDownBeats(x, al, beats, d); db.getBeatSD(sd); for (int i = 0; i < al; i++) vp_same(x[i], au[i], "input unchanged");
            spacing(d, nb, bar); vp_assert((int)sd.size() == (nb > 2 ? nb - 2 : 0), "one difference for every beat between two beat regions"); if ((int)sd.size() != (nb > 2 ? nb - 2 : 0)) return;
            int n = 1; while (n < (int)(rate / f * 1.3)) n *= 2; if (n < 2) n = 2; V old, nw, w; FFTReal fft(n);
            for (int i = 0; i + 1 < nb; i++) { int s = (int)(beats[i] * inc / f), e = (int)(beats[i + 1] * inc / f); if (e > al - 1) e = al - 1; if (e < s) e = s; int L = e - s; V fr(n, 0.0), re(n), im(n);
                for (int k = 0; k < L && k < n; k++) { double mul = 0.5 * (1.0 - cos(2 * M_PI * ((double)k / L))); fr[k] = au[s + k] * mul; } fft.forward(&fr[0], &re[0], &im[0]); nw.assign(n / 2, 0.0); for (int k = 0; k < n / 2; k++) nw[k] = sqrt(re[k] * re[k] + im[k] * im[k]); thresh(nw);
                if (i > 0) { double r = js(old, nw); vp_close(sd[i - 1], r, 1e-9, "Jensen-Shannon divergence of neighbouring beats"); w.push_back(sd[i - 1]); vp_observe("sd", sd[i - 1]); } old = nw; }
            V c(bar, 0.0); for (int p = 0; p < bar; p++) { int cnt = 0; for (int e = p - 1; e < (int)w.size(); e += bar) if (e >= 0) { c[p] += w[e]; cnt++; } if (cnt) c[p] /= cnt; }
            int best = d.size() ? d[0] : -1; if (best >= 0) for (int p = 0; p < bar; p++) vp_assert(c[best] >= c[p] - 1e-9, "the bar starts where the spectrum changes most"); if (nb < bar) for (int p = 0; p < nb; p++) vp_observe("c", c[p]); }
        delete[] x;
    } else {
        int bar = vp_param(4); DownBeat db(vp_param(1), vp_param(2), vp_param(3)); if (bar) db.setBeatsPerBar(bar); std::vector<int> d; std::vector<double> sd, none; float x[8]; for (int i = 0; i < 8; i++) x[i] = (float)det(i + 5) + (i == 3 && bar == 1 ? vp_float("x", -0.001, 0.001) : 0);
        db.findDownBeats(x, 0, V(5, 1.0), d); vp_assert(d.empty(), "no audio, no down-beats"); db.findDownBeats(x, 8, none, d); vp_assert(d.empty(), "no beats, no down-beats"); db.getBeatSD(sd); vp_assert(sd.empty(), "no differences");
        V one(1, 3.0); db.findDownBeats(x, 8, one, d); spacing(d, 1, bar ? bar : 4); db.getBeatSD(sd); vp_assert(sd.empty(), "no differences"); d.clear();
        double at = vp_double("at", 0, 2.5); V late; for (int i = 0; i < 6; i++) late.push_back(100 + i + (i == 3 ? 0 : 0)); late[0] = late[0] > at ? at : late[0]; db.findDownBeats(x, 8, late, d); spacing(d, 6, bar ? bar : 4); db.getBeatSD(sd); vp_assert(sd.size() == 4, "one difference for every beat between two beat regions"); for (int i = 0; i < (int)sd.size(); i++) vp_observe("sd", sd[i]);
    }
    vp_reach("end");
}
