#include "util.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/transforms/FFT.h"
/* params: mode, ...
   0 histograms: frames, states, window, symbolic states from, count; 1 chroma folding: frames, coefficients, bins; 2 segmentation of every assignment: frames, types, rate, hop*1e4
   3 divergence and clustering: frames, states, clusters, limit, schedule, symbolic entries, scale/1e6; 4 MPEG-7 features: frames, coefficients, symbolic, scale/1000
   5 constant-Q or chroma features of a block: type, rate, window*1000, fmin, fmax, bins, symbolic, samples beyond the window; 6 MFCC features: rate, window*1000, symbolic
   7 whole segmenter on given features: frames, dims, states, window, clusters, seed; 8 constant-Q front end on coefficients: frames, coefficients, states, window, clusters, type */
struct Seg : ClusterMeltSegmenter { Seg(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) {} void make(int *q, int n) { makeSegmentation(q, n); } const std::vector<V> &feats() { return features; } };
static void segments(const Segmentation &s, const std::vector<int> *q, int n, int hop, int types, int rate) {
    vp_assert(s.nsegtypes == types, "number of types"); vp_assert(s.samplerate == rate, "rate"); int k = s.segments.size(); vp_assert(k >= 1 && k <= n, "at least one segment, at most one per frame"); if (k < 1 || k > n) return;
    vp_assert(s.segments[0].start == 0, "starts at zero"); vp_assert(s.segments[k - 1].end == n * hop, "ends at the last frame");
    for (int i = 0; i < k; i++) { vp_assert(s.segments[i].start < s.segments[i].end, "segments are not empty"); vp_assert(s.segments[i].start % hop == 0, "on frame boundaries"); if (i) { vp_assert(s.segments[i].start == s.segments[i - 1].end, "contiguous"); vp_assert(s.segments[i].type != s.segments[i - 1].type, "neighbours differ"); }
        if (q) { vp_observe("start", s.segments[i].start); vp_observe("type", s.segments[i].type); } /* otherwise the training starts from the clock */ if (q) for (int f = s.segments[i].start / hop; f < s.segments[i].end / hop && f < n; f++) vp_assert((*q)[f] == s.segments[i].type, "every frame of a segment has its type"); else vp_assert(s.segments[i].type >= 1 && s.segments[i].type <= types, "one of the requested clusters"); } }
static double kl(const double *a, const double *b, int n) { double d = 0; for (int i = 0; i < n; i++) { double q = (a[i] + b[i]) / 2.0; if (a[i] > 0) d += a[i] * log(a[i] / q); if (b[i] > 0) d += b[i] * log(b[i] / q); } return d; }
extern "C" double kldist(double *a, double *b, int n);
void vp_main() {
    int mode = vp_param(0);
    if (mode == 0) {
        int nx = vp_param(1), m = vp_param(2), hl = vp_param(3), from = vp_param(4), cnt = vp_param(5); int *x = new int[nx]; for (int i = 0; i < nx; i++) x[i] = i >= from && i < from + cnt ? vp_int("x", 0, m - 1) : (i * 7 + i / 3) % m; Arr h(nx * m, 9);
        std::vector<int> o(x, x + nx); create_histograms(x, nx, m, hl, h.p); int H = hl / 2;
        for (int i = 0; i < nx; i++) { vp_assert(x[i] == o[i], "states unchanged"); int c = i < H ? H : i > nx - 1 - H ? nx - 1 - H : i; double ss = 0; V k(m, 0.0); for (int t = c - H; t <= c + H; t++) k[o[t]] += 1; for (int j = 0; j < m; j++) ss += k[j] * k[j];
            for (int j = 0; j < m; j++) { vp_close(h[i * m + j] * ss, k[j], 1e-9, "exact counts of the window, ends replicated"); vp_observe("h", h[i * m + j]); } }
        delete[] x;
    } else if (mode == 1) {
        int n = vp_param(1), nc = vp_param(2), b = vp_param(3); V f = sym("cq", n * nc, -1, 1); double **cq = new double *[n], **ch = new double *[n]; for (int i = 0; i < n; i++) { cq[i] = new double[nc]; ch[i] = new double[b]; for (int j = 0; j < nc; j++) cq[i][j] = f[i * nc + j]; for (int j = 0; j < b; j++) ch[i][j] = 7; }
        cq2chroma(cq, n, nc, b, ch); for (int i = 0; i < n; i++) { for (int j = 0; j < b; j++) { double s = 0; for (int o = 0; o < nc / b; o++) s += fabs(f[i * nc + o * b + j]); vp_close(ch[i][j], s, 1e-12, "octaves of a pitch class added"); vp_observe("ch", ch[i][j]); } for (int j = 0; j < nc; j++) vp_same(cq[i][j], f[i * nc + j], "input unchanged"); delete[] cq[i]; delete[] ch[i]; } delete[] cq; delete[] ch;
    } else if (mode == 2) {
        int n = vp_param(1), k = vp_param(2), rate = vp_param(3); ClusterMeltSegmenterParams p; p.nclusters = k; p.hopSize = vp_param(4) / 1e4; p.featureType = FEATURE_TYPE_UNKNOWN; Seg s(p); s.initialise(rate); int hop = (int)(p.hopSize * rate + 0.001); vp_assert(s.getHopsize() == hop, "hop size"); vp_assert(s.getNSegmentTypes() == k, "types");
        for (int rep = 0; rep < 2; rep++) { int *q = new int[n]; std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = q[i] = rep ? 1 + i % k : vp_int("q", 1, k); s.make(q, n); segments(s.getSegmentation(), &o, n, hop, k, rate); delete[] q; }
    } else if (mode == 3) {
        int n = vp_param(1), m = vp_param(2), k = vp_param(3), lim = vp_param(4), t = vp_param(5), ns = vp_param(6); double sc = vp_param(7) / 1e6; Arr h(n * m), bs(t); for (int i = 0; i < n; i++) { double z = 0; for (int j = 0; j < m; j++) { h[i * m + j] = 0.1 + fabs(det(i * m + j + (i / 3) * 100)) + ((i / 4) % m == j ? 2 : 0); z += h[i * m + j]; } for (int j = 0; j < m; j++) h[i * m + j] /= z; }
        for (int j = 0; j < ns; j++) h[(j * n * m / ns + 1) % (n * m)] += vp_double("h", -sc, sc); if (vp_param(8)) h[0] = 0; V h0(n * m); for (int i = 0; i < n * m; i++) h0[i] = h[i];
        double b = 100; for (int i = 0; i < t; i++) { bs[i] = b; b *= 0.7; } int *c = new int[n]; for (int i = 0; i < n; i++) c[i] = -5;
        vp_close(kldist(h.p, h.p + (n > 1 ? m : 0), m), kl(&h0[0], &h0[n > 1 ? m : 0], m), 1e-9, "divergence"); vp_close(kldist(h.p, h.p, m), 0, 1e-9, "no divergence from itself");
        cluster_melt(h.p, m, n, bs.p, t, k, lim, c); for (int i = 0; i < n; i++) { vp_assert(c[i] >= 1 && c[i] <= k, "one of the requested clusters"); vp_observe("c", c[i]); } SAMEV(h, h0, n * m, "histograms unchanged"); delete[] c;
    } else if (mode == 4) {
        int n = vp_param(1), nc = vp_param(2), ns = vp_param(3); double sc = vp_param(4) / 1000.0; double **f = new double *[n]; V x(n * nc); for (int i = 0; i < n * nc; i++) x[i] = 0.3 + fabs(det(i + 9)); for (int j = 0; j < ns; j++) x[(j * n * nc / ns + 1) % (n * nc)] += vp_double("x", -sc, sc); if (vp_param(5)) x[n * nc - 1] = 0;
        for (int i = 0; i < n; i++) { f[i] = new double[nc + 1]; for (int j = 0; j < nc; j++) f[i][j] = x[i * nc + j]; f[i][nc] = 5; } mpeg7_constq(f, n, nc);
        V e(n); double mx = 0; for (int i = 0; i < n; i++) { double ss = 0; for (int j = 0; j < nc; j++) { double d = 10.0 * log10(x[i * nc + j] + 2.220446049250313e-16); ss += d * d; } e[i] = sqrt(ss); if (e[i] > mx) mx = e[i]; }
        for (int i = 0; i < n; i++) { for (int j = 0; j < nc; j++) { vp_close(f[i][j] * e[i], 10.0 * log10(x[i * nc + j] + 2.220446049250313e-16), 1e-8, "decibels divided by the norm"); vp_observe("f", f[i][j]); } vp_close(f[i][nc] * mx, e[i], 1e-8, "envelope relative to the largest"); delete[] f[i]; } delete[] f;
    } else if (mode == 5 || mode == 6) {
        ClusterMeltSegmenterParams p; int rate, ns, extra = 0; if (mode == 5) { p.featureType = vp_param(1) ? FEATURE_TYPE_CHROMA : FEATURE_TYPE_CONSTQ; rate = vp_param(2); p.windowSize = vp_param(3) / 1000.0; p.fmin = vp_param(4); p.fmax = vp_param(5); p.nbins = vp_param(6); ns = vp_param(7); extra = vp_param(8); } else { p.featureType = FEATURE_TYPE_MFCC; rate = vp_param(1); p.windowSize = vp_param(2) / 1000.0; ns = vp_param(3); }
        Seg s(p); s.initialise(rate); int w = s.getWindowsize(); vp_assert(w == (int)(p.windowSize * rate + 0.001), "window size"); int d = rate / (mode == 5 ? 11025 : 22050); if (d < 1) d = 1; while (d & (d - 1)) d++; if (d > 8) d = 8; int len = w + (d == 1 ? extra : 0);
        for (int rep = 0; rep < 2; rep++) { V x = detv(len, 5 + rep); for (int j = 0; j < ns; j++) x[(j * len / ns + 2) % len] += vp_double("x", -0.1, 0.1); if (rep == 0 && mode == 5) x.assign(len, 0.0); Arr in(x); s.extractFeatures(in.p, len); vp_assert((int)s.feats().size() == rep + 1, "one feature vector per block"); if ((int)s.feats().size() != rep + 1) return; SAMEV(in, x, len, "input unchanged");
            V y(x); if (d > 1) { Decimator dec(w, d); y.assign(len / d, 0.0); if (rep) { V z(mode == 5 ? V(len, 0.0) : detv(len, 5)), u(len / d); if (mode == 6) for (int j = 0; j < 0; j++) z[j] = 0; dec.process(&z[0], &u[0]); } dec.process(&x[0], &y[0]); } int N = y.size(), fr = 0; V acc;
            if (mode == 5) { CQConfig g; g.FS = rate / d; g.min = p.fmin; g.max = p.fmax; g.BPO = p.nbins; g.CQThresh = 0.0054; ConstantQ cq(g); cq.sparsekernel(); int L = cq.getFFTLength(), K = cq.getK(); acc.assign(K, 0.0); FFTReal fft(L); Window<double> win(HammingWindow, L);
                for (int o = 0; o == 0 || o + L < N; o += L / 2) { V f(L, 0.0), re(L), im(L), cr(K), ci(K); for (int i = 0; i < L; i++) if (o + i < N) f[(i + L / 2) % L] = y[o + i]; win.cut(&f[0]); fft.forward(&f[0], &re[0], &im[0]); cq.process(&re[0], &im[0], &cr[0], &ci[0]); for (int k = 0; k < K; k++) acc[k] += sqrt(cr[k] * cr[k] + ci[k] * ci[k]); fr++; } }
            else { MFCCConfig g(rate / d); g.fftsize = 2048; g.nceps = 19; g.want_c0 = true; MFCC mf(g); acc.assign(20, 0.0); for (int o = 0; o == 0 || o + 2048 < N; o += 1024) { V f(2048, 0.0), c(20); for (int i = 0; i < 2048; i++) if (o + i < N) f[i] = y[o + i]; mf.process(&f[0], &c[0]); for (int k = 0; k < 20; k++) acc[k] += c[k]; fr++; } }
            const V &got = s.feats()[rep]; vp_assert(got.size() == acc.size(), "number of coefficients"); if (got.size() == acc.size()) for (size_t k = 0; k < acc.size(); k++) { vp_close(got[k], acc[k] / fr, 1e-8, "mean over half-overlapping frames"); if (rep) vp_observe("f", got[k]); } }
        { Arr small(w > 1 ? w - 1 : 1, 0.5); s.extractFeatures(small.p, w - 1); vp_assert(s.feats().size() == 2, "a short block adds nothing"); }
    } else if (mode == 7) {
        int n = vp_param(1), dm = vp_param(2), seed = vp_param(6); ClusterMeltSegmenterParams p; p.nHMMStates = vp_param(3); p.histogramLength = vp_param(4); p.nclusters = vp_param(5); p.hopSize = 0.25; Seg s(p); s.initialise(100); int nc = vp_param(7), cl[8]; for (int i = 0; i < nc; i++) cl[i] = vp_choice("class", 0, 2);
        for (int rep = 0; rep < 2; rep++) { std::vector<V> f(n, V(dm)); for (int i = 0; i < n; i++) { int c = nc ? cl[i * nc / n] : (i / 6) % 2; for (int j = 0; j < dm; j++) f[i][j] = det(i * dm + j + 1000 * seed) * 0.3 + (c == 1 ? j + 1 : c ? 4 * (j & 1) : 2 - j); } s.setFeatures(f);
            if (rep) { s.segment(p.nclusters + 1); p.nclusters++; } else s.segment(); if (n < p.histogramLength) vp_assert(s.getSegmentation().segments.empty(), "too short to segment"); else { segments(s.getSegmentation(), 0, n, 25, p.nclusters, 100); vp_assert(s.feats().empty(), "features consumed"); } }
    } else {
        int n = vp_param(1), nc = vp_param(2), k = vp_param(5), b = vp_param(7); double **f = new double *[n]; int *q = new int[n]; for (int i = 0; i < n; i++) { f[i] = new double[nc + 1]; for (int j = 0; j < nc; j++) f[i][j] = fabs(det(i * nc + j)) + 0.01 + ((i / 6) % 2 == j % 2 ? 1 : 0); q[i] = -3; }
        constq_segment(q, f, n, b, nc, vp_param(6) ? FEATURE_TYPE_CHROMA : FEATURE_TYPE_CONSTQ, vp_param(3), vp_param(4), k, 5); for (int i = 0; i < n; i++) { vp_assert(q[i] >= 1 && q[i] <= k, "one of the requested clusters"); delete[] f[i]; } delete[] f; delete[] q;
    }
    vp_reach("end");
}
