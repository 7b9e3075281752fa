#include "util.h"
#include "dsp/rateconversion/Resampler.h"
/* params: mode, source, target, snr, bandwidth*100, n
   mode 0: whole stream vs response matrix, shift structure and DC gain; 1: all two-point chunkings; 2: block sizes; 3: sinusoid amplitude; 4: static resample */
static int cdiv(long a, long b) { return (int)((a + b - 1) / b); }
static int gcd_(int a, int b) { while (b) { int c = a % b; a = b; b = c; } return a; }
struct RS { Resampler *r; int s, t; RS(int s_, int t_, double snr, double bw) : r(new Resampler(s_, t_, snr, bw)), s(s_), t(t_) {} ~RS() { delete r; }
  void feed(V &out, const V &x, int from, int n) { int cap = cdiv((long)n * t, s); Arr in(n), o(cap, 7); for (int i = 0; i < n; i++) in[i] = x[from + i];
    int got = r->process(in.p, o.p, n); vp_assert(got >= 0 && got <= cap, "no more than ceil(n*target/source) samples"); for (int i = 0; i < n; i++) vp_same(in[i], x[from + i], "source unchanged");
    for (int j = 0; j < got; j++) out.push_back(o[j]); } };
void vp_main() {
    int mode = vp_param(0), s = vp_param(1), t = vp_param(2), N = vp_param(5), g = gcd_(s, t); double snr = vp_param(3), bw = vp_param(4) / 100.0;
    int sp = s / g, tp = t / g; double ripple = 2 * pow(10, -snr / 20);
    if (mode == 0) {
        V x = sym("x", N, -1, 1); RS a(s, t, snr, bw); V y; a.feed(y, x, 0, N); int lat = a.r->getLatency(); OBSV(y, y.size(), "y"); vp_observe("latency", lat);
        std::vector<V> R(N); // response to a unit impulse at each position
        for (int i = 0; i < N; i++) { V e(N, 0.0); e[i] = 1; RS b(s, t, snr, bw); b.feed(R[i], e, 0, N); vp_assert(R[i].size() == y.size(), "output count does not depend on the data"); }
        int M = y.size(); vp_assert(M >= cdiv((long)N * t, s) - 1, "output keeps up with the input");
        for (int j = 0; j < M; j++) { double v = 0; for (int i = 0; i < N; i++) v += R[i][j] * x[i]; vp_close(y[j], v, 1e-9, "output is linear in the input"); }
        // the response depends only on the distance between the output instant (latency removed) and the input instant
        long far = 0; for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) if (R[i][j] != 0) { long d = (long)(j - lat) * sp - (long)i * tp; if (d < 0) d = -d; if (d > far) far = d; }
        V k(far + 1, 0.0); std::vector<char> known(far + 1, 0);
        for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { long d = (long)(j - lat) * sp - (long)i * tp; if (d < 0) d = -d; if (d > far) continue;
            if (!known[d]) { known[d] = 1; k[d] = R[i][j]; } else vp_close(R[i][j], k[d], 1e-9, "response symmetric about the latency and shift-invariant"); }
        int full = 0; for (int j = 0; j < M; j++) { long c = (long)(j - lat) * sp; if (c - far < 0 || c + far > (long)(N - 1) * tp) continue; full++; double d = 0; for (int i = 0; i < N; i++) d += R[i][j]; vp_close(d, 1, ripple, "unity gain for a constant after start-up"); }
        vp_assert(full > 0, "harness: enough input for a settled output");
    } else if (mode == 1) {
        V x = sym("x", N, -1, 1); RS a(s, t, snr, bw); V y; a.feed(y, x, 0, N);
        int c1 = vp_choice("c1", 0, N), c2 = vp_choice("c2", c1, N); RS b(s, t, snr, bw); V z; b.feed(z, x, 0, c1); b.feed(z, x, c1, c2 - c1); b.feed(z, x, c2, N - c2);
        vp_assert(z.size() >= y.size() && z.size() <= y.size() + 2, "chunked output is as long"); CLOSEV(z, y, y.size(), 1e-12, "chunked output is the same sequence");
    } else if (mode == 2) {
        V x = sym("x", N, -1, 1); RS a(s, t, snr, bw); V y; a.feed(y, x, 0, N);
        int bs = vp_choice("block", 1, 17); RS b(s, t, snr, bw); V z; for (int p = 0; p < N; p += bs) { int n = N - p < bs ? N - p : bs;
            if ((p / bs) % 3 == 1) b.feed(z, x, p, n); else { Arr in(n); for (int i = 0; i < n; i++) in[i] = x[p + i]; V o = b.r->process(in.p, n); vp_assert((int)o.size() <= cdiv((long)n * t, s), "vector form no longer than ceil"); z.insert(z.end(), o.begin(), o.end()); } }
        vp_assert(z.size() >= y.size() && z.size() <= y.size() + 1, "block output is as long"); CLOSEV(z, y, y.size(), 1e-12, "block output is the same sequence");
    } else if (mode == 3) { // any phase and amplitude of a pass-band sinusoid, input frequency as a fraction of the lower rate
        double p = vp_double("p", -1, 1), q = vp_double("q", -1, 1), lo = s < t ? s : t; RS a(s, t, snr, bw); int lat = a.r->getLatency();
        for (int f = 0; f <= 2; f++) { double w = 2 * M_PI * (0.06 * f) * lo / s; V x(N); for (int i = 0; i < N; i++) x[i] = p * cos(w * i) + q * sin(w * i);
            RS b(s, t, snr, bw); V y; b.feed(y, x, 0, N); int skip = lat + 1; // half a filter on each side
            for (int j = lat + skip; j < (int)y.size(); j++) { double u = (double)(j - lat) * s / t; if (u > N - 1) break; vp_close(y[j], p * cos(w * u) + q * sin(w * u), 2 * ripple, "pass-band sinusoid reproduced at its own time"); } }
    } else {
        Arr in(N); V x = sym("x", N, -1, 1); for (int i = 0; i < N; i++) in[i] = x[i];
        V y = Resampler::resample(s, t, in.p, N); vp_assert((int)y.size() == cdiv((long)N * t, s), "ceil(n*target/source) samples returned"); OBSV(y, y.size(), "y");
        // latency removed: same as streaming with trailing zeros, from the latency on
        Resampler r(s, t); int lat = r.getLatency(), pad = cdiv((long)lat * s, t) + 1; V xp = x; xp.resize(N + pad, 0.0); V o = r.process(xp.data(), N + pad);
        for (int j = 0; j < (int)y.size() && j + lat < (int)o.size(); j++) vp_close(y[j], o[j + lat], 1e-12, "one-shot output is the stream with latency removed");
        for (int i = 0; i < N; i++) if ((long)i * t % s == 0) { int j = (long)i * t / s; double v = 0; (void)v; if (s == t) vp_close(y[j], x[i], 1e-4, "same rate reproduces the input"); else if (t > s && t % s == 0) vp_close(y[j], x[i], 1e-3, "samples coinciding in time are reproduced"); }
    }
    vp_reach("end");
}
