#include "util.h"
#include "dsp/transforms/FFT.h"
// params: n, mode (0 full; 1 forward/inverse only; 2 odd size; 3 magnitudes)
void vp_main() {
    int n = vp_param(0), mode = vp_param(1);
    if (mode == 2) {
        bool thrown = false;
        try { FFTReal f(n); } catch (std::invalid_argument &) { thrown = true; }
        vp_assert(thrown, "odd size is rejected with an exception"); vp_reach("end"); return;
    }
    FFTReal fft(n);
    V x = sym("x", n, -1, 1), none, er, ei;
    Arr in(x), ro(n, 7), io(n, 7), mo(n, 7), back(n, 7);
    if (mode != 1) {
        V h = sym("hist", n, -1, 1); Arr hh(h);
        fft.inverse(hh, hh, back); fft.forward(hh, ro, io);
    }
    fft.forward(in, ro, io);
    SAMEV(in, x, n, "input unchanged");
    dft(n, x, none, -1, er, ei);
    CLOSEV(ro, er, n, 1e-9, "forward real part is the DFT"); CLOSEV(io, ei, n, 1e-9, "forward imaginary part is the DFT");
    OBSV(io, n, "f");
    if (mode == 3) {
        fft.forwardMagnitude(in, mo);
        for (int k = 0; k < n; k++) {
            vp_assert(mo[k] >= 0, "magnitude is non-negative");
            vp_close(mo[k] * mo[k], ro[k] * ro[k] + io[k] * io[k], 1e-7, "magnitude of exactly that bin");
        }
        SAMEV(in, x, n, "input unchanged");
        vp_reach("end"); return;
    }
    fft.inverse(ro, io, back);
    CLOSEV(back, x, n, 1e-9, "inverse of forward is the signal");
    if (mode == 0) {
        int h = n / 2 + 1;
        // arbitrary half spectrum, only the first n/2+1 bins are given: the buffers end there
        V hr = sym("hr", h, -1, 1), hi = sym("hi", h, -1, 1); hi[0] = 0; if (n > 1) hi[h - 1] = 0;
        Arr sr(hr), si(hi);
        fft.inverse(sr, si, back);
        V fr(n), fi(n); for (int k = 0; k < h; k++) { fr[k] = hr[k]; fi[k] = hi[k]; } for (int k = h; k < n; k++) { fr[k] = hr[n - k]; fi[k] = -hi[n - k]; }
        dft(n, fr, fi, 1, er, ei);
        for (int i = 0; i < n; i++) vp_close(back[i], er[i] / n, 1e-9, "inverse is the scaled signal of the half spectrum");
        FFTReal other(n); Arr o2(n), p2(n);
        other.forward(in, o2, p2); fft.forward(in, ro, io);
        CLOSEV(ro, o2, n, 1e-9, "used and fresh objects agree"); CLOSEV(io, p2, n, 1e-9, "used and fresh objects agree");
        OBSV(back, n, "i");
    }
    vp_reach("end");
}
