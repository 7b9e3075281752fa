#include "util.h"
#include "dsp/transforms/FFT.h"
// params: n, mode (0 all symbolic history + checks; 1 forward/inverse only, for large n)
void vp_main() {
    int n = vp_param(0), mode = vp_param(1);
    FFT fft(n);
    V re = sym("re", n, -1, 1), im = sym("im", n, -1, 1), none;
    Arr ri(re), ii(im), ro(n, 7), io(n, 7), r2(n, 7), i2(n, 7);
    V er, ei;
    if (mode == 0) {  // a history of transforms of an unrelated signal
        V h = sym("hist", n, -1, 1); Arr hh(h);
        fft.process(true, hh, hh.p, ro, io);
        fft.process(false, hh, 0, ro, io);
    }
    fft.process(false, ri, ii, ro, io);
    SAMEV(ri, re, n, "input real part unchanged"); SAMEV(ii, im, n, "input imaginary part unchanged");
    dft(n, re, im, -1, er, ei);
    CLOSEV(ro, er, n, 1e-9, "forward real part is the DFT"); CLOSEV(io, ei, n, 1e-9, "forward imaginary part is the DFT");
    OBSV(ro, n, "f");
    fft.process(true, ro, io, r2, i2);
    CLOSEV(r2, re, n, 1e-9, "inverse of forward gives the real part"); CLOSEV(i2, im, n, 1e-9, "inverse of forward gives the imaginary part");
    if (mode == 0) {
        fft.process(true, ri, ii, r2, i2);
        dft(n, re, im, 1, er, ei);
        for (int i = 0; i < n; i++) { vp_close(r2[i], er[i] / n, 1e-9, "inverse real part is the scaled inverse DFT"); vp_close(i2[i], ei[i] / n, 1e-9, "inverse imaginary part is the scaled inverse DFT"); }
        fft.process(false, ri, 0, ro, io);
        dft(n, re, none, -1, er, ei);
        CLOSEV(ro, er, n, 1e-9, "forward with null imaginary input"); CLOSEV(io, ei, n, 1e-9, "forward with null imaginary input");
        fft.process(true, ri, 0, r2, i2);
        dft(n, re, none, 1, er, ei);
        for (int i = 0; i < n; i++) { vp_close(r2[i], er[i] / n, 1e-9, "inverse with null imaginary input"); vp_close(i2[i], ei[i] / n, 1e-9, "inverse with null imaginary input"); }
        // two objects of the same size do not share state
        FFT other(n); Arr o2(n), p2(n);
        other.process(false, ri, ii, o2, p2); fft.process(false, ri, ii, ro, io);
        CLOSEV(ro, o2, n, 1e-9, "used and fresh objects agree"); CLOSEV(io, p2, n, 1e-9, "used and fresh objects agree");
        OBSV(r2, n, "i");
    }
    vp_reach("end");
}
