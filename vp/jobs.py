"""Jobs of every check: harness, parameters (the bounds) and engine options."""
CHECKS = {}
NOT_APPLICABLE = {}
def J(name, params, **k): return dict(name=name, params=list(params), **k)
def chk(pid, harness, note, bounds, outside, jobs, **k):
    CHECKS[pid] = dict(harness=harness, note=note, bounds=bounds, outside=outside, jobs=jobs, **k)
T = dict(tier='t')

chk('C01', 'h_c01.cpp', 'All complex signals in the unit box, for the listed sizes; linear real arithmetic with a rounding-error bound.',
    'sizes 1-40, 49, 60, 64, 100, 121, 128, 240, 256 (thorough: also 512, 1000, 1024), every signal with components in [-1,1], one earlier forward and inverse transform of an arbitrary signal',
    'other sizes (the mixed-radix butterflies 2,3,4,5 and generic are all covered); signals beyond the box follow by linearity',
    [J('n%d' % n, [n, 0], weight=n) for n in list(range(1, 41)) + [49, 60, 64]] + [J('n%d' % n, [n, 1], weight=n) for n in (100, 121, 128, 240, 256)]
    + [J('n%d' % n, [n, 1], weight=n, **T) for n in (512, 1000, 1024)] + [J('n%dh' % n, [n, 0], weight=n, **T) for n in (100, 121, 125, 128, 200)])
chk('C02', 'h_c02.cpp', 'All real signals / half spectra in the unit box for the listed even sizes; magnitudes via the exact square.',
    'even sizes 2-40, 48, 60, 64, 100, 128, 200, 242, 256 (thorough: also 512, 1000, 1024), odd sizes 1-21', 'other sizes; larger signals follow by linearity',
    [J('n%d' % n, [n, 0], weight=n) for n in list(range(2, 41, 2)) + [48, 60, 64, 100, 128]] + [J('n%d' % n, [n, 1], weight=n) for n in (200, 242, 256)]
    + [J('mag%d' % n, [n, 3], weight=3 * n) for n in (2, 4, 6, 8, 10, 12, 16, 20, 32)] + [J('odd%d' % n, [n, 2]) for n in range(1, 22, 2)]
    + [J('n%d' % n, [n, 1], weight=n, **T) for n in (512, 1000, 1024)] + [J('mag%d' % n, [n, 3], weight=n, **T) for n in (24, 40, 64)])
chk('C03', 'h_c03.cpp', 'All inputs in the unit box for the listed sizes, after arbitrary earlier calls.',
    'sizes 1-26, 32, 33, 40, 48, 64 (thorough: 81, 100, 128)', 'other sizes; larger inputs follow by linearity',
    [J('n%d' % n, [n, 0], weight=n) for n in list(range(1, 27)) + [32, 33, 40]] + [J('n%d' % n, [n, 1], weight=n) for n in (48, 64)] + [J('n%d' % n, [n, 1], weight=n, **T) for n in (81, 100, 128)])
chk('C04', 'h_c04.cpp', 'All input signals in the unit box through fixed irregular coefficient sets of every order up to 6 (12 thorough), plus symbolic coefficients at small order; every split point and block size is a path.',
    'FIR and IIR with 1-7 coefficient pairs, streams of 48-70 samples (past several refills of the 20-sample ring), all two-point splits of 48 samples, block sizes 1-23; symbolic coefficients for orders 0-2 over 5 samples',
    'longer streams and other coefficient values at high order',
    [J('one_b%d_%s' % (nb, 'iir' if r else 'fir'), [0, nb, r, 70, s]) for nb in (1, 2, 3, 4, 5, 7) for r in (0, 1) for s in (1,)]
    + [J('split_b%d_%s' % (nb, 'iir' if r else 'fir'), [1, nb, r, 48, 2], weight=5) for nb in (1, 2, 3, 5) for r in (0, 1)]
    + [J('blocks_b%d_%s' % (nb, 'iir' if r else 'fir'), [2, nb, r, 66, 3], weight=5) for nb in (2, 3, 4) for r in (0, 1)]
    + [J('symcoef_b%d_%s' % (nb, 'iir' if r else 'fir'), [3, nb, r, 5, 0], opts=['--expand', '4000'], weight=4) for nb in (1, 2, 3) for r in (0, 1)] + [J('invalid', [4])]
    + [J('long_b%d_%s' % (nb, 'iir' if r else 'fir'), [0, nb, r, 220, 4], weight=9, **T) for nb in (1, 2, 3, 8, 13) for r in (0, 1)])
chk('C05', 'h_c05.cpp', 'All blocks in the unit box, with an earlier arbitrary block, for fixed irregular coefficient sets.',
    'orders 0-5 FIR and IIR, block lengths 1-60 including lengths shorter than the reflection, earlier blocks of 0, 3, 25 samples', 'longer blocks, other coefficients',
    [J('b%d_%s_L%d_H%d' % (nb, 'iir' if r else 'fir', L, H), [nb, r, L, H]) for nb in (1, 2, 3, 4) for r in (0, 1) for L, H in ((1, 3), (2, 0), (3, 25), (5, 3), (6, 3), (7, 3), (9, 0), (10, 3), (13, 25), (40, 25))]
    + [J('b%d_%s_L%d_H%d' % (nb, 'iir' if r else 'fir', L, H), [nb, r, L, H], **T) for nb in (2, 3, 6) for r in (0, 1) for L in range(1, 31) for H in (8,)] )
chk('C06', 'h_c06.cpp', 'Every type for the listed lengths, against formulae written independently; the pointwise product over all signals in the unit box.',
    'lengths 1-33, 64, 100, 127 double; 1-12, 33 float; original, copied and assigned windows', 'other lengths',
    [J('n%d' % n, [n, 0]) for n in list(range(1, 34)) + [64, 100, 127]] + [J('f%d' % n, [n, 1]) for n in list(range(1, 13)) + [33]] + [J('n%d' % n, [n, 0], **T) for n in range(34, 300, 7)])
chk('C07', 'h_c07.cpp', 'Window values for the listed lengths and betas against an independent Bessel series; the design formulae for every attenuation at the listed transition widths; cuts over all signals.',
    'Kaiser lengths 1-24, 101; beta 0-12; attenuation in [1,120] for six transition widths; sinc lengths 0-24 and spacings 1/2 to 20', 'other lengths, betas above 12 (the 20-term series is only accurate there)',
    [J('k%d_b%d' % (n, b), [0, n, b]) for n in list(range(1, 25)) + [101] for b in ((0, 57) if n % 2 else (31, 120))] + [J('ksym%d' % n, [1, n, 100]) for n in (2, 3, 5)]
    + [J('design%d' % t, [2, t]) for t in (31, 57, 100, 314, 790)]
    + [J('bw%d_%d_%d' % x, [3] + list(x)) for x in ((100, 500, 44100), (60, 1000, 8000), (50, 900, 8000), (51, 900, 8000), (40, 2000, 22050), (21, 800, 8000), (22, 800, 8000), (15, 1500, 48000))]
    + [J('s%d_p%d' % (n, p), [4, n, p]) for n in range(0, 25) for p in ((8, 13) if n % 2 else (2, 80))] + [J('ssym%d' % n, [5, n]) for n in (1, 2, 3, 4, 5, 6)])
def JJ(sets, **k):
    """jobs from 'a,b,c' strings; a trailing '!' marks thorough only"""
    out = []
    for s in sets.split():
        kk = dict(k)
        if s.endswith('!'): s = s[:-1]; kk.update(T)
        out.append(J('p' + s.replace(',', '_'), [int(x) for x in s.split(',')], **kk))
    return out
chk('C08', 'h_c08.cpp', 'All input streams in the unit box against the low-pass difference equation written from the published coefficients table, any earlier block, every block boundary in the bound; float interface to float rounding.',
    'factors 1, 2, 4, 8; 2-30 consecutive blocks of 6-64 samples (streams up to 1920 samples); in place, separate and overlapping output, reset after an arbitrary block, float interface', 'longer streams and blocks',
    JJ('0,2,8,6,0 0,4,16,4,0 0,8,16,4,0 0,2,2,8,0 0,4,4,6,0 0,8,8,5,0 0,1,6,3,0 0,8,16,2,1 0,4,16,3,2 0,2,8,4,3 0,4,16,3,3 0,8,64,30,5 0,2,16,3,1 0,2,12,3,2 0,8,32,3,2 0,2,32,12,0! 0,4,64,6,0! 0,8,64,6,0! 0,8,32,3,3!', opts=['--deltas']))
chk('C09', 'h_c08.cpp', 'All input streams in the unit box against cascaded half-band stages, each with its own persistent state.',
    'factors 2, 4, 8, 16; 2-40 consecutive blocks of 8-64 samples; separate output, float interface, constant input settling to unity', 'longer streams; factors above 16 (same code, more stages)',
    JJ('1,2,8,6,0 1,4,16,4,0 1,8,16,3,0 1,16,32,2,0 1,4,16,2,1 1,4,16,3,3 1,16,64,40,5 1,4,4,6,0 1,8,8,5,0 1,2,2,8,0 1,16,16,3,0 1,2,32,10,0! 1,32,64,2,0! 1,16,64,4,0! 1,8,32,3,3!', opts=['--deltas']))
chk('C10', 'h_c10.cpp', 'All signals in the unit box; every chunk partition listed is compared with one call; linearity and unity gain asserted over the symbolic stream.',
    'rate pairs 1:2, 2:1, 3:2, 4:3, 3:4, 1:1, 2:3, 44100:48000; 12-80 input samples; transition bandwidths 0.3, 0.4 and the defaults; snr 30, 40, 100', 'other rate pairs and longer streams',
    JJ('0,1,2,40,30,40 0,2,1,40,30,60 0,3,2,40,30,60 0,4,3,30,40,60 0,3,4,30,40,50 0,1,1,40,30,20 1,3,2,40,30,30 2,2,3,40,30,60 2,3,2,40,30,60 2,3,4,40,30,40 3,2,3,40,30,60 3,3,2,40,30,80 4,2,1,0,0,12 4,44100,48000,0,0,5 0,5,3,40,30,80! 0,7,4,40,20,120! 2,5,3,40,30,80! 3,4,5,60,20,120! 1,4,5,40,30,40! 4,3,4,0,0,16!'))
chk('C11', 'h_c11.cpp', 'Every sequence of pushed values (all orderings and ties become paths); oracle is sort-and-pick over the most recent window.',
    'window sizes 1-20, percentiles 0-90, 2-7 symbolic pushes (on top of concrete history for the larger windows), double and int elements, whole-vector form of 3, 4 and 9 values', 'longer symbolic histories',
    JJ('0,1,500,4,0 0,2,500,4,0 0,3,500,4,0 0,3,800,5,0 0,4,250,4,0 0,3,500,4,1 1,7,500,2,0 1,20,900,2,0 2,3,500,4,0 2,4,500,4,0! 2,9,500,3,0 2,5,500,4,0! 3,4,700,2,0 4,5,500,1,0 0,5,600,5,0! 0,3,330,6,0! 1,12,300,3,0!', weight=3))
chk('C12', 'h_c12.cpp', 'Every int argument in the stated ranges as one symbolic 32-bit value; gcd for every pair in the bound; factorial against the exact product.',
    'power-of-two helpers for every int up to 2^30 and all negative ints; gcd for all pairs up to 12 (thorough: 40) plus symbolic larger pairs; factorial 0-170', 'next power of two above 2^30 (not representable)',
    JJ('0 4 5 6 1,12 1,40! 2 3,12,1000 3,30,5000!'))
chk('C13', 'h_c13.cpp', 'Every array of the listed lengths; orderings become paths; results compared with definition, array checked unchanged and bounds checked.',
    'sum and mean 1, 7, 30 values; median 1-5 (all orders), 24, 25, 60 (two symbolic elements); extrema 1-30; circular shift of 1-12 by every amount', 'longer fully symbolic medians',
    JJ('0,1 0,7 0,30 1,1 1,2 1,3 1,4 1,5 4,24 4,25 4,60 2,1 2,4 2,5 6,30 3,1 3,5 3,12 5 1,6! 2,7! 4,200!'))
chk('C14', 'h_c14.cpp', 'Every array in the box for the listed lengths, every branch (threshold, p = 0, 1, 2, 3, 4).',
    'lengths 1-6; p 0-4; array and vector overloads', 'longer arrays, fractional p',
    JJ('0,1,1 0,3,1 0,6,1 0,1,0 0,3,0 0,4,0 1,1,1 1,3,1 1,3,2 1,2,3 1,4,2 1,2,4 2,3,1 2,3,2 2,2,3 3,4,1 3,4,2 3,3,3 4,1 4,4 0,10,1! 1,5,2! 1,3,3! 3,6,2!'))
chk('C15', 'h_c15.cpp', 'Every double in the stated ranges; floor and rounding are encoded exactly over integers.',
    'round: |x| up to 1e6 incl. half-integers; mod: x in [-60,60] and y in concrete moduli and a symbolic modulus; windows of 600 around quotients of 2^24, 2^31, 2^32 and 4e11 with moduli 1, 0.7 and 2.5; princarg: |x| up to 1000', 'other very large magnitudes',
    JJ('0,0 0,1 0,2 4 1,0 1,1 1,2 1,3 1,4 1,5 2,0 3,0 3,1 5,0,0 5,1,0 5,2,0 5,3,2 5,4,0 5,5,5'))
chk('C16', 'h_c16.cpp', 'Every vector with the listed symbolic entries; each comparison with the local mean is a path.',
    'lengths 1-40 with up to 12 symbolic entries, at start, middle and end', 'more symbolic entries at once',
    JJ('1,0 5,0 8,0 12,0 20,2 40,2 40,2,1 3,0,1 60,4,1! 14,0!'))
chk('C17', 'h_c17.cpp', 'Every signal in the box; each lag against its sum.', 'lengths 1-5 fully signed, 8, 12, 20 with positive data', 'longer signals',
    JJ('1,0 2,0 3,0 4,3 20,3 5,1 8,2 12,2 4,0! 30,3! 16,2!'))
chk('C18', 'h_c18.cpp', 'Every pair of vectors in the box. The bound [0,2] for n > 1 follows from "one minus the cosine" by Cauchy-Schwarz and is asserted directly for n = 1.',
    'cosine 1-5 components (20 with one symbolic), Gaussian and distribution divergences 1-4 components', 'longer vectors',
    JJ('0,1 0,2 0,3 0,5 1,1 1,2 1,4 2,3 3,1 3,2 3,4 4,1 4,3 5,2 6,20 0,8! 3,6! 4,6!'))
chk('C19', 'h_c19.cpp', 'All ordinate vectors in the box for the listed abscissa patterns; coefficients against the normal equations, exact polynomials recovered.',
    '2-8 points, 1-6 terms (at most as many terms as points), six abscissa patterns of spacing 0.01 to 2', 'ill-conditioned abscissae, more points',
    JJ('0,2,1,0 0,3,2,0 0,3,3,1 0,5,3,1 0,6,2,4 0,8,5,1 0,7,3,2 1,4,3,0 1,6,4,1 1,5,3,2 1,8,6,1 1,3,3,3 2,4,2,0 2,5,3,1 4,5,2,0 4,6,3,1 4,7,1,2 3,3,2,0,100 3,5,2,3,10 3,4,3,2,5 3,3,2,0,2500! 1,4,2,5 1,6,3,5 1,6,3,6 1,8,4,6 1,5,2,6 0,5,3,6'))
chk('C33', 'h_c33.cpp', 'Every source in the box for the listed lengths; the length and the number of calls are symbolic integers (mode 3) or bounded choices.', 'sources of 2-200 samples, frame 1-16, hop 1-16 (below, equal and above the frame), calls well beyond the announced count, second source and resets', 'longer sources',
    JJ('0,4,2,9 0,1,1,4 0,3,5,9 1,4,3,6 2,8,4,100 0,5,5,12 0,7,3,20 1,2,2,6 2,16,16,200 0,4,4,8 0,2,1,3 1,5,2,11 0,8,8,7 0,6,3,0 3,4,2,9 3,3,5,12 3,1,1,4 3,4,4,12 3,8,3,20 3,4,3,14 3,5,4,40!'))
chk('C34', 'h_c34.cpp', 'The whole table of every type; analysis and synthesis over every signal in the box; perfect reconstruction with the alias-cancelling synthesis pair for every family, up to the precision to which the tables are printed.',
    'all 43 types; signals of 44 samples (84 for the 40-tap, 104 for the Meyer, 64 for the Symlet-30 tables)', 'longer signals follow by linearity and shift-invariance',
    JJ('1') + JJ(' '.join('0,%d,%d' % (t, {11: 84, 42: 104, 22: 64}.get(t, 44)) for t in range(43))) + JJ('2,5 2,0 2,12 2,30'))
chk('C37', 'h_c37.cpp', 'Every chroma vector or sequence in the box.', 'all 12-component vectors; grams of up to 5 entries; change function over 1-9 frames with smoothing widths 0-7', 'longer sequences',
    JJ('0 1,0,0 1,0,11 1,1,5 1,2,0 1,3,0 2,0,20 2,5,464 3,1,1,0 3,5,1,1 3,8,2,0 3,9,4,7 3,3,5,1 4,9,2,0 3,4,0,1 5'))
chk('C38', 'h_c38.cpp', 'Every feature matrix near irregular unit-norm frames (symbolic perturbation), every matrix for up to 3 frames.', '0-12 frames of 2-4 bins', 'larger matrices; wide boxes at more than 3 frames',
    JJ('0,0,2,0 0,1,2,0 0,2,2,0 0,3,2,1 0,4,2,1 0,4,3,2 0,6,2,3 0,8,2,0 0,7,2,6 0,10,4,3 0,12,3,5 1,4,2,0 1,5,2,0 1,4,2,1'))
chk('C39', 'h_c39.cpp', 'Every detune in the stated range for the listed pitches and concert pitches; the exponential and logarithm are uninterpreted functions with sound axioms.', '16 MIDI pitches from 0 to 127 (thorough: all), detune in [-100,100] cents, concert pitch 415, 440 (and 261.6)', 'other concert pitches',
    JJ(' '.join('0,%d,%d,4400' % (p, p) for p in (0, 1, 11, 12, 23, 35, 47, 57, 60, 69, 72, 81, 96, 108, 119, 127)) + ' 0,40,40,4150 0,69,69,4150 0,100,100,2616 2,60,60,4400 2,127,127,4400 1,0,115,4400 1,0,115,4150 1,0,115,2616 '
       + ' '.join('0,%d,%d,4400!' % (p, p) for p in range(128) if p not in (0, 1, 11, 12, 23, 35, 47, 57, 60, 69, 72, 81, 96, 108, 119, 127)) + ' 2,30,30,4400! 2,90,90,4150!', weight=5))
chk('C23', 'h_c23.cpp', 'Products: every matrix with entries in [-1,1], all transposes, both interfaces, padded leading dimensions. LU and inverse: irregular well-conditioned base matrices (four pivot patterns) with symbolic entries around them, checked by multiplying out.',
    'products up to 3x3x4 with symbolic entries and (m,n,k <= 2,3,2) symbolic alpha and beta; dot products of 0-11 elements with strides -3..3; inverses of order 1-8 with up to 12 symbolic entries (perturbations 0.005-0.5), order 66, 70 and 132 (blocked code) with 1-2', 'other base matrices, near-singular matrices; invert() never notices singularity (its status is overwritten), see DESIGN.md',
    JJ('0,2,2,2,1,2,0 0,2,3,2,1,0,1 0,3,1,4,0,1,0 0,2,2,0,1,2,0 0,1,1,1,0,3,0 0,3,2,1,2,4,0 0,2,2,2,0,5,1 0,1,3,2,1,4,0 1,0,1,1 1,7,1,1 1,11,1,1 1,5,-2,3 1,4,1,-1 1,6,3,1 1,3,-1,-2 2,1,0,1,500 2,2,1,4,100 2,2,0,4,100 2,3,1,3,50 2,3,2,5,20 2,4,3,4,20 2,6,2,6,10 2,5,3,5,30 2,5,3,6,20 2,66,1,1,20 2,70,2,2,5 2,132,2,1,5 3,4,2 3,3,2 3,4,0 3,5,3 4,1,0,1,500 4,2,0,4,100 4,2,1,4,100 4,3,1,3,20 5,3,5,1 5,5,3,1 5,2,4,0 5,6,2,3 2,8,1,12,10! 4,3,2,6,20! 2,10,3,6,10! 2,90,3,1,10! 0,3,3,3,1,2,0! 0,4,2,3,0,5,0!', weight=3))
chk('C20', 'h_c20.cpp', 'Scatter matrix: every data matrix. Reduction to tridiagonal form: symbolic entries around irregular symmetric matrices. Eigensolver: fixed tridiagonal matrices with every incoming basis (the iteration count depends on the matrix, so the matrix itself is concrete). Projection: columns of symbolic spread (every order of variances), and irregular concrete data composed end to end.',
    'data up to 5x3; symmetric matrices of order 1-4 with up to 6 symbolic entries; tridiagonal order 1-8; projections of 2-4 symbolic columns and 10x4 to 20x6 concrete data; scales 1 to 2^-40', 'eigensolver convergence for symbolic matrices',
    JJ('0,1,1 0,3,2 0,5,3 0,2,4 1,1,0,1,500 1,2,0,3,500 1,2,1,3,100 1,3,0,6,50 1,3,2,4,100 1,4,0,2,10 1,4,1,3,20 1,4,3,3,10 2,1,0 2,2,1 2,3,3 2,4,6 2,5,2 2,6,3 2,8,5 2,7,7 3,2,1 3,2,2 3,3,3 3,4,2 4,10,4,3,1 4,20,6,6,2 4,7,3,2,5 4,12,5,1,3 4,12,5,4,4 4,9,4,4,6 4,3,2,1,7 1,3,0,6,50,14 1,4,1,2,20,30! 1,3,2,4,100,10 4,12,5,1,3,20 4,7,3,2,5,10 4,7,3,2,5,40 4,9,4,4,6,14 3,5,5!'))
chk('C21', 'h_c21.cpp', 'Every observation sequence in the box for fixed irregular models (the comparisons are linear because the covariance is shared), and every initial and transition probability in [0.01,1] for fixed observations (logarithms as axiomatised functions); oracle enumerates all state sequences.',
    '1-3 states, 1-5 observations of dimension 1-2, including impossible starts and transitions, unreachable states and scores below -1e7', 'longer sequences, more states',
    JJ('1,1,1,1,0 2,1,1,2,0 2,2,1,1,0 2,3,1,2,0 3,3,1,1,0 2,3,2,1,0 2,2,1,1,1 3,2,1,1,1 2,3,1,1,1 3,3,1,1,2 3,3,1,2,2 2,4,1,1,2 2,4,1,3,0 4,2,1,5,0 2,2,1,1,3 2,3,1,2,3 3,2,2,1,3 2,3,1,1,4 3,3,1,1,4 3,2,1,2,4 3,4,2,2,2! 2,5,1,3,0! 3,4,1,4,0! 2,4,1,2,1!', weight=4))
chk('C22', 'h_c22.cpp', 'Posteriors and likelihood: symbolic entries around irregular models and likelihoods, compared with sums over all state sequences (denominators cleared exactly). Re-estimation: every consistent set of posteriors in the box and every observation set. Initial model: any observations around irregular data. Training end to end on concrete data.',
    '1-3 states, 1-4 frames for posteriors, up to 5 for re-estimation, 1-3 dimensions', 'long sequences, underflow of the posteriors; the value kept for the second iteration (loglik2, used only to decide when to stop) is the first frame\'s share and is not asserted',
    JJ('0,1,2,1,1,1,128 0,2,1,1,3,2,64 0,2,2,1,1,1,32 0,2,2,1,4,1,32 0,2,3,2,2,1,32 0,2,2,2,7,1,16 0,2,3,1,1,1,16 0,3,2,1,1,1,8 0,2,3,1,5,1,0 0,2,3,1,5,1,4! 0,2,4,1,1,1,0 0,2,4,1,8,1,0 0,3,3,1,8,1,0 0,3,3,2,10,2,2 0,3,3,1,2,1,8 0,4,2,3,2,1,8 0,1,1,1,1,2,128 1,1,2,1,1 1,2,3,2,0 1,2,2,1,1 1,3,4,2,1 1,2,5,2,1 1,3,3,3,0 1,2,3,2,0,1 1,3,4,1,1,1 1,2,5,2,1,1 2,2,3,1 2,3,4,2 2,3,20,3 2,1,5,2 3,2,12,1,1 3,2,12,2,1 3,3,20,2,1 0,3,3,1,5,1,4! 0,2,5,1,3,1,4!', weight=3))
chk('C24', 'h_c24.cpp', 'Small detection functions with every entry free in [0,1] (each comparison of the dynamic programme becomes a path), longer ones with every entry symbolic around irregular data; oracle recomputes the objective and compares with every alternative.',
    '0-40 frames, periods 1-20 (three period patterns: constant, alternating, ramp and irregular), alpha 0-1, tightness 3-6', 'longer tracks with fully free entries',
    JJ('0,0,2,900,400,0,0,0 1,0,2,900,400,0,1,0 3,0,4,900,400,0,3,0 6,0,2,900,400,0,6,0 7,1,2,900,400,0,7,0 8,0,2,900,400,0,4,0 8,1,2,700,300,4,4,0 8,0,3,800,600,0,8,0 7,0,20,900,400,0,7,0 10,4,2,900,400,2,4,0 6,0,1,1000,400,0,6,0 12,0,3,900,400,0,12,5 12,2,3,900,400,0,12,5 12,0,3,900,400,0,12,100 16,2,3,900,400,0,16,30 20,3,4,900,400,8,3,0 30,4,5,500,500,0,30,2 40,0,6,900,400,20,20,50 9,3,2,0,400,0,9,0!', weight=3))
chk('C25', 'h_c25.cpp', 'Detection functions of seven kinds (pulses, irregular, silence, constant, period change, click) with up to 3 symbolic entries around them; the oracle recomputes the comb-filter output and the best path score independently.',
    '0-2000 frames (and one fixed 45000-frame input, where unscaled path scores would underflow), hints 30-200 with and without the tempo constraint, rates 8000-48000, increments 128-512', 'wide symbolic boxes (the outer comparisons depend on thousands of entries at once)',
    JJ('0,1,1,120,0,44100,512,0,0 600,1,30,120,0,44100,512,1,1000 641,1,30,120,0,44100,512,0,0 700,0,40,120,1,44100,512,1,1000 700,0,40,120,1,44100,512,3,100 801,2,40,60,1,44100,512,0,0 801,5,40,60,1,44100,512,0,0 900,3,50,200,1,22050,256,0,0 800,4,25,60,1,48000,512,1,10000 1000,0,50,200,0,22050,256,1,1000 2000,4,33,100,0,44100,512,0,0 700,0,40,120,1,44100,512,1,100000 513,1,20,120,0,44100,512,1,1000 640,1,20,30,1,8000,128,1,100 512,1,20,120,0,44100,512,1,1000 511,1,20,120,0,44100,512,1,1000 1200,4,25,120,1,48000,512,0,0 800,3,40,120,1,44100,512,1,1000!') + JJ('45000,1,100000,120,0,44100,512,-1,0', opts=['--ilimit', '4000000000']))

chk('C40', 'h_c40.cpp', 'Histories: every sequence of allocate and free operations of the stated length (the operation and the object freed are symbolic integers), after concrete histories that fill, empty or fragment one or more blocks; object contents are symbolic. Escaping storage is caught by the bounds check on every access to an object.',
    'up to 7 symbolic operations, on empty pools and pools of 3-1540 objects around the 512-object block size, one of 524800 objects (beyond the reserved block table); element sizes 1, 8, 12, 16, 24', 'longer symbolic histories; several pools; requests for more than about 2^31 objects',
    JJ('0,8,0,4,0 0,8,0,7,0 0,8,510,3,0 0,12,512,3,3 0,24,514,3,1 0,1,3,4,0 0,8,600,4,2 0,16,1024,3,3 0,8,1540,2,1 1,16,1030,3,0 1,8,600,4,0 1,24,1537,2,0 2,8,3000,0,0 0,8,510,4,0! 0,8,0,8,0! 0,20,1024,4,1!') + JJ('2,8,524800,0,0', opts=['--ilimit', '4000000000']))

R = ['--race', '--preempt', '3', '--spurious', '2']; R2 = ['--race', '--preempt', '2', '--spurious', '1']
chk('C41', 'h_c41.cpp', 'Schedules: every interleaving of the controlling thread and its workers at synchronisation calls, with every choice of spurious wake-ups and of time-outs, within the stated numbers of preemptions; data handed to tasks and the clock are symbolic; happens-before race check on every memory access; a deadlock is a report. A schedule is replayed on the real code with real threads passing one token; a race report is confirmed with the thread sanitizer.',
    'up to 4 start/await rounds of one task, 2 tasks in parallel, 3 items through a condition, 2 threads with 2 locked sections each; at most 3 preemptions (2 for parallel tasks) and 2 spurious wake-ups per history; waits of 1 us to 10 s from 12 base values plus 0-255 us with every clock microsecond', 'more preemptions; weak memory (accesses are checked to be race free, so sequential consistency suffices); destroying a task that was started and not awaited; the unlocked reads inside Mutex::lock meant to diagnose self-deadlock; failure of the system calls; the Windows branch',
    JJ('0,0 0,1 0,2 0,3 2,1 2,2 2,3 3,5,1,16 4,1,0 4,1,1 4,2,0 4,2,1 5,0 5,2', opts=R) + JJ('1', opts=R2) + JJ('0,4 2,4', opts=['--race', '--preempt', '4', '--spurious', '2', '--ilimit', '4000000000'], **T)+ [J('p1deep', [1], opts=R + ['--maxpaths', '20000000'], time=2500, **T)]
    + [J('w%d_%d' % (i, o), [3, i, o, 256], opts=R2) for i in range(12) for o in (0, 1)] + [J('w%dt' % i, [3, i, 0, 65536], opts=R2, **T) for i in range(0, 12, 3)])
chk('C35', 'h_c35.cpp', 'Every sequence of spectra in the box, started from the constructed state; time-domain frames against the definition of the transform; the arc tangent is an uninterpreted function with sound axioms, floor is exact.',
    'frames of 2-32 samples with every spectrum value or sample symbolic, 1-4 consecutive frames, hops of 1 to the frame size; entry-point agreement on irregular and silent frames; concrete single components up to 512 samples', 'longer frames; magnitudes above the box follow by scaling',
    JJ('0,2,1,1 0,2,1,4 0,4,2,1 0,4,2,3 0,4,5,2 0,8,3,2 0,8,8,2 1,4,2 1,8,4 1,16,4 1,20,5 2,8,4,3 2,16,8,4 2,12,5,3 3,4,2,1 3,8,3,2 4,8,2,1 4,16,4,3 4,512,128,37 0,16,4,2! 0,4,2,6! 1,20,9!'))
chk('C30', 'h_c30.cpp', 'Every sequence of spectra in the box, from silence, for each of the five types against its formula written over magnitudes and arguments; adaptive whitening with default and explicit constants; time-domain frames through the window.',
    'frames of 2-16 samples, 1-4 consecutive frames fully symbolic, up to 12 with one symbolic component per frame, one of 512 samples concrete', 'longer frames; for the broadband type frames within 1e-6 of the rise threshold and bins with power below 1e-3 (other than exact silence); sine and cosine uninterpreted',
    JJ(' '.join('0,%d,2,1,2,0,0 0,%d,4,2,2,0,0 0,%d,2,1,3,0,5 0,%d,4,2,3,1,5 0,%d,2,1,2,2,5 1,%d,8,4,3,0 1,%d,16,8,4,2 2,%d,8,4 3,%d,8,4,9,0 3,%d,8,4,12,2 3,%d,16,8,12,1' % ((t,) * 11) for t in (1, 2, 3, 4)) + ' 0,1,8,4,3,2,5 0,2,8,4,3,1,5 0,3,2,1,4,0,0 0,4,8,4,2,0,0 1,3,512,256,3,0')
    + JJ('0,5,2,1,2,0,30 0,5,2,1,2,1,30 0,5,2,1,3,0,5 0,5,2,1,3,0,15 1,5,8,4,3,0 1,5,16,8,4,1 2,5,8,4 3,5,8,4,9,0 3,5,8,4,12,2 3,5,16,8,12,1 0,5,4,2,2,2,10 0,5,2,1,2,0,0! 0,5,4,2,2,0,0! 0,5,4,2,3,0,30!'))
chk('C32', 'h_c32.cpp', 'Irregular inputs with symbolic entries around them, and inputs with every entry free for short lengths; every branch of the sorting is a path; reference written from the description (normalisation, zero-phase filtering by the difference equation, median over the clipped neighbourhood).',
    'lengths 0-60 with up to 10 symbolic entries, lengths 2-4 with all entries free in [0.5,2.5]; filter orders 0-3; windows of 0-8 before and 0-7 after, shorter and longer than the input; alpha 1, 2, 4, 9; offset 0 and 0.25; one earlier call', 'all-zero input (normalisation divides zero by zero); non-integer alpha',
    JJ('0,0,1,2,2,1,0,0 0,1,1,0,0,1,0,1,100 0,4,0,1,1,1,0,2,100 0,8,1,2,2,1,0,2,100 0,8,2,2,1,1,1,2,100 0,12,2,3,2,2,3,2,50 0,24,2,8,7,9,0,2,10 1,16,2,4,3,9,2,1,50 2,4,1,1,1,1,0,4,1000 2,3,0,1,1,1,1,3,1000 0,4,1,3,3,1,0,1,100 0,3,1,0,5,1,0,1,100 0,1,0,8,7,9,3,1,100 0,2,3,8,7,1,1,2,100 0,15,2,8,7,9,1,2,20 0,16,2,8,7,9,1,2,20 0,5,3,2,0,2,0,3,20 2,3,2,1,2,1,0,3,2000 2,2,1,1,1,2,1,2,2000 0,8,0,0,0,1,0,8,3 0,10,1,1,2,1,1,10,2 0,40,2,8,7,9,2,2,5 0,40,2,8,7,2,2,3,5 0,60,2,8,7,1,3,4,5 1,30,1,4,3,1,2,4,20 2,4,0,0,1,1,1,4,1000 0,6,1,8,2,1,1,2,50 0,6,2,2,8,1,1,2,50 0,100,2,8,7,9,1,2,2! 2,3,3,2,2,2,1,3,2000!'))
chk('C31', 'h_c31.cpp', 'Irregular detection functions with symbolic entries and symbolic thresholds; every comparison of the peak search is a path; the quadratic fit is compared with the closed form of the five-point least-squares parabola; onsets both ways (reported peaks are above the threshold, peaks above it are reported).',
    'lengths 0-40 with up to 4 symbolic entries and up to 3 symbolic thresholds; filter orders 0-2; windows 1-8 before and 1-7 after; constant, silent and too short input; consecutive calls', 'a call whose length differs from the configured one; fits within 1e-8 of a threshold; all-zero input (the smoothed function is then undefined, no onset is reported)',
    JJ('0,8,0,2,2,1,0,0,7,0 0,16,1,3,2,1,2,200,0,0 0,16,2,3,2,1,3,200,3,1 0,24,2,8,7,9,1,50,0,0 0,40,2,8,7,9,0,0,3,2 1,12,1,2,2,1,1,100,0,0 1,4,2,8,7,9,1,100,0 1,3,2,8,7,9,1,100,0 1,0,2,8,7,9,0,0,0 1,5,0,1,1,2,1,500,0 2,20,2,8,7,2,1,500,0 0,20,0,2,2,1,2,1500,1,3 0,20,0,2,2,1,2,1500,2,4 0,16,0,1,1,1,2,1500,0,5 0,12,0,4,4,2,2,1000,3,6 0,30,2,8,7,9,0,0,1,7 0,30,1,4,3,2,1,300,2,8 0,16,0,2,2,1,1,500,4,9 2,12,0,2,2,1,2,800,3,2 0,24,0,8,7,1,4,2000,3,4! 0,40,1,3,2,1,3,1000,3,1! 0,16,0,1,1,1,3,1500,0,5!'))
chk('C27', 'h_c27.cpp', 'Every sequence of the last frames over three irregular frames and silence, each frame at every level between 1/4 and 4 (the magnitudes are exact, so the level cancels in the encoding); symbolic samples of the last frames; triads in every configuration at real rates. Chroma vectors of the reference come from the library\'s own decimator and chromagram (decided by C09 and C28), everything after them is recomputed.',
    'histories of 1-9 frames of 32-64 samples, averages and medians over 1-5 frames, decimation 1, 2 and 8, overlaps 1-8, two tunings; up to 4 symbolic samples per frame within 0.001; triads of concrete level in blocks up to 32768 samples', 'levels and samples before decimation by more than 1 (the rounding bound of the recursive filter is too wide); frames whose mean chroma is constant in the median window; averaging spans of zero',
    JJ('0,50,1,1,700,700,1,1 0,50,1,2,1300,1900,4,2 0,50,1,2,1300,1900,9,1 0,50,1,1,700,3000,5,3 0,50,1,4,3000,1300,7,2 0,50,1,2,1300,1900,4,2,0,0,415 0,100,2,1,2000,1500,2,1 0,100,2,1,2000,1500,5,3 0,400,8,4,2000,1500,4,2 1,50,1,1,700,700,1,1,1,100 1,50,1,1,700,700,2,1,1,1000 1,50,1,1,700,700,2,2,3,1000 1,50,1,1,700,700,1,1,4,1000 2,44100,8,1,1000,1000,1,5 2,44100,8,1,1000,1000,1,9,1 2,48000,8,1,10000,10000,3,7,1! 2,22050,4,8,10000,10000,2,0,1 2,44100,8,1,1000,1000,1,0! 2,44100,8,1,1000,1000,1,11! 2,44100,8,1,1000,1000,1,2,1! 0,50,1,1,2000,3000,6,4! 0,100,2,1,2000,1500,7,4!'))
chk('C42', 'h_c42.cpp', 'Every arrangement of four kinds of section (silence, irregular, two pulse trains, one at the end of the lag range); irregular inputs with symbolic entries; pulse trains of every phase. Each input is processed by a new object, again by the same object after another input, and by a third: results agree exactly; every access is bounds checked.',
    '20-100 frames of detection function with lags of 8-16 and windows of 16-64 (shorter than, equal to and longer than four lags), up to 5 sections of 4 kinds, up to 6 symbolic entries of small range or 1-2 of wide range; 1500 frames at the standard sizes (128, 512) with periods 30-60', 'longer inputs with symbolic entries; analysis windows shorter than one lag; pulse trains slower than 70 or faster than 170 beats per minute need not be followed',
    JJ('0,8,32,2,1,9,40,4,0 0,8,32,2,2,9,61,3,1 0,16,64,3,2,9,100,3,1 0,8,16,1,1,2,50,4,0 0,8,40,1,2,1,33,3,2 1,8,32,2,1,9,40,1,100,0,5 1,8,32,2,1,9,40,3,100,1,7 1,8,32,2,1,9,40,6,1000,3,7 1,16,64,2,1,9,100,1,10,0,12 1,16,64,3,3,2,100,4,1000,2,15 1,8,20,1,1,1,7,2,1000,2,0 1,8,20,1,1,1,7,2,100000,2,0 1,8,20,1,1,1,20,1,300000,2,0 1,8,32,2,1,9,40,1,400000,0,5 1,8,32,2,1,9,40,2,200000,1,7 1,8,32,2,1,9,40,1,300000,0,5,9 1,8,20,1,1,1,20,1,200000,2,0,12 1,8,20,1,1,1,20,1,200000,2,0,15 1,8,32,2,1,9,0,0,0,0,0 2,128,512,8,7,9,1500,43,0,3,500 2,128,512,8,7,9,1500,60,5,2,500 2,128,512,8,7,9,1500,30,7,2,500 2,128,512,8,7,9,1500,52,20,2,500 0,8,32,2,1,9,50,5,0! 0,16,64,3,2,9,140,4,2! 1,16,64,2,1,9,160,8,1000,5,13! 2,128,512,8,7,9,1500,43,3,40,500!', weight=2))
chk('C36', 'h_c36.cpp', 'Every sequence of states for the histograms, every assignment for the segmentation, every coefficient for the chroma folding, symbolic coefficients and blocks for the feature extraction (rebuilt from the library\'s own, separately decided, decimator, transform, constant-Q and MFCC); whole segmentations of irregular features with every arrangement of three classes of section.',
    'histograms up to 9 frames, 4 states and windows of 1-7; assignments of up to 6 frames to up to 4 clusters; features of blocks up to 110 samples (220 decimated, 2048-point cepstra); clustering and whole segmentations of 4-24 frames with concrete feature values, 2-4 states, 2-4 clusters', 'clustering with symbolic histograms (a fixed point of thousands of logarithms); blocks longer than the window when the rate is decimated; even histogram lengths; all-zero frames in the MPEG-7 normalisation (zero divided by zero)',
    JJ('0,5,2,3,0,5 0,6,3,5,0,4 0,8,2,7,2,4 0,9,4,1,3,3 0,7,3,5,2,5 1,2,7,3 1,3,14,7 2,4,3,44100,2000 2,5,2,8000,2500 2,5,3,8000,2500 2,6,2,22050,1000 2,6,3,22050,1000 2,7,2,100,1000 2,1,3,48000,2000 2,4,4,100,2500 4,2,3,2,300 4,3,4,3,300,1 4,4,4,8,250 5,0,40,1000,10,40,2,2 5,1,40,1000,10,40,2,2 5,0,40,1000,10,40,2,2,30 5,1,60,700,10,60,3,2,50 5,0,22050,10,2000,4000,2,1 5,1,44100,5,2000,4000,2,1 6,200,500,1 6,44100,20,0 7,20,2,3,5,2,0 7,4,2,3,5,2,0,2 7,16,2,3,5,2,2,2 7,20,3,2,3,3,1,3 7,24,3,4,7,3,1,2 8,20,24,2,5,2,0,8 8,20,3,2,5,2,0,1 8,20,6,2,5,2,1,3 8,20,21,2,5,3,0,7 3,4,2,2,1,1,0,100 3,8,3,2,3,3,0,100 3,12,3,3,4,4,0,100 3,12,3,3,4,4,0,100,1 7,30,3,4,7,3,1,4! 0,8,3,5,0,8! 2,8,2,100,1000!'))
chk('C28', 'h_c28.cpp', 'Every spectrum or audio frame in the box; kernels rebuilt from their definition in the harness (windowed complex exponentials, transformed, thresholded); the magnitudes are exact square roots. The scaling clause is compared directly for one or two octaves and otherwise follows from the formula.',
    '1-20 constant-Q bins, 1-12 per octave, 1-4 octaves, transforms of 4-1024 points, thresholds 0, 0.0030-0.0100 and one above every kernel; all bins symbolic up to 16 points, 2-8 symbolic bins or samples beyond', 'frames whose chroma sum is below 1e-3 when normalised (other than exact silence); kernel entries within 1e-13 of the threshold',
    JJ('0,40,10,40,1,0,0,0 0,40,10,40,2,54,0,0 0,100,10,35,3,100,8,0,1 0,200,20,150,5,30,8,0,2 0,40,10,40,2,20000,0,0 0,400,10,160,12,54,4,0,3 1,40,10,20,1,0,0,0 1,40,10,40,2,0,0,0 1,40,10,40,2,54,4,1,3,1 1,40,10,20,1,0,2,0,0,1 1,60,10,40,3,54,2,2,6 1,60,10,40,3,54,3,0,4 1,40,10,40,2,54,2,2,5 2,40,10,40,2,54,2,1 2,60,10,40,3,54,3,0,5 2,200,20,150,5,30,8,1,2 2,400,10,160,12,54,6,2,0 2,1000,20,300,3,54,4,1,0 3,60,10,40,3,54,2,2,5 3,400,20,100,3,54,2,1,1 3,40,10,35,1,0,4,0 1,400,10,160,12,54,2,1,0 2,40,10,75,2,0,3,2,1'))

chk('C26', 'h_c26.cpp', 'Buffering: every gain, or every value of up to four samples of the first and last block, against a decimator run separately. Down-beats: symbolic samples around irregular audio and a symbolic beat position; spectra, thresholding, divergence, bar folding and choice of the strongest position are recomputed from their definitions (logarithms as axiomatised functions).',
    'decimation factors 1-64, increments 16-512, up to 70 blocks, one reset; 0-14 beats, bars of 1-5 beats and the default, frames of 2-256 samples, silent audio, audio shorter and longer than the beats', 'wide boxes for the comparisons between bar positions (sums of logarithms); negative beats per bar; unordered beats',
    JJ('0,1,16,70,0,0 0,2,16,40,0,1 0,16,32,40,4,1 0,64,128,3,0,0 0,8,16,36,2,0 0,32,64,20,0,1 1,12,1,4,7,16,100,0,0,4,0,0 1,12,1,4,7,16,100,1,100,4,0,0 1,12,1,4,7,16,100,2,1000,4,0,0 1,24,2,4,9,24,60,0,0,3,1,1 1,48,2,4,9,24,60,2,100,3,1,1 1,48,2,4,14,24,200,1,1000,4,3,0 1,200,16,32,6,96,300,2,100,5,3,2 2,100,4,4,1 2,100,4,4,0 2,200,2,8,3 1,48,2,4,9,24,60,0,100,3,1,3 1,48,2,4,9,24,60,0,100,3,4,3 1,2,2,4,9,24,60,0,100,3,4,0 1,12,1,4,2,16,100,1,1000,4,0,0 1,12,1,4,3,16,100,1,3000,1,0,0 1,3000,16,512,10,60,4000,1,50,4,0,0 1,48,2,4,12,24,200,2,200,0,5,0 1,48,2,4,13,24,400,2,200,2,6,1 1,100,4,8,11,40,300,2,100,3,7,0 1,24,2,4,12,24,90,2,100,4,2,2'))

chk('C29', 'h_c29.cpp', 'Spectra and frames with symbolic entries around irregular data; mel bands, logarithm and cosine transform recomputed from their definitions (roots and logarithms are canonical terms with sound axioms); scaling by four compared directly.',
    'transforms of 2-512 points, 2-39 cepstra with and without c0, several windows and rates, log power 1 and 2, up to 16 symbolic entries, silence', 'negative band logarithms raised to a fractional power; wide boxes where a band can lose all its energy',
    JJ('0,16000,64,5,1,2,1,4,100,0 0,16000,32,5,0,2,1,0,100,0 0,16000,64,5,1,2,2,4,100,0 0,16000,32,5,1,2,1,16,500,0 0,44100,512,19,1,2,1,4,50,0 0,8000,16,1,1,0,2,8,300,4 0,8000,64,19,0,2,1,8,200,5 1,16000,64,7,1,2,1,3,100,0 1,44100,128,13,0,3,1,4,300,1 1,16000,2,3,1,2,1,2,500,0 1,16000,32,7,0,1,1,8,100,3 2,16000,64,7,0,2,1,1,100,0 2,8000,64,7,1,2,1,4,100,2 2,44100,256,13,1,5,1,2,100,2 3,16000,256,20,1,2,1,2,10,0 3,16000,256,39,1,2,1,8,50,0 3,16000,256,4,0,2,1,4,5,3 1,44100,1024,19,1,2,1,2,100,6'))
