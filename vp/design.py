"""Per-property part of DESIGN.md: the oracle of each check. Used by gen.py."""
ORACLE = {
'C01': 'The transform sum written out in the harness, with cosines and sines computed there; inverse against the signal; the same object after an arbitrary earlier transform; guard cells around every buffer (bounds checked).',
'C02': 'The transform sum; conjugate symmetry of all n bins; magnitudes through their exact squares; the inverse with arbitrary junk beyond n/2+1.',
'C03': 'The type-II cosine sum; inverse and unitary round trips, energy and inner product as exact quadratic forms.',
'C04': 'The difference equation over the whole stream; block partitions compared term for term (bit identity, structural) with one call.',
'C05': 'Forward filter, reversal, filter over the reflected extension, written out; a second object which has seen another block; in-place call compared structurally.',
'C06': 'Textbook formula per type; product per sample; copies and assignments.',
'C07': 'Bessel series written independently; Kaiser\'s design formulae; sin(x)/x.',
'C08': 'Published coefficients, direct difference equation over the stream (one persistent state per object); interleaved second object; reset.',
'C09': 'A cascade of half-band stages, each with its own state.',
'C10': 'The response matrix measured by unit impulses: linearity, dependence on the time difference only, symmetry about the latency, unity gain; bit identity of chunked, block and vector forms.',
'C11': 'Sort and pick over the most recent window, on every ordering.',
'C12': 'Bit-vector definitions (a single set bit; nearest power; Euclid\'s characterisation by divisibility); exact product.',
'C13': 'Definitions; medians by counting smaller and larger elements; rotation by index arithmetic.',
'C14': 'Norm of the result and proportionality to the input, as polynomial identities with the divisor cleared.',
'C15': 'Nearest whole number and whole-multiple characterisations over exact integers.',
'C16': 'The clipped mean over the window around each entry; the result non-negative and at most the input.',
'C17': 'The lag sum divided by the number of terms.',
'C18': 'Formulae; symmetry and zero-on-self asserted separately.',
'C19': 'Normal equations A\'(Ax-b)=0; recovery of exact polynomials.',
'C20': 'Definition of the scatter matrix; orthonormality, reconstruction and ordering of what the reduction, eigensolver and projection return.',
'C21': 'Enumeration of all state sequences inside the harness; the decoded path scores no less than any.',
'C22': 'Sums over all state sequences, denominators cleared; row sums and ranges after re-estimation.',
'C23': 'Triple loops; A times inverse = identity.',
'C24': 'The objective recomputed by an independent dynamic programme, compared with every alternative predecessor.',
'C25': 'Independent comb filterbank and best path over the same detection function; positivity, range and length of what is returned.',
'C26': 'A separately driven decimator for the buffer; spectra, thresholding, divergence and folding recomputed from the definitions.',
'C27': 'Chroma of the last frames averaged, median-filtered, correlated with the profiles and voted, all recomputed in the harness.',
'C28': 'Kernels rebuilt from windowed complex exponentials, products with the spectrum, folding and normalisation recomputed.',
'C29': 'Mel bands, logarithm and cosine transform written out; a second object and an interleaved frame must give the same terms.',
'C30': 'One formula per type over magnitudes and phases of this and the previous frames; whitening recomputed.',
'C31': 'Smoothed function from the library (decided by C32), then all local maxima, thresholds and parabola tests recomputed; both inclusions.',
'C32': 'Normalise, filter both ways, subtract the median, clip; written from the description.',
'C33': 'Sample k*hop+i of the source or zero.',
'C34': 'Orthonormality sums of the tables; analysis by direct convolution; reconstruction of the signal with delay.',
'C35': 'Magnitude and argument of each bin; unwrapped phase = previous + expected advance + wrapped difference, with the wrap stated over integers.',
'C36': 'Counting for histograms, run-length partition of the assignments, folding sums, and the whole segmentation recomputed from separately decided parts.',
'C37': 'Matrix of sines and cosines applied to the normalised chroma; distances of neighbouring smoothed centroids.',
'C38': 'Mean of similarities over all frame pairs at each lag.',
'C39': 'Round trips and octave relations with exp and log as axiomatised functions.',
'C40': 'A table of live objects in the harness: no two overlap, contents persist, all accesses are in live storage.',
'C41': 'Assertions on what the awaiting thread sees, on the clock argument of every timed wait, deadlock and race freedom.',
'C42': 'Self-composition (new object, used object, third object: identical results), order and range of beats, bounds checks; pulse trains followed.',
}
