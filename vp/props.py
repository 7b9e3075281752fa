# Single source of truth for the property texts. `python3 vp/gen.py` writes
# properties.jsonl and MANIFEST.json from this file and vp/jobs.py.

PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

INP = ["inputs"]; HIS = ["inputs", "histories"]; CFG = ["inputs", "configurations"]

P("C01", "Complex FFT computes the DFT and its inverse undoes it",
  "For every transform size and every complex signal, the forward transform equals the discrete Fourier transform by definition and the inverse transform (scaled by 1/n) of that result is the original signal, up to rounding. A null imaginary input means an all-zero imaginary part. Results do not depend on transforms carried out earlier with the same object, and only the n output values are written.",
  ["inputs", "configurations", "histories"], "all signals of finite samples, all sizes >= 1 (power of two or not), any earlier use of the object",
  "The tests check a handful of hand-picked 4- and 6-point vectors; linearity means each output is a claim about a whole vector space of inputs, and mixed-radix code paths differ per size.",
  ["dsp/transforms/FFT.cpp", "dsp/transforms/FFT.h", "ext/kissfft/kiss_fft.c"],
  [("FFT::process", "dsp/transforms/FFT.cpp"), ("kf_work/kf_bfly*", "ext/kissfft/kiss_fft.c")], ["FFT::process outputs"])

P("C02", "Real FFT agrees with the DFT, with conjugate half and exact inverse",
  "For every even size and every real signal, the real forward transform returns all n bins of the discrete Fourier transform including the redundant conjugate half, the magnitude variant returns the magnitudes of exactly those bins, and the inverse applied to the first n/2+1 bins returns the signal they describe, scaled by 1/n. The inverse ignores whatever lies in its input beyond the first n/2+1 bins. Odd sizes are rejected with an exception, and results do not depend on earlier calls.",
  ["inputs", "configurations", "histories"], "all real signals and all half-spectra, all even sizes",
  "Tests use a few fixed vectors of 4 and 6 points; aliasing between halves, an off-by-one in the conjugate mirroring or a size-dependent radix path shows only for particular sizes and signals.",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/tools/kiss_fftr.c"],
  [("FFTReal::forward/forwardMagnitude/inverse", "dsp/transforms/FFT.cpp"), ("kiss_fftr/kiss_fftri", "ext/kissfft/tools/kiss_fftr.c")], ["FFTReal outputs"])

P("C03", "DCT is the type-II cosine transform and its inverse is exact",
  "For every size and every input, the forward DCT equals the type-II cosine sum by definition and the inverse (type-III) reconstructs the input. The unitary variants are the orthonormal version: they preserve energy and inner products and invert each other. Results do not depend on earlier calls on the object.",
  ["inputs", "configurations", "histories"], "all finite inputs, all sizes >= 1",
  "Tests check single vectors for sizes 4 and 5; an error in one scaling or index affects other sizes and inputs only.",
  ["dsp/transforms/DCT.cpp", "dsp/transforms/DCT.h"],
  [("DCT::forward/inverse and unitary variants", "dsp/transforms/DCT.cpp")], ["DCT outputs"])

P("C04", "IIR/FIR filter implements its difference equation for any blocking",
  "The filter output satisfies y[n] = sum b[k] x[n-k] - sum a[k] y[n-k] with a zero initial state for every input and coefficient set with leading a of 1, including FIR mode with no a coefficients. Processing a signal in blocks of any sizes, in place or not, gives exactly the same output as processing it in one block, and reset returns the filter to its initial state. Invalid coefficient sets are rejected with an exception.",
  ["inputs", "histories", "configurations"], "all inputs, coefficient sets, orders and block partitions",
  "Tests use fixed coefficients and two or three block splits; ring-buffer refill happens only at particular totals of samples processed, and interactions of order and block size are unbounded.",
  ["dsp/signalconditioning/Filter.cpp", "dsp/signalconditioning/Filter.h"],
  [("Filter::process, m_offa/m_offb buffers", "dsp/signalconditioning/Filter.cpp")], ["Filter::process output"])

P("C05", "Zero-phase filtering depends only on its current input",
  "Forward-backward filtering yields, for every input block, an output of the same length that is a linear function of that block alone: it never depends on blocks processed earlier by the same object. It equals the forward filter followed by the time-reversed filter over the reflected extension of the block. Filtering in place gives the same output.",
  ["inputs", "histories"], "all input blocks and call histories",
  "Tests run each filter object once on one or two vectors, so state carried between calls and most inputs are out of reach.",
  ["dsp/signalconditioning/FiltFilt.cpp", "dsp/signalconditioning/FiltFilt.h"],
  [("FiltFilt::process", "dsp/signalconditioning/FiltFilt.cpp")], ["FiltFilt::process output"])

P("C06", "Window functions have their documented shape and apply pointwise",
  "Every window type at every length >= 1 returns the periodic window given by its textbook formula: values never exceed its peak and the shape is symmetric about its centre (the triangular window ramps in steps of 1/floor(n/2); odd lengths above 3 hold its peak twice). Cutting a signal multiplies each sample by the corresponding window value, in place or into a separate buffer, touching only the window's length of samples.",
  CFG, "all window types, all lengths, all signals",
  "Tests compare fixed tables of a few lengths; other lengths (odd, 1, 2) and the multiply for arbitrary data are not covered.",
  ["base/Window.h"], [("Window<T>::encache/cut", "base/Window.h")], ["Window::getWindowData, cut"])

P("C07", "Kaiser and sinc windows have the requested length, symmetry and values",
  "A Kaiser window built for any length and beta is symmetric, positive, peaks at 1 in its centre (odd lengths), and follows the Bessel-function definition; the length and beta derived from transition bandwidth and attenuation follow Kaiser's formulae. A sinc window has exactly the requested length and value sin(pi x)/(pi x) at spacing set by its half-period, with peak 1 at the centre (odd lengths). Cutting multiplies pointwise.",
  CFG, "all lengths, beta, attenuation, bandwidth and half-period values, all signals",
  "Tests compare tables for a few lengths with two-digit tolerance.",
  ["base/KaiserWindow.h", "base/KaiserWindow.cpp", "base/SincWindow.h", "base/SincWindow.cpp"],
  [("KaiserWindow::init/bessel0", "base/KaiserWindow.cpp"), ("SincWindow::init", "base/SincWindow.cpp")], ["getWindow, cut"])

P("C08", "Decimator output is independent of history after reset and of other instances",
  "For each supported factor the decimator maps each input block to exactly length/factor output samples, linearly, keeping filter state so that a stream processed block by block equals the low-passed stream sampled every factor-th sample. Resetting restores the initial state, the float and double interfaces agree up to float rounding, and processing in place or with overlapping output is allowed as documented. The low-pass has unity gain at DC.",
  ["inputs", "histories", "configurations"], "all input streams, block lengths that are multiples of the factor, supported factors 1,2,4,8",
  "No test exercises the decimator at all.",
  ["dsp/rateconversion/Decimator.cpp", "dsp/rateconversion/Decimator.h"],
  [("Decimator::doAntiAlias, process", "dsp/rateconversion/Decimator.cpp")], ["Decimator::process output"])

P("C09", "Multi-stage decimator by any power of two matches cascaded filtering",
  "For every power-of-two factor the multi-stage decimator maps each input block to exactly length/factor samples and is linear in the stream with unity DC gain: it equals repeated low-pass-and-halve stages with persistent state. The float and double interfaces agree up to float rounding.",
  ["inputs", "histories", "configurations"], "all input streams, power-of-two factors, block lengths that are multiples of the factor",
  "No test exercises this class.",
  ["dsp/rateconversion/DecimatorB.cpp", "dsp/rateconversion/DecimatorB.h"],
  [("DecimatorB::doAntiAlias/doProcess", "dsp/rateconversion/DecimatorB.cpp")], ["DecimatorB::process output"])

P("C10", "Resampler output is linear, correctly sized and independent of chunking",
  "For any pair of rates, feeding a signal in chunks of any sizes yields the same output sequence as feeding it at once (at most one more sample may have been produced), and no call writes more than ceil(n*target/source) samples for n input samples. The output is a linear function of the input that reproduces a constant signal at unity gain once the filter's start-up transient has passed. The one-shot conversion returns ceil(n*target/source) samples with latency removed.",
  ["inputs", "histories", "configurations"], "all signals, chunk partitions and rate pairs",
  "Tests cover a few rate pairs and fixed chunkings.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/rateconversion/Resampler.h"],
  [("Resampler::initialise/reconstructOne/process/resample", "dsp/rateconversion/Resampler.cpp")], ["Resampler::process output and count"])

P("C11", "Median filter returns the exact percentile of the latest samples",
  "After any sequence of pushes the moving filter reports the element at the configured percentile rank of the most recent window of values, with zeros standing in before the window has filled, and reset returns to that initial state. The static whole-vector form returns an output of the input's length whose values follow from the same rule with the window centred on each position.",
  ["inputs", "histories", "configurations"], "all push histories, window sizes and percentiles",
  "Tests use short fixed sequences; duplicates, removals of equal values and long histories interact in ways no sample set covers.",
  ["maths/MedianFilter.h"], [("MedianFilter::push/get/put/drop", "maths/MedianFilter.h")], ["MedianFilter::get"])

P("C12", "Integer helpers return the exact power-of-two, gcd and factorial",
  "For every int argument up to 2^30, the power-of-two predicates and roundings return the mathematically correct value: next is the smallest power of two not below, previous the largest not above, nearest the closest with ties going up. The greatest common divisor of two natural numbers divides both arguments and is the greatest such number, and factorial is the exact product as long as a double can hold it.",
  INP, "all int arguments for which the answer is representable",
  "Tests try about ten values per function out of 2^31.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h"], [("nextPowerOfTwo etc., gcd, factorial", "maths/MathUtilities.cpp")], ["return values"])

P("C13", "Basic statistics: sum, mean, median, extrema and shifts are exact",
  "For every array the sum, mean, median, minimum, maximum and index of the (first) maximum returned are those of the data, the median being the middle value or the midpoint of the two middle values, and the input array is left unchanged. Circular shift rotates the array by the given non-negative amount without losing or altering a value. Only the given range of the array is read or written.",
  INP, "all arrays and lengths, including length zero and one where defined",
  "Tests use a few fixed arrays; order-dependent mistakes (ties, extrema in first or last place, negative data) need particular orders.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h"], [("mean, median, getFrameMinMax, getMax, circShift", "maths/MathUtilities.cpp")], ["return values"])

P("C14", "Normalisations scale data to the stated norm and nothing else",
  "Unit-sum and unit-max normalisation divide every element by the (signed) sum or the largest absolute value, so that values sum to one or absolute values peak at one, leaving data whose sum or maximum is zero untouched; Lp normalisation divides by the p-norm, or returns the equal-component unit vector when the norm is below the threshold, and p=0 returns the data unchanged. Lp and alpha norms equal their defining formulae. Results are always finite.",
  INP, "all arrays, lengths, norm orders and thresholds",
  "Tests check one or two vectors per mode.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h"], [("normalise, normaliseLp, getLpNorm, getAlphaNorm", "maths/MathUtilities.cpp")], ["normalised data"])

P("C15", "Rounding, modulus and principal argument are correct for every double",
  "Rounding returns the nearest integer, half away from zero, up to the rounding of one addition. The floating modulus of x by positive y lies in [0,y] and differs from x by a whole multiple of y, and the principal argument lies within [-pi, pi] and differs from the angle by a whole multiple of two pi, up to rounding.",
  INP, "all finite doubles of moderate magnitude",
  "Tests check a few values; boundaries at multiples of pi and half-integers are dense in the input space.",
  ["maths/MathUtilities.cpp", "base/Restrict.h"], [("round, mod, princarg", "maths/MathUtilities.cpp")], ["return values"])

P("C16", "Adaptive threshold and moving-mean conditioning are exact and bounded",
  "Adaptive thresholding replaces each value by the amount by which it exceeds the mean over its clipped neighbourhood and by zero when it does not, so the output is non-negative, never exceeds the non-negative input, and depends only on values inside the neighbourhood. The vector length is preserved.",
  INP, "all vectors of any length",
  "Existing tests contain no case for this at varied lengths; edge-clipping depends on length.",
  ["maths/MathUtilities.cpp"], [("MathUtilities::adaptiveThreshold", "maths/MathUtilities.cpp")], ["thresholded data"])

P("C17", "Unbiased autocorrelation equals its definition for every lag",
  "For every signal and length n, lag i of the autocorrelation is the sum of x[j]*x[j+i] divided by n-i (floored at a tiny positive number), with exactly n lags written and the source left unchanged. Scaling the signal scales the result by the square.",
  INP, "all signals and lengths", "No test covers this class.",
  ["maths/Correlation.cpp", "maths/Correlation.h"], [("Correlation::doAutoUnBiased", "maths/Correlation.cpp")], ["destination buffer"])

P("C18", "Distance measures are symmetric where promised, zero on self, and finite",
  "The cosine distance of any two equal-length vectors is symmetric, does not depend on positive scaling, lies in [0,2] up to rounding and is zero for parallel vectors; mismatched or zero vectors give the documented default rather than a non-finite value. The Gaussian divergence is symmetric and zero for equal arguments, and the symmetrised distribution divergence is symmetric, non-negative and zero for equal distributions.",
  INP, "all vectors of equal length with valid variances or non-negative masses", "No test covers these classes.",
  ["maths/CosineDistance.cpp", "maths/KLDivergence.cpp"], [("CosineDistance::distance", "maths/CosineDistance.cpp"), ("KLDivergence::distanceGaussian/distanceDistribution", "maths/KLDivergence.cpp")], ["return values"])

P("C19", "Polynomial fit returns the least-squares solution",
  "For sample points with enough distinct abscissae, the coefficients returned minimise the squared error: the residual is orthogonal to every power of x up to the order, and data lying exactly on such a polynomial is reproduced. Returned value and coefficients are finite.",
  INP, "all ordinates, abscissae and orders in range", "No test covers this class.",
  ["maths/Polyfit.h"], [("TPolyFit::PolyFit2/Square/GaussJordan", "maths/Polyfit.h")], ["coefficients"])

P("C20", "PCA projects data onto the leading orthonormal directions",
  "The covariance (scatter) matrix computed is symmetric and equals the sums of products of the column-centred data, the tridiagonal reduction is an orthogonal similarity, the eigensolver returns orthonormal eigenvectors with their eigenvalues, and the projection replaces each row by its coordinates along the leading eigenvectors, largest variance first. Only the stated numbers of rows and columns are touched.",
  INP, "all data matrices of full generality for small dimensions", "No test covers PCA.",
  ["maths/pca/pca.c", "maths/pca/pca.h"], [("covcol, tred2, tqli, pca_project", "maths/pca/pca.c")], ["matrices written"])

P("C21", "HMM decoding returns a most likely state path",
  "For every model with valid probabilities and every observation sequence, the decoded state sequence has the highest joint likelihood among all state sequences, every decoded state is a valid state number, and the model and observations are left unchanged.",
  INP, "all small models and observation sequences", "No test covers the HMM.",
  ["hmm/hmm.c", "hmm/hmm.h"], [("viterbi_decode", "hmm/hmm.c")], ["decoded path q"])

P("C22", "HMM training keeps probabilities stochastic and posteriors exact",
  "The forward-backward pass returns the exact posterior state and transition probabilities of the model with their log-likelihood: each set sums to one and is consistent with the other. Re-estimation yields initial and transition probabilities that are non-negative and sum to one for every state the posteriors reach, means that are the posterior-weighted averages and a pooled covariance that is the posterior-weighted scatter about the previous means; a newly initialised model is valid.",
  INP, "all small models, observation likelihoods and sequences", "No test covers the HMM.",
  ["hmm/hmm.c"], [("forward_backwards, baum_welch, hmm_init", "hmm/hmm.c")], ["gamma, xi, loglik, model"])

P("C23", "Linear-algebra kernels: matrix product, dot product and inversion are exact",
  "Matrix multiply computes alpha*op(A)*op(B)+beta*C for every transposition and leading dimension, touching only the m by n part of C, and the dot product is the strided sum of products. Factorising and inverting a nonsingular matrix yields its inverse, with row exchanges chosen by largest pivot and a singular matrix reported.",
  CFG, "all small matrices, strides and transposition flags", "No test covers the bundled BLAS/LAPACK.",
  ["ext/cblas/src/dgemm.c", "ext/cblas/src/ddot.c", "ext/clapack/src/dgetrf.c", "ext/clapack/src/dgetri.c", "hmm/hmm.c"],
  [("dgemm_/cblas_dgemm, ddot_, dgetrf_, dgetri_, invert", "ext/")], ["result matrices"])

P("C24", "Beat positions are in range, strictly increasing and match the best path",
  "For every detection function and every positive beat-period track, the beats returned are strictly increasing frame numbers inside the detection function, and no element outside the given vectors is read. The beat sequence is the backtrace of a dynamic programme that maximises the stated objective: consecutive beats are separated by between half and twice the local beat period, and the last beat is the best-scoring one within the final beat period.",
  INP, "all detection functions and beat-period tracks, parameters alpha and tightness", "No test covers beat tracking.",
  ["dsp/tempotracking/TempoTrackV2.cpp"], [("TempoTrackV2::calculateBeats", "dsp/tempotracking/TempoTrackV2.cpp")], ["beats vector"])

P("C25", "Beat-period estimation yields positive periods and tempi, memory-safely",
  "For every non-negative detection function of any length and any tempo hint from 30 to 500 bpm, beat-period estimation only touches its own vectors, leaves the detection function unchanged, gives every frame a whole beat period within the tracker's period range, constant over each analysis step, and reports one tempo per frame equal to the rate-converted beat period. The sequence of periods is a best path through the weighted comb-filter outputs. Input too short for two analysis windows is left alone with no tempo reported.",
  INP, "all detection functions, lengths, tempo hints", "No test covers tempo estimation.",
  ["dsp/tempotracking/TempoTrackV2.cpp"], [("calculateBeatPeriod, get_rcf, viterbi_decode", "dsp/tempotracking/TempoTrackV2.cpp")], ["beatPeriod, tempi"])

P("C26", "Down-beat finder buffers audio faithfully and returns valid bar positions",
  "Pushing audio blocks of any number appends the decimated audio in order without loss up to the buffered length, and reset empties it. The down-beats returned are indices into the beat list spaced by the beats per bar, with one spectral-difference value for every beat lying between two beat regions; without audio or without beats the result is empty.",
  ["inputs", "histories", "configurations"], "all audio, beat lists and push histories", "No test covers this class.",
  ["dsp/tempotracking/DownBeat.cpp"], [("DownBeat::pushAudioBlock/findDownBeats/measureSpecDiff", "dsp/tempotracking/DownBeat.cpp")], ["getBufferedAudio, downbeats"])

P("C27", "Key detector answers a valid key from the chroma history only",
  "For every history of audio frames, silent ones included, the key returned is a number from 1 to 24 (C major, ..., B major, C minor, ..., B minor) and the key strengths are one finite value per key: the largest correlation of the mean of the recent chroma vectors with the profile of that key. The answer is the median of the best keys of the recent frames, so it is unaffected by scaling the audio and depends on no more than the configured spans of time, and frame and hop sizes reported are consistent with the configuration.",
  ["inputs", "histories"], "all audio frames and histories", "Tests run one synthetic tone sequence.",
  ["dsp/keydetection/GetKeyMode.cpp"], [("GetKeyMode::process/krumCorr", "dsp/keydetection/GetKeyMode.cpp")], ["key number, key strengths"])

P("C28", "Constant-Q and chromagram are linear-spectral, folded and normalised",
  "The constant-Q transform is a linear map of the spectrum with exactly the configured number of bins, touching only its buffers, and the two ways of calling it agree. The chromagram folds constant-Q magnitudes of the same pitch class across octaves: each chroma value is non-negative and scales with the input, and unit-sum or unit-max normalisation gives values that sum to one or peak at one, silence giving zeros.",
  CFG, "all spectra or audio frames, small configurations", "Tests look at one sinusoid sweep's maximum bin.",
  ["dsp/chromagram/ConstantQ.cpp", "dsp/chromagram/Chromagram.cpp"], [("ConstantQ::process", "dsp/chromagram/ConstantQ.cpp"), ("Chromagram::process/kabs/unityNormalise", "dsp/chromagram/Chromagram.cpp")], ["CQ and chroma vectors"])

P("C29", "MFCC computes the mel cepstrum of each frame independently",
  "For every frame the coefficients equal the cosine transform of the log mel-band magnitudes, the time-domain and spectral entry points agreeing, with the number of coefficients configured and c0 included only on request. Results are finite for every input including silence, depend on the current frame only, and scaling the input changes only c0 (when every mel band has energy, a band without energy counting as zero).",
  CFG, "all frames and small configurations", "No test covers MFCC.",
  ["dsp/mfcc/MFCC.cpp"], [("MFCC::process", "dsp/mfcc/MFCC.cpp")], ["cepstral coefficients"])

P("C30", "Onset detection functions are non-negative and follow their definitions",
  "For every detection-function type and every frame sequence the value returned is finite and non-negative and equals the documented formula over the current and previous one or two spectra (high-frequency content, spectral difference, broadband count, phase and complex-domain deviation). A silent history starts from zero state, the spectral magnitudes exposed are those of the frame just processed, and time-domain and frequency-domain entry points agree.",
  ["inputs", "histories", "configurations"], "all frames and frame sequences, all types, small frame sizes", "No test covers detection functions.",
  ["dsp/onsets/DetectionFunction.cpp"], [("DetectionFunction::processTimeDomain/processFrequencyDomain/runDF", "dsp/onsets/DetectionFunction.cpp")], ["return value, getSpectrumMagnitude"])

P("C31", "Peak picking reports sorted, in-range local maxima",
  "For every detection function the onsets returned are strictly increasing indices of frames that are local maxima of the smoothed function above the threshold, and all lie within the input. Empty input gives no onsets and no element outside the buffers is touched.",
  INP, "all detection functions and thresholds", "No test covers peak picking.",
  ["dsp/onsets/PeakPicking.cpp"], [("PeakPicking::process/quadEval", "dsp/onsets/PeakPicking.cpp")], ["onset list"])

P("C32", "Detection-function conditioning keeps length, bounds and purity",
  "For every input of the configured length, conditioning writes exactly that many values and reads no others, the result depends only on the current input, and with the positive-median option it is never negative. Conditioning equals normalisation, zero-phase low-pass filtering and subtraction of a moving median over the configured neighbourhood clipped at the ends.",
  ["inputs", "histories", "configurations"], "all inputs, lengths and median windows", "No test covers this class.",
  ["dsp/signalconditioning/DFProcess.cpp"], [("DFProcess::process/medianFilter/removeDCNormalize", "dsp/signalconditioning/DFProcess.cpp")], ["destination buffer"])

P("C33", "Framer tiles the signal exactly with zero padding",
  "Successive frames reproduce the source signal at multiples of the hop size, each frame full length with zeros where the source has ended, and the number of frames announced covers the whole source. Resetting the counters restarts from the beginning, and no call reads outside the source or writes outside the frame however often it is made.",
  ["inputs", "histories", "configurations"], "all sources, lengths, frame and hop sizes, call counts", "No test covers the framer.",
  ["dsp/signalconditioning/Framer.cpp"], [("Framer::getFrame/setSource", "dsp/signalconditioning/Framer.cpp")], ["frame buffer"])

P("C34", "Wavelet filter pairs give perfect-reconstruction analysis",
  "For every wavelet type both decomposition filters have the same even length; orthogonal families are orthonormal to their even shifts with the high-pass being the alternating flip of the low-pass, so analysing any signal and synthesising with the transposed filters reproduces it. In every family, biorthogonal ones included, the analysis pair has perfect reconstruction with its alias-cancelling synthesis pair, up to the precision to which the tables are printed. Low-pass filters sum to root two and high-pass filters to zero, and every type has a distinct, non-empty name.",
  CFG, "all wavelet types, all signals", "No test covers the wavelet tables.",
  ["dsp/wavelet/Wavelet.cpp"], [("Wavelet::createDecompositionFilters", "dsp/wavelet/Wavelet.cpp")], ["lpd, hpd"])

P("C35", "Phase vocoder magnitudes and unwrapped phases follow the spectrum",
  "For every frame the magnitudes are those of the windowed frame's spectrum and the phase its argument, over the first half plus one bins; time-domain and frequency-domain entry points agree. The unwrapped phase differs from the raw phase by a whole multiple of two pi and from the previous unwrapped phase plus the expected hop advance by at most pi. Reset returns to the state after construction.",
  ["inputs", "histories"], "all frames and frame sequences, small sizes", "Tests check one sinusoid and an impulse.",
  ["dsp/phasevocoder/PhaseVocoder.cpp"], [("PhaseVocoder::processTimeDomain/unwrapPhases", "dsp/phasevocoder/PhaseVocoder.cpp")], ["mag, phase, unwrapped"])

P("C36", "Segmentation partitions the timeline into valid segment types",
  "State histograms over a sliding window count every state exactly and replicate the first and last full window at the ends. Clustering assigns every frame one of the requested clusters, and the segmentation derived from any assignment is contiguous, starts at zero, ends at the frame count times the hop and never has two adjacent segments of one type; chroma folding adds the octaves of each pitch class.",
  INP, "all state sequences, histograms and assignments within small bounds", "No test covers segmentation.",
  ["dsp/segmentation/cluster_segmenter.c", "dsp/segmentation/cluster_melt.c", "dsp/segmentation/ClusterMeltSegmenter.cpp"],
  [("create_histograms, cq2chroma, mpeg7_constq", "dsp/segmentation/cluster_segmenter.c"), ("cluster_melt", "dsp/segmentation/cluster_melt.c"), ("makeSegmentation", "dsp/segmentation/ClusterMeltSegmenter.cpp")], ["histograms, assignments, segments"])

P("C37", "Tonal centroid and harmonic change functions follow their definitions",
  "The tonal centroid is the fixed linear map of the chroma vector onto three circles, so it is additive, and L1 normalisation of a chroma vector makes it sum to one or all zero. The tonal gram returns exactly the vectors added, in order, with their frame times, and zeros outside its range. The change function gives one non-negative value per frame equal to the distance between the Gaussian-smoothed neighbours, and is zero in the interior of a constant sequence.",
  HIS, "all chroma vectors and sequences, smoothing widths", "No test covers the tonal classes.",
  ["dsp/tonal/TonalEstimator.cpp", "dsp/tonal/TCSgram.cpp", "dsp/tonal/ChangeDetectionFunction.cpp"],
  [("transform2TCS", "dsp/tonal/TonalEstimator.cpp"), ("ChangeDetectionFunction::process", "dsp/tonal/ChangeDetectionFunction.cpp")], ["TCS vectors, change distances"])

P("C38", "Beat spectrum averages frame similarity per lag",
  "For every feature matrix the beat spectrum has one value for each lag of half the frames, obtained by summing cosine distances of all frame pairs that far apart and normalising by its maximum; it is finite and at most one, and depends only on the features given.",
  INP, "all feature matrices of small size", "No test covers this class.",
  ["dsp/rhythm/BeatSpectrum.cpp"], [("BeatSpectrum::process", "dsp/rhythm/BeatSpectrum.cpp")], ["returned vector"])

P("C39", "Pitch and frequency conversion are mutual inverses on the MIDI range",
  "For every MIDI pitch, detune and concert pitch, converting to frequency and back returns the same pitch with the same detune (detune normalised to within half a semitone), frequencies double every twelve pitches and the concert pitch sits at A. Frequency is strictly increasing in pitch.",
  INP, "all MIDI pitches, detunes and concert pitches in range", "No test covers pitch conversion.",
  ["base/Pitch.cpp"], [("Pitch::getFrequencyForPitch/getPitchForFrequency", "base/Pitch.cpp")], ["return values"])

P("C40", "Block allocator never hands out overlapping or escaping storage",
  "Whatever the history of allocations and deallocations, every live object from the pool has its own aligned storage that overlaps no other live object and lies in memory the pool owns, and freed storage is reused. Contents of live objects are never disturbed by other allocations.",
  HIS, "all allocate/free histories", "No test covers the allocator; overlap appears only after particular histories and counts.",
  ["thread/BlockAllocator.h"], [("BlockAllocator", "thread/BlockAllocator.h")], ["addresses handed out"])

P("C41", "An asynchronous task is complete when await returns, for every schedule",
  "Under every thread interleaving, including spurious wake-ups, awaiting a started task returns only after that task's body has run to completion exactly once per start, starting again runs it again, and destroying the task after the last await terminates its thread without deadlock. Condition waits time out no earlier than asked unless signalled, and a signal sent while the lock is held by a waiter-to-be is never lost.",
  ["schedules", "histories"], "all interleavings of the controlling thread and the worker, all spurious wake-ups",
  "No test starts a thread; races need particular interleavings.",
  ["thread/AsynchronousTask.h", "thread/Thread.cpp"], [("AsynchronousTask::startTask/awaitTask/run", "thread/AsynchronousTask.h"), ("Condition::wait/signal", "thread/Thread.cpp")], ["task completion"])

P("C42", "Tempo tracker returns ordered beats without leaving its buffers",
  "For every non-negative detection function of any length, silent stretches and periods at the end of the lag range included, the original tempo tracker touches only its own buffers, releases what it allocates, terminates, and returns strictly increasing beats inside the analysis frames, at least one in each and equally spaced within a frame, with one tempo estimate per analysis frame (none yet, or 30 to 180). A steady pulse train of medium tempo gets its beats on the pulses. Results depend only on the detection function given, not on earlier calls.",
  HIS, "all detection functions and lengths", "No test covers this class.",
  ["dsp/tempotracking/TempoTrack.cpp"], [("TempoTrack::process and helpers", "dsp/tempotracking/TempoTrack.cpp")], ["beats, tempi"])
