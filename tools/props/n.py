prop('N01', 'Optimised zeros minimise in-band noise; band edges',
     '''ds_optzeros(n, opt) returns n zeros in [-1, 1], symmetric and paired, all at 0 for opt=0, and otherwise such that no other position of any pair
     gives less in-band noise power (integral of the squared product of distances over the band), with one zero at 0 for odd orders and at least one for
     opt=2; orders above 14 raise ValueError. ds_f1f2 returns a band of width 0.5/osr centered at f0, or starting from 0 when f0 is
     not above 0.25/osr; for quadrature modulators a band of width 1/osr centered at f0.''',
     'inputs', 'orders 1-14 with any alternative position of a pair of zeros; every osr in [1, 1024] and f0 in [0, 0.5]',
     'The tables hold 60 numbers that tests of a few NTFs cannot verify; optimality is a statement on all alternatives.',
     ['src/pydsm/delsig/_ds.py'],
     [('tables of zeros', 'src/pydsm/delsig/_ds.py: ds_optzeros'), ('band', 'src/pydsm/delsig/_ds.py: ds_f1f2')],
     'Optimality is decided pair by pair (the noise is a convex function, so this is global optimality) by univariate queries with relative tolerance 1e-10.')
prop('N02', 'synthesizeNTF places zeros and poles as required',
     '''synthesizeNTF serves odd orders only for low pass designs and f0<=1/2 (ValueError otherwise; given zeros have to be as many as the order). Center
     frequencies under 1/(4 osr) give low pass designs, with a warning. The zeros are those of ds_optzeros scaled to the band around f0 (or those
     given, or those within the band that an optimizer finds for the in-band gain), in conjugate pairs. The poles are as many as the zeros, within
     the unit circle and of a maximally flat denominator; the search ends when the gain at the far end of the spectrum is H_inf. Gains of 2^order or
     more give null poles and a warning. The gain is one.''',
     'inputs', 'every oversampling ratio and gain limit in the range, every given zero and zero found by the optimizer, for given orders and centers',
     'The tests run a few designs and compare stored zeros and poles.',
     ['src/pydsm/delsig/_synthesizeNTF.py', 'src/pydsm/delsig/_synthesizeNTF0.py', 'src/pydsm/delsig/_synthesizeNTF1.py', 'src/pydsm/delsig/_ds.py'],
     [('entry', 'src/pydsm/delsig/_synthesizeNTF.py: synthesizeNTF'),
      ('without and with optimization of zeros', 'src/pydsm/delsig/_synthesizeNTF0.py, src/pydsm/delsig/_synthesizeNTF1.py'),
      ('objective of the optimization', 'src/pydsm/delsig/_ds.py: ds_synNTFobj1')],
     'Orders 1-6 (8 thorough); poles at given steps of the search (any step, thorough). Convergence of the search is outside.')
prop('N03', 'CLANS NTFs have poles in the circle required and solve the intended problem',
     '''clans minimises the gain of the NTF at the edge of the band with the sum of the magnitudes of the impulse response not above nq+1, over NTFs having
     the zeros of synthesizeNTF and poles that, for whatever parameters the optimizer may try or return, are real or in conjugate pairs and within
     the circle of radius rmax. The parameters to start from are those of the poles of synthesizeNTF for gain nq+1, moved onto the circle if outside.
     Options reach the optimizer, and what is returned is the NTF for the parameters it finds.''',
     'inputs', 'every parameter vector, radius, gain and impulse response, for given orders',
     'The tests compare a single design.',
     ['src/pydsm/delsig/_clans.py', 'src/pydsm/delsig/_dsclansNTF.py'],
     [('parameters to NTF', 'src/pydsm/delsig/_dsclansNTF.py: dsclansNTF'), ('optimisation', 'src/pydsm/delsig/_clans.py: clans')],
     'Orders 1-3 (5 thorough). What the optimizer does is outside.')
prop('N04', 'Chebyshev NTFs have the intended band, order and gain',
     '''synthesizeChebyshevNTF returns a type 2 Chebyshev high pass filter with stop band 1/osr, or a band stop filter of half the order with edges
     f0-1/(4 osr) and f0+1/(4 osr) for band pass modulators (odd orders raise ValueError), normalised to unit gain at infinity. The attenuations tried stay in 0-300 dB
     and between those already found too small and too large; zeros and poles are those for the last one tried. If the gain is an affine
     function of the attenuation, the gain of the NTF is H_inf, or the attenuation is at the nearer end of the range.''',
     'inputs', 'every oversampling ratio, center, gain limit and any answers of the filter design function, for given orders',
     'The tests compare a single low pass design; band pass designs were not run, and failed.',
     ['src/pydsm/delsig/_synthesizeChebyshevNTF.py', 'src/pydsm/delsig/_ds.py'],
     [('design', 'src/pydsm/delsig/_synthesizeChebyshevNTF.py: synthesizeChebyshevNTF'), ('band', 'src/pydsm/delsig/_ds.py: ds_f1f2')],
     'Orders 1-6 (8 thorough), up to three different gains. cheby2 itself is outside; convergence is checked for affine gains only.')
prop('N05', 'Quantization noise gain is the weighted energy of the NTF',
     '''quantization_noise_gain(NTF, w, bounds) is twice the integral over the bounds of the squared NTF magnitude times w, where w is a function, nothing (1) or a
     filter in zpk or ba form (its squared magnitude); avg=True divides the integral by the bandwidth; over the whole band it is
     the energy of the impulse response of the cascade. The variants of filter_based (zpk, ba, imp, mag), the alias in weighting and the legacy
     one by convolution (with negligible truncation) give the same values, and refuse other filter types with ValueError.''',
     'inputs', 'every FIR NTF and filter of the stated orders, some IIR ones, and every cosine weighting',
     'The tests check a few filters with numeric tolerance.',
     ['src/pydsm/NTFdesign/merit_factors.py', 'src/pydsm/NTFdesign/filter_based.py', 'src/pydsm/NTFdesign/legacy/_quantization_noise_gain.py'],
     [('noise gain', 'src/pydsm/NTFdesign/merit_factors.py: quantization_noise_gain'), ('variants', 'src/pydsm/NTFdesign/filter_based.py')],
     'Coefficients (or zeros and gain) in [-2,2]; orders up to 3, poles fixed; the integrator is modelled by a 48 node Gauss rule.')
prop('N07', 'The quadratic form of a weighting is its inverse transform',
     '''q0_weighting(P, w) holds the P+1 first samples of the inverse discrete time Fourier transform of w, that is for a filter the autocorrelation of its
     impulse response, so that the Toeplitz form b'Qb is the noise gain of the FIR NTF with coefficients b. filter_based.q0_from_filter (zpk, ba, imp,
     mag) and legacy.q0_from_filter_ir agree with it, squaring magnitude responses; other filter types raise ValueError.''',
     'inputs', 'every filter and cosine weighting of the stated orders',
     'The tests compare the methods on two filters.',
     ['src/pydsm/NTFdesign/weighting/_fir_weighting.py', 'src/pydsm/NTFdesign/filter_based.py', 'src/pydsm/NTFdesign/legacy/_q0_from_ir.py', 'src/pydsm/ft.py'],
     [('quadratic form', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py: q0_weighting'), ('variants', 'src/pydsm/NTFdesign/filter_based.py: q0_from_filter')],
     'Coefficients in [-2,2]; P up to 3 (6 thorough), filters up to order 2, poles fixed; the integrator is modelled by a 48 node Gauss rule.')
prop('N06', 'A product of weightings is their pointwise product',
     '''mult_weightings(w1, w2, ...) returns a function whose value at any frequency is the product of the values of the factors, functions being used as they
     are and filters in ba or zpk form contributing the squared magnitude of their frequency response; on an array of frequencies it returns
     an array with the values at each of them, and the order of the factors does not matter.''',
     'inputs', 'every filter of the stated orders, polynomial weightings, every frequency in [0, 1/2]',
     'There is no test of products that mix functions and filters.',
     ['src/pydsm/NTFdesign/weighting/_fir_weighting.py', 'src/pydsm/delsig/_tf.py'],
     [('product', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py: mult_weightings')],
     'Up to 3 factors, filters up to order 2.')
prop('N08', 'FIR weighting designs pose the intended optimisation',
     '''ntf_fir_from_q0 and ntf_fir_weighting look for the monic FIR NTF with least weighted noise (the quadratic form of q0, or of the weighting, made
     positive by removing negative eigenvalues when fix_pos) among all those whose gain never exceeds H_inf, with nothing else
     restricting the coefficients; the zeros returned are the roots of the polynomial that the optimiser found, with null poles and unit gain. This is so for each
     modeler (cvxpy, cvxpy_old, picos), options reach the optimiser, and unknown modelers raise ValueError.''',
     'inputs', 'every gain limit, every value of coefficients and certificates, for given orders, forms and modellers',
     'The tests compare a few designs with stored zeros; a wrong entry of a matrix inequality shows only for some data.',
     ['src/pydsm/NTFdesign/weighting', 'src/pydsm/cvxpy_tdr'],
     [('design', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py: ntf_fir_from_q0'),
      ('back ends', 'src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py, _fir_weighting_cvxpy_tdr.py, _fir_weighting_picos.py')],
     'Orders 1-3 (5 thorough). What the optimisers do is outside: the problem handed to them is what is checked.')
prop('N09', 'Minmax designs pose the intended optimisation',
     '''ntf_fir_minmax looks for the monic FIR NTF whose greatest gain in the given bands (centres f0, half width 1/(2 osr) of the sample rate) is least, among
     those whose gain never exceeds H_inf (any, if infinite), with zeros at the centres of the bands if and only if zf; bands and oversampling
     ratios that do not correspond raise ValueError, as do unknown modelers. The zeros returned are the roots of the polynomial found, with null poles and
     unit gain. This is so for each modeler, options reach the optimiser, and synthesize_ntf_minmax is the same.''',
     'inputs', 'every gain limit, every value of coefficients, levels and certificates, for given orders, bands and modellers',
     'The tests run one low pass design and compare its zeros.',
     ['src/pydsm/NTFdesign/minmax', 'src/pydsm/cvxpy_tdr'],
     [('design', 'src/pydsm/NTFdesign/minmax/_fir_minmax.py: ntf_fir_minmax'),
      ('back ends', 'src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py, _fir_minmax_cvxpy_tdr.py, _fir_minmax_picos.py')],
     'Orders 1-3 (5 thorough), one or two bands (three thorough). What the optimisers do is outside.')
prop('N10', 'Hybrid weighting designs pose the intended optimisation',
     '''ntf_hybrid_weighting looks for the NTF having the given poles (and null ones, up to the order) with least weighted noise, among those whose gain never
     exceeds H_inf: the weight is divided by the squared magnitude of the denominator, and the gain limit concerns the whole NTF. It returns the roots
     of the numerator found, the poles padded with zeros and unit gain; more poles than the order raise ValueError. This is so for each modeler.''',
     'inputs', 'every gain limit, every real pole or conjugate pair, every value of coefficients and certificates, for given orders, forms and modellers',
     'The tests compare one design with stored zeros.',
     ['src/pydsm/NTFdesign/weighting', 'src/pydsm/cvxpy_tdr'],
     [('design', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py: ntf_hybrid_weighting')],
     'Orders 1-3 (4 thorough); for cvxpy_old more than one pole only at given values.')
prop('N11', 'Psychoacoustic designs use the right zeros and weightings',
     '''dunn_optzeros gives the zeros of the table of Dunn and Sandler over 22.05 kHz, as many as requested (1-8; ValueError beyond) and symmetric;
     dunn_optzeros_cplx puts them on the unit circle for the oversampling ratio; ntf_dunn is synthesizeNTF with those zeros. ntf_fir_audio_weighting
     designs for the weight given by the audio weighting (callable, or named a, b, c, d, f) at 2 osr audio_band f Hz within the audio band and null
     outside, though never less than -max_attn dB; gain limit, normalization and options are passed on. Deprecated aliases do the same and warn.''',
     'inputs', 'every oversampling ratio, frequency, band, attenuation and gain limit in the range, any weighting function',
     'The tests run one design per function and compare stored values.',
     ['src/pydsm/NTFdesign/psychoacoustic.py'],
     [('zeros', 'src/pydsm/NTFdesign/psychoacoustic.py: dunn_optzeros, dunn_optzeros_cplx, ntf_dunn'),
      ('weighting', 'src/pydsm/NTFdesign/psychoacoustic.py: ntf_fir_audio_weighting')],
     'The edge of the band itself is left out.')
prop('N12', 'Helpers for FIR zeros give maximally flat and optimally spread zeros',
     '''maxflat_fir_zeros gives order zeros within the unit circle, conjugate, of a maximally flat FIR response 1 + (1-cos w)^order .. of steepness alpha.
     spread_fir_uc_zeros minimises the cost function (with its arguments) over FIR transfer functions of unit gain and null poles, having conjugate zeros on the unit
     circle at angles in [0, pi/OSR] and one at z=1 for odd orders; the zeros returned are those that the optimizer finds, and options reach it.''',
     'inputs', 'every oversampling ratio, angle and cost, for given orders',
     'The tests compare a single set of zeros.',
     ['src/pydsm/NTFdesign/helpers.py'],
     [('flat', 'src/pydsm/NTFdesign/helpers.py: maxflat_fir_zeros'), ('spread', 'src/pydsm/NTFdesign/helpers.py: spread_fir_uc_zeros')],
     'Orders 1-6 (9 thorough); maxflat_fir_zeros any steepness for order 1, given ones for orders up to 5.')
