R = 'Solver-decided over the reals; IEEE rounding is outside. Counterexamples are replayed on the unmodified code. '
DS = 'src/pydsm/delsig/'
prop('T01', 'Evaluating a transfer function gives the value of its rational function',
     '''Evaluating a transfer function at complex points yields numerator over denominator at each point, whether it is
     given as zeros, poles and gain or as coefficients, for scalars and arrays alike; a polynomial given by its
     roots evaluates to k times the product of (x - root), with roots at infinity left out.''',
     'inputs', 'every set of coefficients or of roots (repeated, complex or infinite) and every evaluation point',
     'Tests meet transfer functions only through a few fixed modulators.',
     [DS + '_tf.py'], [('evaluation of transfer functions', DS + '_tf.py: evalTF, evalRPoly')],
     R + 'Up to 4 zeros and poles or 5 coefficients, symbolic in [-2,2]; real or complex points in [-2,2].')
prop('T02', 'Impulse responses match the transfer function, for a length set by its poles',
     '''The impulse response has the requested number of samples, and they are the expansion of the transfer function in powers
     of z^-1, for both forms of specification. The guessed length is the number of zeros plus one plus the least
     number of steps in which every pole decays by the given attenuation, and is what is used when no length is given.''',
     'inputs', 'every stable transfer function and every attenuation',
     'The tests check one filter; lengths are compared for a few values only.',
     ['src/pydsm/ir.py'], [('impulse response and length guess', 'src/pydsm/ir.py: impulse_response, guess_ir_length')],
     R + 'Up to 4 zeros and poles (conjugate pairs), 5 coefficients, 8 samples; poles in [-1,1] or of modulus in [.05,.99], attenuation in [1,200] dB.')
prop('T03', 'Decibel conversions follow their definitions and invert one another',
     '''dbv, dbp, dbm and db return 20log10|x|, 10log10|x|, the power of |x| over the resistor in dB above 1 mW, and so on, as documented;
     null values give minus infinity without affecting other entries; undbv, undbp and undbm
     are the inverses; scalars, lists and arrays of any shape are accepted and the shape is kept.''',
     'inputs', 'every real or complex ratio, every decibel value and every resistor',
     'Doctests cover no more than a value or two.',
     [DS + '_decibel.py', 'src/pydsm/relab.py'], [('decibel conversions', DS + '_decibel.py'), ('db', 'src/pydsm/relab.py: db')],
     R + 'Up to 4 values of modulus in [.001,1000], decibels in [-60,60], resistor in [.1,100].')
prop('T04', 'Discrete time Fourier transforms and their inverses',
     '''dtft(x, fs, t0)(f) is the sum of x[n] exp(-2j pi f/fs (n-t0)) at any frequency; dtft_hermitian is the (real) transform of
     the two-sided hermitian sequence; idtft and idtft_hermitian return the integral over one period that defines the inverse, so that
     they take back the samples at integer times, for any sample frequency.''',
     'inputs', 'every sequence (real or complex), frequency, time and time origin',
     'Tests transform one random real sequence and come back.',
     ['src/pydsm/ft.py'], [('transforms', 'src/pydsm/ft.py: dtft, dtft_hermitian, idtft, idtft_hermitian')],
     R + 'Up to 6 samples symbolic in [-4,4], symbolic frequency in [-3,3] for the direct transform; the integrator is modelled by high order Gauss quadrature.')
prop('T05', 'The centered FFT pairs each DFT sample with its frequency',
     '''fft_centered(x, fs) returns one frequency and one value for each sample: frequencies step by fs/N with the null one at position N//2,
     and the value at each frequency is the DFT of x there, for even and odd lengths.''',
     'inputs', 'every sequence of any length, every sample frequency',
     'No test runs this function.',
     ['src/pydsm/ft.py'], [('centered FFT', 'src/pydsm/ft.py: fft_centered')],
     R + 'Lengths 1-8 (17 when thorough), samples in [-4,4], sample frequency in [.5,1000].')
prop('T06', 'Raw correlations equal their defining sums at every lag',
     '''raw_acorr(x, N) and raw_xcorr(x, y, N) return, for each lag k from 0 to N, the sum of x(n) y(n-k) over the n where both are defined
     (with y = x in the autocorrelation), for vectors of different lengths too.''',
     'inputs', 'every pair of vectors, of equal or different lengths, every lag',
     'No test runs these functions.',
     ['src/pydsm/correlations.py'], [('raw correlations', 'src/pydsm/correlations.py')],
     R + 'Lengths 1-5 (8 when thorough), samples in [-4,4], all lags up to the length.')
prop('T07', 'RMS value and RMS gain are root mean squares',
     '''rms(x) is the square root of the mean of |x|^2, after removal of the mean value when asked for. rmsGain(H, f1, f2, N) is the root
     mean square of |H| over N points linearly spread from f1 to f2 included, for both transfer function forms.''',
     'inputs', 'every vector; every transfer function, band and number of points',
     'One doctest on a sine; rmsGain only enters through fixed designs.',
     [DS + '_rms.py', DS + '_rmsGain.py'], [('rms', DS + '_rms.py'), ('rmsGain', DS + '_rmsGain.py')],
     R + 'Vectors of 1-8 entries in [-4,4]; numerators of order 1-3 with parameters in [-2,2], 1-100 points.')
prop('T08', 'partitionABCD splits a state matrix into its four blocks',
     '''Given the number of inputs m, partitionABCD returns the blocks A (n by n), B (n by m), C and D of the matrix, as views on it;
     without m, it takes the least number of inputs (at least one) compatible with at least one output.''',
     'inputs', 'every matrix and every number of inputs and outputs',
     'Only single-input single-output matrices enter the tests.',
     [DS + '_partitionABCD.py'], [('partition', DS + '_partitionABCD.py')],
     'Up to 3 (5 when thorough) states, inputs and outputs; entries symbolic.')
prop('T09', 'Padding extends on the requested side only',
     '''padl, padr, padt and padb return the vector or matrix extended to the requested length on the left, right, top or bottom with the
     fill value (null by default), leaving the original entries in place and order.''',
     'inputs', 'every vector or matrix, every target length and fill value',
     'Tests pad a vector and a matrix of fixed values.',
     [DS + '_padding.py'], [('padding', DS + '_padding.py')],
     'Vectors and matrices up to 3x3, up to 3 more rows or columns; entries and fill value symbolic in [-4,4].')
prop('T10', 'Axis labels print the stepped points',
     '''axisLabels returns, for the indexes start, start+step, ... of the flattened points, the text of each value in %g format, values below
     1e-6 in modulus being shown as 0; the points are not altered and increments that are not integers raise TypeError.''',
     'inputs', 'every vector of points, every start and step',
     'No test runs this function.',
     [DS + '_axisLabels.py'], [('axis labels', DS + '_axisLabels.py')],
     'Up to 6 points symbolic in [-4,4] and [-2e-6,2e-6]; steps 1-3, starts 0-4. The digits that %g prints are outside.')
