SIM = ['src/pydsm/delsig/_simulateDSM.py', 'src/pydsm/delsig/_simulateDSM_scipy.py',
       'src/pydsm/delsig/_simulateDSM_scipy_blas.pyx', 'src/pydsm/delsig/_simulateDSM_cblas.pyx',
       'src/pydsm/delsig/_simulateDSM_helper.pxi']
FRONT = ('simulateDSM front end', 'src/pydsm/delsig/_simulateDSM.py: simulateDSM')
PY = ('pure Python simulation loop', 'src/pydsm/delsig/_simulateDSM_scipy.py: simulateDSM')
CY = ('compiled simulation loop over BLAS', 'src/pydsm/delsig/_simulateDSM_scipy_blas.pyx and _simulateDSM_cblas.pyx: simulateDSM')
QP = ('Python quantizer', 'src/pydsm/delsig/_simulateDSM_scipy.py: ds_quantize')
QC = ('compiled quantizer and state-maximum tracker', 'src/pydsm/delsig/_simulateDSM_helper.pxi')
REAL = ('Solver-decided over the reals (IEEE rounding is outside; counterexamples and validation runs '
        'execute the real code, compiled back ends built afresh from the current sources). ')

prop('D01', 'Quantizers output the nearest legal level, ties upwards, saturating',
     '''Every sample produced by a quantizer with n levels is one of the n levels -(n-1), -(n-3), ..., n-1.
     It is the level nearest to the quantizer input, the higher one in a tie, and the extreme level when the
     input is beyond it; each of several quantizers follows its own number of levels.''',
     'inputs configurations',
     'every real quantizer input and every number of levels, for one or several quantizers, in every simulator back end and in the stand-alone quantizer',
     'Tests run one or two modulators with default two-level quantization on one sine; ties, saturation, odd level counts and mixed quantizers are hardly met.',
     SIM, [QP, QC, FRONT],
     REAL + 'Inputs in [-1000,1000], level counts in [1,300] symbolic, up to 4 quantizers.')
prop('D02', 'The Python simulator follows the modulator state equations exactly',
     '''With the pure Python back end, simulating a modulator given as a state matrix yields at every sample
     exactly the output, the quantizer input and the state obtained by iterating its state equations from the given initial
     state, for any number of inputs, quantizers and states.
     State histories, state maxima (initial state included) and quantizer inputs are returned when asked for,
     and null (or the last state only) otherwise.''',
     'inputs configurations histories',
     'every state matrix, input sequence and initial state (array, column or the 0 shorthand), every combination of stored outputs',
     'Tests compare one fifth-order single-input modulator against recorded samples; the other dimensions, initial states and stored quantities have no test.',
     SIM[:2], [PY, QP],
     REAL + 'Orders 0-4, up to 3 inputs/quantizers, 1-4 samples, all matrix entries, samples and states symbolic in [-2,2].')
prop('D03', 'The compiled simulators follow the same equations and stay in bounds',
     '''Both compiled back ends return, for the same request, what iterating the modulator state equations
     gives: outputs, quantizer inputs, states and state maxima, in the same shapes as the Python back end.
     They never read or write outside the arrays involved nor use uninitialised values.''',
     'inputs configurations histories',
     'every state matrix, input sequence and initial state, every combination of stored outputs, for any number of inputs, quantizers and states',
     'Tests run one single-input modulator; stride and leading-dimension mistakes show only with several inputs or quantizers, and memory errors may go unnoticed.',
     SIM, [CY, QC],
     REAL + 'The Cython source is translated on each run with a bounds-checked pointer model and reference BLAS semantics; orders 0-4, up to 3 inputs/quantizers, 1-4 samples.')
prop('D04', 'Simulating an NTF gives input plus shaped quantization error',
     '''When the modulator is given by its noise transfer function, each output sample equals the input sample plus the
     quantization error filtered by that transfer function (unit signal transfer), starting from rest, where the error is the
     difference between quantizer output and quantizer input.
     This holds whatever state-space realization is used internally.''',
     'inputs configurations',
     'every transfer function with as many zeros as poles and unit gain at infinity, every input sequence, every back end',
     'Tests look at one synthesized transfer function and the recorded output of one sine.',
     SIM, [('realization of the NTF', 'src/pydsm/delsig/_simulateDSM_scipy.py and *.pyx: simulateDSM, zpk branch')],
     REAL + 'Orders 1-2 with symbolic zeros and poles (orthonormal-basis routine modelled by its contract, both orientations), orders 2-5 with fixed transfer functions and symbolic input; 3-6 samples.')
prop('D05', 'Simulations can be split and resumed, and leave their arguments alone',
     '''Simulating a sequence in two parts, restarting the second from the state returned by the first, gives the same
     outputs, states and state maxima as simulating it at once.
     Simulation never alters its arguments, and its results do not depend on the memory layout or container type of the arguments.''',
     'inputs histories configurations',
     'every modulator, input sequence, initial state and splitting point, every back end and memory layout',
     'Tests never resume a simulation, never check the arguments afterwards and only use contiguous arrays.',
     SIM, [PY, CY],
     REAL + 'Orders 1-3, up to 3 quantizers and 2 inputs, 2-5 samples; row-major, column-major, strided and list arguments.')
prop('D06', 'Inconsistent simulation requests are rejected, consistent ones are served',
     '''A simulation request whose state matrix, transfer function, inputs, quantizers or initial state do not agree in
     size is refused with a ValueError in every back end, never run on the wrong data; every consistent request is served.
     Unknown back ends raise RuntimeError and unknown options TypeError.''',
     'inputs configurations',
     'every combination of matrix rows and columns, zeros and poles, number of inputs and quantizers, and length of the initial state',
     'There is no test with malformed arguments at all.',
     SIM, [('argument validation', 'simulateDSM in each back end'), FRONT],
     'Dimensions are symbolic integers (matrix up to 4x6, 5x7 in the thorough tier), split by the solver; entries are fixed numbers.')
