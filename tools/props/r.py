R = 'Solver-decided over the reals; IEEE rounding is outside. Counterexamples are replayed on the unmodified code. '
prop('R01', 'cplxpair returns every conjugate pair together, sorted, and rejects the rest',
     '''cplxpair returns a permutation of its input (with paired values made exact conjugates) where each complex number sits next to its conjugate, negative
     imaginary part first, pairs are ordered by real part, and real numbers come after all pairs in increasing order;
     it raises ValueError exactly when the complex numbers cannot be paired within the tolerance.''',
     'inputs', 'every list of complex numbers, in any order, with repeated values and with equal real parts',
     'Tests cannot cover the orders and coincidences of real and imaginary parts.',
     ['src/pydsm/relab.py'], [('pairing', 'src/pydsm/relab.py: cplxpair')],
     R + 'Up to 5 values in any order (6 when thorough), real and imaginary parts symbolic in [-2,2].')
prop('R02', 'shiftdim rotates or drops dimensions and keeps every entry',
     '''shiftdim(x, n) moves the first n dimensions to the end for n positive, adds -n leading singleton dimensions for n negative, and without n
     drops all leading singleton dimensions; entries are kept at the permuted indexes, and the number of shifts is returned when asked for.''',
     'inputs', 'every array and every shift',
     'The tests check shapes of a few arrays.',
     ['src/pydsm/relab.py'], [('shift of dimensions', 'src/pydsm/relab.py: shiftdim')],
     R + 'Arrays of up to 4 dimensions and 24 entries, shifts from -3 to 6.')
prop('R03', 'Numeric helpers: floating point spacing, chopping of small values, products',
     '''eps(x) is the distance from |x| to the next floating point number in the precision of x, elementwise; is_negligible and chop
     detect and zero values (real and imaginary parts, for chop) below the tolerance and no others, without altering the input; mdot is the matrix product of its arguments.''',
     'inputs', 'every scalar, list or array, every tolerance',
     'Tests check a handful of values.',
     ['src/pydsm/relab.py', 'src/pydsm/utilities.py'], [('eps', 'src/pydsm/relab.py: eps'), ('chop, is_negligible, mdot', 'src/pydsm/utilities.py')],
     R + 'Moduli in [1/16,16) for eps; up to 3 values in [-1,1] and tolerances in [.001,1]; products of up to 4 matrices up to 3 by 3.')
