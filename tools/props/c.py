prop('C02', 'Atoms of the modelling language mean the functions they are named after',
     '''A constraint using a function of cvxpy_tdr (square, sqrt, abs, max, min, norms, nuclear norm, extreme eigenvalues, det_rootn, huber,
     quad_over_lin, quad_form, geo_mean, exp, log, log_sum_exp, powers, kl_div) is turned into a cone program whose feasible values of the user's
     variables are exactly those where the function meets the bound (within its domain); arguments out of the domain of the function are refused.
     Membership in a set of the language (cones, epigraphs) means the same of columns of variables and numbers.''',
     'inputs', 'all values of the arguments and of the bound, in both directions (nothing more is allowed, nothing less)',
     'The repository has no tests of cvxpy_tdr but for a handful of doctests.',
     ['src/pydsm/cvxpy_tdr/functions/', 'src/pydsm/cvxpy_tdr/sets/', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py',
      'src/pydsm/cvxpy_tdr/procedures/expand.py', 'src/pydsm/cvxpy_tdr/programs.py'],
     [('graph implementations', 'src/pydsm/cvxpy_tdr/functions/*.py'), ('cones', 'src/pydsm/cvxpy_tdr/sets/*.py'),
      ('cone program', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py: call_solver')],
     '''Arguments up to 2x2 (3x3 eigenvalues), entries in [-2,2]; cvxopt is a stand-in recording the cone program. Semidefiniteness of matrices
     larger than 3 is used through test vectors (soundness) and given through factorizations (completeness).''')

prop('C01', 'Convex programs handed to the solver are those the user wrote',
     '''Solving a program of cvxpy_tdr hands the solver a cone program whose feasible points, in the variables of the user, are exactly those
     meeting the constraints as written (equalities, inequalities between numbers and arrays, second order and semidefinite cones, functions of the
     language, programs used as functions), with the objective, direction, options and values of the parameters of the moment. The solution is written
     back in the variables and the reported value is the objective there (nan or infinite according to the status of the solver); programs out of
     the convex rules, or with undefined parameters, are refused before anything is solved.''',
     'inputs history', 'all values of data, parameters and unknowns; all solver outcomes; programs solved again, called, nested in others',
     'The repository has no tests of cvxpy_tdr but for a handful of doctests.',
     ['src/pydsm/cvxpy_tdr/programs.py', 'src/pydsm/cvxpy_tdr/constraints.py', 'src/pydsm/cvxpy_tdr/procedures/', 'src/pydsm/cvxpy_tdr/sets/'],
     [('programs', 'src/pydsm/cvxpy_tdr/programs.py'), ('expansion', 'src/pydsm/cvxpy_tdr/procedures/expand.py'),
      ('cone program', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py: call_solver')],
     '''Programs with up to 4 unknowns from a fixed family of shapes, symbolic data in [-2,2]; cvxopt is a stand-in recording the cone program.
     One known finding: membership in the semidefinite cone does not make unstructured matrices symmetric.''')

prop('C04', 'Expressions of the modelling language follow matrix algebra',
     '''The value of any expression of cvxpy_tdr built with +, -, *, transposition, slicing, stacking, sum, diag, trace and reshape from numbers,
     variables, parameters, dense and sparse matrices and arrays is what matrix algebra gives on the values of its operands, and follows them when they
     change. Operations leave their operands as they were; structured variables have the structure asked for; shapes that do not match, indices out of
     range, products of two expressions with variables and values out of the sign of a parameter are refused.''',
     'inputs', 'all values of numbers, variables and parameters; all pairs of kinds of operands on either side; all assignments to sparse arrays tried',
     'The repository has no tests of cvxpy_tdr but for a handful of doctests.',
     ['src/pydsm/cvxpy_tdr/scalars.py', 'src/pydsm/cvxpy_tdr/arrays.py', 'src/pydsm/cvxpy_tdr/utils.py', 'src/pydsm/cvxpy_tdr/interface.py'],
     [('scalar operators', 'src/pydsm/cvxpy_tdr/scalars.py: __addsub__, __mulhandle__'), ('array operators', 'src/pydsm/cvxpy_tdr/arrays.py'),
      ('utilities', 'src/pydsm/cvxpy_tdr/utils.py')],
     '''Arrays up to 3x3; numbers within [-4,4], including 0 and 1 (special cases of the code) for scalars only. Operations between numeric matrices only
     are those of numpy and scipy. The value of functions of the language is what the solver says.''')

prop('C03', 'Nonlinear constraints go to the solver with their own derivatives',
     '''For constraints in the sets exp_cone, kl_div_epi, power_pos_epi and log_norm_cdf_hypo of cvxpy_tdr, the function handed to the solver says at every
     point inside the domain the value, the gradient and the weighted Hessian of the function that describes the set (also when entries are numbers,
     parameters or repeated, and with several constraints at once), refuses points outside the domain and no other, and starts from a point inside.''',
     'inputs', 'all points inside and outside the domain, all values of numbers, parameters and weights',
     'The repository has no tests of cvxpy_tdr but for a handful of doctests; wrong derivatives show only as slow or failed convergence.',
     ['src/pydsm/cvxpy_tdr/sets/', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py'],
     [('sets', 'src/pydsm/cvxpy_tdr/sets/*.py: _construct'), ('function for the solver', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py: construct_F')],
     '''Up to 5 entries and 4 constraints, exponents 1.5, 2, 2.5, 3, 4; exp, log and the normal density and distribution are opaque (the latter any positive
     numbers). Points in [0.25,2] for values and derivatives, in [-2,2] for the domain.''')

prop('C05', 'Only expressions that really are convex pass the convexity rules',
     '''What cvxpy_tdr declares convex (concave, affine) is so for every value of the variables, coefficients and parameters of the declared sign; the
     verdict on expressions, constraints and programs is that of the rules of disciplined convex programming (sums, multiples by numbers and parameters of
     known sign, compositions with functions of the language and with programs used as functions), and programs out of the rules are refused.''',
     'inputs', 'all values of coefficients, parameters and pairs of points',
     'The repository has no tests of cvxpy_tdr but for a handful of doctests.',
     ['src/pydsm/cvxpy_tdr/scalars.py', 'src/pydsm/cvxpy_tdr/constraints.py', 'src/pydsm/cvxpy_tdr/programs.py'],
     [('rules', 'src/pydsm/cvxpy_tdr/scalars.py: is_convex, is_concave, is_affine, is_nonnegative_constant'),
      ('constraints', 'src/pydsm/cvxpy_tdr/constraints.py: is_dcp'), ('programs', 'src/pydsm/cvxpy_tdr/programs.py: is_dcp')],
     '''A fixed family of about 50 shapes of expressions of two unknowns; convexity is checked at midpoints. Exponentials and matrix functions are left
     out of the check of convexity itself.''')
