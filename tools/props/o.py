prop('O01', 'Options are layered over per-function defaults and reach the solvers',
     '''For every function with a default_options attribute, options given by the user override the defaults of that function entry by entry, also
     within nested dictionaries; the values reach the integrator, optimizer or convex solver in use; default options
     and the dictionaries given by the user are never altered nor shared among functions; unknown options raise TypeError.''',
     'inputs', 'every choice of given options and every value, for every modeler and solver',
     'Tests run with the defaults, plus show_progress and the modeler.',
     ['src/pydsm/utilities.py', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py', 'src/pydsm/NTFdesign/minmax/_fir_minmax.py',
      'src/pydsm/NTFdesign/filter_based.py', 'src/pydsm/NTFdesign/psychoacoustic.py', 'src/pydsm/ft.py'],
     [('layering of options', 'src/pydsm/utilities.py: digested_options'), ('default options', 'default_options attributes')],
     'Option values and the choice of given options are symbolic; integrators, minimizers and solvers are stand-ins that record what they get. Up to 2 plain and 2 nested options in the helper.')
