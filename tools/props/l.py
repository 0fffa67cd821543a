prop('L01', 'Deprecated aliases behave as the functions they stand for',
     '''Each deprecated alias calls the function that replaces it with the same arguments, positional or by name, with the same
     defaults and options, returns its result and issues a PyDsmDeprecationWarning; alternative entry points are the same function.''',
     'inputs', 'every argument value, given by position, by name or left to its default',
     'No test calls the aliases with all their arguments.',
     ['src/pydsm/utilities.py', 'src/pydsm/NTFdesign/delsig.py', 'src/pydsm/NTFdesign/weighting/_fir_weighting.py', 'src/pydsm/NTFdesign/psychoacoustic.py',
      'src/pydsm/NTFdesign/minmax/_fir_minmax.py', 'src/pydsm/NTFdesign/filter_based.py', 'src/pydsm/simulation.py'],
     [('aliases', 'functions issuing PyDsmDeprecationWarning')],
     'Argument values are symbolic; the replaced functions are stand-ins that record their arguments.')
