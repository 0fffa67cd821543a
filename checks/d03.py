from . import d02
ASSUMPTIONS = d02.ASSUMPTIONS


def instances(tier):
    return d02.cases('scipy_blas') + d02.cases('cblas')
