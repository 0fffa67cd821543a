# -*- coding: utf-8 -*-
import importlib
import inspect
import warnings
from sx.run import Instance
import pydsm
import pydsm.utilities
import pydsm.NTFdesign.filter_based
import pydsm.NTFdesign.legacy
import pydsm.simulation
from pydsm.exceptions import PyDsmDeprecationWarning
from .dsgn import replaced

ASSUMPTIONS = ('the function an alias stands for is replaced by a stand-in that records its arguments',)

N = 'pydsm.NTFdesign.'
W = N + 'weighting.'
ALIASES = [
    ('pydsm.utilities.db', 'pydsm.relab.db', False),
    ('pydsm.utilities.cplxpair', 'pydsm.relab.cplxpair', False),
    (W + 'q0_from_noise_weighting', W + 'q0_weighting', True),
    (W + 'synthesize_ntf_from_q0', W + 'ntf_fir_from_q0', True),
    (W + 'synthesize_ntf_from_noise_weighting', W + 'ntf_fir_weighting', True),
    (W + 'quantization_weighted_noise_gain', N + 'merit_factors.quantization_noise_gain', True),
    (N + 'minmax.synthesize_ntf_minmax', N + 'minmax.ntf_fir_minmax', True),
    (N + 'delsig.synthesizeNTF', 'pydsm.delsig.synthesizeNTF', True),
    (N + 'delsig.synthesizeChebyshevNTF', 'pydsm.delsig.synthesizeChebyshevNTF', False),
    (N + 'delsig.clans', 'pydsm.delsig.clans', True),
    (N + 'psychoacoustic.synthesize_ntf_dunn', N + 'psychoacoustic.ntf_dunn', False),
    (N + 'psychoacoustic.synthesize_ntf_from_audio_weighting', N + 'psychoacoustic.ntf_fir_audio_weighting', True),
    (N + 'filter_based.quantization_noise_gain_by_conv', N + 'legacy.quantization_noise_gain_by_conv', False),
]
# alternative entry points for the same function
SAME = [('pydsm.simulation.simulateDSM', 'pydsm.delsig.simulateDSM'), ('pydsm.simulation.ds_quantize', 'pydsm.delsig.ds_quantize'),
        (N + 'ntf_schreier', 'pydsm.delsig.synthesizeNTF'), (N + 'ntf_chebyshev', 'pydsm.delsig.synthesizeChebyshevNTF'), (N + 'ntf_clans', 'pydsm.delsig.clans'),
        (N + 'quantization_noise_gain', N + 'merit_factors.quantization_noise_gain'), (N + 'ntf_fir_minmax', N + 'minmax.ntf_fir_minmax'),
        (N + 'ntf_dunn', N + 'psychoacoustic.ntf_dunn'), (N + 'ntf_fir_audio_weighting', N + 'psychoacoustic.ntf_fir_audio_weighting'),
        (N + 'ntf_fir_weighting', W + 'ntf_fir_weighting'), (N + 'ntf_hybrid_weighting', W + 'ntf_hybrid_weighting'), (N + 'mult_weightings', W + 'mult_weightings')]


def get(name):
    m, _, n = name.rpartition('.')
    return getattr(importlib.import_module(m), n)


def alias(V, old, new, options, given, by_key):
    """The alias calls the function with the arguments it gets, and warns."""
    f, g = get(old), get(new)
    sf, sg = inspect.signature(f), inspect.signature(g)
    names = [p.name for p in sf.parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    target = [p.name for p in sg.parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    need = sum(sf.parameters[n].default is inspect.Parameter.empty for n in names)
    k = {'needed': need, 'some': (need + len(names)) // 2, 'all': len(names)}[given]
    val = [V.real('arg_' + n, -10, 10) for n in names[:k]]
    kw = dict(zip(names[need:k], val[need:])) if by_key else {}
    pos = val[:need] if by_key else val
    extra = {}
    if options:
        extra = {'some_opts': {'a': V.real('opt', -1, 1)}, 'flag': V.real('flag', -1, 1)}
    calls = []

    def record(*a, **k):
        calls.append((a, k))
        return calls

    with warnings.catch_warnings(record=True) as ws, replaced(V, {new: record}, True):
        warnings.simplefilter('always')
        r = f(*pos, **dict(kw, **extra))
    V.check(r is calls, 'the result of the function is returned')
    V.check(len(calls) == 1, 'the function is called once')
    V.check(any(issubclass(w.category, PyDsmDeprecationWarning) for w in ws), 'deprecation is announced')
    b = sg.bind(*calls[0][0], **calls[0][1])
    b.apply_defaults()
    got = b.arguments
    for i, n in enumerate(names):
        if i < k:
            V.eq(got[target[i]], val[i], 'argument %s' % n)
        else:
            x = got[target[i]]
            V.check(any(x is d or bool(x == d) for d in (sf.parameters[n].default, sg.parameters[target[i]].default)), 'default of argument %s' % n)
    for n in target[len(names):]:
        V.check(got[n] == sg.parameters[n].default, 'default of the other arguments')
    got = [got[p.name] for p in sg.parameters.values() if p.kind == p.VAR_KEYWORD]
    if options:
        V.check(sorted(got[0]) == sorted(extra), 'options are passed on')
        V.eq(got[0]['flag'], extra['flag'], 'options are passed on')
        V.eq(got[0]['some_opts']['a'], extra['some_opts']['a'], 'options are passed on')


def same(V, a, b):
    V.check(get(a) is get(b), '%s is %s' % (a, b))


def instances(tier):
    out = []
    for old, new, options in ALIASES:
        for given in ('needed', 'some', 'all'):
            for by in (False, True):
                out.append(Instance('%s-%s-%d' % (old[6:], given, by), alias, dict(old=old, new=new, options=options, given=given, by_key=by),
                                    bounds='any argument values', skip=('pydsm',)))
    for a, b in SAME:
        out.append(Instance(a, same, dict(a=a, b=b), bounds='none', skip=('pydsm',)))
    return out
