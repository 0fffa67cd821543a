# -*- coding: utf-8 -*-
import contextlib
import copy
import io
import numpy as np
import cvxopt.solvers
import cvxpy
import picos
import scipy.integrate
import scipy.optimize
from sx.run import Instance
from pydsm.utilities import digested_options
import pydsm.NTFdesign.filter_based
import pydsm.NTFdesign.weighting
import pydsm.NTFdesign.helpers
from pydsm import delsig, ft, NTFdesign
from .dsgn import replaced, patched, own_defaults

ASSUMPTIONS = ('scipy.integrate.quad, scipy.optimize.minimize and the solve functions of cvxopt, cvxpy and picos are replaced by stand-ins that record '
               'the options they get',)


# ------------------------------------------------------------ the helper
def layering(V, keys, multi, extra, emptycheck):
    """Values come from the user when given, from the defaults otherwise."""
    names = keys + [m + '.' + s for m in multi for s in 'abc']
    val = {(w, k): V.real('%s_%s' % (w, k), -10, 10) for w in ('user', 'def') for k in names + ['unused']}
    given = {k: bool(V.bool('given_' + k)) for k in keys + multi}
    sub = {(m, s): bool(V.bool('given_%s.%s' % (m, s))) for m in multi for s in 'bcd'}
    defaults = {k: val['def', k] for k in keys}
    defaults['unused'] = val['def', 'unused']
    for m in multi:
        defaults[m] = {s: val['def', m + '.' + s] for s in 'abc'}
    before = copy.copy(defaults)
    subs = {m: dict(defaults[m]) for m in multi}
    opts = {k: val['user', k] for k in keys if given[k]}
    mine = {}
    for m in multi:
        if given[m]:
            opts[m] = {s: val['user', m + '.' + s] if s != 'd' else 1.5 for s in 'bcd' if sub[m, s]}
            mine[m] = (opts[m], dict(opts[m]))
    if extra:
        opts['more'] = 1
    args = [opts, defaults, keys, multi]
    if extra and emptycheck:
        try:
            digested_options(*args)
        except TypeError as e:
            V.check('more' in str(e), 'the unexpected option is named')
        else:
            V.check(False, 'unexpected options are refused')
        return
    out = digested_options(*(args + ([] if emptycheck else [False])))
    V.check(sorted(out) == sorted(keys + multi), 'the requested options are returned')
    for k in keys:
        V.eq(out[k], val['user' if given[k] else 'def', k], 'value of a plain option')
    for m in multi:
        e = {s: val['def', m + '.' + s] for s in 'abc'}
        if given[m]:
            e.update(mine[m][1])
        V.check(sorted(out[m]) == sorted(e), 'entries of a nested option')
        for s in e:
            V.eq(out[m][s], e[s], 'value of a nested option')
        # neither the defaults nor what the user passes can change through the result
        out[m]['a'] = 0.5
        out[m]['z'] = 0.5
        V.check(sorted(defaults[m]) == ['a', 'b', 'c'], 'default options are left alone')
        for s in 'abc':
            V.eq(defaults[m][s], subs[m][s], 'default options are left alone')
        if given[m]:
            V.check(sorted(mine[m][0]) == sorted(mine[m][1]), 'what the user passes is left alone')
            for s, v in mine[m][1].items():
                V.eq(mine[m][0][s], v, 'what the user passes is left alone')
    V.check(sorted(defaults) == sorted(before), 'default options are left alone')
    for k in keys:
        V.eq(defaults[k], before[k], 'default options are left alone')
    V.check(sorted(opts) == (['more'] if extra else []), 'extracted options are removed')


# ------------------------------------------- the functions taking options
class Stop(Exception):
    pass


LOG = []


def quad(f, a, b, **kw):
    LOG.append(kw)
    return 0.5 ** len(LOG), 0.0


def minimize(f, x0, *args, **kw):
    LOG.append(kw)
    raise Stop()


QUAD = {'scipy.integrate.quad': quad}
MINI = {'scipy.optimize.minimize': minimize}


def w1(f):
    return 1.0


HB = ((np.array([0.5]), np.array([0.25]), 1.0))
QUADS = {
    'ft.idtft': lambda o: ft.idtft(w1, 1, **o),
    'ft.idtft(list)': lambda o: ft.idtft(w1, [0, 1], **o),
    'ft.idtft_hermitian': lambda o: ft.idtft_hermitian(w1, 1, **o),
    'ft.idtft_hermitian(list)': lambda o: ft.idtft_hermitian(w1, [0, 1], **o),
    'NTFdesign.merit_factors.quantization_noise_gain': lambda o: NTFdesign.quantization_noise_gain(HB, w1, **o),
    'NTFdesign.filter_based.quantization_noise_gain': lambda o: NTFdesign.filter_based.quantization_noise_gain(HB, HB, **o),
    'NTFdesign.filter_based.q0_from_filter': lambda o: NTFdesign.filter_based.q0_from_filter(1, HB, **o),
    'NTFdesign.filter_based.q0_from_filter(mag)': lambda o: NTFdesign.filter_based.q0_from_filter(1, w1, 'mag', **o),
    'NTFdesign.filter_based.synthesize_ntf_from_filter': lambda o: NTFdesign.filter_based.synthesize_ntf_from_filter(2, HB, **dict(o, show_progress=False)),
    'NTFdesign.weighting.q0_weighting': lambda o: NTFdesign.weighting.q0_weighting(1, w1, **o),
    'NTFdesign.weighting.ntf_fir_weighting': lambda o: NTFdesign.weighting.ntf_fir_weighting(2, w1, **dict(o, show_progress=False)),
    'NTFdesign.weighting.ntf_hybrid_weighting': lambda o: NTFdesign.weighting.ntf_hybrid_weighting(2, w1, 1.5, [0.5], **dict(o, show_progress=False)),
    'NTFdesign.psychoacoustic.ntf_fir_audio_weighting': lambda o: NTFdesign.ntf_fir_audio_weighting(2, 8, **dict(o, show_progress=False)),
}


def find(name):
    o = __import__('pydsm')
    for p in name.split('(')[0].split('.'):
        o = getattr(o, p)
    return o


def alter(V, fs, skip, key, tag):
    """Gives other values to the same option of all other functions."""
    for f in fs.values():
        if f is not skip and key in f.default_options:
            d = f.default_options[key]
            if isinstance(d, dict):
                for k in d:
                    if isinstance(d[k], (int, float)) and not isinstance(d[k], bool):
                        d[k] = -1.0
    return V


def solvers(LOGS):
    """Stand-ins for the solvers."""
    def conelp(*a, **k):
        LOGS.append(dict(cvxopt.solvers.options))
        raise Stop()

    def solve(self, *a, **k):
        LOGS.append(dict(k))
        raise Stop()
    return ((cvxopt.solvers, 'conelp', conelp), (cvxpy.Problem, 'solve', solve), (picos.Problem, 'solve', solve))


def run(call, opts):
    del LOG[:]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            call(opts)
    except Stop:
        pass
    return list(LOG)


def quad_options(V, fname):
    call = QUADS[fname]
    f = find(fname)
    d = {k: V.real('def_' + k, 1, 1000) for k in ('epsabs', 'epsrel', 'limit')}
    u = {k: V.real('user_' + k, 1, 1000) for k in ('epsabs', 'epsrel', 'limit')}
    u['points'], d['points'] = [0.25], [0.125]
    with own_defaults() as fs, replaced(V, QUAD), patched(*solvers([])):
        alter(V, fs, f, 'quad_opts', -1)
        f.default_options['quad_opts'] = dict(d)
        shared = {n: g.default_options for n, g in fs.items()}
        nothing = run(call, {})
        V.check(len(nothing) > 0, 'the integrator is used')
        for log in nothing:
            for k in d:
                V.eq(V.mk(log.get(k)), V.mk(d[k]), 'the default options of the function are used')
        given = {k: bool(V.bool('given_' + k)) for k in sorted(d)}
        mine = {k: u[k] for k in d if given[k]}
        keep = dict(mine)
        for log in run(call, {'quad_opts': mine}):
            for k in d:
                V.eq(V.mk(log.get(k)), V.mk(u[k] if given[k] else d[k]), 'options given by the user override the default ones')
        V.check(sorted(mine) == sorted(keep), 'the options of the user are left alone')
        V.check(sorted(f.default_options['quad_opts']) == sorted(d), 'the default options are left alone')
        for k in d:
            V.eq(V.mk(f.default_options['quad_opts'][k]), V.mk(d[k]), 'the default options are left alone')
        for n, g in fs.items():
            V.check(g.default_options is shared[n], 'default options are left in place')
        try:
            call({'quad_optz': {}})
        except TypeError:
            pass
        else:
            V.check(False, 'unknown options are refused')


def independent(V, fname, key):
    """Changing an entry of the default options of a function does not change those of another."""
    with own_defaults():
        pass
    fs = __import__('checks.dsgn', fromlist=['functions']).functions()
    f = find(fname)
    v = V.real('value', 1, 1000)
    d = f.default_options[key]
    old = dict(d)
    try:
        for k in d:
            d[k] = v
        for n, g in fs.items():
            if g is not f and isinstance(g.default_options.get(key), dict):
                for k, x in g.default_options[key].items():
                    V.check(x is not v, 'functions do not share their default options')
    finally:
        d.update(old)


DESIGN = {
    'NTFdesign.weighting.ntf_fir_from_q0': lambda o: NTFdesign.weighting.ntf_fir_from_q0(np.array([1.0, 0.5, 0.25]), **o),
    'NTFdesign.weighting.ntf_fir_weighting': lambda o: NTFdesign.weighting.ntf_fir_weighting(2, w1, **o),
    'NTFdesign.weighting.ntf_hybrid_weighting': lambda o: NTFdesign.weighting.ntf_hybrid_weighting(2, w1, 1.5, [0.5], **o),
    'NTFdesign.psychoacoustic.ntf_fir_audio_weighting': lambda o: NTFdesign.ntf_fir_audio_weighting(2, 8, **o),
    'NTFdesign.minmax.ntf_fir_minmax': lambda o: NTFdesign.ntf_fir_minmax(3, 8, **o),
    'NTFdesign.filter_based.synthesize_ntf_from_filter': lambda o: NTFdesign.filter_based.synthesize_ntf_from_filter(2, HB, **o),
}
NAMES = {'cvxpy_old': {'maxiters': 'maxiters', 'abstol': 'abstol', 'reltol': 'reltol', 'feastol': 'feastol'},
         'cvxpy': {'maxiters': 'maxiters', 'abstol': 'abstol', 'reltol': 'reltol', 'feastol': 'feastol'},
         'picos': {'maxiters': 'max_iterations', 'abstol': 'abs_ipm_opt_tol', 'reltol': 'rel_ipm_opt_tol'},
         'scs': {k: k for k in ('max_iters', 'eps', 'alpha')}}


def verbosity(log, modeler):
    return bool(log.get({'cvxpy_old': 'show_progress', 'cvxpy': 'verbose', 'picos': 'verbosity'}[modeler]))


def solver_options(V, fname, modeler, solver, by_default):
    """Options reach the solver, from the user or from the default options of the function."""
    call = DESIGN[fname]
    f = find(fname)
    names = NAMES['scs' if solver == 'scs' else modeler]
    key = 'scs_opts' if solver == 'scs' else 'cvxopt_opts'
    d = {k: V.real('def_' + k, 1, 1000) for k in sorted(names)}
    u = {k: V.real('user_' + k, 1, 1000) for k in sorted(names)}
    given = {k: bool(V.bool('given_' + k)) for k in sorted(names)}
    kkt = bool(V.bool('override_kktsolver'))
    shown = bool(V.bool('show_progress'))
    LOGS = []
    with own_defaults() as fs, replaced(V, QUAD, True), patched(*solvers(LOGS)):
        del LOG[:]
        alter(V, fs, f, key, -1)
        D = f.default_options
        D[key].update(d)
        opts = {}
        if 'filter_based' in fname:
            pass
        elif by_default:
            D['modeler'] = modeler
            D['cvxpy_opts'].update(solver=solver, override_kktsolver=kkt)
        else:
            D['modeler'] = 'none'
            D['cvxpy_opts'].update(solver='cvxopt' if solver == 'scs' else 'scs', override_kktsolver=not kkt)
            opts['modeler'] = modeler
            if modeler == 'cvxpy':
                opts['cvxpy_opts'] = {'solver': solver, 'override_kktsolver': kkt}
        if by_default:
            D['show_progress'] = shown
        else:
            D['show_progress'] = not shown
            opts['show_progress'] = shown
        keep = copy.deepcopy({k: v for k, v in D.items() if k != key}), dict(D[key])
        mine = {k: u[k] for k in u if given[k]}
        mk = dict(mine)
        opts[key] = mine
        run(call, opts)
        V.check(len(LOGS) == 1, 'the solver is called once')
        log = LOGS[0]
        for k, n in names.items():
            V.eq(V.mk(log.get(n)), V.mk(u[k] if given[k] else d[k]), 'options of the solver')
        V.check(verbosity(log, modeler) == shown, 'progress is shown when asked for')
        if modeler == 'cvxpy':
            V.check(log.get('solver') == {'cvxopt': cvxpy.CVXOPT, 'scs': cvxpy.SCS}[solver], 'requested solver')
            if solver == 'cvxopt':
                V.check((log.get('kktsolver') == 'chol') == kkt, 'override of the kkt solver')
            V.check('override_kktsolver' not in log, 'only options of the solver reach it')
        V.check(sorted(mine) == sorted(mk), 'the options of the user are left alone')
        V.check({k: v for k, v in D.items() if k != key} == keep[0], 'the default options are left alone')
        V.check(sorted(D[key]) == sorted(keep[1]), 'the default options are left alone')
        for k in d:
            V.eq(V.mk(D[key][k]), V.mk(keep[1][k]), 'the default options are left alone')
        try:
            call(dict(opts, unknown=1))
        except TypeError:
            pass
        else:
            V.check(False, 'unknown options are refused')


def minimizer_options(V, fname, key, keys):
    def cf(ntf, *a):
        return 1.0
    call = {'NTFdesign.helpers.spread_fir_uc_zeros': lambda o: NTFdesign.helpers.spread_fir_uc_zeros(4, 8, cf, **o),
            'delsig.clans': lambda o: delsig.clans(**o)}[fname]
    f = find(fname)
    d = {k: V.real('def_' + k, 1, 1000) for k in keys}
    u = {k: V.real('user_' + k, 1, 1000) for k in keys}
    given = {k: bool(V.bool('given_' + k)) for k in keys}
    shown = bool(V.bool('show_progress'))
    with own_defaults(), replaced(V, MINI):
        f.default_options[key].update(d)
        mine = {k: u[k] for k in u if given[k]}
        opts = {key: mine}
        if fname == 'delsig.clans':
            f.default_options['show_progress'] = not shown
            opts['show_progress'] = shown
        log = run(call, opts)
        V.check(len(log) == 1, 'the minimizer is called')
        for k in keys:
            V.eq(V.mk(log[0]['options'].get(k)), V.mk(u[k] if given[k] else d[k]), 'options of the minimizer')
            V.eq(V.mk(f.default_options[key][k]), V.mk(d[k]), 'the default options are left alone')
        if fname == 'delsig.clans':
            V.check(bool(log[0]['options'].get('disp')) == shown, 'progress is shown when asked for')
            V.check('disp' not in f.default_options[key], 'the default options are left alone')
        try:
            call({'unknown': 1})
        except TypeError:
            pass
        else:
            V.check(False, 'unknown options are refused')


def instances(tier):
    out = []

    def add(name, body, bounds, **p):
        stubs, skip = p.pop('stubs', None), p.pop('skip', ())
        out.append(Instance(name, body, p, bounds=bounds, timeout=15, stubs=stubs, skip=skip, max_paths=2000, samples=3))
    for i, (k, m) in enumerate(((['a'], []), ([], ['m']), (['a', 'b'], ['m']), (['a'], ['m', 'n']))):
        for extra in (False, True):
            for empty in (False, True):
                if len(m) == 2 and tier != 'thorough':
                    continue
                add('layering%d-%d%d' % (i, extra, empty), layering, 'any values, any choice of given options', keys=k, multi=m, extra=extra, emptycheck=empty)
    for n in QUADS:
        add('quad-' + n, quad_options, 'any values, any choice of given options', fname=n, stubs=QUAD)
    for n, k in (('ft.idtft', 'quad_opts'), ('ft.idtft_hermitian', 'quad_opts'), ('NTFdesign.weighting.q0_weighting', 'quad_opts'),
                 ('NTFdesign.quantization_noise_gain', 'quad_opts'),
                 ('NTFdesign.ntf_fir_weighting', 'quad_opts'), ('NTFdesign.ntf_fir_weighting', 'cvxopt_opts'), ('NTFdesign.ntf_fir_weighting', 'scs_opts'),
                 ('NTFdesign.weighting.ntf_fir_from_q0', 'cvxpy_opts'), ('NTFdesign.weighting.ntf_fir_from_q0', 'cvxopt_opts'),
                 ('NTFdesign.ntf_hybrid_weighting', 'cvxopt_opts'), ('NTFdesign.ntf_hybrid_weighting', 'cvxpy_opts'), ('NTFdesign.ntf_hybrid_weighting', 'quad_opts'),
                 ('NTFdesign.ntf_fir_minmax', 'cvxopt_opts')):
        add('independent-%s-%s' % (n, k), independent, 'any value', fname=n, key=k)
    for n in DESIGN:
        for mod, sol in (('cvxpy_old', 'cvxopt'), ('cvxpy', 'cvxopt'), ('cvxpy', 'scs'), ('picos', 'cvxopt')):
            for by in (False, True):
                if 'filter_based' in n and mod != 'cvxpy_old':
                    continue
                add('solver-%s-%s-%s-%d' % (n, mod, sol, by), solver_options, 'any values, any choice of given options',
                    fname=n, modeler=mod, solver=sol, by_default=by, skip=('pydsm',))
    add('minimizer-spread', minimizer_options, 'any values', fname='NTFdesign.helpers.spread_fir_uc_zeros', key='L_BFGS_B_opts',
        keys=['ftol', 'gtol', 'maxiter', 'maxfun'], stubs=MINI)
    add('minimizer-clans', minimizer_options, 'any values', fname='delsig.clans', key='slsqp_opts', keys=['maxiter', 'ftol', 'eps'], stubs=MINI)
    return out
