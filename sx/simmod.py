# -*- coding: utf-8 -*-
"""The compiled simulators as the checks see them.

The two extension modules of the package are replaced, before the package is
imported, by stand-ins: in a symbolic run a call goes to the translation of the
repository's current Cython source (sx.cyx), in a concrete run to an extension
built in a scratch directory from the repository's current sources.  Whatever
.so lies in the working tree is never used."""
import atexit
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

NAMES = ('_simulateDSM_scipy_blas', '_simulateDSM_cblas')
_built = {}
_tmp = None
_trans = {}
SRC = None
CHECKED = False      # concrete runs go through the bounds-checked translation
USED = {'translated': set(), 'built': set()}


class BuildFailed(Exception):
    pass


def build():
    """Directory with the freshly built extensions."""
    global _tmp
    if _tmp is not None:
        return _tmp
    d = tempfile.mkdtemp(prefix='sx-build-')
    atexit.register(shutil.rmtree, d, True)
    root = os.path.dirname(SRC)
    pk = os.path.join(d, 'src', 'pydsm')
    os.makedirs(pk)
    shutil.copytree(os.path.join(SRC, 'pydsm', 'delsig'), os.path.join(pk, 'delsig'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', 'tests', 'benchmarks', '__pycache__'))
    shutil.copy(os.path.join(SRC, 'pydsm', '__init__.py'), pk)
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'README-PyPI.md'):
        if os.path.exists(os.path.join(root, f)):
            shutil.copy(os.path.join(root, f), d)
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.15.2', CFLAGS='-O1')
    r = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '-j', '2'],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode and not glob.glob(os.path.join(pk, 'delsig', '*.so')):
        raise BuildFailed(r.stdout.decode(errors='replace')[-600:])
    _tmp = d
    return d


def built(name):
    if name not in _built:
        d = build()
        so = glob.glob(os.path.join(d, 'src', 'pydsm', 'delsig', name + '.*so'))
        if not so:
            raise BuildFailed(name)
        spec = importlib.util.spec_from_file_location('pydsm.delsig.' + name, so[0])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _built[name] = m
        USED['built'].add(name)
    return _built[name]


def translated(name):
    if name not in _trans:
        from . import cyx
        _trans[name] = cyx.load(os.path.join(SRC, 'pydsm', 'delsig', name + '.pyx'),
                                'pydsm.delsig.' + name)
        USED['translated'].add(name)
    return _trans[name]


def install(src):
    global SRC
    SRC = src
    from . import core
    for name in NAMES:
        if not os.path.exists(os.path.join(src, 'pydsm', 'delsig', name + '.pyx')):
            continue
        full = 'pydsm.delsig.' + name
        m = types.ModuleType(full)

        def simulateDSM(*a, _name=name, **k):
            mod = translated(_name) if core.CTX is not None or CHECKED else built(_name)
            return mod.simulateDSM(*a, **k)
        m.simulateDSM = simulateDSM
        m.__file__ = os.path.join(src, 'pydsm', 'delsig', name + '.pyx')
        sys.modules[full] = m


def memory_violation():
    from . import cyx
    return cyx.MemoryViolation


def prepare():
    """Build and translate ahead of forking workers."""
    for name in NAMES:
        for f in (built, translated):
            try:
                f(name)
            except Exception:
                pass
