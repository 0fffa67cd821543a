# -*- coding: utf-8 -*-
"""Common parts of the checks on NTF design."""
import copy
import importlib
import sys
from contextlib import contextmanager


def brief(f, names, **documented):
    """f called as users do, parameters whose value is that documented for when they are left out being left out."""
    names = names.split()

    def g(*args, **kw):
        pos, out, names_only = list(zip(names, args)), [], False
        assert len(pos) == len(args)
        opts = {}
        for n, v in pos + list(kw.items()):
            d = documented.get(n, None)
            if n in documented and (v is d or type(v) in (int, float, bool, str, list, tuple) and type(d) in (int, float, bool, str, list, tuple) and v == d):
                names_only = True
            elif n in kw or names_only:
                opts[n] = v
            else:
                out.append(v)
        return f(*out, **opts)
    return g


@contextmanager
def patched(*what):
    """Temporarily replaces attributes: (object, name, value)."""
    undo = []
    try:
        for o, n, v in what:
            undo.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(undo):
            setattr(o, n, v)


@contextmanager
def replaced(V, stubs, always=False):
    """Makes the stand-ins for library functions effective in concrete runs too (symbolic runs have them already).

    All the references to the library function in the package are replaced.
    """
    if V.symbolic and not always:
        yield
        return
    todo = []
    for k, f in stubs.items():
        m, _, n = k.rpartition('.')
        mod = importlib.import_module(m)
        orig = getattr(mod, n)
        todo.append((mod, n, f))
        for name, pm in list(sys.modules.items()):
            if pm is not None and (name == 'pydsm' or name.startswith('pydsm.')):
                for a, v in list(vars(pm).items()):
                    if v is orig:
                        todo.append((pm, a, f))
    with patched(*todo):
        yield


@contextmanager
def standin(V, stubs):
    """Like replaced, but with stand-ins made on the spot, effective in symbolic runs too."""
    if not V.symbolic:
        with replaced(V, stubs):
            yield
        return
    from sx import shim
    old = {k: shim.STUBS.get(k) for k in stubs}
    shim.STUBS.update(stubs)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                shim.STUBS.pop(k, None)
            else:
                shim.STUBS[k] = v


def functions():
    """The functions of the package having default options, by name."""
    out = {}
    for name, m in sorted(sys.modules.items()):
        if m is None or not name.startswith('pydsm'):
            continue
        for a, f in list(vars(m).items()):
            if callable(f) and isinstance(getattr(f, 'default_options', None), dict):
                if f.__module__ == name:
                    out[name[6:] + '.' + a] = f
    return out


@contextmanager
def own_defaults():
    """Restores the default options of all functions at the end."""
    fs = functions()
    keep = {n: f.default_options for n, f in fs.items()}
    for f in fs.values():
        f.default_options = copy.deepcopy(f.default_options)
    try:
        yield fs
    finally:
        for n, f in fs.items():
            f.default_options = keep[n]
