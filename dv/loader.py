"""Imports the real modules of /repo (working tree) under their own names."""
import inspect
import importlib
import importlib.util
import os
import sys
import types

REPO = os.environ.get('DV_REPO', '/repo')
sys.dont_write_bytecode = True
_PATHS = ['aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools', 'py-combinations',
          'pytest-util-tools', 'util-tools']
_done = [False]


def setup():
    if _done[0]:
        return
    _done[0] = True
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    for p in _PATHS:
        sys.path.insert(0, f'{REPO}/{p}')
    # the top-level __init__ of `aesolver` pulls in interactive/plotting code
    # (and modules that are not installed): enter the package without running it
    for pkg, path in (('aesolver', f'{REPO}/aesolver/aesolver'),):
        m = types.ModuleType(pkg)
        m.__path__ = [path]
        sys.modules[pkg] = m
    from . import native
    native.install_lazy()


def repo(name):
    """import module `name` from /repo"""
    setup()
    return importlib.import_module(name)


def repo_file(path, name=None):
    """import a single file of /repo as a module"""
    setup()
    name = name or 'dvfile_' + path.replace('/', '_').replace('.py', '').replace('-', '_')
    if name in sys.modules:
        return sys.modules[name]
    spec = importlib.util.spec_from_file_location(name, f'{REPO}/{path}')
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def stubpkg(name, path):
    """enter a package without running its __init__"""
    setup()
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.__path__ = [path]
        sys.modules[name] = m
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par in sys.modules:
                setattr(sys.modules[par], ch, m)
    return sys.modules[name]


def stubmod(name, **attrs):
    setup()
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def mods_of(*prefixes):
    """loaded modules of /repo whose name starts with one of the prefixes"""
    out = []
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and f.startswith(REPO + '/') and any(n == p or n.startswith(p + '.') or n.startswith(p)
                                                  for p in prefixes):
            out.append(m)
    return out


def as_called(real):
    """a stand-in for `real` that receives every argument by its name, however it is called"""
    sig = inspect.signature(real)
    own = next(iter(sig.parameters), '') == 'self'
    var = [p.name for p in sig.parameters.values() if p.kind is p.VAR_KEYWORD]

    def deco(f):
        def g(*a, **k):
            b = dict(sig.bind(*a, **k).arguments)
            for v in var:
                b.update(b.pop(v, {}))
            me = (b.pop('self'),) if own else ()
            return f(*me, **b)
        return g
    return deco
