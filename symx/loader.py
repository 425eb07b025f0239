"""Loads /repo/pytracer (fresh source, every run) and the harness files with the
symbolic numpy in place of numpy."""
import builtins, importlib, importlib.abc, importlib.util, os, sys, types, enum, collections, collections.abc
import numpy as _np
import z3
from . import core, shimnp, shimquat

REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')

_np_mod = None
_pil = None


def np_module():
    global _np_mod
    if _np_mod is None:
        _np_mod = shimnp._module(core.S(z3.Real('pi')))
    return _np_mod


def _min(*a, **k):
    return _mm(a, k, True)


def _max(*a, **k):
    return _mm(a, k, False)


def _mm(a, k, mn):
    it = list(a[0]) if len(a) == 1 else list(a)
    key = k.get('key')
    if not it:
        if 'default' in k:
            return k['default']
        raise ValueError('empty sequence')
    if key is not None:
        best, bk = it[0], key(it[0])
        for e in it[1:]:
            ek = key(e)
            if (ek < bk) if mn else (ek > bk):
                best, bk = e, ek
        return best
    acc = it[0]
    for e in it[1:]:
        acc = core._mm(acc, e, mn)
    return acc


def _round(x, nd=None):
    if isinstance(x, core.S):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


class _Null(object):
    def write(self, *a):
        return 0

    def flush(self):
        pass


def _print(*a, **k):
    return None


class _PILImage(object):
    pass


def pil_modules():
    global _pil
    if _pil is None:
        p = types.ModuleType('PIL')
        im = types.ModuleType('PIL.Image')

        def _no(*a, **k):
            raise core.Unsupported('image input/output')
        im.open = _no
        im.fromarray = _no
        im.new = _no
        im.Image = _PILImage
        p.Image = im
        _pil = (p, im)
    return _pil


_collections = None


def collections_module():
    global _collections
    if _collections is None:
        m = types.ModuleType('collections')
        for k in dir(collections):
            setattr(m, k, getattr(collections, k))
        for k in ('Iterable', 'Sequence', 'MutableSequence', 'Mapping', 'MutableMapping', 'Callable', 'Iterator',
                  'Hashable', 'Sized', 'Container', 'Set', 'MutableSet'):
            setattr(m, k, getattr(collections.abc, k))
        m.abc = collections.abc
        _collections = m
    return _collections


class _Scipy(types.ModuleType):
    pass


def _scipy():
    m = types.ModuleType('scipy')
    sp = types.ModuleType('scipy.spatial')

    class cKDTree(object):
        def __init__(self, *a, **k):
            raise core.Unsupported('kd-tree')
    sp.cKDTree = cKDTree
    sp.KDTree = cKDTree
    m.spatial = sp
    return m, sp


_sc = _scipy()

SPECIAL = {}


def _math_module():
    import math as _m
    m = types.ModuleType('math')
    for k in dir(_m):
        setattr(m, k, getattr(_m, k))
    for k, f in (('sqrt', shimnp.sqrt), ('sin', shimnp.sin), ('cos', shimnp.cos), ('tan', shimnp.tan),
                 ('exp', shimnp.exp), ('log2', shimnp.log2), ('acos', shimnp.arccos),
                 ('asin', shimnp.arcsin), ('atan', shimnp.arctan), ('atan2', shimnp.arctan2),
                 ('fabs', shimnp.fabs), ('hypot', shimnp.hypot), ('pow', shimnp.power),
                 ('radians', shimnp.deg2rad), ('degrees', shimnp.rad2deg), ('isnan', shimnp.isnan),
                 ('isinf', shimnp.isinf), ('isfinite', shimnp.isfinite), ('copysign', shimnp.copysign)):
        setattr(m, k, f)

    def log(x, base=None):
        r = shimnp.log(x)
        return r if base is None else r / shimnp.log(base)
    m.log = log
    m.floor = lambda x: int(shimnp.floor(x))
    m.ceil = lambda x: int(shimnp.ceil(x))
    m.trunc = int

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        return d <= _max(rel_tol * _max(abs(a), abs(b)), abs_tol)
    m.isclose = isclose
    m.pi = core.S(z3.Real('pi'))
    return m


def special(name):
    if name not in SPECIAL:
        if name == 'numpy':
            SPECIAL[name] = np_module()
        elif name == 'numpy.random':
            SPECIAL[name] = np_module().random
        elif name == 'numpy.linalg':
            SPECIAL[name] = np_module().linalg
        elif name == 'quaternion':
            SPECIAL[name] = shimquat.module(np_module())
        elif name == 'PIL':
            SPECIAL[name] = pil_modules()[0]
        elif name == 'PIL.Image':
            SPECIAL[name] = pil_modules()[1]
        elif name == 'collections':
            SPECIAL[name] = collections_module()
        elif name == 'scipy':
            SPECIAL[name] = _sc[0]
        elif name == 'scipy.spatial':
            SPECIAL[name] = _sc[1]
        elif name == 'math':
            SPECIAL[name] = _math_module()
        elif name in ('random',):
            import random as _r
            m = types.ModuleType('random')
            for k in dir(_r):
                setattr(m, k, getattr(_r, k))
            m.random = lambda: shimnp.random.rand()
            m.uniform = lambda a, b: shimnp.random.uniform(a, b)
            m.shuffle = lambda x: shimnp.random.shuffle(x)
            SPECIAL[name] = m
    return SPECIAL.get(name)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top in ('numpy', 'quaternion', 'PIL', 'collections', 'scipy', 'math', 'random'):
            m = special(name)
            if m is None:
                if top == 'collections':
                    return builtins.__import__(name, globals, locals, fromlist, level)
                if fromlist:
                    raise ImportError(name)
                m = special(top)
            if fromlist:
                return m
            return special(top)
    return builtins.__import__(name, globals, locals, fromlist, level)


def _sum(it, start=0):
    acc = start
    for e in it:
        acc = acc + e
    return acc


def _pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def make_builtins():
    d = dict(vars(builtins))
    d['__import__'] = _import
    d['min'] = _min
    d['max'] = _max
    d['float'] = shimnp.pyfloat
    d['print'] = _print
    d['round'] = _round
    return d


BUILTINS = make_builtins()


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(src, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top == 'pytracer':
            base = REPO
        elif top == 'harness':
            base = os.path.dirname(HARNESS_DIR)
        else:
            return None
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(f, True),
                                                          submodule_search_locations=[p])
        if os.path.isdir(p):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(fullname, p + '.py', loader=_Loader(p + '.py', False))
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        import importlib.machinery
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, _Finder())
        core.ENG = core.Engine()
        _installed = True
