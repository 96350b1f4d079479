"""Every simulated process has its own copy of the library's modules, as real processes have: module-level state is
neither shared between ranks nor carried over into the next job or case."""
import importlib
import importlib.machinery
import sys
import types

import numpy as np

PKG = 'pyspod'
NAMES = dict(par='utils.parallel', reader='utils.reader', weights='utils.weights', post='utils.postproc', uio='utils.io',
             spod_utils='spod.utils', pod_utils='pod.utils', spod_base='spod.base', spod_std='spod.standard',
             spod_str='spod.streaming', pod_std='pod.standard', errors='utils.errors', pod_base='pod.base')
EXTRA = dict(nets='emulation.neural_nets', emu='emulation.base')
CLASSES = dict(Standard=('spod_std', 'Standard'), Streaming=('spod_str', 'Streaming'), Pod=('pod_std', 'Standard'),
               Nets=('nets', 'Neural_Nets'))
SETS = []
names = dict(NAMES)
rebuilt = 0


class Loader(importlib.machinery.SourceFileLoader):
    """compiles a file once per simulator process"""
    codes = {}

    def get_code(self, name):
        c = Loader.codes.get(self.path)
        if c is None:
            c = Loader.codes[self.path] = super().get_code(name)
        return c


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(name, spec.origin)
        return spec


def sim_datetime(m):
    """the simulated clock for modules that use datetime"""
    import datetime as real
    import simfs
    if not simfs.SIM_DATETIME:
        return
    sim = simfs.SIM_DATETIME[0]
    for k, v in list(vars(m).items()):
        if v is real.datetime:
            setattr(m, k, sim)
        elif v is real:
            ns = types.ModuleType('datetime')
            ns.__dict__.update(vars(real), datetime=sim)
            setattr(m, k, ns)


def mine():
    return [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]


class Set:
    def __init__(self):
        old = {m: sys.modules.pop(m) for m in mine()}
        try:
            self.short = {k: importlib.import_module(f'{PKG}.{v}') for k, v in names.items()}
            self.mods = {m: sys.modules[m] for m in mine()}
        finally:
            if old:
                for m in mine():
                    del sys.modules[m]
                sys.modules.update(old)
        for m in self.mods.values():
            sim_datetime(m)
        self.base = self.state()
        self.custom = _CUSTOM in str(self.base)

    def state(self):
        return [_state(m) for m in self.mods.values()]

    def clean(self):
        return not self.custom and self.state() == self.base


_CUSTOM = '<unknown state>'
_SAFE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, str, bytes, int, float, complex, bool,
         type(None), type(...), np.dtype, np.generic, np.ufunc, property, staticmethod, classmethod, range,
         types.MethodDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType)


def _val(v, depth=0):
    if isinstance(v, types.FunctionType):
        if not (v.__module__ or '').startswith(PKG):
            return id(v)
        return id(v), tuple(_val(d, depth + 1) for d in v.__defaults__ or ()), len(v.__dict__)
    if isinstance(v, type):
        if (v.__module__ or '').startswith(PKG) and depth < 3:
            return id(v), tuple((k, _val(x, depth + 1)) for k, x in vars(v).items() if k not in ('__dict__', '__weakref__'))
        return id(v)
    if isinstance(v, _SAFE):
        return id(v)
    if isinstance(v, (list, set, dict, tuple, frozenset)):
        return id(v), len(v), repr(v)[:2000]
    if isinstance(v, np.ndarray):
        return id(v), v.tobytes()[:4096]
    if hasattr(v, 'cache_info'):
        return id(v), v.cache_info().currsize
    if type(v).__module__.split('.')[0] in (PKG, 'itertools', 'builtins'):
        return _CUSTOM
    return id(v)


def _state(m):
    return [(k, _val(v)) for k, v in vars(m).items() if not k.startswith('__')]


def boot(extra=False):
    if not any(f is Finder for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
    if extra:
        names.update(EXTRA)
    SETS.append(Set())
    sys.modules.update(SETS[0].mods)


def prepare(n):
    """fresh module state for n processes"""
    global rebuilt
    for k in range(max(n, 1)):
        if k >= len(SETS):
            SETS.append(Set())
        elif not SETS[k].clean():
            rebuilt += 1
            SETS[k] = Set()
            if k == 0:
                sys.modules.update(SETS[0].mods)


def get(short):
    import core
    r = core.cur_rank()
    k = 0 if r is None else r
    return SETS[k].short[short]


class LazyClass:
    """the class of the process that calls it"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        mod, cls = CLASSES[self.name]
        return getattr(get(mod), cls)(*a, **k)
