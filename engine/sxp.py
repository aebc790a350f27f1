"""The symbolic array library installed as CTL.funcs.xplib.xp (and as `numpy` / `math` inside CTL modules)."""
import math as _math
import types
from fractions import Fraction
import numpy as np
from . import poly as P
from .core import EngineLimit
from .sym import (Sym, SInt, SBool, SArr, as_sarr, has_sym, fill, conc_shape, cast, ctx, F64, C128, I64, deep_dtype, flat,
                  run_ufunc, run_function, np_eye, lift, tofl)


class SymNumpy(types.ModuleType):
    """numpy, with array creation and numeric functions producing symbolic arrays"""

    def __init__(self, name='numpy', base=np):
        types.ModuleType.__init__(self, name)
        self.__dict__['_base'] = base
        self.__dict__['__name__'] = name

    def __getattr__(self, name):
        o = OVER.get((self._base.__name__, name))
        if o is not None:
            return o
        v = getattr(self._base, name)      # AttributeError propagates as for numpy itself
        if isinstance(v, np.ufunc):
            return ufunc_proxy(v)
        if isinstance(v, types.ModuleType) and v.__name__.startswith('numpy.'):
            m = _submods.get(v.__name__)
            if m is None:
                m = _submods[v.__name__] = SymNumpy(v.__name__, v)
            return m
        if v in FUNCS_HASHABLE() if _hashable(v) else False:
            return func_proxy(v)
        return v


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def FUNCS_HASHABLE():
    from .sym import FUNCS
    return FUNCS


_submods = {}
_proxies = {}


class _UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        # numbers are lifted too, so that e.g. sqrt(2) and exp(0.3) stay exact
        if self.__name__ in _EXACT or has_sym(args):
            ins, outs = args[:self._uf.nin], args[self._uf.nin:]
            if outs:
                kw['out'] = outs
            return run_ufunc(self._uf, '__call__', ins, kw)
        return self._uf(*args, **kw)

    def outer(self, *args, **kw):
        return run_ufunc(self._uf, 'outer', args, kw) if has_sym(args) else self._uf.outer(*args, **kw)

    def reduce(self, *args, **kw):
        if len(args) > 1:
            kw['axis'] = args[1]
        return run_ufunc(self._uf, 'reduce', args[:1], kw) if has_sym(args) else self._uf.reduce(*args, **kw)

    def accumulate(self, *args, **kw):
        return run_ufunc(self._uf, 'accumulate', args[:1], kw) if has_sym(args) else self._uf.accumulate(*args, **kw)

    def __getattr__(self, n):
        return getattr(self._uf, n)


_EXACT = {'sqrt', 'exp', 'cosh', 'sinh', 'tanh'}


def ufunc_proxy(v):
    p = _proxies.get(v)
    if p is None:
        p = _proxies[v] = _UfuncProxy(v)
    return p


def func_proxy(v):
    p = _proxies.get(v)
    if p is None:
        def p(*args, **kw):
            if has_sym(args) or has_sym(kw):
                return run_function(v, args, kw)
            return v(*args, **kw)
        p.__name__ = v.__name__
        p.__wrapped__ = v
        _proxies[v] = p
    return p


OVER = {}


def over(mod, *names):
    def deco(f):
        for n in names:
            OVER[(mod, n)] = f
        return f
    return deco


def _dt(dtype, default=F64):
    if dtype is None:
        return default
    if dtype in ('float',):
        return F64
    n = getattr(dtype, '__name__', None)
    if n == 'float' and not isinstance(dtype, np.dtype):
        return F64
    if n == 'int' and not isinstance(dtype, np.dtype):
        return I64
    return np.dtype(dtype)


@over('numpy', 'zeros', 'empty')
def zeros(shape, dtype=None, order='C', **k):
    return fill(shape, 0, _dt(dtype))


@over('numpy', 'ones')
def ones(shape, dtype=None, order='C', **k):
    return fill(shape, 1, _dt(dtype))


@over('numpy', 'full')
def full(shape, v, dtype=None, **k):
    return fill(shape, v, _dt(dtype, deep_dtype(v)))


@over('numpy', 'eye')
def eye(N, M=None, k=0, dtype=None, **kw):
    N = N.__index__()
    M = N if M is None else M.__index__()
    dt = _dt(dtype)
    return SArr.make((N, M), [cast(1 if j - i == k else 0, dt) for i in range(N) for j in range(M)], dt)


@over('numpy', 'identity')
def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


@over('numpy', 'array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(x, (list, tuple)) and not has_sym(x):
        a = np.array(x)
        if a.dtype == object:
            raise EngineLimit("object array")
        x = a
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in 'biuSU' and dtype is None:
        return np.array(x)
    r = as_sarr(x, None if dtype is None else _dt(dtype))
    if r is x:
        r = np.copy(r)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


@over('numpy', 'asarray', 'ascontiguousarray', 'asanyarray')
def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and (dtype is None or _dt(dtype) == x._vdt):
        return x
    return array(x, dtype=dtype)


@over('numpy', 'diag')
def diag(v, k=0):
    v = as_sarr(v)
    if v.ndim == 1:
        n = v.shape[0]
        r = fill((n + abs(k), n + abs(k)), 0, v._vdt)
        for i in range(n):
            r[i + max(0, -k), i + max(0, k)] = v[i]
        return r
    return np.diagonal(v, k).copy()


@over('numpy', 'asnumpy')
def asnumpy(x):
    raise AttributeError("module 'numpy' has no attribute 'asnumpy'")


del OVER[('numpy', 'asnumpy')]


@over('numpy', 'sum')
def sum_(a, *args, **kw):
    if has_sym(a):
        return run_function(np.sum, (a,) + args, kw)
    if hasattr(a, '__next__'):
        raise EngineLimit("np.sum of a generator")
    return np.sum(a, *args, **kw)


def _rand(name):
    def f(shape=None, *more, **k):
        if shape is None and 'size' in k:
            shape = k['size']
        c = ctx()
        if shape is None:
            v = c.new_var('rnd', nonneg=True)
            c.add(c.z(v) < 1)
            return Sym(v)
        shape = conc_shape(shape)
        n = 1
        for s in shape:
            n *= s
        els = []
        for _ in range(n):
            v = c.new_var('rnd', nonneg=True)
            c.add(c.z(v) < 1)
            els.append(Sym(v))
        return SArr.make(shape, els, F64)
    return f


for _n in ('random_sample', 'random', 'ranf', 'sample'):
    OVER[('numpy.random', _n)] = _rand(_n)
OVER[('numpy.random', 'rand')] = lambda *s: _rand('rand')(tuple(s) if s else None)


class SymMath(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, name):
        v = getattr(_math, name)
        if not callable(v):
            return v

        def f(*a, **k):
            if not has_sym(a):
                if name in ('sqrt', 'exp', 'cosh', 'sinh', 'tanh'):
                    return getattr(tofl(a[0]), name)()
                return v(*a, **k)
            if name in ('sqrt', 'exp', 'cosh', 'sinh', 'tanh', 'log', 'log2', 'log10', 'log1p', 'expm1') and len(a) == 1:
                return getattr(tofl(a[0]), name)()
            if name == 'floor':
                return a[0].__floor__() if isinstance(a[0], Sym) else a[0]
            if name == 'ceil':
                return a[0].__ceil__() if isinstance(a[0], Sym) else a[0]
            if name == 'trunc':
                return a[0].__trunc__()
            if name == 'fabs':
                return abs(tofl(a[0]))
            if name == 'prod':
                r = k.get('start', 1)
                for x in a[0]:
                    r = r * x
                return r
            if name == 'pow':
                return tofl(a[0]) ** a[1]
            if name == 'fsum':
                r = 0
                for x in a[0]:
                    r = r + x
                return r
            if name == 'isclose':
                x, y = a[0], a[1]
                rt, at = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
                ax, ay = abs(x), abs(y)
                m = ax if bool(ax >= ay) else ay
                t = rt * m
                t = t if bool(t >= at) else at
                return abs(x - y) <= t
            if name in ('isnan', 'isinf'):
                return False
            if name == 'isfinite':
                return True
            if name in ('isqrt', 'comb', 'factorial', 'perm', 'gcd'):
                return v(*[x._conc() if isinstance(x, SInt) else x for x in a])
            if name == 'copysign':
                r = abs(tofl(a[0]))
                return r if bool(a[1] >= 0) else -r
            raise EngineLimit("math." + name)
        f.__name__ = name
        return f


XP = SymNumpy()
MATH = SymMath()
