"""Regression of the array model: every expression below is run symbolically and on numpy, and compared at random values.

    /opt/venv/bin/python engine/selftest.py [-v]

Symbolic side: elements are solver variables; every path is explored, the one consistent with the values is evaluated.
Exit 1 if a value, shape or kind differs. Expressions the engine refuses (EngineLimit) are listed, they are not errors:
a path that meets one is reported as undecided."""
import math, operator, os, random, sys, warnings
from fractions import Fraction
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = VERIF
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
from engine import core, poly as P
from engine.api import make_symctx
from engine.sym import Sym, SInt, SBool, SArr, flat, as_sarr
from engine.sxp import XP

T = []


def t(name, f, *args, **kw):
    T.append((name, f, args, kw))


A, B, V, W, C, Z, K, S3, POS = ('r', (2, 3)), ('r', (3, 2)), ('r', (3,)), ('r', (3,)), ('r', (2, 2)), ('c', (2, 2)), ('c', (2, 3)), ('r', (2, 3, 2)), ('p', (3,))
SY = ('r', (2, 2))


def table():
    un = ['abs', 'conj', 'conjugate', 'real', 'imag', 'negative', 'square', 'isnan', 'isfinite', 'sign', 'transpose', 'ravel', 'sum', 'prod', 'max', 'min', 'mean', 'argmax',
          'argmin', 'sort', 'argsort', 'any', 'all', 'count_nonzero', 'copy', 'squeeze', 'shape', 'ndim', 'size', 'flip', 'fliplr', 'flipud', 'cumsum', 'cumprod', 'trace', 'diag', 'diagonal',
          'atleast_1d', 'atleast_2d', 'zeros_like', 'ones_like', 'triu', 'tril', 'rot90', 'amax', 'amin', 'unique', 'nonzero', 'iscomplexobj', 'isrealobj', 'isscalar', 'positive', 'absolute', 'vstack', 'hstack', 'floor', 'round']
    for n in un:
        t(n, lambda xp, a, n=n: getattr(xp, n)(a), A)
        if n not in ('max', 'min', 'argmax', 'argmin', 'sort', 'argsort', 'sign', 'amax', 'amin', 'unique', 'floor', 'round'):
            t(n + ' complex', lambda xp, a, n=n: getattr(xp, n)(a), K)
    # single elements and arrays without axes
    for n in un:
        if n not in ('triu', 'tril', 'rot90', 'diag', 'diagonal', 'trace', 'flip', 'fliplr', 'flipud', 'nonzero', 'unique', 'sort', 'argsort', 'vstack', 'hstack'):
            t(n + ' element', lambda xp, a, n=n: getattr(xp, n)(a[0]), V)
            t(n + ' no axes', lambda xp, a, n=n: getattr(xp, n)(xp.sum(a, keepdims=True).reshape(())), V)
            t(n + ' 0-d', lambda xp, a, n=n: getattr(xp, n)(xp.array(a[0])), V)
    for n in ['add', 'multiply', 'dot', 'inner', 'outer', 'kron', 'vdot', 'equal', 'maximum', 'allclose', 'isclose', 'array_equal']:
        t(n + ' elements', lambda xp, a, b, n=n: getattr(xp, n)(a[0], b[1]), V, W)
        n == 'vdot' or t(n + ' element and array', lambda xp, a, b, n=n: getattr(xp, n)(a[0], b), V, W)
    t('tensordot elements', lambda xp, a, b: xp.tensordot(a[0], b, axes=0), V, W)
    t('tensordot 0-d', lambda xp, a, b: xp.tensordot(xp.array(a[0]), xp.array(b[0]), axes=0), V, W)
    t('einsum element', lambda xp, a, b: xp.einsum(',j->j', a[0], b), V, W)
    t('einsum elements', lambda xp, a, b: xp.einsum(',->', a[0], b[0]), V, W)
    for n in ['reshape', 'broadcast_to']:
        t(n + ' element', lambda xp, a, n=n: getattr(xp, n)(a[0], (1, 1)), V)
    t('full element', lambda xp, a: xp.full((2, 2), a[0]), V)
    t('full_like', lambda xp, a: xp.full_like(a, a[1]), V)
    t('where elements', lambda xp, a: xp.where(a[0] > a[1], a[0], a[1]), V)
    t('stack elements', lambda xp, a: xp.stack([a[0], a[2]]), V)
    t('append element', lambda xp, a: xp.append(a, a[0]), V)
    t('expand_dims element', lambda xp, a: xp.expand_dims(a[0], 0), V)
    t('copy method element', lambda xp, a: a[0].copy(), V)
    t('astype element', lambda xp, a: a[0].astype(complex), V)
    t('moveaxis 0-d', lambda xp, a: xp.moveaxis(xp.array(a[0]), [], []), V)
    t('norm element', lambda xp, a: xp.linalg.norm(a[0]), V)
    t('norm 0-d', lambda xp, a: xp.linalg.norm(xp.array(a[0])), V)
    t('asarray element', lambda xp, a: xp.asarray(a[0]), V)
    t('ascontiguousarray', lambda xp, a: xp.ascontiguousarray(a), A)
    t('item element', lambda xp, a: a[0].item(), V)
    t('flatten element', lambda xp, a: xp.array(a[0]).flatten(), V)
    t('index 0-d', lambda xp, a: xp.array(a[0])[()], V)
    t('index none 0-d', lambda xp, a: xp.array(a[0])[None], V)
    t('index ellipsis 0-d', lambda xp, a: xp.array(a[0])[...], V)
    t('linalg.norm complex 0-d', lambda xp, a: xp.linalg.norm(xp.array(a[0, 0])), Z)
    for n in ['sqrt', 'exp', 'reciprocal', 'sinh', 'cosh', 'tanh']:
        t(n, lambda xp, a, n=n: getattr(xp, n)(a), POS)
    for n in ['add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal', 'dot', 'inner', 'outer', 'kron', 'vdot', 'array_equal',
              'allclose', 'isclose', 'cross', 'correlate']:
        t(n, lambda xp, a, b, n=n: getattr(xp, n)(a, b), V, W)
        if n in ('add', 'multiply', 'dot', 'inner', 'outer', 'kron', 'vdot', 'equal'):
            t(n + ' complex', lambda xp, a, b, n=n: getattr(xp, n)(a, b), Z, Z)
    t('matmul', lambda xp, a, b: xp.matmul(a, b), A, B)
    t('@', lambda xp, a, b: a @ b, A, B)
    t('@ vec', lambda xp, a, b: a @ b, A, V)
    t('@ complex', lambda xp, a, b: a @ b, Z, K)
    t('T', lambda xp, a: a.T, A)
    for ax in (0, 1, -1):
        for n in ('argmax', 'argmin', 'argsort', 'sort', 'count_nonzero', 'var', 'sum', 'max', 'cumsum', 'mean', 'any', 'prod'):
            t('%s axis %d' % (n, ax), lambda xp, a, n=n, ax=ax: getattr(xp, n)(a, axis=ax), A)
        t('norm axis %d' % ax, lambda xp, a, ax=ax: xp.linalg.norm(a, axis=ax), A)
        t('norm axis keep %d' % ax, lambda xp, a, ax=ax: xp.linalg.norm(a, axis=ax, keepdims=True), A)
        t('argmax method %d' % ax, lambda xp, a, ax=ax: a.argmax(axis=ax), A)
        t('sum method %d' % ax, lambda xp, a, ax=ax: a.sum(axis=ax, keepdims=True), A)
    t('einsum lists', lambda xp, a, b: xp.einsum(a, [0, 1], b, [1, 2], [0, 2]), A, B)
    t('einsum lists no out', lambda xp, a, b: xp.einsum(a, [0, 1], b, [1, 2]), A, B)
    t('einsum lists big', lambda xp, a, b: xp.einsum(a, [30, 1], b, [1, 27], [27, 30]), A, B)
    t('einsum lists ellipsis', lambda xp, a, b: xp.einsum(a, [Ellipsis, 1], b, [1, Ellipsis], [Ellipsis]), C, C)
    t('det3', lambda xp, a: xp.linalg.det(a.reshape(3, 3)), ('r', (9,)))
    t('std', lambda xp, a: xp.std(a), A)
    t('sort method', lambda xp, a: xp.sort(a, axis=None), A)
    t('sort inplace', lambda xp, a: (a.sort(), a)[1], V)
    t('argsort method', lambda xp, a: a.argsort(), V)
    t('argsort reverse', lambda xp, a: a[a.argsort()[::-1]], V)
    t('norm row', lambda xp, a: xp.linalg.norm(a[0]), A)
    t('norm -inf', lambda xp, a: xp.linalg.norm(a, -xp.inf), V)
    t('scalar ops', lambda xp, a: 2 * a + 1 - a / 2 + a ** 2 - (-a), A)
    t('pow', lambda xp, a: xp.power(a, 3), A)
    t('power .5', lambda xp, a: a ** 0.5, POS)
    t('power -1', lambda xp, a: a ** -1, POS)
    t('power 2.0', lambda xp, a: a ** 2.0, A)
    t('idiv', lambda xp, a: (a.__itruediv__(2.0)), A)
    t('imul', lambda xp, a, b: a.__imul__(b), V, W)
    t('getitem', lambda xp, a: a[0], A)
    t('getitem2', lambda xp, a: a[:, 1:], A)
    t('getitem3', lambda xp, a: a[..., ::-1], A)
    t('getitem4', lambda xp, a: a[[1, 0]], A)
    t('getitem5', lambda xp, a: a[:, [2, 0]], A)
    t('getitem6', lambda xp, a: a[xp.ix_([0, 1], [2, 0])], A)
    t('newaxis', lambda xp, a: a[:, None] * a[None, :], V)
    t('mask', lambda xp, a: a[a > 0], V)
    t('setitem', setitem, A)
    t('fill_diagonal', fill_diagonal, C)
    t('itemset', lambda xp, a: a.item(1), V)
    t('tolist', lambda xp, a: xp.array(a.tolist()), A)
    t('flatten', lambda xp, a: a.flatten(), S3)
    t('reshape', lambda xp, a: a.reshape(4, 3), S3)
    t('reshape-1', lambda xp, a: xp.reshape(a, (-1, 2)), S3)
    t('transpose axes', lambda xp, a: xp.transpose(a, (2, 0, 1)), S3)
    t('moveaxis', lambda xp, a: xp.moveaxis(a, 0, -1), S3)
    t('moveaxis2', lambda xp, a: xp.moveaxis(a, [0, 1], [-1, 0]), S3)
    t('rollaxis', lambda xp, a: xp.rollaxis(a, 2), S3)
    t('swapaxes', lambda xp, a: xp.swapaxes(a, 0, 2), S3)
    t('expand_dims', lambda xp, a: xp.expand_dims(a, 1), A)
    t('sum axis', lambda xp, a: xp.sum(a, axis=1), S3)
    t('sum axes', lambda xp, a: a.sum(axis=(0, 2)), S3)
    t('sum keep', lambda xp, a: a.sum(axis=0, keepdims=True), S3)
    t('py sum', lambda xp, a: sum(a), V)
    t('max axis', lambda xp, a: a.max(axis=0), C)
    t('tensordot', lambda xp, a, b: xp.tensordot(a, b, axes=([1, 2], [0, 1])), S3, B)
    t('tensordot1', lambda xp, a, b: xp.tensordot(a, b, axes=1), A, B)
    t('tensordot0', lambda xp, a, b: xp.tensordot(a, b, axes=0), V, W)
    t('einsum', lambda xp, a, b: xp.einsum('ijk,jl->kil', a, b), S3, B)
    t('einsum trace', lambda xp, a: xp.einsum('ii', a), C)
    t('einsum diag', lambda xp, a: xp.einsum('ii->i', a), C)
    t('einsum implicit', lambda xp, a, b: xp.einsum('ij,jk', a, b), A, B)
    t('einsum ops', lambda xp, a, b: xp.einsum(a, [0, 1], b, [1, 2], [2, 0]), A, B)
    t('einsum ellipsis', lambda xp, a, b: xp.einsum('i...,ij->j...', a, b), A, C)
    t('einsum 3', lambda xp, a, b, c: xp.einsum('ab,bc,cd->ad', a, b, c), C, C, C)
    t('norm', lambda xp, a: xp.linalg.norm(a), A)
    t('norm complex', lambda xp, a: xp.linalg.norm(a), K)
    t('norm 1', lambda xp, a: xp.linalg.norm(a, 1), V)
    t('norm inf', lambda xp, a: xp.linalg.norm(a, xp.inf), V)
    t('inv', lambda xp, a: xp.linalg.inv(a), C)
    t('det', lambda xp, a: xp.linalg.det(a), C)
    t('multi_dot', lambda xp, a, b: xp.linalg.multi_dot([a, b, a]), A, B)
    t('matrix_power', lambda xp, a: xp.linalg.matrix_power(a, 2), C)
    t('svd recon', svd_recon, A)
    t('svd recon thin', svd_thin, A)
    t('eigh recon', eigh_recon, SY)
    t('stack', lambda xp, a, b: xp.stack([a, b], axis=1), V, W)
    t('concatenate', lambda xp, a, b: xp.concatenate([a, b]), V, W)
    t('append', lambda xp, a, b: xp.append(a, b), V, W)
    t('hstack2', lambda xp, a, b: xp.hstack((a, b)), V, W)
    t('column_stack', lambda xp, a, b: xp.column_stack((a, b)), V, W)
    t('tile', lambda xp, a: xp.tile(a, 2), V)
    t('repeat', lambda xp, a: xp.repeat(a, 2), V)
    t('broadcast_to', lambda xp, a: xp.broadcast_to(a, (2, 3)), V)
    t('where', lambda xp, a: xp.where(a > 0, a, 0.0), V)
    t('where1', lambda xp, a: len(xp.where(a > 0)[0]), V)
    t('clip', lambda xp, a: xp.clip(a, -0.5, 0.5), V)
    t('diag2', lambda xp, a: xp.diag(a), V)
    t('diagflat', lambda xp, a: xp.diagflat(a), V)
    t('eye', lambda xp, a: xp.eye(2) + a, C)
    t('identity', lambda xp, a: xp.identity(2) * a, C)
    t('zeros', lambda xp, a: xp.zeros((2, 2)) + a, C)
    t('empty', emptied, C)
    t('full', lambda xp, a: xp.full((2, 2), a[0, 0]), C)
    t('astype', lambda xp, a: a.astype(complex), C)
    t('asarray', lambda xp, a: xp.asarray(a) * 2, C)
    t('array list', lambda xp, a: xp.array([[a[0, 0], 1], [2, a[1, 1]]]), C)
    t('array copy', lambda xp, a: xp.array(a, copy=True), C)
    t('ndarray.copy', lambda xp, a: a.copy(), C)
    t('ndarray.conj', lambda xp, a: a.conj().T, Z)
    t('ndarray.dot', lambda xp, a, b: a.dot(b), A, B)
    t('real attr', lambda xp, a: a.real + a.imag, Z)
    t('abs builtin', lambda xp, a: abs(a), Z)
    t('iterate', lambda xp, a: sum(x * (i + 1) for i, x in enumerate(a)), V)
    t('ndenumerate', lambda xp, a: sum(x * (i[0] + 2 * i[1]) for i, x in xp.ndenumerate(a)), A)
    t('ndindex', lambda xp, a: sum(a[i] * (i[0] + 2 * i[1]) for i in xp.ndindex(*a.shape)), A)
    t('nditer', lambda xp, a: sum(float(x) if not isinstance(x, SArr) else x.item() for x in xp.nditer(a)), A)
    t('flat', lambda xp, a: sum(x * (i + 1) for i, x in enumerate(a.flat)), A)
    t('len', lambda xp, a: len(a), A)
    t('prod shape', lambda xp, a: int(xp.prod(a.shape)) * a, A)
    t('unravel', lambda xp, a: a[xp.unravel_index(3, a.shape)], A)
    t('take', lambda xp, a: xp.take(a, [1, 0]), V)
    t('take axis', lambda xp, a: xp.take(a, 1, axis=1), A)
    t('delete', lambda xp, a: xp.delete(a, 1), V)
    t('roll', lambda xp, a: xp.roll(a, 1), V)
    t('split', lambda xp, a: xp.split(a, 3)[1], V)
    t('add.reduce', lambda xp, a: xp.add.reduce(a), V)
    t('multiply.outer', lambda xp, a, b: xp.multiply.outer(a, b), V, W)
    t('apply', lambda xp, a: xp.apply_along_axis(lambda x: x * 2, 0, a), A)
    t('vectorize', lambda xp, a: xp.array(list(map(lambda x: x * x, a))), V)
    t('math.sqrt', lambda xp, a: msqrt(xp, a), POS)
    t('compare any', lambda xp, a: bool((a > 0).any()), V)
    t('compare all', lambda xp, a: bool(xp.all(a > -10)), V)
    t('logical', lambda xp, a: xp.logical_and(a > 0, a < 1), V)
    t('bool &', lambda xp, a: ((a > 0) & (a < 1)) | (a > 2), V)
    t('bool ~', lambda xp, a: ~(a > 0), V)
    t('bool sum', lambda xp, a: (a > 0).sum(), V)
    t('sorted', lambda xp, a: xp.array(sorted(a)), V)
    t('sorted rev', lambda xp, a: xp.sort(a)[::-1], V)
    t('argsort -', lambda xp, a: xp.argsort(-a), V)
    t('searchsorted', lambda xp, a: xp.searchsorted(xp.sort(a), 0.0), V)
    t('max builtin', lambda xp, a: max(a), V)
    t('min key', lambda xp, a: min(list(a), key=lambda x: -x), V)
    t('block', lambda xp, a: xp.block([[a, a], [a, a]]), C)
    t('linalg.trace', lambda xp, a: xp.trace(a @ a), C)
    t('trace axes', lambda xp, a: xp.trace(a, axis1=0, axis2=2), S3)
    t('diagonal axes', lambda xp, a: xp.diagonal(a, axis1=0, axis2=2), S3)
    t('view T', viewT, C)
    t('inplace add', iadd, C)
    t('float format', lambda xp, a: float(a[0]) if not isinstance(a, SArr) else a[0], V)
    t('complex mul', lambda xp, a: a * 1j, C)
    t('angle free', lambda xp, a: (a * a.conj()).real, Z)
    t('mean axis', lambda xp, a: a.mean(axis=0), A)
    t('var', lambda xp, a: xp.var(a), V)
    t('log', lambda xp, a: xp.exp(xp.log(a)), POS)
    t('log2', lambda xp, a: xp.log2(a), POS)
    t('log10', lambda xp, a: xp.log10(a) + xp.log1p(a), POS)
    t('log of product', lambda xp, a: xp.log(a[0] * a[1] / 3) * a[0], POS)
    t('log of sum', lambda xp, a: xp.log(a[0] * a[1] + a[0] * a[0]), POS)
    t('log of exp', lambda xp, a: xp.log(xp.exp(a) * a), POS)
    t('log of norm', lambda xp, a: xp.log(xp.linalg.norm(a)), POS)
    t('exp of log', lambda xp, a: xp.exp(4 * xp.log(a) - 2 * xp.log(a + 1)), POS)
    t('exp of log/2', lambda xp, a: xp.exp(0.5 * xp.log(a)), POS)
    t('fourth root', lambda xp, a: a ** 0.25, POS)
    t('root 1/8', lambda xp, a: (1 - a ** (-4)) ** 0.125 if (a > 1).all() else a, POS)
    t('cube root', lambda xp, a: (a ** 3 + 8) ** (1 / 4), POS)
    t('ufunc where', lambda xp, a: xp.abs(a) < 1e-3, V)
    t('linspace', lambda xp, a: xp.linspace(0, 1, 3) * a, V)
    t('arange', lambda xp, a: xp.arange(3) * a, V)
    t('meshgrid', lambda xp, a: xp.meshgrid(a, a)[0], V)
    t('polyval', lambda xp, a: xp.polyval(a, 2), V)
    t('interp int', lambda xp, a: a[int(1)], V)


def setitem(xp, a):
    b = xp.zeros((2, 3))
    b[0] = a[1]
    b[1, 1:] = a[0, :2]
    b[0, 0] += 3
    return b


def fill_diagonal(xp, a):
    xp.fill_diagonal(a, 2.0)
    return a


def emptied(xp, a):
    e = xp.empty((2, 2))
    e[...] = a
    return e


def svd_recon(xp, a):
    u, s, v = xp.linalg.svd(a)
    return ('contract', (u[:, :2] * s) @ v[:2], a)


def svd_thin(xp, a):
    u, s, v = xp.linalg.svd(a, full_matrices=False)
    return ('contract', u @ xp.diag(s) @ v, a)


def eigh_recon(xp, a):
    m = a + a.T
    w, v = xp.linalg.eigh(m)
    return ('contract', (v * w) @ v.T, m)


def msqrt(xp, a):
    return xp.array([x ** 0.5 for x in a])


def viewT(xp, a):
    b = a.T
    b[0, 1] = 7
    return a


def iadd(xp, a):
    b = a
    b += 1
    b *= 2
    b -= a * 0
    return a


class Eval:
    def __init__(self, c, vals):
        self.c, self.vals, self.memo, self.model = c, dict(vals), {}, None
        self.quot = {}
        for k, q in c._quot_cache.items():
            if isinstance(q, P.Poly) and isinstance(k, tuple) and len(k) == 2:
                (m, _), = q.t.items()
                self.quot[m[0][0]] = k
        self.exps = {}
        for k, q in c._exp_cache.items():
            (m, _), = q.t.items()
            self.exps[m[0][0]] = k

    def var(self, v):
        if v in self.vals:
            return self.vals[v]
        if v in self.memo:
            return self.memo[v]
        if v in self.c.sqrt_of:
            r = math.sqrt(max(0, self.poly(self.c.sqrt_of[v])))
        elif v in self.quot:
            a, b = self.quot[v]
            r = self.poly(P.Poly(dict(a)) if isinstance(a, frozenset) else a) / self.poly(P.Poly(dict(b)))
        elif v in self.c.log_of:
            r = math.log(self.poly(self.c.log_of[v]))
        elif v in self.exps:
            m, f = self.exps[v]
            r = math.exp(float(f) * (self.mono(m) if m else 1))
        else:
            # defined by constraints only: the inputs are pinned, so any model has its value
            if self.model is None:
                for h in self.c.hyps:
                    self.c.solver.add(self.c.z(h) == 0)
                if self.c.solver.check() != core.z3.sat:
                    raise KeyError(self.c.vars[v].name)
                self.model = self.c.solver.model()
            z = self.model.eval(self.c.vars[v].z, model_completion=True)
            r = float(z.approx(30).as_fraction()) if core.z3.is_algebraic_value(z) else float(z.as_fraction() if hasattr(z, 'as_fraction') else z.as_long())
        self.memo[v] = r
        return r

    def mono(self, m):
        r = 1.0
        for v, e in m:
            r *= self.var(v) ** e
        return r

    def poly(self, p):
        if not isinstance(p, P.Poly):
            return float(p)
        return sum(float(k) * self.mono(m) for m, k in p.t.items())


def value(ev, x):
    if isinstance(x, SArr):
        return np.array([value(ev, y) for y in flat(x)]).reshape(x.shape)
    if isinstance(x, Sym):
        r, i = ev.poly(x.re), ev.poly(x.im)
        return complex(r, i) if x.vdt.kind == 'c' else r
    if isinstance(x, SInt):
        return int(round(ev.poly(x.p)))
    if isinstance(x, (tuple, list)):
        return [value(ev, y) for y in x]
    return x


def main():
    import z3
    table()
    verbose = '-v' in sys.argv
    SymCtx = make_symctx()
    rng = np.random.default_rng(5)
    bad, limits = [], []
    for name, f, args, kw in T:
        vals = []
        for kind, shape in args:
            a = np.round(rng.standard_normal(shape) * 8) / 8 + 1 / 64
            if kind == 'c':
                a = a + 1j * np.round(rng.standard_normal(shape) * 8) / 8
            if kind == 'p':
                a = abs(a) + 0.5
            vals.append(a)
        try:
            want = f(np, *[v.copy() for v in vals])
        except Exception as e:
            bad.append((name, 'numpy: %s' % e))
            continue
        stack, hit, lim = [()], None, None
        n = 0
        while stack and hit is None and n < 400:
            n += 1
            c = SymCtx(stack.pop(), core.Stats(), query_timeout=10000)
            ins, pin = [], []
            try:
                for k, ((kind, shape), v) in enumerate(zip(args, vals)):
                    ins.append(c.array('x%d' % k, shape, kind == 'c', lo=0.25 if kind == 'p' else None))
                num = {}
                for k, v in enumerate(vals):
                    shape, reg, cplx = c.inputs['x%d' % k][1]
                    for (r, i), x in zip(reg, v.reshape(-1)):
                        for p, y in ((r, x.real), (i, x.imag)):
                            if isinstance(p, P.Poly):
                                (m, _), = p.t.items()
                                num[m[0][0]] = float(y)
                                pin.append((p, Fraction(float(y))))
                for p, y in pin:
                    c.add(c.z(p) == z3.RealVal(y))
                got = f(XP, *ins)
                if isinstance(got, tuple) and len(got) == 3 and got[0] == 'contract':
                    c.eq(got[1], got[2], 'contract')
                    hit = ('ok', None)
                    break
                if isinstance(got, SBool):
                    got = bool(got)
                if isinstance(got, SArr):
                    for y in flat(got):
                        if isinstance(y, SBool):
                            got = np.array([bool(z) if isinstance(z, SBool) else z for z in flat(got)]).reshape(got.shape)
                            break
                if c.solver.check() == z3.unsat:
                    raise core.PathPruned("other values")
                ev = Eval(c, num)
                hit = ('value', value(ev, got), got)
            except (core.PathPruned, core.Skip):
                pass
            except core.EngineLimit as e:
                lim = str(e)
                break
            except Exception as e:
                lim = '%s: %s' % (type(e).__name__, e)
                break
            stack.extend(tuple(a) for a in c.alternatives)
        if hit is None:
            limits.append((name, lim or 'no path'))
            continue
        if hit[0] == 'ok':
            continue
        g, w = hit[1], want
        try:
            ga, wa = np.asarray(g), np.asarray(w)
            okay = ga.shape == wa.shape and np.allclose(ga.astype(complex), wa.astype(complex), rtol=1e-9, atol=1e-9)
            raw = hit[2]
            if okay and isinstance(raw, SArr) and isinstance(w, np.ndarray) and w.dtype.kind in 'fc':
                okay = raw.dtype.kind == w.dtype.kind
        except Exception as e:
            okay = False
        if not okay:
            bad.append((name, 'got %r, numpy %r' % (g, w)))
        elif verbose:
            print('ok', name)
    ints = [('%s %d' % (n, m), lambda x, f=f, m=m: f(x, m)) for n, f in (('&', operator.and_), ('|', operator.or_), ('^', operator.xor), ('r&', lambda x, m: m & x), ('//', operator.floordiv),
            ('%', operator.mod), ('divmod', divmod), ('+', operator.add), ('*', operator.mul)) for m in (1, 2, 3, 5, 12, 13, 21, -1, -4, -7)]
    ints += [('%s %d' % (n, m), lambda x, f=f, m=m: f(x, m)) for n, f in (('>>', operator.rshift), ('<<', operator.lshift), ('**', operator.pow), ('1<<', lambda x, m: 1 << m & x)) for m in (0, 1, 3)]
    ints += [('r//', lambda x: 17 // x if x != 0 else 0), ('r%', lambda x: -17 % x if x != 0 else 0), ('~', lambda x: ~x), ('abs', abs), ('bit_length', lambda x: x.bit_length()), ('bool', bool), ('max', lambda x: max(x, 3)),
             ('round half', lambda x: int(x / 2 + 0.5)), ('range', lambda x: len(range(x))), ('hex', lambda x: [(x >> k) & 1 for k in range(6)])]
    for name, f in ints:
        for v in (-21, -8, -1, 0, 1, 2, 6, 13, 40):
            want, hit, lim, stack = f(v), None, None, [()]
            while stack and hit is None and lim is None:
                c = SymCtx(stack.pop(), core.Stats(), query_timeout=10000)
                try:
                    x = c.int('n', -50, 50)
                    c.add(c.z(x.p) == v)
                    got = f(x)
                    if c.solver.check() == core.z3.unsat:
                        raise core.PathPruned("other values")
                    hit = ('v', value(Eval(c, {}), got))
                except (core.PathPruned, core.Skip):
                    pass
                except core.EngineLimit as e:
                    lim = str(e)
                stack.extend(tuple(a) for a in c.alternatives)
            if hit is None:
                limits.append(('int %s of %d' % (name, v), lim or 'no path'))
            elif np.asarray(hit[1]).tolist() != np.asarray(want).tolist():
                bad.append(('int %s of %d' % (name, v), 'got %r, python %r' % (hit[1], want)))
    for n, e in limits:
        print('not modelled:', n, '(%s)' % e)
    for n, e in bad:
        print('MISMATCH', n, e)
    print('%d expressions, %d agree, %d not modelled, %d differ' % (len(T) + 9 * len(ints), len(T) + 9 * len(ints) - len(limits) - len(bad), len(limits), len(bad)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
