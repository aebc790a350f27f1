"""P05: tensor construction is consistent or refused, and owns its data"""
import itertools
from props.common import *

BOUNDS = "Shapes of rank 0..4 with dimensions 1..4 (selected ones of up to 9 legs and dimension 60); every combination of the four pieces, compatible and incompatible."


def rowmajor(c, a, shape):
    """reference regrouping: same elements in row-major order"""
    out = c.zeros(shape, c.is_complex(a))
    for src, dst in zip(c.idx(a.shape), c.idx(shape)):
        out[dst] = a[src]
    return out


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


SHAPES = [(), (1,), (3,), (2, 2), (2, 3), (1, 2), (2, 1, 3), (2, 2, 2), (3, 1, 1), (1, 2, 1, 2)]
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def own_legs(c, kind, dims, names):
    """legs of another tensor, reused"""
    src = c.lib.TensorLike(shape=tuple(dims), labels=list(names))
    return list(src.legs)


def check(c, t, shape, labels, data, legs, what):
    n = len(shape)
    c.ok(tuple(t.shape) == tuple(shape), what + ": shape")
    c.ok(len(t.legs) == n and t.dim == n, what + ": number of legs")
    c.ok([l.dim for l in t.legs] == list(shape), what + ": leg dimensions")
    c.ok(list(t.labels) == list(labels) and [l.name for l in t.legs] == list(labels), what + ": labels")
    c.ok(all(l.tensor is t for l in t.legs), what + ": legs belong to the tensor")
    if legs is not None:
        c.ok(len(legs) == n and all(x is y for x, y in zip(t.legs, legs)), what + ": the given legs are used")
    if data is not None:
        c.eq(c.dense(t), data, what + ": elements")
    c.invariant(t, what)


LARGE = [(2,) * 5, (2, 1, 2, 1, 3, 1), (11,), (13, 3), (3, 13), (60,), (2,) * 6, (10, 11), (11, 10), (1,) * 8 + (3,), (4, 4, 4), (2, 3, 2, 5)]


def dense_ok(c, shapes=SHAPES):
    """every compatible combination for an ordinary tensor"""
    shape = c.choose('shape', shapes)
    n = len(shape)
    use = c.choose('pieces', ['s', 'd', 'l', 'sd', 'sl', 'dl', 'sdl'])
    lab = c.choose('labels', [None, 'list', 'tuple'])
    cplx = bool(c.choose('cplx', [0, 1])) if 'd' in use else False
    labels = {'list': ['x%d' % i for i in range(n)], 'tuple': tuple('x%d' % i for i in range(n))}.get(lab)
    kw = {}
    legs = None
    if 'l' in use:
        legs = own_legs(c, 'd', shape, ['x%d' % i for i in range(n)])
        kw['legs'] = list(legs)
    if 's' in use:
        kw['shape'] = list(shape) if c.choose('shape type', [0, 1]) else tuple(shape)
    data = None
    if 'd' in use:
        regroup = [shape]
        if 's' in use or 'l' in use:
            regroup += [x for x in shapes + ([(4, 8), (4, 3), (3, 1, 2, 2), (6, 10), (64,), (110,), (3,), (2, 32), (8, 8)] if shapes is LARGE else []) if prod(x) == prod(shape) and x != shape][:3]
        dsh = c.choose('data shape', regroup)
        data = c.array('data', dsh, cplx)
        data = layout(c, data, c.choose('layout', ['C', 'F', 'S', 'R'] if len(dsh) > 1 else ['C', 'S', 'R']))
        kw['data'] = data
    if labels is not None:
        kw['labels'] = labels
    given = data.copy() if data is not None else None
    t = c.lib.Tensor(name='T', degreeOfFreedom=3, **kw)
    want = labels if labels is not None else (['x%d' % i for i in range(n)] if legs is not None else list(LETTERS[:n]))
    ref = rowmajor(c, given, tuple(shape)) if data is not None else None
    check(c, t, shape, want, ref, legs, "Tensor(%s)" % use)
    c.ok(t.name == 'T' and t.degreeOfFreedom == 3, "name and degree of freedom")
    c.ok(not t.diagonalFlag and not t.tensorLikeFlag, "kind")
    c.ok(t.a is not None, "has data")
    if data is not None:
        c.ok(c.is_complex(t.a) == cplx and t.dtype == data.dtype, "element type")
        data[...] = 0
        c.eq(c.dense(t), ref, "after the caller's array changed")
        t.a[...] = 7
        c.eq(data, c.zeros(data.shape), "the caller's array after the tensor changed")
    else:
        c.ok(not c.is_complex(t.a), "default data are real numbers")
    if 'l' in use:
        kw['legs'].append(None)
        c.ok(len(t.legs) == n, "the caller's list of legs changed")


def default_complex(c):
    """a missing data item of complex type"""
    shape = c.choose('shape', [(), (2,), (2, 3)])
    kind = c.choose('kind', ['d', 'g'])
    if kind == 'g':
        if len(set(shape)) > 1:
            c.skip()
        t = c.lib.DiagonalTensor(shape=shape, labels=['p', 'q'][:len(shape)], dtype=c.xp.complex128)
    else:
        t = c.lib.Tensor(shape=shape, labels=['p', 'q'][:len(shape)], dtype=c.xp.complex128)
    c.ok(c.is_complex(t.a), "default data of a complex tensor are complex")
    c.invariant(t, "complex default")


def many_legs(c):
    """default labels go through the alphabet; tensors of more legs need labels"""
    n = c.choose('rank', [5, 13, 25, 26])
    kind = c.choose('kind', ['d', 'dd', 'g', 'like', 'glike'])
    d = {2: 1}.get(n, 1)
    if kind == 'd':
        t = c.lib.Tensor(shape=(d,) * n)
    elif kind == 'dd':
        a = c.array('a', (2,) + (1,) * (n - 1))
        t = c.lib.Tensor(data=a)
        c.eq(c.dense(t), a, "elements")
    elif kind == 'g':
        t = c.lib.DiagonalTensor(shape=(1,) * n)
    elif kind == 'glike':
        t = c.lib.DiagonalTensor(shape=(7,) * n, tensorLikeFlag=True)
    else:
        t = c.lib.TensorLike(shape=(3,) * n)
    c.ok(list(t.labels) == list(LETTERS[:n]), "default labels of %d legs" % n)
    c.invariant(t, "many legs")
    c.raises(lambda: c.lib.TensorLike(shape=(1,) * c.choose('too many', [27, 28])), "default labels of more than 26 legs")


def dense_refused(c):
    """contradicting pieces are refused"""
    case = c.choose('case', ['shape-data', 'shape-labels', 'data-labels', 'legs-shape', 'legs-labels', 'legs-data', 'nothing', 'labels only', 'legs-rank'])
    T_ = c.lib.Tensor
    if case == 'nothing':
        return c.raises(lambda: T_(), "no piece given")
    if case == 'labels only':
        return c.raises(lambda: T_(labels=['a', 'b']), "labels only")
    shape = c.choose('shape', [(2,), (2, 3), (2, 2), (1, 2, 3)])
    n = len(shape)
    other = c.choose('other', [(2,), (3,), (2, 3), (3, 2), (2, 2), (1, 2, 3), (2, 1, 3), (4,), ()])
    names = ['x%d' % i for i in range(n)]
    if case == 'shape-data':
        if prod(shape) == prod(other):
            c.skip()
        d = c.array('data', other)
        return c.raises(lambda: T_(shape=shape, data=d), "data of another size")
    if case == 'shape-labels':
        if len(other) == n:
            c.skip()
        return c.raises(lambda: T_(shape=shape, labels=['y%d' % i for i in range(len(other))]), "labels of another number")
    if case == 'data-labels':
        if len(other) == n:
            c.skip()
        d = c.array('data', shape)
        return c.raises(lambda: T_(data=d, labels=['y%d' % i for i in range(len(other))]), "labels of another number")
    legs = own_legs(c, 'd', shape, names)
    if case == 'legs-shape':
        if other == shape:
            c.skip()
        c.raises(lambda: T_(legs=legs, shape=other), "legs and shape differ")
    elif case == 'legs-rank':
        if len(other) == n:
            c.skip()
        c.raises(lambda: T_(legs=legs, labels=['x%d' % i for i in range(len(other))]), "legs and labels of different number")
    elif case == 'legs-labels':
        if other != (2,):
            c.skip()
        c.raises(lambda: T_(legs=legs, labels=names[:-1] + ['z']), "legs and labels differ")
    else:
        if prod(other) == prod(shape):
            c.skip()
        d = c.array('data', other)
        c.raises(lambda: T_(legs=legs, data=d), "legs and data of different size")
    c.ok(all(l.tensor is not None and l in l.tensor.legs for l in legs), "legs of a refused tensor still belong to their tensor")


def diag_shapes(n, l):
    return (l,) * n


def diagonal_ok(c, large=False):
    """every compatible combination for a diagonal tensor"""
    if large:
        n, l = c.choose('shape', [(1, 17), (2, 11), (3, 6), (4, 2), (4, 4), (5, 2), (6, 2)])
    else:
        n = c.choose('rank', [0, 1, 2, 3])
        l = c.choose('dim', [1, 2, 3] + [4] * (n == 2)) if n else 1
    shape = (l,) * n
    use = c.choose('pieces', ['s', 'i', 'd', 'l', 'sd', 'id', 'sl', 'dl', 'il', 'sdl', 'idl'])
    lab = c.choose('labels', [None, 'list', 'tuple'])
    names = ['x%d' % i for i in range(n)]
    labels = {'list': list(names), 'tuple': tuple(names)}.get(lab)
    kw = {}
    legs = None
    if 'l' in use:
        legs = own_legs(c, 'g', shape, names)
        kw['legs'] = list(legs)
    if 's' in use:
        kw['shape'] = tuple(shape)
    if 'i' in use:
        if n == 0 or (labels is None and 'l' not in use and 'd' not in use):
            c.skip()
        kw['shape'] = l
    data, ref = None, None
    cplx = bool(c.choose('cplx', [0, 1])) if 'd' in use else False
    if 'd' in use:
        form = c.choose('data', ['diag', 'full', 'flat'])
        if form == 'diag':
            # a one-dimensional array is the diagonal; its rank must be known from another piece
            if n == 0:
                data = c.array('data', (), cplx)
            else:
                if n != 1 and labels is None and 's' not in use and 'l' not in use:
                    c.skip()
                data = c.array('data', (l,), cplx)
            full = None
        elif form == 'full':
            if n < 2:
                c.skip()
            data = c.array('data', shape, cplx)
        else:
            # row-major regrouping of all elements into the given shape
            if n < 2 or l < 2 or not ('s' in use or 'l' in use):
                c.skip()
            dsh = c.choose('flat', [(l ** n,), (l ** (n - 1), l), (1, l ** n)] + ([(2, 8), (8, 2)] if (l, n) == (4, 2) else []))
            if len(dsh) == 1 and dsh[0] == l:
                c.skip()
            data = c.array('data', dsh, cplx)
        if n:
            data = layout(c, data, c.choose('layout', ['C', 'F', 'S'] if len(data.shape) > 1 else ['C', 'S']))
        kw['data'] = data
        vals = c.zeros((l,), cplx)
        if n == 0:
            ref = data.copy()
        else:
            g = data if form == 'diag' else (data if form == 'full' else rowmajor(c, data, shape))
            for i in range(l):
                vals[i] = g[i] if form == 'diag' else g[(i,) * n]
            ref = dense_of(c, vals, n)
    if labels is not None:
        kw['labels'] = labels
    t = c.lib.DiagonalTensor(name='G', degreeOfFreedom=2, **kw)
    want = names if (labels is not None or legs is not None) else list(LETTERS[:n])
    check(c, t, shape, want, ref, legs, "DiagonalTensor(%s)" % use)
    c.ok(t.diagonalFlag and not t.tensorLikeFlag, "kind")
    c.ok(t.name == 'G' and t.degreeOfFreedom == 2, "name and degree of freedom")
    if data is not None:
        c.ok(c.is_complex(t.a) == cplx and t.dtype == data.dtype, "element type")
        data[...] = 0
        c.eq(c.dense(t), ref, "after the caller's array changed")
    else:
        c.ok(t.a is not None, "has data")


def diagonal_refused(c):
    case = c.choose('case', ['shape', 'legs', 'data', 'size', 'labels', 'legs-shape', 'legs-labels', 'nothing', 'int only', 'shape-labels', 'legs-data', 'legs-int'])
    G = c.lib.DiagonalTensor
    if case == 'nothing':
        return c.raises(lambda: G(), "no piece given")
    if case == 'int only':
        return c.raises(lambda: G(shape=2), "a dimension without a rank")
    bad = c.choose('bad', [(2, 3), (3, 2), (2, 2, 1), (1, 2), (2, 3, 2)])
    if case == 'shape':
        return c.raises(lambda: G(shape=bad), "unequal shape")
    if case == 'legs':
        legs = own_legs(c, 'g', bad, ['x%d' % i for i in range(len(bad))])
        return c.raises(lambda: G(legs=legs), "unequal legs")
    if case == 'data':
        d = c.array('data', bad)
        return c.raises(lambda: G(data=d), "unequal data")
    l, n = c.choose('good', [(2, 2), (3, 2), (2, 3), (3, 1)])
    shape = (l,) * n
    if case == 'size':
        m = c.choose('m', [1, 2, 3, 5, 6, 7])
        if m == l or m == l ** n:
            c.skip()
        d = c.array('data', (m,))
        return c.raises(lambda: G(shape=shape, data=d), "data of another size")
    if case == 'labels':
        d = c.array('data', shape)
        k = c.choose('k', [1, 2, 3, 4])
        if k == n or n == 1:
            c.skip()
        return c.raises(lambda: G(data=d, labels=['y%d' % i for i in range(k)]), "labels of another number")
    if case == 'shape-labels':
        k = c.choose('k', [1, 2, 3, 4])
        if k == n:
            c.skip()
        return c.raises(lambda: G(shape=shape, labels=['y%d' % i for i in range(k)]), "labels of another number")
    legs = own_legs(c, 'g', shape, ['x%d' % i for i in range(n)])
    if case == 'legs-shape':
        return c.raises(lambda: G(legs=legs, shape=(l + 1,) * n), "legs and shape differ")
    if case == 'legs-int':
        return c.raises(lambda: G(legs=legs, shape=l + 1), "legs and dimension differ")
    if case == 'legs-labels':
        return c.raises(lambda: G(legs=legs, labels=['x0'] * (n - 1) + ['z']), "legs and labels differ")
    m = c.choose('m', [1, 2, 3, 5, 6, 7])
    if m == l or m == l ** n:
        c.skip()
    d = c.array('data', (m,))
    c.raises(lambda: G(legs=legs, data=d), "legs and data of different size")


def like_ok(c):
    """tensors without data"""
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [0, 1, 2, 3])
    dims = [c.int('d%d' % i, 1, 50) for i in range(n)]
    if kind == 'g':
        dims = dims[:1] * n
    shape = tuple(dims)
    use = c.choose('pieces', ['s', 'l', 'sl', 'd', 'sd', 'n'])
    names = ['x%d' % i for i in range(n)]
    lab = c.choose('labels', [0, 1])
    kw = {}
    legs = None
    if 'd' in use:
        shape = ((2,) * n if kind == 'g' else (2, 3, 1)[:n])
        kw['data'] = c.array('data', shape)
    if 's' in use:
        kw['shape'] = shape
    if 'l' in use:
        legs = own_legs(c, kind, shape, names)
        kw['legs'] = list(legs)
    if lab:
        kw['labels'] = list(names)
    if use == 'n':
        if kind == 'g' or not lab:
            c.skip()
        t = c.lib.TensorLike(labels=list(names))
        c.ok(list(t.labels) == names and t.a is None and t.dim == n, "labels only")
        return
    if kind == 'g':
        t = c.lib.DiagonalTensor(tensorLikeFlag=True, **kw)
    else:
        t = c.lib.TensorLike(**kw)
    want = names if (lab or legs is not None) else list(LETTERS[:n])
    check(c, t, shape, want, None, legs, "data-less")
    c.ok(t.a is None and t.tensorLikeFlag and t.diagonalFlag == (kind == 'g'), "kind, no data")


def sym_dims(c):
    """symbolic dimensions: construction succeeds exactly when legs and shape agree"""
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [1, 2, 3, 4, 6])
    a = [c.int('a%d' % i, 1, 30) for i in range(n)]
    b = [c.int('b%d' % i, 1, 30) for i in range(n)]
    what = c.choose('pieces', ['shape', 'legs', 'both'])
    mk = (lambda **k: c.lib.DiagonalTensor(tensorLikeFlag=True, **k)) if kind == 'g' else c.lib.TensorLike
    legs = own_legs(c, kind, tuple(b), ['x%d' % i for i in range(n)])
    if what == 'shape':
        good = [a[0] == x for x in a[1:]] if kind == 'g' else []
        ok, t = c.attempt(lambda: mk(shape=tuple(a), labels=['x%d' % i for i in range(n)]))
    elif what == 'legs':
        good = [b[0] == x for x in b[1:]] if kind == 'g' else []
        ok, t = c.attempt(lambda: mk(legs=legs))
    else:
        good = [x == y for x, y in zip(a, b)] + ([b[0] == x for x in b[1:]] if kind == 'g' else [])
        ok, t = c.attempt(lambda: mk(legs=legs, shape=tuple(a)))
    cond = c.conj(good)
    if ok:
        c.ok(cond, "accepted although the pieces contradict each other")
        want = b if what == 'legs' else a
        c.ok(c.conj([x == y for x, y in zip(t.shape, want)] + [l.dim == y for l, y in zip(t.legs, want)]), "dimensions")
        c.ok(len(t.legs) == n and t.a is None, "legs")
    else:
        c.ok(not cond if isinstance(cond, bool) else ~cond, "refused although the pieces agree: %s" % t)


def refused_large(c):
    """many legs: one contradicting piece, at any place, is refused"""
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [4, 5, 7, 10])
    k = c.choose('place', list(range(n)))
    like = c.choose('data-less', [False, True])
    shape = (2,) * n
    names = ['x%d' % i for i in range(n)]
    G = c.lib.DiagonalTensor if kind == 'g' else c.lib.Tensor
    mk = lambda **kw: G(tensorLikeFlag=like, **kw)
    other = tuple(3 if i == k else 2 for i in range(n))
    seq = c.choose('as', [list, tuple])
    what = c.choose('wrong', ['shape', 'label', 'labels', 'leg', 'data'])
    legs = own_legs(c, kind, shape, names)
    if what == 'shape':
        c.raises(lambda: mk(legs=seq(legs), shape=seq(other)), "legs and shape differ")
        if kind == 'g':
            c.raises(lambda: mk(shape=other, labels=seq(names)), "unequal dimensions")
    elif what == 'label':
        c.raises(lambda: mk(legs=seq(legs), labels=seq(['z' if i == k else x for i, x in enumerate(names)])), "legs and labels differ")
    elif what == 'labels':
        c.raises(lambda: mk(legs=seq(legs), labels=seq([x for i, x in enumerate(names) if i != k])), "legs and labels of different number")
        c.raises(lambda: mk(shape=shape, labels=seq([x for i, x in enumerate(names) if i != k])), "shape and labels of different number")
    elif what == 'leg':
        if kind != 'g':
            c.skip()
        c.raises(lambda: mk(legs=own_legs(c, 'd', other, names)), "unequal legs")
    else:
        if like:
            c.skip()
        d = c.array('d', (2 ** (n - 1) * 3,) if kind == 'd' else (3,))
        c.raises(lambda: mk(legs=seq(legs), data=d), "legs and data of different size")
        c.raises(lambda: mk(shape=shape, data=d), "shape and data of different size")


SCENARIOS = [
    S('refused_large', refused_large, bounds='4 to 10 legs, one contradicting piece at every place'),
    S('many_legs', many_legs, bounds='5..26 legs of dimension 1'),
    S('dense_ok', dense_ok, bounds='10 shapes x 7 combinations x labels x regroupings, real and complex'),
    S('default_complex', default_complex),
    S('dense_refused', dense_refused),
    S('diagonal_ok', diagonal_ok, bounds='rank 0..3, dimension 1..3, 11 combinations x labels x data forms'),
    S('diagonal_refused', diagonal_refused),
    S('like_ok', like_ok, bounds='symbolic dimensions 1..50'),
    S('dense_large', lambda c: dense_ok(c, LARGE), bounds='12 shapes of up to 9 legs, dimensions up to 60'),
    S('diagonal_large', lambda c: diagonal_ok(c, True), bounds='7 shapes of up to 6 legs, dimensions up to 17'),
    S('sym_dims', sym_dims, bounds='rank 1..6, all dimensions symbolic in 1..30'),
]
