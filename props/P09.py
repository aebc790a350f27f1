"""P09: traces, norms and summing out legs equal their defining sums"""
from props.common import *

BOUNDS = "Rank 0..4 with dimensions 1..4 (selected operands up to rank 6 and dimension 13), every pairing of rows and columns, every leg or sequence of legs summed out, all weights symbolic, real and complex."


def make(c, kind, dims, cplx, labels=None, name='a'):
    n = len(dims)
    labs = labels or ['x%d' % i for i in range(n)]
    if kind == 'd':
        return T(c, name, labs, dims, cplx)
    if n:
        return D(c, name, labs, dims[0], cplx)
    ref = c.array(name, (), cplx)
    return c.lib.DiagonalTensor(data=ref), ref


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def trace(c):
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('dims', {'d': [(2, 2), (3, 3), (1, 1), (2, 3, 3, 2), (2, 2, 2, 2), (4, 2, 2), (2, 4, 2), (6, 2, 3)], 'g': [(2, 2), (3, 3), (2, 2, 2, 2), (1, 1)]}[kind])
    n = len(dims)
    cplx = bool(c.choose('cplx', [0, 1]))
    t, ref = make(c, kind, dims, cplx)
    pos = c.perm('order', list(range(n)))
    k = c.choose('rows', list(range(n + 1)))
    rows, cols = pos[:k], pos[k:]
    how = c.choose('given', ['both', 'rows', 'cols'])
    if how == 'rows':
        cols = sorted(cols)
    if how == 'cols':
        rows = sorted(rows)
    if prod(dims[i] for i in rows) != prod(dims[i] for i in cols):
        c.skip()
    f = (lambda s: ['x%d' % i for i in s]) if c.choose('as', [0, 1]) else (lambda s: [t.legs[i] for i in s])
    kw = {}
    if how != 'cols':
        kw['rows'] = f(rows)
    if how != 'rows':
        kw['cols'] = f(cols)
    tr = t.trace(**kw)
    want = None
    for ix in c.idx(dims):
        r = s = 0
        for i in rows:
            r = r * dims[i] + ix[i]
        for i in cols:
            s = s * dims[i] + ix[i]
        if r == s:
            want = ref[ix] if want is None else want + ref[ix]
    c.eq(c.arr0(tr), c.arr0(want), "trace")
    c.eq(c.dense(t), ref, "tensor after trace")
    c.ok(t.labels == ['x%d' % i for i in range(n)], "labels after trace")


def trace_refused(c):
    dims, rows = c.choose('case', [((2, 3), ['x0']), ((2, 2, 2), ['x0']), ((2, 2, 2), ['x0', 'x1']), ((2, 3, 2), ['x0', 'x2']), ((2,), ['x0'])])
    t, ref = make(c, 'd', dims, False)
    c.raises(lambda: t.trace(rows=rows), "trace of a matrix that is not square")
    c.eq(c.dense(t), ref, "tensor after a refused trace")


def norm(c):
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('dims', {'d': [(), (1,), (3,), (2, 2), (2, 3), (2, 2, 2), (1, 2, 1, 2)], 'g': [(), (3,), (3, 3), (2, 2, 2)]}[kind])
    cplx = bool(c.choose('cplx', [0, 1]))
    t, ref = make(c, kind, dims, cplx)
    v = t.norm()
    s = None
    for ix in c.idx(dims):
        e = ref[ix]
        q = e.real * e.real + e.imag * e.imag if cplx else e * e
        s = q if s is None else s + q
    c.eq(c.arr0(v * v), c.arr0(s), "norm squared")
    c.ok(v >= 0, "norm is not negative")
    c.ok(not c.is_complex(c.arr0(v)), "norm is real")
    c.eq(c.dense(t), ref, "tensor after norm")


def single(c):
    kind = c.choose('kind', ['d', 'g'])
    cplx = bool(c.choose('cplx', [0, 1]))
    dims = c.choose('dims', [(), (1,), (2,), (1, 1)])
    t, ref = make(c, kind, dims, cplx)
    if dims:
        return c.raises(lambda: t.single(), "single value of a tensor with legs")
    c.eq(c.arr0(t.single()), ref, "single value")
    c.eq(c.dense(t), ref, "tensor after single")


def ref_sum(c, ref, names, name, w=None, pick=None):
    """sum over the axis called name"""
    k = names.index(name) if pick is None else pick
    d = ref.shape[k]
    shape = tuple(ref.shape[:k]) + tuple(ref.shape[k + 1:])
    out = c.zeros(shape, c.is_complex(ref) or (w is not None and c.is_complex(w)))
    for ix in c.idx(shape):
        acc = None
        for j in range(d):
            e = ref[tuple(ix[:k]) + (j,) + tuple(ix[k:])]
            if w is not None:
                e = e * w[j]
            acc = e if acc is None else acc + e
        out[tuple(ix)] = acc
    return out, names[:k] + names[k + 1:]


def diag_sum(c, d, n, w=None):
    """summing one leg of the diagonal tensor with n legs: its diagonal afterwards"""
    return d if w is None else d * w


def check(c, t, ref, names, what):
    c.ok(list(t.labels) == names, what + ": labels %s expected, %s found" % (names, t.labels))
    c.invariant(t, what)
    c.eq(c.dense(t), ref, what)


def sum_out(c):
    """one leg after the other, with or without weights, with a linked neighbour"""
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('dims', {'d': [(1,), (3,), (2, 3), (2, 2), (2, 1, 3), (3, 2, 2), (2, 2, 2, 2)], 'g': [(3,), (3, 3), (2, 2, 2), (2, 2, 2, 2), (1, 1)]}[kind])
    n = len(dims)
    cplx = bool(c.choose('cplx', [0, 1]))
    t, ref = make(c, kind, dims, cplx)
    names = list(t.labels)
    legs = list(t.legs)
    partner = None
    if c.choose('linked', [0, 1]):
        partner = c.lib.Tensor(data=c.array('o', (dims[0],)), labels=['p'])
        c.lib.makeLink('x0', 'p', t, partner)
    steps = c.choose('steps', list(range(1, min(n, 3) + 1)))
    for s in range(steps):
        nm = c.choose('leg%d' % s, names)
        k = names.index(nm)
        leg = legs[k]
        w = c.array('w%d' % s, (ref.shape[k],), cplx and s == 0) if c.choose('weights%d' % s, [0, 1]) else None
        w0 = None if w is None else w.copy()
        kw = {} if w is None else {'weights': w}
        if c.choose('by%d' % s, ['leg', 'label']) == 'leg':
            t.sumOutLeg(leg, **kw)
        else:
            t.sumOutLegByLabel(nm, **kw)
        # a diagonal tensor's sum over one leg is the smaller diagonal tensor, as for its dense form
        ref, names = ref_sum(c, ref, names, nm, w0)
        legs.pop(k)
        c.ok([id(l) for l in t.legs] == [id(l) for l in legs], "remaining legs")
        if w is not None:
            c.eq(w, w0, "weights after the call")
        check(c, t, ref, names, "summing out %s" % nm)
    if partner is not None and 'x0' in names:
        c.ok(t.getLeg('x0').anotherSide() is partner.legs[0], "link of a remaining leg")
    if not names:
        c.eq(c.arr0(t.single()), ref, "single value of the full sum")


def sum_list(c):
    """several labels in one call, weights applied to each"""
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('dims', {'d': [(2, 2), (2, 2, 2), (2, 3, 2), (1, 3, 3, 1)], 'g': [(3, 3), (2, 2, 2)]}[kind])
    n = len(dims)
    t, ref = make(c, kind, dims, bool(c.choose('cplx', [0, 1])))
    names = list(t.labels)
    sel = c.perm('p', c.subset('s', names, 1))
    w = None
    ds = set(dims[int(x[1:])] for x in sel)
    if len(ds) == 1 and c.choose('weights', [0, 1]):
        w = c.array('w', (ds.pop(),))
    arg = list(sel)
    back = c.choose('backward', [None, False, True])
    kw = {} if back is None else {'backward': back}
    if w is not None:
        kw['weights'] = w
    t.sumOutLegByLabel(arg, **kw)
    c.ok(arg == sel, "the caller's list changed")
    for nm in sel:
        ref, names = ref_sum(c, ref, names, nm, w)
    check(c, t, ref, names, "summing out %s" % sel)


def sum_repeated(c):
    """repeated labels: forward takes the first occurrence, backward the last"""
    kind = c.choose('kind', ['d', 'g'])
    pat = list(c.choose('labels', ['aa', 'aba', 'aab', 'baa']))
    dims = {'d': (2, 3, 2)[:len(pat)], 'g': (2,) * len(pat)}[kind]
    t, ref = make(c, kind, dims, False, labels=pat)
    names = list(pat)
    back = bool(c.choose('backward', [0, 1]))
    arg = c.choose('list', ['a', ['a'], ['a', 'a'], ['b', 'a'], ['a', 'b']])
    if 'b' in arg and 'b' not in pat:
        c.skip()
    for x in arg:
        ks = [i for i, y in enumerate(names) if y == x]
        ref, names = ref_sum(c, ref, names, x, pick=ks[-1 if back else 0])
    t.sumOutLegByLabel(arg, backward=back)
    check(c, t, ref, names, "summing out a repeated label")


def absent(c):
    """legs and labels that are not in the tensor: nothing changes"""
    kind = c.choose('kind', ['d', 'g'])
    t, ref = make(c, kind, (2, 2), False)
    o, _ = make(c, kind, (2, 2), False, name='b')
    if c.choose('how', [0, 1]):
        t.sumOutLeg(o.legs[0])
    else:
        t.sumOutLegByLabel('absent')
    check(c, t, ref, ['x0', 'x1'], "leg that is not there")


def like(c):
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [1, 2, 3])
    d = [c.int('d%d' % i, 1, 50) for i in range(n)]
    if kind == 'g':
        d = d[:1] * n
    names = ['x%d' % i for i in range(n)]
    t = c.lib.TensorLike(shape=tuple(d), labels=names) if kind == 'd' else c.lib.DiagonalTensor(shape=tuple(d), labels=names, tensorLikeFlag=True)
    sel = c.perm('p', c.subset('s', names, 1))
    for x in sel:
        t.sumOutLegByLabel(x)
    rest = [x for x in names if x not in sel]
    c.ok(list(t.labels) == rest and t.a is None and t.dim == len(rest), "labels")
    c.ok(c.conj([t.shape[i] == d[int(x[1:])] for i, x in enumerate(rest)]), "dimensions")
    c.invariant(t, "data-less")


def dense_agrees(c):
    """a diagonal tensor and the ordinary tensor with the same elements give the same trace, norm and sums"""
    n = c.choose('rank', [2, 4])
    cplx = bool(c.choose('cplx', [0, 1]))
    g, ref = make(c, 'g', (2,) * n, cplx)
    d = c.lib.Tensor(data=ref, labels=list(g.labels))
    k = n // 2
    rows = c.perm('p', list(g.labels))[:k]
    c.eq(c.arr0(g.trace(rows=rows)), c.arr0(d.trace(rows=rows)), "trace")
    a, b = g.norm(), d.norm()
    c.eq(c.arr0(a * a), c.arr0(b * b), "norm")
    w = c.array('w', (2,))
    x = c.choose('leg', list(g.labels))
    g.sumOutLegByLabel(x, weights=w)
    d.sumOutLegByLabel(x, weights=w)
    c.eq(c.dense(g), c.dense(d), "weighted sum")


def large(c):
    """high ranks and large dimensions"""
    what = c.choose('what', ['trace', 'norm', 'sum', 'sums'])
    kind = c.choose('kind', ['d', 'g'])
    cplx = bool(c.choose('cplx', [0, 1]))
    if what == 'trace':
        dims = c.choose('dims', {'d': [(2, 2, 2, 2, 2, 2), (12, 12), (2, 1, 3, 1, 3, 2), (6, 2, 3), (2, 2, 2, 2, 1, 1)], 'g': [(2,) * 6, (11, 11)]}[kind])
    else:
        dims = c.choose('dims', {'d': [(2, 1, 2, 3, 2), (13,), (5, 7), (2, 2, 1, 2, 2, 2), (1, 2, 11)], 'g': [(2,) * 5, (12, 12), (11,)]}[kind])
    n = len(dims)
    labs = ['x%d' % i for i in range(n)]
    t, ref = make(c, kind, dims, cplx)
    if what == 'trace':
        o = c.choose('order', [list(range(n)), list(range(n))[::-1], list(range(n))[1::2] + list(range(n))[::2]])
        if dims == (6, 2, 3):
            o = [0, 1, 2]
            rows, cols = [[0], [1, 2], [2, 1]][c.choose('rows', [0, 1, 2])], None
            cols = [i for i in o if i not in rows] if rows != [0] else [1, 2]
        elif dims == (2, 1, 3, 1, 3, 2):
            rows, cols = c.choose('rows', [([0, 1, 2], [5, 3, 4]), ([2, 0, 1], [4, 5, 3]), ([0, 2], [1, 3, 4, 5])])
        elif dims == (2, 2, 2, 2, 1, 1):
            rows, cols = c.choose('rows', [([0, 1, 4], [2, 5, 3]), ([3, 1], [4, 2, 0, 5])])
        else:
            rows, cols = o[:n // 2], o[n // 2:]
        tr = t.trace(rows=[labs[i] for i in rows], cols=[labs[i] for i in cols])
        want = None
        for ix in c.idx(dims):
            r = s = 0
            for i in rows:
                r = r * dims[i] + ix[i]
            for i in cols:
                s = s * dims[i] + ix[i]
            if r == s:
                want = ref[ix] if want is None else want + ref[ix]
        c.eq(c.arr0(tr), c.arr0(want), "trace")
    elif what == 'norm':
        v = t.norm()
        s = None
        for ix in c.idx(dims):
            e = ref[ix]
            q = e.real * e.real + e.imag * e.imag if cplx else e * e
            s = q if s is None else s + q
        c.eq(c.arr0(v * v), c.arr0(s), "norm squared")
    else:
        k = c.choose('leg', sorted({0, n // 2, n - 1}))
        w = c.array('w', (dims[k],)) if c.choose('weights', [0, 1]) else None
        t.sumOutLegByLabel(labs[k], weights=w) if w is not None else t.sumOutLegByLabel(labs[k])
        want, names = ref_sum(c, ref, labs, labs[k], w)
        if what == 'sums' and n > 2:
            k2 = c.choose('then', [names[0], names[-1]])
            t.sumOutLegByLabel(k2)
            want, names = ref_sum(c, want, names, k2)
        if kind == 'g' and not t.diagonalFlag:
            pass
        check(c, t, want, names, "summing out")


SCENARIOS = [
    S('trace', trace, bounds='12 shapes, every ordered split into square rows and columns'),
    S('trace_refused', trace_refused),
    S('norm', norm, bounds='11 shapes, real and complex'),
    S('single', single),
    S('sum_out', sum_out, bounds='12 shapes, up to three successive sums, weights symbolic'),
    S('sum_list', sum_list),
    S('sum_repeated', sum_repeated),
    S('absent', absent),
    S('like', like, bounds='symbolic dimensions 1..50'),
    S('dense_agrees', dense_agrees),
    S('large', large, bounds='rank up to 6, dimensions up to 13'),
]
