"""P02: diagonal tensors contract like their dense form"""
from props.common import *

BOUNDS = "Diagonal operands of rank 0..4, partners of rank <= 3 (4), dimensions 1..3, up to 3 links; larger cases (rank up to 7, 6 links, dimensions up to 13) in a few leg orders."


def check(c, r, out, ref, what):
    c.invariant(r, what)
    c.eq(c.obs(r, out, what), ref, what)
    c.ok(not r.tensorLikeFlag, what + ": has data")


def names(nb, nx, b, x):
    return ['%s%d' % (b, i) for i in range(nb)] + ['%s%d' % (x, i) for i in range(nx)]


def diag_dense_build(c, nb, na, nd, l, dd, cplx=(False, False), hows=(0, 1), permB=True, permA=True):
    """diag with nb links + na free legs (dim l); dense with nb links + nd free legs of dims dd"""
    labA = names(nb, na, 'b', 'x')
    labB = names(nb, nd, 'c', 'y')
    oA = c.perm('orderA', labA) if permA else labA
    oB = c.perm('orderB', labB) if permB else labB
    dB = dict(zip(labB, [l] * nb + list(dd)))
    ta, a = D(c, 'A', oA, l, cplx[0])
    tb, b = T(c, 'B', oB, [dB[x] for x in oB], cplx[1])
    bonds = []
    for i in range(nb):
        bonds += link(c, ta, 'b%d' % i, tb, 'c%d' % i, c.choose('how%d' % i, hows))
    nm = {'c%d' % i: 'b%d' % i for i in range(nb)}
    dims = {x: l for x in labA}
    dims.update({nm.get(x, x): dB[x] for x in labB})
    out = [x for x in labA if x[0] == 'x'] + [x for x in labB if x[0] == 'y']
    ref = c.total([(a, oA), (b, [nm.get(x, x) for x in oB])], out, dims)
    return ta, tb, bonds, out, ref


def diag_dense(c):
    """diagonal with dense over 1..3 links"""
    nb = c.choose('links', [1, 2, 3])
    na = c.choose('freeA', [0, 1, 2])
    nd = c.choose('freeB', [0, 1, 2])
    if nb + na > 4 or nb + nd > 4 or nb + na + nd > 5:
        c.skip()
    l, dd = c.choose('dims', [(2, (2, 2)), (2, (3, 2)), (3, (1, 2))] if nb + na + nd <= 4 else [(2, (3, 2))])
    ta, tb, bonds, out, ref = diag_dense_build(c, nb, na, nd, l, dd[:nd], permA=nb + na <= 3, hows=(0, 1) if nb < 3 else (0,))
    f = c.lib.contractTwoTensors
    r = f(tb, ta) if c.choose('swap', [0, 1]) else f(ta, tb)
    check(c, r, out, ref, "diagonal.dense over %d links" % nb)


def diag_dense_types(c):
    """element types and the @ operator"""
    nb = c.choose('links', [1, 2])
    na = c.choose('freeA', [0, 1, 2])
    nd = c.choose('freeB', [0, 1])
    cc = c.choose('complex', [(True, False), (False, True), (True, True)])
    ta, tb, bonds, out, ref = diag_dense_build(c, nb, na, nd, 2, (3,)[:nd], cplx=cc, hows=(2,), permA=False)
    r = tb @ ta if c.choose('swap', [0, 1]) else ta @ tb
    check(c, r, out, ref, "complex diagonal.dense")
    c.ok(c.is_complex(r.a), "complex data stay complex")


def diag_dense_explicit(c):
    """links passed explicitly, all or only one of two"""
    na = c.choose('freeA', [0, 1])
    nd = c.choose('freeB', [0, 1])
    ta, tb, bonds, out, ref = diag_dense_build(c, 2, na, nd, 2, (3,)[:nd], permB=False, permA=False)
    bs = c.perm('bondorder', bonds)
    f = c.lib.contractTwoTensors
    r = f(tb, ta, bonds=bs) if c.choose('swap', [0, 1]) else f(ta, tb, bonds=bs)
    check(c, r, out, ref, "explicit links")


def diag_diag(c):
    """two diagonal tensors over 1..3 links: diagonal or scalar result"""
    nb = c.choose('links', [1, 2, 3])
    na = c.choose('freeA', [0, 1, 2])
    nd = c.choose('freeB', [0, 1, 2])
    l = c.choose('dim', [1, 2, 3])
    if l == 3 and na + nd > 3:
        c.skip()
    cc = c.choose('complex', [(False, False), (True, False), (False, True)])
    labA = names(nb, na, 'b', 'x')
    labB = names(nb, nd, 'c', 'y')
    rot = c.choose('orderA', [0, 1])
    rotB = c.choose('orderB', [0, 1])
    oA = labA[rot:] + labA[:rot]
    oB = labB[::-1] if rotB else labB
    ta, a = D(c, 'A', oA, l, cc[0])
    tb, b = D(c, 'B', oB, l, cc[1])
    for i in range(nb):
        link(c, ta, 'b%d' % i, tb, 'c%d' % i, i % 2)
    nm = {'c%d' % i: 'b%d' % i for i in range(nb)}
    dims = {nm.get(x, x): l for x in labA + labB}
    out = [x for x in labA if x[0] == 'x'] + [x for x in labB if x[0] == 'y']
    ref = c.total([(a, oA), (b, [nm.get(x, x) for x in oB])], out, dims)
    r = c.lib.contractTwoTensors(tb, ta) if c.choose('swap', [0, 1]) else c.lib.contractTwoTensors(ta, tb)
    check(c, r, out, ref, "diagonal.diagonal")
    if not out:
        c.eq(r.single(), ref[()], "single value")
    c.eq(r.toTensor(out) if out else r.toTensor(), ref, "expanded result")


def outer(c):
    """outer products with every kind of partner and rank, scalars included"""
    kind = c.choose('kind', ['diag', 'dense'])
    ra = c.choose('rankA', [0, 1, 2, 3])
    rb = c.choose('rankB', [0, 1, 2, 3])
    if ra + rb > 5:
        c.skip()
    cc = c.choose('complex', [(False, False), (True, False), (False, True)])
    labA, labB = names(0, ra, '', 'x'), names(0, rb, '', 'y')
    la, lb = c.choose('dims', [(2, 3), (2, 2)])
    if ra:
        ta, a = D(c, 'A', labA, la, cc[0])
    else:
        ta, a = scalar_diag(c, 'A', cc[0])
    if kind == 'diag':
        tb, b = D(c, 'B', labB, lb, cc[1]) if rb else scalar_diag(c, 'B', cc[1])
        db = [lb] * rb
    else:
        db = [lb, 2, 1][:rb]
        tb, b = T(c, 'B', labB, db, cc[1])
    dims = dict(zip(labA + labB, [la] * ra + db))
    out = labA + labB
    ref = c.total([(a, labA), (b, labB)], out, dims)
    f = c.lib.contractTwoTensors
    r = f(tb, ta, outProductWarning=False) if c.choose('swap', [0, 1]) else f(ta, tb, outProductWarning=False)
    check(c, r, out, ref, "outer product with a diagonal tensor")
    c.ok(c.is_complex(r.a) == (cc[0] or cc[1]), "element type of the outer product")


def scalar_diag(c, name, cplx):
    a = c.array(name, (), cplx)
    t = c.lib.DiagonalTensor(data=a)
    return t, a


def expansions(c):
    """toTensor / toMatrix / toVector of diagonal tensors"""
    n = c.choose('rank', [0, 1, 2, 3, 4])
    l = c.choose('dim', [1, 2, 3])
    if n == 4 and l == 3:
        c.skip()
    cx = c.choose('complex', [False, True])
    lab = names(0, n, '', 'x')
    t, a = D(c, 'A', lab, l, cx) if n else scalar_diag(c, 'A', cx)
    how = c.choose('how', ['tensor', 'tensor-labels', 'matrix'])
    if how == 'tensor':
        c.eq(t.toTensor(), a, "toTensor")
    elif how == 'tensor-labels':
        if n > 3:
            c.skip()
        c.eq(t.toTensor(c.perm('labels', lab)), a, "toTensor(labels)")
    else:
        if n == 0:
            c.skip()
        rows = c.subset('rows', lab)
        cols = [x for x in lab if x not in rows]
        if c.choose('by', ['labels', 'legs']) == 'legs':
            rl, cl = [t.getLeg(x) for x in rows], [t.getLeg(x) for x in cols]
        else:
            rl, cl = rows, cols
        arg = c.choose('args', ['both', 'rows', 'cols'])
        m = t.toMatrix(rows=rl if arg != 'cols' else None, cols=cl if arg != 'rows' else None)
        ref = c.zeros((l ** len(rows), l ** len(cols)), cx)
        for k in range(l):
            i = sum(k * l ** p for p in range(len(rows)))
            j = sum(k * l ** p for p in range(len(cols)))
            ref[i, j] = t.a[k]
        c.eq(m, ref, "toMatrix")
    c.ok(c.is_complex(t.a) == cx, "element type")


def chain(c):
    """dense - diagonal - diagonal - dense chain (with a third link) contracted in every order"""
    o = c.perm('order', [0, 1, 2, 3])
    ta, a = T(c, 'A', ['p', 'a1', 'a2'], [3, 2, 2])
    tb, b = D(c, 'B', ['b1', 'b2', 'b3'], 2)
    td, d = D(c, 'D', ['d1', 'd2'], 2)
    te, e = T(c, 'E', ['q', 'e1', 'e2'], [1, 2, 2])
    link(c, ta, 'a1', tb, 'b1')
    link(c, tb, 'b2', td, 'd1', 1)
    link(c, td, 'd2', te, 'e1')
    which = c.choose('extra', [0, 1])
    if which:
        link(c, ta, 'a2', te, 'e2')
        nm = {'b1': 'a1', 'd1': 'b2', 'e1': 'd2', 'e2': 'a2'}
        out = ['p', 'b3', 'q']
    else:
        link(c, tb, 'b3', te, 'e2')
        nm = {'b1': 'a1', 'd1': 'b2', 'e1': 'd2', 'e2': 'b3'}
        out = ['p', 'a2', 'q']
    lab = [['p', 'a1', 'a2'], ['b1', 'b2', 'b3'], ['d1', 'd2'], ['q', 'e1', 'e2']]
    dims = {x: 2 for l in lab for x in l}
    dims.update({'p': 3, 'q': 1})
    ref = c.total([(x, [nm.get(y, y) for y in l]) for x, l in zip([a, b, d, e], lab)], out, dims)
    ts = [ta, tb, td, te]
    r = ts[o[0]]
    for i in o[1:]:
        r = c.lib.contractTwoTensors(r, ts[i], outProductWarning=False)
    check(c, r, out, ref, "chain with two diagonal tensors")


def rank4_dense(c):
    """diagonal with a rank-4 dense tensor, links at any two axes, every order"""
    oB = c.perm('orderB', ['c0', 'c1', 'y0', 'y1'])
    na = c.choose('freeA', [0, 1, 2])
    dB = {'c0': 2, 'c1': 2, 'y0': 3, 'y1': 1}
    ta, a = D(c, 'A', ['b0', 'b1', 'x0', 'x1'][:2 + na], 2)
    tb, b = T(c, 'B', oB, [dB[x] for x in oB])
    link(c, ta, 'b0', tb, 'c0')
    link(c, ta, 'b1', tb, 'c1', 1)
    nm = {'c0': 'b0', 'c1': 'b1'}
    dims = {'b0': 2, 'b1': 2, 'x0': 2, 'x1': 2, 'y0': 3, 'y1': 1}
    out = ['x0', 'x1'][:na] + ['y0', 'y1']
    ref = c.total([(a, ['b0', 'b1', 'x0', 'x1'][:2 + na]), (b, [nm.get(x, x) for x in oB])], out, dims)
    r = c.lib.contractTwoTensors(tb, ta) if c.choose('swap', [0, 1]) else c.lib.contractTwoTensors(ta, tb)
    check(c, r, out, ref, "diagonal with rank-4 dense")


def large(c):
    """high ranks, many links, large dimensions"""
    kind = c.choose('kind', ['dense', 'diag'])
    nb, na, nd, l = c.choose('case', [(4, 2, 1, 2), (5, 0, 1, 2), (4, 0, 0, 3), (1, 5, 2, 2), (6, 1, 0, 2), (2, 4, 2, 2), (1, 1, 1, 13), (2, 1, 1, 11), (1, 2, 1, 7), (3, 2, 3, 2)])
    if kind == 'diag':
        labA, labB = names(nb, na, 'b', 'x'), names(nb, nd, 'c', 'y')
        oA, oB = c.choose('order', [(labA, labB[::-1]), (labA[::2] + labA[1::2], labB), (labA[::-1], labB[1:] + labB[:1])])
        ta, a = D(c, 'A', oA, l)
        tb, b = D(c, 'B', oB, l)
        for i in range(nb):
            link(c, ta, 'b%d' % i, tb, 'c%d' % i, i % 2)
        nm = {'c%d' % i: 'b%d' % i for i in range(nb)}
        dims = {nm.get(x, x): l for x in labA + labB}
        out = [x for x in labA if x[0] == 'x'] + [x for x in labB if x[0] == 'y']
        # elements: the product of the diagonals, summed if nothing is left
        da, db = [a[(i,) * a.ndim] for i in range(l)], [b[(i,) * b.ndim] for i in range(l)]
        r = c.lib.contractTwoTensors(tb, ta) if c.choose('swap', [0, 1]) else c.lib.contractTwoTensors(ta, tb)
        c.invariant(r, "large diagonals")
        c.ok(r.diagonalFlag and sorted(x.name for x in r.legs) == sorted(out), "kind and legs of the result")
        if out:
            for i in range(l):
                c.eq(r.a[i], da[i] * db[i], "diagonal of the result")
        else:
            tot = da[0] * db[0]
            for i in range(1, l):
                tot = tot + da[i] * db[i]
            c.eq(r.a[()], tot, "scalar of the result")
        return
    dd = c.choose('free', [(2, 1, 2), (3, 2, 1)])[:nd]
    labA, labB = names(nb, na, 'b', 'x'), names(nb, nd, 'c', 'y')
    oB = c.choose('orderB', [labB, labB[::-1], labB[1::2] + labB[::2], labB[2:] + labB[:2]])
    oA = labA[::-1] if c.choose('orderA', [0, 1]) else labA
    dB = dict(zip(labB, [l] * nb + list(dd)))
    ta, a = D(c, 'A', oA, l)
    tb, b = T(c, 'B', oB, [dB[x] for x in oB])
    for i in range(nb):
        link(c, ta, 'b%d' % i, tb, 'c%d' % i, i % 2)
    nm = {'c%d' % i: 'b%d' % i for i in range(nb)}
    dims = {x: l for x in labA}
    dims.update({nm.get(x, x): dB[x] for x in labB})
    out = [x for x in labA if x[0] == 'x'] + [x for x in labB if x[0] == 'y']
    ref = c.total([(a, oA), (b, [nm.get(x, x) for x in oB])], out, dims)
    r = c.lib.contractTwoTensors(tb, ta) if c.choose('swap', [0, 1]) else c.lib.contractTwoTensors(ta, tb)
    check(c, r, out, ref, "large operands")


SCENARIOS = [
    S('diag_dense', diag_dense, bounds='1..3 links, free legs 0..2 on each side, all dense leg orders'),
    S('diag_dense_types', diag_dense_types),
    S('diag_dense_explicit', diag_dense_explicit),
    S('diag_diag', diag_diag, bounds='1..3 links, free legs 0..2, dimension 1..3'),
    S('outer', outer, bounds='ranks 0..3'),
    S('expansions', expansions, bounds='rank 0..4, dimension 1..3'),
    S('chain', chain, bounds='four tensors, all orders'),
    S('rank4_dense', rank4_dense, bounds='all leg orders'),
    S('large', large, bounds='ranks up to 7, up to 6 links, dimensions up to 13'),
]
