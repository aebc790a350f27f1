"""P08: reordering, renaming, look-up and flattening never change what an index means"""
import itertools
from props.common import *

BOUNDS = "Rank 0..4 (thorough: 5) with dimensions 1..3 (selected operands up to rank 8 and dimension 17); every leg order, every row/column split, every pattern of repeated labels; real and complex elements symbolic."

DIMS = {0: [()], 1: [(3,)], 2: [(2, 3), (1, 2)], 3: [(2, 3, 2), (2, 2, 2)], 4: [(2, 1, 3, 2)], 5: [(2, 1, 2, 3, 2)]}


def make(c, n, kinds='dg', cplx=None, labels=None):
    kind = c.choose('kind', list(kinds))
    dims = c.choose('dims', DIMS[n]) if kind == 'd' else (2,) * n
    cx = bool(c.choose('cplx', [0, 1])) if cplx is None else cplx
    labs = labels or ['x%d' % i for i in range(n)]
    if kind == 'd':
        t, ref = T(c, 'a', labs, dims, cx)
    elif n:
        t, ref = D(c, 'a', labs, dims[0], cx)
    else:
        ref = c.array('a', (), cx)
        t = c.lib.DiagonalTensor(data=ref)
    return t, ref, dims


def check_order(c, t, ref, legs0, order, what):
    """t's legs are legs0 in the given order and its elements follow"""
    c.ok([id(l) for l in t.legs] == [id(legs0[i]) for i in order], what + ": order of legs")
    c.invariant(t, what)
    c.eq(c.dense(t), c.transpose(ref, order) if order else ref, what + ": elements")


def front(c):
    """moveLegsToFront / moveLabelsToFront / reArrange / toTensor(labels), twice in a row"""
    n = c.choose('rank', [0, 1, 2, 3, 4])
    t, ref, dims = make(c, n)
    legs0 = list(t.legs)
    order = list(range(n))
    for step in (0, 1):
        k = c.choose('how%d' % step, ['legs', 'labels', 'rearrange', 'toTensor'])
        if k in ('rearrange', 'toTensor'):
            mv = c.perm('p%d' % step, order)
        else:
            mv = c.perm('p%d' % step, c.subset('s%d' % step, order))
        if k == 'legs':
            arg = [legs0[i] for i in mv]
            t.moveLegsToFront(arg)
            c.ok([id(x) for x in arg] == [id(legs0[i]) for i in mv], "the caller's list of legs changed")
        elif k == 'labels':
            arg = ['x%d' % i for i in mv]
            t.moveLabelsToFront(arg)
            c.ok(arg == ['x%d' % i for i in mv], "the caller's list of labels changed")
        elif k == 'rearrange':
            t.reArrange(['x%d' % i for i in mv])
        else:
            r = t.toTensor(['x%d' % i for i in mv])
            c.eq(r, c.transpose(ref, mv) if mv else ref, "toTensor with labels")
        order = mv + [i for i in order if i not in mv]
        check_order(c, t, ref, legs0, order, k)
        if n == 4 or (n == 3 and not c.choose('again', [0, 1])):
            break
    c.ok(list(t.labels) == ['x%d' % i for i in order], "labels")
    c.eq(t.toTensor(), c.transpose(ref, order) if order else ref, "toTensor")


def matrix(c):
    """toMatrix puts every element at the row-major position of its row and column legs"""
    n = c.choose('rank', [1, 2, 3, 4])
    t, ref, dims = make(c, n, cplx=False if n == 4 else None)
    pos = c.perm('order', list(range(n)))
    k = c.choose('rows', list(range(n + 1)))
    rows, cols = pos[:k], pos[k:]
    how = c.choose('given', ['both', 'rows', 'cols'])
    if how == 'rows':
        cols = sorted(cols)
    if how == 'cols':
        rows = sorted(rows)
    form = c.choose('as', ['labels', 'legs', 'mixed'])
    names = (lambda s: ['x%d' % i for i in s])
    legs = (lambda s: [t.legs[i] for i in s])
    fr, fc = {'labels': (names, names), 'legs': (legs, legs), 'mixed': (names, legs)}[form]
    kw = {}
    if how != 'cols':
        kw['rows'] = fr(rows)
    if how != 'rows':
        kw['cols'] = fc(cols)
    given = {x: list(y) for x, y in kw.items()}
    legs0 = list(t.legs)
    m = t.toMatrix(**kw)
    nr = 1
    for i in rows:
        nr *= dims[i]
    nc = 1
    for i in cols:
        nc *= dims[i]
    want = c.zeros((nr, nc), c.is_complex(ref))
    for ix in c.idx(dims):
        r = 0
        for i in rows:
            r = r * dims[i] + ix[i]
        s = 0
        for i in cols:
            s = s * dims[i] + ix[i]
        want[r, s] = ref[ix]
    c.eq(m, want, "toMatrix")
    c.ok(all(len(kw[x]) == len(given[x]) and all(p is q for p, q in zip(kw[x], given[x])) for x in kw), "the caller's lists changed")
    check_order(c, t, ref, legs0, list(range(n)), "tensor after toMatrix")
    m[...] = 0
    c.eq(c.dense(t), ref, "tensor after its matrix changed")


def vector(c):
    n = c.choose('rank', [0, 1, 2, 3, 4])
    t, ref, dims = make(c, n)
    p = c.perm('order', list(range(n)))
    if n:
        t.reArrange(['x%d' % i for i in p])
    v = t.toVector()
    if t.diagonalFlag:
        # documented: only the diagonal
        l = dims[0] if n else 1
        want = c.zeros((l,), c.is_complex(ref))
        for i in range(l):
            want[i] = ref[(i,) * n]
    else:
        d = [dims[i] for i in p]
        size = 1
        for x in d:
            size *= x
        want = c.zeros((size,), c.is_complex(ref))
        for k, ix in enumerate(c.idx(d)):
            src = [0] * n
            for a, b in zip(p, ix):
                src[a] = b
            want[k] = ref[tuple(src)]
    c.eq(v, want, "toVector")
    v[...] = 0
    c.eq(c.dense(t), c.transpose(ref, p) if n else ref, "tensor after its vector changed")


def refused_matrix(c):
    """rows and columns must cover all legs exactly once"""
    n = c.choose('rank', [1, 2, 3])
    t, ref, dims = make(c, n, cplx=False)
    legs0 = list(t.legs)
    case = c.choose('case', ['none', 'missing', 'twice'])
    if case == 'none':
        f = lambda: t.toMatrix()
    elif case == 'missing':
        f = lambda: t.toMatrix(rows=['x0'], cols=['x%d' % i for i in range(1, n - 1)]) if n > 1 else t.toMatrix(rows=[], cols=[])
    else:
        f = lambda: t.toMatrix(rows=['x0'], cols=['x%d' % i for i in range(n)])
    c.raises(f, "toMatrix with incomplete legs")
    check_order(c, t, ref, legs0, list(range(n)), "after a refused toMatrix")


def rename(c):
    """renaming and tags change names only"""
    n = c.choose('rank', [1, 2, 3])
    t, ref, dims = make(c, n, cplx=False)
    legs0 = list(t.legs)
    names = list(t.labels)
    partner = None
    if c.choose('linked', [0, 1]):
        partner = c.lib.TensorLike(shape=(dims[0],), labels=['p'])
        c.lib.makeLink('x0', 'p', t, partner)
    for s in range(3):
        op = c.choose('op%d' % s, ['one', 'dashes', 'missing', 'many', 'swap', 'tag', 'untag', 'nothing'])
        if op == 'one':
            i = c.choose('i%d' % s, list(range(n)))
            t.renameLabel(names[i], 'r%d' % s)
            names[names.index(names[i])] = 'r%d' % s
        elif op == 'dashes':
            t.renameLabel(names[-1], 'T9-u-v%d' % s)
            names[names.index(names[-1])] = 'T9-u-v%d' % s
        elif op == 'missing':
            t.renameLabel('absent', 'q')
        elif op == 'many':
            src = list(names)
            dst = ['m%d%d' % (s, k) for k in range(n)]
            t.renameLabels(src, dst)
            c.ok(src == names and dst == ['m%d%d' % (s, k) for k in range(n)], "the caller's lists changed")
            names = dst
        elif op == 'swap':
            if n < 2:
                c.skip()
            t.renameLabels([names[0], names[1], 'tmp%d' % s], ['tmp%d' % s, names[0], names[1]])
            names[0], names[1] = names[1], names[0]
        elif op == 'tag':
            if any('-' in x for x in names):
                c.raises(lambda: t.addTensorTag('T'), "a second tag")
                return
            t.addTensorTag('T%d' % s)
            names = ['T%d-%s' % (s, x) for x in names]
        elif op == 'untag':
            t.removeTensorTag()
            names = [x.split('-', 1)[1] if '-' in x else x for x in names]
        c.ok(list(t.labels) == names, "%s: labels %s expected, %s found" % (op, names, t.labels))
        check_order(c, t, ref, legs0, list(range(n)), op)
        if partner is not None:
            c.ok(legs0[0].anotherSide() is partner.legs[0] and partner.labels == ['p'], "link after " + op)
    c.raises(lambda: t.renameLabels(['a'], ['b', 'c']), "lists of different length")


PATTERNS = {1: ['a'], 2: ['ab', 'aa'], 3: ['abc', 'aab', 'aba', 'baa', 'aaa'], 4: ['abab', 'aabb', 'abba', 'abca', 'aaab']}


def repeated(c):
    """repeated labels: occurrences are matched in order, backward look-ups from the end"""
    n = c.choose('rank', [1, 2, 3, 4])
    pat = list(c.choose('labels', PATTERNS[n]))
    t, ref, dims = make(c, n, cplx=False, labels=pat)
    legs0 = list(t.legs)
    for x in 'abcz':
        first = next((i for i in range(n) if pat[i] == x), -1)
        last = next((i for i in range(n - 1, -1, -1) if pat[i] == x), -1)
        c.ok(t.indexOfLabel(x) == first and t.indexOfLabel(x, backward=True) == last, "indexOfLabel")
        g, h = t.getLeg(x), t.getLeg(x, backward=True)
        c.ok((g is None and h is None) if first < 0 else (g is legs0[first] and h is legs0[last]), "getLeg")
        c.ok(t.shapeOfLabel(x) == (dims[first] if first >= 0 else -1) and t.shapeOfLabel(x, backward=True) == (dims[last] if last >= 0 else -1), "shapeOfLabel")
        c.ok(t.labelInTensor(x) == (first >= 0), "labelInTensor")
        if first >= 0:
            c.ok(list(t.getLabelIndices([x])) == [first] and list(t.getLabelIndices([x], backward=True)) == [last], "getLabelIndices")
            if pat.count(x) == 2:
                c.ok(list(t.getLabelIndices([x, x])) == [first, last] and list(t.getLabelIndices([x, x], backward=True)) == [last, first], "getLabelIndices of a pair")
                c.ok(tuple(t.shapeOfLabels([x, x])) == (dims[first], dims[last]), "shapeOfLabels of a pair")
    c.ok(list(t.labels) == pat, "labels after look-ups")
    for i, l in enumerate(legs0):
        c.ok(t.indexOfLeg(l) == i, "indexOfLeg")
        c.ok(t.shapeOfIndex(i) == dims[i], "shapeOfIndex")
    # order asked for
    sub = c.perm('p', c.subset('s', list(range(n))))
    want = [pat[i] for i in sub]
    exp, used = [], set()
    for x in want:
        i = next(k for k in range(n) if pat[k] == x and k not in used)
        used.add(i)
        exp.append(i)
    got = t.getLegsByLabel(want)
    c.ok([id(l) for l in got] == [id(legs0[i]) for i in exp], "getLegsByLabel")
    c.ok(t.labelsInTensor(want) and not t.labelsInTensor(want + ['z']), "labelsInTensor")
    rest = t.complementLegs(got)
    c.ok([id(l) for l in rest] == [id(legs0[i]) for i in range(n) if i not in used], "complementLegs")
    c.raises(lambda: t.getLegsByLabel(want + ['z']), "a label that is not there")
    if pat.count('a'):
        c.raises(lambda: t.getLegsByLabel(['a'] * (pat.count('a') + 1)), "a label asked for more often than it is there")
    if len(sub) == n and c.choose('all', [0, 1]):
        t.reArrange(want)
    else:
        t.moveLabelsToFront(want)
    check_order(c, t, ref, legs0, exp + [i for i in range(n) if i not in used], "moved")
    m = t.toMatrix(rows=t.legs[:len(sub)], cols=None)
    size = [t.shape[i] for i in range(n)]
    nr = 1
    for i in exp:
        nr *= dims[i]
    flatref = c.transpose(ref, exp + [i for i in range(n) if i not in used])
    want_m = c.zeros((nr, t.totalSize // nr), False)
    for k, ix in enumerate(c.idx(size)):
        want_m[k // (t.totalSize // nr), k % (t.totalSize // nr)] = flatref[ix]
    c.eq(m, want_m, "toMatrix of front legs")


def refused_order(c):
    n = c.choose('rank', [1, 2, 3])
    t, ref, dims = make(c, n, cplx=False)
    legs0 = list(t.legs)
    case = c.choose('case', ['short', 'other', 'twice', 'long'])
    names = list(t.labels)
    arg = {'short': names[:-1], 'other': names[:-1] + ['z'], 'twice': names + names[:1], 'long': names + ['z']}[case]
    c.raises(lambda: t.reArrange(arg), "reArrange to other labels")
    check_order(c, t, ref, legs0, list(range(n)), "after a refused reArrange")
    if case in ('other', 'long', 'twice'):
        c.raises(lambda: t.moveLabelsToFront(arg), "moving a label that is not there")
        check_order(c, t, ref, legs0, list(range(n)), "after a refused move")


def symbolic_dims(c):
    """data-less tensors: dimensions follow their names"""
    n = c.choose('rank', [2, 3, 4])
    d = [c.int('d%d' % i, 1, 60) for i in range(n)]
    t = c.lib.TensorLike(shape=tuple(d), labels=['x%d' % i for i in range(n)])
    legs0 = list(t.legs)
    mv = c.perm('p', c.subset('s', list(range(n))))
    if c.choose('how', [0, 1]):
        t.moveLabelsToFront(['x%d' % i for i in mv])
    else:
        t.moveLegsToFront([legs0[i] for i in mv])
    order = mv + [i for i in range(n) if i not in mv]
    c.ok([id(l) for l in t.legs] == [id(legs0[i]) for i in order], "order")
    c.ok(c.conj([t.shape[k] == d[i] for k, i in enumerate(order)]), "dimensions")
    c.ok(c.conj([t.shapeOfLabel('x%d' % i) == d[i] for i in range(n)]), "dimension by label")
    p = d[0]
    for x in d[1:]:
        p = p * x
    c.ok(t.totalSize == p, "total size")


def front_deep(c):
    """three moves in a row, rank 4"""
    t, ref, dims = make(c, 4, kinds='d', cplx=False)
    legs0 = list(t.legs)
    order = list(range(4))
    for s in range(3):
        mv = c.perm('p%d' % s, c.subset('s%d' % s, order))
        if len(mv) > 2:
            c.skip()
        t.moveLabelsToFront(['x%d' % i for i in mv])
        order = mv + [i for i in order if i not in mv]
        check_order(c, t, ref, legs0, order, 'move %d' % s)


def matrix5(c):
    t, ref, dims = make(c, 5, kinds='d', cplx=False)
    pos = c.perm('order', list(range(5)))
    k = c.choose('rows', [1, 2, 3, 4])
    rows, cols = pos[:k], pos[k:]
    m = t.toMatrix(rows=['x%d' % i for i in rows], cols=['x%d' % i for i in cols])
    want = c.zeros(tuple(m.shape), False)
    for ix in c.idx(dims):
        r = s = 0
        for i in rows:
            r = r * dims[i] + ix[i]
        for i in cols:
            s = s * dims[i] + ix[i]
        want[r, s] = ref[ix]
    c.eq(m, want, "toMatrix")


def shuffles(n):
    o = list(range(n))
    return [o, o[::-1], o[1::2] + o[::2], o[n // 2:] + o[:n // 2], o[1:] + o[:1]]


def large(c):
    """high ranks and large dimensions"""
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('shape', {'d': [(2, 1, 2, 3, 2), (2, 1, 2, 2, 1, 2), (1, 2, 2, 1, 2, 2, 2), (11, 3), (2, 13, 2), (17,), (3, 1, 2, 4, 1), (1, 1, 1, 1, 1, 1, 1, 2)], 'g': [(2,) * 5, (2,) * 6, (11, 11), (12,)]}[kind])
    n = len(dims)
    labs = ['x%d' % i for i in range(n)]
    cx = bool(c.choose('cplx', [0, 1]))
    t, ref = T(c, 'a', labs, dims, cx) if kind == 'd' else D(c, 'a', labs, dims[0], cx)
    legs0 = list(t.legs)
    p = c.choose('p', shuffles(n))
    how = c.choose('how', ['legs', 'labels', 'rearrange', 'toTensor', 'matrix', 'vector', 'copy'])
    order = list(range(n))
    if how in ('legs', 'labels', 'copy'):
        k = c.choose('moved', sorted({1, n // 2, n - 1, n} - {0}))
        mv = p[:k]
        order = mv + [i for i in order if i not in mv]
    if how == 'legs':
        t.moveLegsToFront([legs0[i] for i in mv])
    elif how == 'labels':
        t.moveLabelsToFront([labs[i] for i in mv])
    elif how == 'copy':
        t.moveLabelsToFront([labs[i] for i in mv])
        t = t.copy()
        c.eq(t.toTensor(labs), ref, "copy after moving legs")
        return
    elif how == 'rearrange':
        t.reArrange([labs[i] for i in p])
        order = p
    elif how == 'toTensor':
        c.eq(t.toTensor([labs[i] for i in p]), c.transpose(ref, p), "toTensor with labels")
        order = p
    elif how == 'vector':
        if kind == 'g':
            c.skip()
        t.reArrange([labs[i] for i in p])
        c.eq(t.toVector(), c.transpose(ref, p).reshape(-1), "toVector")
        order = p
    else:
        k = c.choose('rows', sorted({0, 1, n // 2, n}))
        m = t.toMatrix(rows=[labs[i] for i in p[:k]], cols=[labs[i] for i in p[k:]])
        nr = 1
        for i in p[:k]:
            nr *= dims[i]
        nc = 1
        for i in p[k:]:
            nc *= dims[i]
        c.eq(m, c.transpose(ref, p).reshape(nr, nc), "toMatrix")
    check_order(c, t, ref, legs0, order, how)


SCENARIOS = [
    S('front', front, bounds='rank 0..4, every order and subset of legs, two moves in a row up to rank 3'),
    S('matrix', matrix, bounds='rank 1..4, every ordered split into rows and columns'),
    S('vector', vector),
    S('refused_matrix', refused_matrix),
    S('rename', rename, bounds='rank 1..3, sequences of three renamings'),
    S('repeated', repeated, bounds='rank 1..4, 13 patterns of repeated labels'),
    S('refused_order', refused_order),
    S('symbolic_dims', symbolic_dims, bounds='symbolic dimensions 1..60'),
    S('front_deep', front_deep),
    S('matrix5', matrix5),
    S('large', large, bounds='rank up to 8, dimensions up to 17, 5 leg orders'),
]
