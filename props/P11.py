"""P11: matrix and tensor decompositions reconstruct what they decompose"""
from props.common import *

BOUNDS = "Matrices up to 3x3 (real) and 2x3 (complex), every limit 1..4 and error order 1..3; tensors of rank 2..4 with every split into rows and columns; symmetric environments up to 3x3; isometry checks up to 2x3 matrices. numpy.linalg.svd/eigh are replaced by their contracts."


def mat(c, shape, cplx):
    return c.array('a', shape, cplx)


def orthonormal_cols(c, u, what):
    n = u.shape[1]
    g = c.zeros((n, n), c.is_complex(u))
    for i in range(n):
        for j in range(n):
            acc = None
            for k in range(u.shape[0]):
                e = u[k, i].conjugate() * u[k, j]
                acc = e if acc is None else acc + e
            g[i, j] = acc
    eye = c.zeros((n, n), c.is_complex(u))
    for i in range(n):
        eye[i, i] = 1
    c.eq(g, eye, what)


def weights(c, s, what):
    n = s.shape[0]
    c.ok(not c.is_complex(s), what + ": weights are real")
    c.ok(c.conj([s[i] >= 0 for i in range(n)] + [s[i] >= s[i + 1] for i in range(n - 1)]), what + ": weights are not negative and ordered")


def error_ok(c, err, s, k, p, what):
    """error = discarded / total, with powers p of the weights s, the first k kept"""
    tot = dis = None
    for i in range(s.shape[0]):
        e = s[i]
        for _ in range(p - 1):
            e = e * s[i]
        tot = e if tot is None else tot + e
        if i >= k:
            dis = e if dis is None else dis + e
    if dis is None:
        c.eq(c.arr0(err), c.zeros(()), what + ": error when nothing is discarded")
    else:
        c.eq(c.arr0(err * tot), c.arr0(dis), what + ": error is the discarded weight over the total")


def prod3(c, u, s, v):
    """sum_k u[i, k] s[k] v[k, j], written out"""
    m, k = u.shape
    n = v.shape[1]
    out = c.zeros((m, n), c.is_complex(u) or c.is_complex(v))
    for i in range(m):
        for j in range(n):
            acc = None
            for l in range(k):
                e = u[i, l] * s[l] * v[l, j]
                acc = e if acc is None else acc + e
            if acc is not None:
                out[i, j] = acc
    return out


SHAPES = [((1, 1), 0), ((1, 3), 0), ((3, 1), 0), ((2, 2), 0), ((2, 3), 0), ((3, 2), 0), ((3, 3), 0), ((1, 2), 1), ((2, 2), 1), ((2, 3), 1), ((3, 2), 1)]


def svd(c, cases=SHAPES):
    shape, cplx = c.choose('shape', cases)
    chi = c.choose('chi', [1, 2, 3, 4, 16])
    if chi > min(shape) + 1 and chi != 16:
        c.skip()
    a = mat(c, shape, bool(cplx))
    a0 = a.copy()
    p = c.choose('order', [None, 1, 2, 3])
    U, s, V = c.xp.linalg.svd(a)
    k = min(chi, *shape)
    if k < min(shape):
        c.assume(s[0] > 0.001)
    kw = {} if p is None else {'errorOrder': p}
    if c.choose('returnSV', [0, 1]):
        u, w, v, err = c.lib.decompose.SVDDecomposition(a, chi, returnSV=True, **kw)
        c.ok(tuple(u.shape) == (shape[0], k) and tuple(w.shape) == (k,) and tuple(v.shape) == (k, shape[1]), "shapes of the factors: kept min(limit, number of singular values)")
        orthonormal_cols(c, u, "left factor has orthonormal columns")
        orthonormal_cols(c, c.transpose(v, (1, 0)), "right factor has orthonormal rows")
        weights(c, w, "svd")
        c.eq(w, s[:k], "the largest weights are kept")
        got = prod3(c, u, w, v)
    else:
        u, v, err = c.lib.decompose.SVDDecomposition(a, chi, **kw)
        c.ok(tuple(u.shape) == (shape[0], k) and tuple(v.shape) == (shape[1], k), "shapes of the factors: kept min(limit, number of singular values)")
        vd = c.transpose(v, (1, 0))
        got = c.zeros(shape, bool(cplx))
        for i in range(shape[0]):
            for j in range(shape[1]):
                acc = None
                for l in range(k):
                    e = u[i, l] * v[j, l].conjugate()
                    acc = e if acc is None else acc + e
                got[i, j] = acc
        # weights shared evenly by both factors
        for side, f in (('left', u), ('right', v)):
            g = c.zeros((k, k), bool(cplx))
            d = c.zeros((k, k), bool(cplx))
            for i in range(k):
                d[i, i] = s[i]
                for j in range(k):
                    acc = None
                    for l in range(f.shape[0]):
                        e = f[l, i].conjugate() * f[l, j]
                        acc = e if acc is None else acc + e
                    g[i, j] = acc
            c.eq(g, d, side + " factor: columns orthogonal, squared length the singular value")
    if k == min(shape):
        c.eq(got, a0, "product of the factors")
    else:
        c.eq(got, prod3(c, U[:, :k], s[:k], V[:k]), "product of the kept factors")
    error_ok(c, err, s, k, p or 2, "svd")
    c.eq(a, a0, "the decomposed matrix is left alone")


def tensor_svd(c):
    kind = c.choose('kind', ['d', 'g'])
    dims = c.choose('dims', {'d': [(2, 3), (3, 2), (2, 2), (2, 1, 2), (2, 2, 1), (1, 2, 1, 2), (3, 2, 1), (3,)], 'g': [(2, 2), (2, 2, 2)]}[kind])
    n = len(dims)
    names = ['x%d' % i for i in range(n)]
    cplx = bool(c.choose('cplx', [0, 1])) if n <= 2 and kind == 'd' else False
    t, ref = T(c, 'a', names, dims, cplx) if kind == 'd' else D(c, 'a', names, dims[0], cplx)
    order = c.perm('p', names)
    k = c.choose('rows', list(range(1, n))) if n > 1 else c.choose('rows', [0, 1])
    rows, cols = order[:k], order[k:]
    how = c.choose('given', ['both', 'rows', 'cols'])
    if how == 'rows':
        cols = [x for x in names if x in cols]
    if how == 'cols':
        rows = [x for x in names if x in rows]
    d = dict(zip(names, dims))
    m = nn = 1
    for x in rows:
        m *= d[x]
    for x in cols:
        nn *= d[x]
    chi = c.choose('chi', [None, 1, 2])
    if min(m, nn) == 1 and chi == 2:
        c.skip()
    if min(m, nn) > 2:
        c.skip()
    inner = c.choose('inner', [None, ('i', 'j')])
    kw = {}
    if how != 'cols':
        kw['rows'] = list(rows)
    if how != 'rows':
        kw['cols'] = list(cols)
    given = {x: list(y) for x, y in kw.items()}
    if inner and n == 2 and c.choose('preserve', [0, 1]):
        kw['preserveLegs'] = True       # documented as not in use yet: the tensor keeps its legs
    if chi is not None:
        kw['chi'] = chi
    if inner:
        kw['innerLabels'] = inner
    # reference matrix: element of each index assignment at the row-major position
    M = c.zeros((m, nn), cplx)
    for ix in c.idx(dims):
        r = s = 0
        for x in rows:
            r = r * d[x] + ix[names.index(x)]
        for x in cols:
            s = s * d[x] + ix[names.index(x)]
        M[r, s] = ref[ix]
    _, sv, _ = c.xp.linalg.svd(M)
    kk = min(m, nn, chi or 16)
    if kk < min(m, nn):
        c.assume(sv[0] > 0.001)
    res = c.lib.tensorFunc.tensorSVDDecomposition(t, **kw)
    c.ok(all(kw[x] == y for x, y in given.items()), "the caller's lists changed")
    rn, cn = '|'.join(rows), '|'.join(cols)
    il, ir = inner or ('inner:' + rn, 'inner:' + cn)
    u, s, v = res['u'], res['s'], res['v']
    for x, nm in ((u, 'u'), (s, 's'), (v, 'v')):
        c.invariant(x, nm)
        c.ok(all(l.bond is None for l in x.legs), nm + " has no links")
    if rn != il:
        ua = c.obs(u, [rn, il], "u")
        c.ok(ua.shape == (m, kk), "shape of u")
    if cn != ir:
        va = c.obs(v, [ir, cn], "v")
        c.ok(va.shape == (kk, nn), "shape of v")
    c.ok(s.diagonalFlag and list(s.labels) == [rn, cn] and tuple(s.shape) == (kk, kk), "s is a diagonal tensor named by rows and columns")
    w = s.a
    c.eq(w, sv[:kk], "the largest weights are kept")
    weights(c, w, "tensor svd")
    orthonormal_cols(c, ua, "u is an isometry")
    orthonormal_cols(c, c.transpose(va, (1, 0)), "v is an isometry")
    got = prod3(c, ua, w, va)
    if kk == min(m, nn):
        c.eq(got, M, "u s v equals the tensor")
    else:
        U, _, V = c.xp.linalg.svd(M)
        c.eq(got, prod3(c, U[:, :kk], sv[:kk], V[:kk]), "u s v keeps the largest part")
    error_ok(c, res['error'], sv, kk, 2, "tensor svd")
    c.eq(c.obs(t, names, "decomposed tensor"), ref, "the decomposed tensor is left alone")
    c.invariant(t, "decomposed tensor")


def svd_contract(c):
    """u, s, v linked and contracted give the tensor back"""
    dims = c.choose('dims', [(2, 2), (2, 1, 2), (2, 3)])
    names = ['x%d' % i for i in range(len(dims))]
    t, ref = T(c, 'a', names, dims)
    k = c.choose('k', list(range(1, len(dims))))
    rows, cols = names[:k], names[k:]
    m = n = 1
    for i in range(len(dims)):
        if i < k:
            m *= dims[i]
        else:
            n *= dims[i]
    res = c.lib.tensorFunc.tensorSVDDecomposition(t, rows=rows, cols=cols, innerLabels=('i', 'j'), chi=c.choose('chi', [2, 16]))
    u, s, v = res['u'], res['s'], res['v']
    c.lib.makeLink(u.getLeg('i'), s.legs[0])
    c.lib.makeLink(s.legs[1], v.getLeg('j'))
    r = c.lib.optimalContract.contractTensorList(c.perm('o', [u, s, v]))
    c.eq(c.obs(r, ['|'.join(rows), '|'.join(cols)], "contraction"), ref.reshape((m, n)), "contraction of u, s, v")


def solve_env(c):
    n = c.choose('n', [1, 2, 3])
    cplx = bool(c.choose('cplx', [0, 1])) if n == 2 else False
    a = c.zeros((n, n), cplx)
    x = c.array('re', (n * (n + 1) // 2,))
    y = c.array('im', (n * (n + 1) // 2,))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = x[k] + (y[k] * 1j if cplx and i != j else 0)
            a[j, i] = x[k] - (y[k] * 1j if cplx and i != j else 0)
            k += 1
    a0 = a.copy()
    chi = c.choose('chi', [1, 2, 3, 4])
    thr = c.choose('thr', [None, 0.5])
    w, V = c.xp.linalg.eigh(a)
    th = 1e-10 if thr is None else thr
    # eigenvalues near the threshold or a vanishing total are left out: rounding decides there
    for i in range(n):
        c.assume(c.disj([w[i] > th + 1e-4, w[i] < th - (1e-12 if thr is None else 1e-4)]))
    exist = 0
    tot = None
    for i in range(n):
        if w[i] > th:
            exist += 1
        tot = w[i] if tot is None else tot + w[i]
    if exist:
        c.assume(c.disj([tot > 0.001, tot < -0.001]))
    p, err = c.lib.linalg.solveEnv(a, chi) if thr is None else c.lib.linalg.solveEnv(a, chi, threshold=thr)
    kk = min(chi, exist)
    c.ok(tuple(p.shape) == (n, kk), "number of eigenvectors kept: %s, expected %s" % (p.shape, kk))
    c.ok(True, "kept")
    if kk == 0:
        c.eq(c.arr0(err), c.zeros(()), "error when the limit exceeds the number of eigenvalues")
        return
    orthonormal_cols(c, p, "projector has orthonormal columns")
    # columns are eigenvectors of the largest eigenvalues, largest first
    pr = c.zeros((n, kk), cplx)
    ev = c.zeros((n, kk), cplx)
    for j in range(kk):
        for i in range(n):
            acc = None
            for l in range(n):
                e = a0[i, l] * p[l, j]
                acc = e if acc is None else acc + e
            pr[i, j] = acc
            ev[i, j] = p[i, j] * w[n - 1 - j]
    c.eq(pr, ev, "columns are the eigenvectors of the largest eigenvalues, in descending order")
    if chi > exist:
        c.eq(c.arr0(err), c.zeros(()), "error when the limit exceeds the number of eigenvalues")
    else:
        dis = None
        for i in range(n - kk):
            dis = w[i] if dis is None else dis + w[i]
        c.eq(c.arr0(err * tot), c.arr0(dis if dis is not None else 0.0), "error is the discarded weight over the total")
    c.eq(a, a0, "environment is left alone")


def isometry(c):
    """accepted exactly when rows are orthonormal up to eps"""
    dims, labs = c.choose('case', [((1, 1), ['y']), ((1, 2), ['y']), ((2, 1), ['y']), ((2, 2), ['y']), ((2, 2), ['x']), ((1, 1, 2), ['y', 'z']), ((1, 2), ['x', 'y']), ((2,), ['x'])])
    names = ['x', 'y', 'z'][:len(dims)]
    cplx = bool(c.choose('cplx', [0, 1])) if len(dims) == 2 and dims[0] * dims[1] <= 2 else False
    eps = c.choose('eps', [None, 0.5])
    t, ref = T(c, 'a', names, dims, cplx)
    labs = c.perm('p', labs)
    d = dict(zip(names, dims))
    rows = [x for x in names if x not in labs]
    R = list(c.idx([d[x] for x in rows]))
    C = list(c.idx([d[x] for x in labs]))
    err2 = None
    for i, ri in enumerate(R):
        for j, rj in enumerate(R):
            acc = None
            for cc in C:
                e1 = dict(zip(rows, ri))
                e1.update(zip(labs, cc))
                e2 = dict(zip(rows, rj))
                e2.update(zip(labs, cc))
                e = ref[tuple(e1[x] for x in names)] * ref[tuple(e2[x] for x in names)].conjugate()
                acc = e if acc is None else acc + e
            if i == j:
                acc = acc - 1
            q = acc.real * acc.real + acc.imag * acc.imag if cplx else acc * acc
            err2 = q if err2 is None else err2 + q
    e = 1e-10 if eps is None else eps
    r = c.lib.tensorFunc.isIsometry(t, list(labs)) if eps is None else c.lib.tensorFunc.isIsometry(t, list(labs), eps=eps)
    if r:
        c.ok(c.sqrt(err2) < e * (1 + 1e-6) + 1e-12, "accepted only up to eps")
    else:
        c.ok(c.sqrt(err2) >= e * (1 - 1e-6) - 1e-12, "refused only beyond eps")
    c.eq(c.obs(t, names, "tensor"), ref, "tensor is left alone")


def isometry_diag(c):
    """a diagonal tensor is an isometry exactly when its dense form is"""
    n = c.choose('rank', [2, 3])
    names = ['x', 'y', 'z'][:n]
    t, ref = D(c, 'a', names, c.choose('dim', [1, 2]))
    labs = c.subset('s', names, 1)
    r = bool(c.lib.tensorFunc.isIsometry(t, labs, eps=0.5))
    d = c.lib.Tensor(data=ref, labels=list(names))
    c.ok(bool(c.lib.tensorFunc.isIsometry(d, labs, eps=0.5)) == r, "diagonal and dense answers agree")


def isometry_concrete(c):
    """exact isometries and non-isometries with one symbolic factor"""
    x = c.real('x', -2, 2)
    t = c.lib.Tensor(data=c.zeros((2, 2)), labels=['x', 'y'])
    a = c.zeros((2, 2))
    a[0, 1] = 1
    a[1, 0] = x
    t = c.lib.Tensor(data=a, labels=['x', 'y'])
    r = c.lib.tensorFunc.isIsometry(t, ['y'])
    if x == 1 or x == -1:
        c.ok(bool(r), "permutation matrix with signs")
    if abs(x) > 1.001 or abs(x) < 0.999:
        c.ok(not r, "row of another length")
    c.raises(lambda: c.lib.tensorFunc.isIsometry(t, ['z']), "label that is not there")
    like = c.lib.TensorLike(shape=(2, 3), labels=['x', 'y'])
    c.ok(c.lib.tensorFunc.isIsometry(like, ['x']) is True, "data-less tensors are taken for isometries")


def refused(c):
    t, ref = T(c, 'a', ['x', 'y'], (2, 2))
    case = c.choose('case', [['i', 'j'], ('i',), ('i', 'j', 'k'), 'ij'])
    c.raises(lambda: c.lib.tensorFunc.tensorSVDDecomposition(t, rows=['x'], innerLabels=case), "inner labels that are not a pair")
    c.eq(c.obs(t, ['x', 'y'], "t"), ref, "tensor is left alone")


SCENARIOS = [
    S('svd', svd, bounds='11 shapes up to 3x3, limits 1..4 and 16, error orders 1..3, both return forms'),
    S('tensor_svd', tensor_svd, bounds='rank 1..4, every ordered split, real; complex up to rank 2'),
    S('svd_contract', svd_contract),
    S('solve_env', solve_env, bounds='symmetric up to 3x3 (complex 2x2), limits 1..4'),
    S('isometry', isometry, bounds='matrices up to 2x2'),
    S('isometry_diag', isometry_diag),
    S('isometry_concrete', isometry_concrete),
    S('refused', refused),
]
