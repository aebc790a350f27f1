"""P21: coarse-graining without truncation preserves the value of the network.

The exact values are written out as sums over the indices of the lattice; the archived tensors and norms are what the
coarse-graining classes expose."""
import warnings
from props.common import *

BOUNDS = ("Square TRG and HOTRG: leg dimensions 1 and 2, one step; triangular TRG: one step; factors and limits up to dimension 3; directed HOTRG steps, impurity steps: every direction, "
          "symbolic projectors with 1..2 kept states; impurity networks of order 1..3 over a recording stand-in for the coarse-graining; "
          "CTMRG: lattices of side 1..3 (1..5 when the legs have dimension 1). numpy.linalg.svd/eigh are replaced by their contracts; no truncation.")


def square(c, name, v, h, labels=('u', 'l', 'd', 'r'), lo=None, like=None):
    d = {'u': v, 'd': v, 'l': h, 'r': h}
    a = c.array(name, tuple(d[x] for x in labels), lo=lo)
    return c.lib.Tensor(data=a, labels=list(labels)), (a, list(labels))


def el(ref, **ix):
    a, labels = ref
    return a[tuple(ix[x] for x in labels)]


def add(acc, x):
    return x if acc is None else acc + x


def not_zero(c, ref):
    a = ref[0]
    c.assume(a[(0,) * len(a.shape)] > 0.01)


def sq(c, a):
    """sum of squares"""
    acc = None
    for ix in c.idx(a.shape):
        acc = add(acc, a[ix] * a[ix])
    return acc


def restored(c, t, norm, ref, what):
    """norm * archived tensor is the tensor given, and the archived one has norm one"""
    a, labels = ref
    got = c.obs(t, labels, what)
    c.eq(got * norm, a, what + ": archived tensor times its norm")
    c.eq(c.arr0(norm * norm), c.arr0(sq(c, a)), what + ": the norm")
    c.ok(norm > 0, what + ": the norm is positive")


def square_start(c):
    v, h = c.choose('dims', [(1, 1), (1, 2), (2, 1), (2, 2)])
    labels = c.choose('order', [('u', 'l', 'd', 'r'), ('l', 'r', 'u', 'd'), ('r', 'd', 'l', 'u')])
    t, ref = square(c, 'a', v, h, labels)
    not_zero(c, ref)
    ref = (ref[0].copy(), ref[1])
    kind = c.choose('class', ['TRG', 'HOTRG'])
    dof = c.choose('dof', [None, 3])
    t.degreeOfFreedom = dof
    raw = c.choose('given', [0, 1]) if labels == ('u', 'l', 'd', 'r') and v == h and dof is None else 0
    given = ref[0].copy() if raw else t
    if raw:
        ref = (ref[0], ['u', 'l', 'd', 'r'])
        x = c.lib.tensorFactory.makeSquareTensor(given)
        c.ok(sorted(x.labels) == ['d', 'l', 'r', 'u'], "labels of a square tensor")
        ref = (ref[0], list(x.labels))
    r = c.lib.TRG.SquareTRG(given, chi=4) if kind == 'TRG' else c.lib.HOTRG.HOTRG(given, 4)
    restored(c, r.aArchive[0], r.aNorms[0], ref, "start")
    c.ok(r.aArchive[0].degreeOfFreedom == (dof or 1), "start: degrees of freedom")
    c.eq(c.obs(r.a, ref[1], "current"), c.obs(r.aArchive[0], ref[1], "archived"), "current tensor")
    if not raw:
        c.eq(t.a, ref[0], "the tensor given is left alone")
    else:
        c.eq(given, ref[0], "the array given is left alone")


def two_sites(c, ref, v, h):
    """the 2-site torus of the square TRG after one step: sum over A[u l d r] A[d r u l]-type closing"""
    acc = None
    for u in range(v):
        for l in range(h):
            for d in range(v):
                for r in range(h):
                    acc = add(acc, el(ref, u=u, l=l, d=d, r=r) * el(ref, u=d, l=r, d=u, r=l))
    return acc


def square_trg(c, cases=((1, 1), (1, 2), (2, 1))):
    v, h = c.choose('dims', cases)
    t, ref = square(c, 'a', v, h)
    not_zero(c, ref)
    s = c.lib.TRG.SquareTRG(t, chi=v * h + c.choose('extra', [0, 1]))
    n0 = s.aNorms[0]
    s.iterate()
    c.ok(len(s.aNorms) == 2 and len(s.aArchive) == 2, "one more tensor archived")
    b = s.aArchive[1]
    c.ok(b.degreeOfFreedom == 2 and s.aArchive[0].degreeOfFreedom == 1, "degrees of freedom doubled")
    d = c.obs(b, ['u', 'l', 'd', 'r'], "new tensor")
    c.ok(d.shape[0] == d.shape[2] and d.shape[1] == d.shape[3], "new tensor closes on itself")
    acc = None
    for u in range(d.shape[0]):
        for l in range(d.shape[1]):
            acc = add(acc, d[u, l, u, l])
    c.eq(c.arr0(acc * s.aNorms[1] * n0 * n0), c.arr0(two_sites(c, ref, v, h)), "two-site torus")
    e = s.errors[0]
    c.eq(c.arr0(e[0] + e[1]), c.zeros(()), "no truncation, no error")


def density(c, what, r, k, dof, exact):
    """entry k of logZDensity: the log of the exact value per degree of freedom"""
    l = r.logZDensity()
    c.ok(len(l) == k + 1, what + ": one entry per archived tensor")
    c.eq(c.arr0(c.exp(l[k] * dof)), c.arr0(exact), what + ": log of the partition function per site")


def trace(ref, v, h):
    acc = None
    for u in range(v):
        for l in range(h):
            acc = add(acc, el(ref, u=u, d=u, l=l, r=l))
    return acc


def density_start(c):
    v, h = c.choose('dims', [(1, 1), (1, 2), (2, 1), (2, 2)])
    t, ref = square(c, 'a', v, h, lo=0)
    not_zero(c, ref)
    if c.choose('class', ['TRG', 'HOTRG']) == 'TRG':
        r = c.lib.TRG.SquareTRG(t, chi=4)
    else:
        r = c.lib.HOTRG.HOTRG(t, 4)
    density(c, "start", r, 0, 1, trace(ref, v, h))


def density_trg(c):
    v, h = c.choose('dims', [(1, 1), (1, 2), (2, 1)])
    t, ref = square(c, 'a', v, h, lo=0)
    not_zero(c, ref)
    r = c.lib.TRG.SquareTRG(t, chi=4)
    r.iterate()
    density(c, "one step", r, 1, 2, two_sites(c, ref, v, h))


def hotrg(c, a, chiH=4, chiV=None):
    return c.lib.HOTRG.HOTRG(a, chiH, chiV)


def column(c, d, p, x1, x2, v, h, k):
    """the diagram of one coarse-graining step, axes u, l, d, r; p: projector elements [first][second][kept]"""
    n = {'u': v, 'd': v, 'l': h, 'r': h}
    across = d in 'ud'
    out = c.zeros((k, h, k, h) if across else (v, k, v, k), c.is_complex(p) or c.is_complex(x1[0]) or c.is_complex(x2[0]))
    m = v if across else h
    for ix in c.idx(out.shape):
        U, L, D, R = ix
        acc = None
        for q in c.idx((m, m, m, m, h if across else v)):
            a1, a2, b1, b2, s = q
            if across:          # x1 left, x2 right, joined by one horizontal index
                e = el(x1, u=a1, l=L, d=b1, r=s) * el(x2, u=a2, l=s, d=b2, r=R)
                first, second = (U, D)
            else:               # x1 up, x2 down
                e = el(x1, u=U, l=a1, d=s, r=b1) * el(x2, u=s, l=a2, d=D, r=b2)
                first, second = (L, R)
            # the projector stands at the side d, its conjugate at the opposite side
            pa = p[a1 * m + a2, first]
            pb = p[b1 * m + b2, second]
            pa, pb = (pa, pb.conjugate()) if d in 'ul' else (pa.conjugate(), pb)
            acc = add(acc, e * pa * pb)
        out[ix] = acc
    return out


def directed(c):
    d = c.choose('d', ['u', 'd', 'l', 'r'])
    v, h = c.choose('dims', [(1, 2), (2, 1), (2, 2)])
    m = v if d in 'ud' else h
    k = c.choose('kept', [1, 2] if m > 1 else [1])
    cplx = bool(c.choose('cplx', [0, 1])) if v * h == 2 else False
    p = c.array('p', (m * m, k), cplx)
    two = c.choose('given', [0, 1, 2])
    t, ref = square(c, 'a', v, h)
    x, rx = square(c, 'x', v, h, ('r', 'u', 'l', 'd'))
    y, ry = square(c, 'y', v, h, ('d', 'l', 'r', 'u'))
    not_zero(c, ref)
    r = hotrg(c, t)
    r.a = t
    if two == 0:
        res, x1, x2 = r.directedIterate(d, p), ref, ref
    elif two == 1:
        res, x1, x2 = r.directedIterate(d, p, inputTensor2=y), ref, ry
    else:
        res, x1, x2 = r.directedIterate(d, p, x, y), rx, ry
    c.eq(c.obs(res, ['u', 'l', 'd', 'r'], "directed step"), column(c, d, p, x1, x2, v, h, k), "directed step")
    if two == 2:
        for q, rq in ((x, rx), (y, ry)):
            c.eq(c.obs(q, rq[1], "input"), rq[0], "the tensors given are left alone")
    # an impurity step repeats the recorded step on other tensors
    r.directChoices.append('?')
    r.projectors.append(None)
    r.directChoices.append(d)
    r.projectors.append(p)
    res = r.impurityIterate([x, y], 1)
    c.eq(c.obs(res, ['u', 'l', 'd', 'r'], "impurity step"), column(c, d, p, rx, ry, v, h, k), "impurity step")
    c.raises(lambda: r.impurityIterate([x], 1), "one tensor for an impurity step")
    c.raises(lambda: r.impurityIterate([x, y], 2), "an impurity step that was not made yet")


def hotrg_step(c, cases=((1, 1),)):
    v, h = c.choose('dims', cases)
    t, ref = square(c, 'a', v, h)
    not_zero(c, ref)
    r = hotrg(c, t, 4)
    n0 = r.aNorms[0]
    r.iterate()
    p, d = r.projectors[0], r.directChoices[0]
    m = v if d in 'ud' else h
    if p.shape[1] < m * m:
        c.skip()
    c.ok(len(r.aNorms) == 2 and len(r.aArchive) == 2 and r.aArchive[1].degreeOfFreedom == 2, "one more tensor, twice the sites")
    b = c.obs(r.aArchive[1], ['u', 'l', 'd', 'r'], "new tensor")
    tr = None
    for u in range(b.shape[0]):
        for l in range(b.shape[1]):
            tr = add(tr, b[u, l, u, l])
    exact = None
    for q in c.idx((m, m, h if d in 'ud' else v, h if d in 'ud' else v)):
        x, y, s, w = q
        if d in 'ud':
            e = el(ref, u=x, d=x, l=w, r=s) * el(ref, u=y, d=y, l=s, r=w)
        else:
            e = el(ref, l=x, r=x, u=w, d=s) * el(ref, l=y, r=y, u=s, d=w)
        exact = add(exact, e)
    c.eq(c.arr0(tr * r.aNorms[1] * n0 * n0), c.arr0(exact), "two-site torus")
    c.eq(c.arr0(r.errors[0]), c.zeros(()), "no truncation, no error")


class FakeRG:
    """stand-in for a coarse-graining: multiplies what it is given, and records it"""

    def __init__(self, c, parts, norms, traces):
        self.c, self.impurityParts, self.norms, self.traces, self.calls = c, parts, norms, traces, []

    def getNorm(self, i):
        return self.norms[i]

    def impurityIterate(self, tensors, i):
        self.calls.append((len(tensors), i))
        a = None
        for k, t in enumerate(tensors):
            x = self.c.obs(t, ['p', 'q'], "part")
            for _ in range(k + 1):          # the positions of the parts matter
                a = x if a is None else a * x
        if len(self.calls) % 2:
            return self.c.lib.Tensor(data=a, labels=['p', 'q'])
        return self.c.lib.Tensor(data=self.c.transpose(a, (1, 0)), labels=['q', 'p'])

    def tensorTrace(self, t):
        return self.c.obs(t, ['p', 'q'], "traced")[0, 1]

    def pureTensorTrace(self, i):
        return self.traces[i]


def compositions(n, k):
    if k == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in compositions(n - i, k - 1)]


def factorial(n):
    return 1 if n < 2 else n * factorial(n - 1)


def impurity(c):
    """order i of k combined parts: the average over all ways to spread i marks over the parts"""
    k = c.choose('parts', [2, 3])
    n = c.choose('orders', [1, 2, 3] if k == 2 else [1, 2])
    steps = c.choose('steps', [1, 2] if k == 2 and n < 3 else [1])
    dims = (1, 2)
    ts, cur, given = [], [], []
    for i in range(n):
        t, a = T(c, 'i%d' % i, ['p', 'q'], dims)
        t.degreeOfFreedom = 1
        ts.append(t)
        cur.append(a.copy())
        given.append(a.copy())
    high = c.choose('highest', [None, n] + ([n - 1] if n > 1 else []))
    m = n if high is None else high
    norms = [c.real('n%d' % i, 0.5, 2) for i in range(steps + 1)]
    traces = [c.real('z%d' % i, 0.5, 2) for i in range(steps + 1)]
    rg = FakeRG(c, k, norms, traces)
    net = c.lib.impurity.ImpurityTensorNetwork(ts) if high is None else c.lib.impurity.ImpurityTensorNetwork(ts, high)
    net.setRG(rg)
    for _ in range(steps):
        net.iterate()
    cur = [x / norms[0] for x in cur[:m]]
    hist = [cur]
    for s in range(steps):
        new = []
        for i in range(m):
            acc = None
            for parts in compositions(i, k):
                w = factorial(i)
                for j in parts:
                    w = w // factorial(j)
                p = None
                for q, j in enumerate(parts):
                    for _ in range(q + 1):
                        p = cur[j] if p is None else p * cur[j]
                acc = add(acc, p * float(w))
            new.append(acc / float(k ** i) / norms[s + 1])
        cur = new
        hist.append(cur)
    c.ok(len(net.impurityArchive) == steps + 1, "one archived set per step")
    for s in range(steps + 1):
        c.ok(len(net.impurityArchive[s]) == m, "one tensor per order")
        for i in range(m):
            c.eq(c.obs(net.impurityArchive[s][i], ['p', 'q'], "archived"), hist[s][i], "step %d, order %d" % (s, i))
            c.ok(s == 0 or net.impurityArchive[s][i].degreeOfFreedom == k ** s, "degrees of freedom")
    obs = net.measureObservables()
    for s in range(steps + 1):
        for i in range(m):
            c.eq(c.arr0(obs[s][i] * traces[s]), c.arr0(hist[s][i][0, 1]), "measured value is the ratio of the traces")
    for t, i in zip(ts, range(n)):
        c.eq(c.obs(t, ['p', 'q'], "given"), given[i], "the tensors given are left alone")


def ctm_a(c, v, h):
    labels = c.choose('order', [('l', 'r', 'u', 'd')])
    return square(c, 'a', v, h, labels)


def ctmrg(c, cases=((1, 1), (1, 2), (2, 1)), sides=(1, 2, 3)):
    """open lattice of side L: every boundary index is summed"""
    v, h = c.choose('dims', cases)
    L = c.choose('L', sides)
    t, ref = ctm_a(c, v, h)
    t0 = ref[0].copy()
    r = c.lib.CTMRG.CTMRG(t, chi=16)
    z = r.getZ(L)
    if L == 1:
        exact = None
        for ix in c.idx(t0.shape):
            exact = add(exact, t0[ix])
        c.eq(c.arr0(z), c.arr0(exact), "one site")
        return
    c.eq(c.obs(t, ref[1], "given"), t0, "the tensor given is left alone")
    C, H, W = c.zeros((v, h)), c.zeros((h, h, v)), c.zeros((v, v, h))
    for u in range(v):
        for q in range(h):
            C[u, q] = sum_el(c, t0, [(x, q, u, y) for x in range(h) for y in range(v)])
            for x in range(h):
                H[x, q, u] = sum_el(c, t0, [(x, q, u, y) for y in range(v)])
            for y in range(v):
                W[u, y, q] = sum_el(c, t0, [(x, q, u, y) for x in range(h)])
    dims = {x: h for x in 'abcdLR'}
    dims.update({x: v for x in 'efgiUD'})
    if L == 2:
        ops = [(C, 'ea'), (C, 'fa'), (C, 'eb'), (C, 'fb')]
    else:
        ops = [(C, 'ea'), (C, 'gb'), (C, 'fc'), (C, 'id'), (H, 'abU'), (H, 'cdD'), (W, 'efL'), (W, 'giR'), (t0, 'LRUD')]
    c.eq(c.arr0(z), c.arr0(c.total([(x, list(n)) for x, n in ops], [], dims)), "partition function of the open lattice of side %d" % L)


def sum_el(c, a, at, b=None, bt=None):
    acc = None
    for n, ix in enumerate(at):
        acc = add(acc, a[ix] if b is None else a[ix] * b[bt[n]])
    return acc


def triangle(c, which='any'):
    """triangular lattice: the tensors a, b exchanged for those of a lattice three times as coarse"""
    d1, d = c.choose('dims', [(1, 1), (2, 1), (3, 1)])
    al = c.real('alpha', 0.1, 2)
    r = c.lib.TRG.TriangleTRG(al, chi=16)
    a0 = c.obs(r.aArchive[0], ['1', '2', '3'], "start")
    want = c.zeros((2, 2, 2))
    want[0, 0, 0] = 1.0
    for ix in ((0, 0, 1), (0, 1, 0), (1, 0, 0)):
        want[ix] = al
    c.eq(a0 * r.aNorms[0], want, "start: at most one particle per triangle")
    c.eq(c.obs(r.bArchive[0], ['1', '2', '3'], "start") * r.bNorms[0], want, "start: at most one particle per triangle")
    # continue from other tensors
    mk = c.lib.tensorFactory.makeTriangleTensor
    x, y = c.array('x', (d1, d, d)), c.array('y', (d1, d, d))
    r.a, r.b = mk(x), mk(y)
    x0, y0 = x.copy(), y.copy()
    r.a.degreeOfFreedom = r.b.degreeOfFreedom = 1
    r.iterate()
    t = c.lib.contractExp.triangleTensorTrace(r.aArchive[1], r.bArchive[1])
    dims = {n: d1 for n in 'pqs'}
    dims.update({n: d for n in 'abcdef'})
    c.ok(r.aArchive[1].degreeOfFreedom == 3 and r.bArchive[1].degreeOfFreedom == 3, "three times the sites")
    c.eq(c.arr0(r.errors[0]), c.zeros(()), "no truncation, no error")
    exact = c.total([(x0, list('pab')), (y0, list('pcd')), (x0, list('qef')), (y0, list('qab')), (x0, list('scd')), (y0, list('sef'))], [], dims)
    c.eq(c.arr0(t.single() * r.aNorms[1] * r.bNorms[1]), c.arr0(exact), "three triangles of each kind")


def fold(c, a, rows, cols):
    """matrix of a 4-index array, rows and columns given as axis pairs"""
    s = a.shape
    m = c.zeros((s[rows[0]] * s[rows[1]], s[cols[0]] * s[cols[1]]))
    for ix in c.idx(s):
        m[ix[rows[0]] * s[rows[1]] + ix[rows[1]], ix[cols[0]] * s[cols[1]] + ix[cols[1]]] = a[ix]
    return m


def unfold(c, f, d1, d2):
    """rows of a factor split again"""
    out = c.zeros((d1, d2, f.shape[1]))
    for i in range(d1):
        for j in range(d2):
            for k in range(f.shape[1]):
                out[i, j, k] = f[i * d2 + j, k]
    return out


def triangle_parts(c):
    """the new tensors are the triangles of the factors of the pair tensor (any limit)"""
    d1, d, chi = c.choose('dims', [(1, 2, 4), (1, 2, 2), (2, 2, 2), (1, 2, 1), (2, 2, 1)])
    r = c.lib.TRG.TriangleTRG(0.5, chi=chi)
    mk = c.lib.tensorFactory.makeTriangleTensor
    x, y = c.array('x', (d1, d, d)), c.array('y', (d1, d, d))
    m = c.zeros((d, d, d, d))
    for a2, b2, a3, b3 in c.idx((d,) * 4):
        m[a2, b2, a3, b3] = sum_el(c, x, [(p, a2, a3) for p in range(d1)], y, [(p, b2, b3) for p in range(d1)])
    M = fold(c, m, (0, 1), (2, 3))
    _, sv, _ = c.xp.linalg.svd(M)
    c.assume(sv[0] > 0.001)
    u, v, e = c.lib.decompose.SVDDecomposition(M, chi)
    r.a, r.b = mk(x), mk(y)
    r.a.degreeOfFreedom = r.b.degreeOfFreedom = 1
    r.iterate()
    k = min(chi, d * d)
    for new, norm, f in ((r.a, r.aNorms[1], u), (r.b, r.bNorms[1], v)):
        w = unfold(c, f, d, d)
        dims = {'a': d, 'b': d, 'c': d, '1': k, '2': k, '3': k}
        # u: 2-3 of l, 3-2 of r, l: 2-3 of r
        c.eq(c.obs(new, ['1', '2', '3'], "new triangle") * norm, c.total([(w, list('ab1')), (w, list('ca2')), (w, list('bc3'))], ['1', '2', '3'], dims), "new triangle")
    c.eq(c.arr0(r.errors[0]), c.arr0(e), "recorded error")


def square_parts(c):
    """the new tensor is the square of the factors (any limit)"""
    v, h, chi = c.choose('dims', [(2, 2, 2), (2, 2, 1), (1, 2, 2), (2, 1, 1), (2, 3, 1), (3, 2, 1)])
    t, ref = square(c, 'a', v, h)
    a = ref[0].copy()
    r = c.lib.TRG.SquareTRG(t, chi=chi)
    n0 = r.aNorms[0]
    a = c.obs(r.aArchive[0], ['u', 'l', 'd', 'r'], "start")
    A, B = fold(c, a, (0, 1), (2, 3)), fold(c, a, (0, 3), (2, 1))
    for X in (A, B):
        _, sv, _ = c.xp.linalg.svd(X)
        c.assume(sv[0] > 0.001)
    uA, vA, eA = c.lib.decompose.SVDDecomposition(A, chi)
    uB, vB, eB = c.lib.decompose.SVDDecomposition(B, chi)
    r.iterate()
    k = uA.shape[1]
    dims = {'p': v, 'q': v, 'x': h, 'y': h, 'u': k, 'd': k, 'l': k, 'r': k}
    # inner square: p left, q right (vertical indices); x up, y down (horizontal indices)
    w = c.total([(unfold(c, vA, v, h), ['p', 'x', 'u']), (unfold(c, vB, v, h), ['q', 'x', 'r']), (unfold(c, uB, v, h), ['p', 'y', 'l']), (unfold(c, uA, v, h), ['q', 'y', 'd'])],
                ['u', 'l', 'd', 'r'], dims)
    c.eq(c.obs(r.a, ['u', 'l', 'd', 'r'], "new square") * r.aNorms[1], w, "new square")
    c.eq(c.arr0(r.errors[0][0]), c.arr0(eA), "recorded error")
    c.eq(c.arr0(r.errors[0][1]), c.arr0(eB), "recorded error")


def ctmrg_scale(c):
    """lattice of sites without legs worth naming: the value is the product of all sites, whatever the number of steps"""
    t, ref = square(c, 'a', 1, 1, ('l', 'r', 'u', 'd'), lo=0.1)
    a = ref[0][0, 0, 0, 0]
    r = c.lib.CTMRG.CTMRG(t, chi=c.choose('chi', [1, 16]))
    first = c.choose('first', [0, 4])
    if first:
        r.getZ(first)
    L = c.choose('L', [1, 2, 3, 4, 5])
    z = r.getZ(L)
    e = 1.0
    for _ in range(L * L):
        e = e * a
    c.eq(c.arr0(z), c.arr0(e), "side %d" % L)


def two_tensors(c):
    """a lattice of two kinds of tensors"""
    v, h = c.choose('dims', [(1, 1), (1, 2)])
    t, ref = square(c, 'a', v, h)
    y, ry = square(c, 'b', v, h)
    not_zero(c, ref)
    not_zero(c, ry)
    try:
        r = c.lib.TRG.SquareTRG(t, y, chi=4)
    except AttributeError:
        c.ok(False, "a square lattice of two tensors cannot be started")
    b = c.obs(r.aArchive[0], ['u', 'l', 'd', 'r'], "new tensor")
    acc = None
    for u in range(b.shape[0]):
        for l in range(b.shape[1]):
            acc = add(acc, b[u, l, u, l])
    exact = None
    for u, l, d, q in c.idx((v, h, v, h)):
        exact = add(exact, el(ref, u=u, l=l, d=d, r=q) * el(ry, u=d, l=q, d=u, r=l))
    c.eq(c.arr0(acc * r.aNorms[0]), c.arr0(exact), "two-site torus")


def more_orders(c):
    """more orders asked for than tensors given: the missing ones count as zero or are combined from the given ones"""
    t, a = T(c, 'i0', ['p', 'q'], (1, 2))
    t.degreeOfFreedom = 1
    rg = FakeRG(c, 2, [1.0, 1.0], [1.0, 1.0])
    net = c.lib.impurity.ImpurityTensorNetwork([t], 2)
    net.setRG(rg)
    try:
        net.initialize()
    except AttributeError:
        c.ok(False, "an impurity network with fewer tensors than orders cannot be started")


def density_triangle(c):
    """triangular lattice: log of the partition function per pair of triangles"""
    al = c.real('alpha', 0.1, 2)
    r = c.lib.TRG.TriangleTRG(al, chi=16)
    # start: the two triangles joined at all three corners
    want = 1.0 + 3.0 * al * al
    c.eq(c.arr0(c.exp(r.logZDensity()[0])), c.arr0(want), "start: log of the partition function per pair")
    # after a step: the archived pair stands for three pairs, so its norms and its trace count a third
    mk = c.lib.tensorFactory.makeTriangleTensor
    n = [c.real('n%d' % i, 0.5, 2) for i in range(4)]
    ts = []
    for i in range(4):
        a = c.zeros((1, 1, 1))
        a[0, 0, 0] = c.real('x%d' % i, 0.5, 2)
        ts.append((mk(a), a[0, 0, 0]))
        ts[i][0].degreeOfFreedom = 3 if i > 1 else 1
    r.aArchive, r.bArchive = [ts[0][0], ts[2][0]], [ts[1][0], ts[3][0]]
    r.aNorms, r.bNorms = [n[0], n[2]], [n[1], n[3]]
    l = r.logZDensity()
    c.eq(c.arr0(c.exp(l[0])), c.arr0(n[0] * n[1] * ts[0][1] * ts[1][1]), "start: norms and trace")
    start = n[0] * n[1]
    step = n[2] * n[3] * ts[2][1] * ts[3][1]
    want = start * start * start * step
    c.eq(c.arr0(c.exp(l[1] * 9)), c.arr0(want * want * want), "after a step: log of the partition function of three pairs of triangles")


def hotrg_impurity(c, cases=((1, 1),)):
    """one step of a HOTRG with impurities: the measured value is that of one impurity somewhere on two sites"""
    v, h = c.choose('dims', cases)
    t, ref = square(c, 'a', v, h, lo=0)
    not_zero(c, ref)
    r = hotrg(c, t, 4)
    orders = c.choose('orders', [2, 3]) if v * h == 1 else 2
    imps, refs = [t], [ref]
    for i in range(1, orders):
        m, rm = square(c, 'm%d' % i, v, h, c.choose('labels%d' % i, [('u', 'l', 'd', 'r'), ('r', 'u', 'l', 'd')]))
        m.degreeOfFreedom = 1
        imps.append(m)
        refs.append(rm)
    t.degreeOfFreedom = 1
    refs = [(a.copy(), l) for a, l in refs]
    net = c.lib.impurity.ImpurityTensorNetwork(imps)
    net.setRG(r)
    r.iterate()
    c.eq(c.arr0(r.getNorm(0)), c.arr0(r.aNorms[0]), "norm of the start")
    c.eq(c.arr0(r.getNorm(1)), c.arr0(r.aNorms[1]), "norm of the step")
    c.raises(lambda: r.getNorm(2), "norm of a step not made yet")
    c.eq(c.arr0(r.tensorTrace(t)), c.arr0(trace(refs[0], v, h)), "trace of a tensor")
    c.eq(c.arr0(r.pureTensorTrace(0) * r.aNorms[0]), c.arr0(trace(refs[0], v, h)), "trace of the start")
    net.iterate()
    p, d = r.projectors[0], r.directChoices[0]
    m = v if d in 'ud' else h
    if p.shape[1] < m * m:
        c.skip()
    obs = net.measureObservables()

    def pair(r1, r2):
        acc = None
        for x, y, s, w in c.idx((m, m) + ((h, h) if d in 'ud' else (v, v))):
            if d in 'ud':
                e = el(r1, u=x, d=x, l=w, r=s) * el(r2, u=y, d=y, l=s, r=w)
            else:
                e = el(r1, l=x, r=x, u=w, d=s) * el(r2, l=y, r=y, u=s, d=w)
            acc = add(acc, e)
        return acc
    z = pair(refs[0], refs[0])
    for i in range(orders):
        c.eq(c.arr0(obs[0][i] * trace(refs[0], v, h)), c.arr0(trace(refs[i], v, h)), "measured on the start, order %d" % i)
        acc = None
        for k in range(i + 1):
            w = factorial(i) // factorial(k) // factorial(i - k)
            acc = add(acc, pair(refs[k], refs[i - k]) * float(w))
        c.eq(c.arr0(obs[1][i] * z * float(2 ** i)), c.arr0(acc), "measured after a step, order %d" % i)


SCENARIOS = [
    S('density_triangle', density_triangle),
    S('hotrg_impurity', hotrg_impurity, bounds='legs of dimension 1, up to second order'),
    S('hotrg_impurity_wide', lambda c: hotrg_impurity(c, ((1, 2), (2, 1))), tier='thorough'),
    S('square_start', square_start),
    S('square_trg', square_trg, bounds='leg dimensions (vertical, horizontal) 1x1, 1x2, 2x1'),
    S('density_start', density_start),
    S('density_trg', density_trg),
    S('directed', directed),
    S('hotrg_step', lambda c: hotrg_step(c, ((1, 1), (1, 2), (2, 1)))),
    S('impurity', impurity),
    S('triangle', triangle),
    S('triangle_parts', triangle_parts),
    S('square_parts', square_parts),
    S('ctmrg_scale', ctmrg_scale, bounds='lattices of side 1..5, legs of dimension 1'),
    S('two_tensors', two_tensors),
    S('more_orders', more_orders),
    S('ctmrg', ctmrg),
]
