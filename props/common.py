"""shared helpers for scenarios"""


def S(name, fn, tier='quick', bounds='', **k):
    return dict(name=name, fn=fn, tier=tier, bounds=bounds, **k)


def layout(c, a, how):
    """the same array in another memory layout: 'C', 'F' (transposed memory), 'S' (strided view), 'R' (reversed view)"""
    if how == 'F':
        return a.T.copy().T
    if how == 'S':
        b = c.zeros(tuple(a.shape) + (2,), c.is_complex(a))
        b[..., 0] = a
        return b[..., 0]
    if how == 'R' and a.ndim:
        return a[::-1].copy()[::-1]
    return a


def T(c, name, labels, dims, cplx=False, legs=None):
    """dense tensor with symbolic elements; returns (tensor, its reference array). Every second tensor
    (by name) is given its data in transposed memory, which its copy inside the library keeps"""
    a = c.array(name, tuple(dims), cplx)
    t = c.lib.Tensor(data=layout(c, a, 'F' if sum(map(ord, name)) % 2 else 'C'), labels=list(labels))
    return t, a


def D(c, name, labels, dim, cplx=False):
    """diagonal tensor with symbolic diagonal; returns (tensor, dense reference array)"""
    d = c.array(name, (dim,), cplx)
    t = c.lib.DiagonalTensor(data=d, labels=list(labels))
    return t, dense_of(c, d, len(labels))


def dense_of(c, d, n):
    l = d.shape[0]
    out = c.zeros((l,) * n, c.is_complex(d))
    for i in range(l):
        out[(i,) * n] = d[i]
    return out


def link(c, ta, la, tb, lb, how=0):
    """link leg la of ta with leg lb of tb; `how` selects the documented ways and both directions"""
    mk = c.lib.makeLink
    if how == 0:
        return mk(la, lb, ta, tb)
    if how == 1:
        return mk(lb, la, tb, ta)
    if how == 2:
        return mk(ta.getLeg(la), tb.getLeg(lb))
    return mk([tb.getLeg(lb)], [ta.getLeg(la)])


class Net:
    """a small network of linked tensors with symbolic elements, and its reference value"""

    def __init__(self, c, kinds, edges, free, dim=None, edgedim=None, cplx=(), legperm=None, hows=None):
        """kinds: 'd' dense / 'g' diagonal per tensor; edges: list of (i, j); free: number of free legs per tensor.
        edgedim: dimension of each edge; free legs have dimension 2 (dense) or the diagonal's dimension"""
        n = len(kinds)
        self.labels = [[] for _ in range(n)]
        self.dims = {}
        nm = {}
        self.links = []
        for e, (i, j) in enumerate(edges):
            la, lb = 'e%da' % e, 'e%db' % e
            d = (edgedim[e] if edgedim else 2)
            self.labels[i].append(la)
            self.labels[j].append(lb)
            self.dims[la] = self.dims[lb] = d
            nm[lb] = la
            self.links.append((i, la, j, lb))
        self.out = []
        for i in range(n):
            for k in range(free[i]):
                x = 'f%d%d' % (i, k)
                self.labels[i].append(x)
                self.dims[x] = 2 if kinds[i] == 'g' or k else (3 if dim is None else dim)
                self.out.append(x)
        self.nm = nm
        self.t, self.refs = [], []
        for i in range(n):
            lab = list(self.labels[i])
            if legperm == 'all':
                lab = c.perm('legs%d' % i, lab)
            elif legperm == 'rev':
                lab = lab[::-1]
            elif legperm and i in legperm:
                lab = c.perm('legs%d' % i, lab)
            cx = i in cplx
            if kinds[i] == 'g' and lab:
                t, a = D(c, 'T%d' % i, lab, self.dims[lab[0]], cx)
            elif kinds[i] == 'g':
                a = c.array('T%d' % i, (), cx)
                t = c.lib.DiagonalTensor(data=a)
            else:
                t, a = T(c, 'T%d' % i, lab, [self.dims[x] for x in lab], cx)
            t.name = 'T%d' % i
            self.t.append(t)
            self.refs.append((a, [nm.get(x, x) for x in lab]))
        for k, (i, la, j, lb) in enumerate(self.links):
            link(c, self.t[i], la, self.t[j], lb, (hows[k % len(hows)] if hows else k % 2))
        self.c = c
        self._ref = None

    def ref(self):
        if self._ref is None:
            self._ref = self.c.total(self.refs, self.out, self.dims)
        return self._ref

    def check(self, r, what):
        c = self.c
        c.invariant(r, what)
        c.eq(c.obs(r, self.out, what), self.ref(), what)

    def snapshot(self):
        return [(t.a, None if t.a is None else t.a.copy(), list(t.legs), [l.name for l in t.legs], [l.dim for l in t.legs], [l.bond for l in t.legs],
                 [l.anotherSide() for l in t.legs], [l.tensor for l in t.legs], t.name) for t in self.t]

    def intact(self, snap, what):
        c = self.c
        for t, (a, ac, legs, nms, dims, bonds, others, owners, name) in zip(self.t, snap):
            c.ok(len(t.legs) == len(legs) and all(x is y for x, y in zip(t.legs, legs)), what + ": legs of an input changed")
            c.ok([l.name for l in t.legs] == nms and [l.dim for l in t.legs] == dims, what + ": leg names or dimensions of an input changed")
            c.ok(all(x.bond is y for x, y in zip(t.legs, bonds)), what + ": links of an input changed")
            c.ok(all(x.anotherSide() is y for x, y in zip(t.legs, others)), what + ": link partners of an input changed")
            c.ok(all(x.tensor is y for x, y in zip(t.legs, owners)), what + ": owner of a leg changed")
            c.ok(t.name == name, what + ": name changed")
            if ac is not None:
                c.eq(t.a, ac, what + ": elements of an input changed")


def user_sequence(c, n, name='seq', ordered=True):
    alive = list(range(n))
    seq = []
    while len(alive) > 1:
        pairs = [(alive[i], alive[j]) for i in range(len(alive)) for j in range(i + 1, len(alive))]
        s, t = c.choose(name, pairs)
        if ordered and c.choose(name + 'o', [0, 1]):
            seq.append((t, s))
        else:
            seq.append((s, t))
        alive.remove(max(s, t))
    return seq
