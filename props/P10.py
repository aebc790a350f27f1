"""P10: fusing legs and links preserves every contraction they take part in"""
import warnings
from props.common import *

BOUNDS = "Rank 1..4 with dimensions 1..3 (selected operands up to 7 legs, 6 parallel links and dimension 13), every ordered set of fused legs; up to 3 parallel links with every leg order on both sides, other links and free legs present; limits 1..5 for merging; data-less tensors with symbolic dimensions 1..40."


def fuse_ref(c, ref, names, sel, new):
    """reference fusing: (array with the fused axis first, names)"""
    pos = [names.index(x) for x in sel]
    rest = [i for i in range(len(names)) if i not in pos]
    dims = ref.shape
    d = 1
    for i in pos:
        d *= dims[i]
    out = c.zeros((d,) + tuple(dims[i] for i in rest), c.is_complex(ref))
    for ix in c.idx(dims):
        r = 0
        for i in pos:
            r = r * dims[i] + ix[i]
        out[(r,) + tuple(ix[i] for i in rest)] = ref[ix]
    return out, [new] + [names[i] for i in rest]


def fuse(c):
    dims = c.choose('dims', [(2,), (1,), (2, 3), (3, 2), (2, 2), (2, 3, 2), (2, 2, 3), (1, 2, 3), (2, 2, 2, 2), (2, 1, 3, 2)])
    n = len(dims)
    names = ['x%d' % i for i in range(n)]
    t, ref = T(c, 'a', names, dims, bool(c.choose('cplx', [0, 1])))
    sel = c.perm('p', c.subset('s', names, 1))
    old = {l.name: l for l in t.legs}
    arg = list(sel) if c.choose('as', [0, 1]) else [old[x] for x in sel]
    keep = list(arg)
    leg = t.outProduct(arg, 'new')
    c.ok(len(arg) == len(keep) and all(x is y for x, y in zip(arg, keep)), "the caller's list changed")
    want, nm = fuse_ref(c, ref, names, sel, 'new')
    c.eq(c.obs(t, nm, "fused"), want, "fused elements")
    c.ok([x for x in t.labels if x != 'new'] == nm[1:], "order of the other legs")
    c.ok(all(t.getLeg(x) is old[x] for x in nm[1:]), "the other legs are kept")
    c.ok(leg is t.getLeg('new') and leg.tensor is t and leg.bond is None, "returned leg")
    c.invariant(t, "fused")


def fuse_twice(c):
    """two fusings one after the other, the second possibly of the first one's result"""
    dims = c.choose('dims', [(2, 2, 3), (2, 3, 1, 2), (2, 2, 2, 2)])
    names = ['x%d' % i for i in range(len(dims))]
    t, ref = T(c, 'a', names, dims)
    s1 = c.perm('p', c.subset('s', names, 2))
    if len(s1) > 3:
        c.skip()
    t.outProduct(list(s1), 'n1')
    ref, names = fuse_ref(c, ref, names, s1, 'n1')
    s2 = c.perm('q', c.subset('r', names, 1))
    if len(s2) > 3:
        c.skip()
    t.outProduct(list(s2), 'n2')
    ref, names = fuse_ref(c, ref, names, s2, 'n2')
    c.eq(c.obs(t, names, "fused twice"), ref, "fused twice")
    c.invariant(t, "fused twice")


def fuse_repeated(c):
    """legs (not labels) select among equal labels"""
    pat = list(c.choose('labels', ['aa', 'aba', 'aab']))
    dims = (2, 3, 2)[:len(pat)]
    t, ref = T(c, 'a', pat, dims)
    pos = c.perm('p', c.subset('s', list(range(len(pat))), 1))
    legs = list(t.legs)
    leg = t.outProduct([legs[i] for i in pos], 'new')
    want, nm = fuse_ref(c, ref, list(range(len(pat))), pos, 'new')
    k = [i for i, l in enumerate(t.legs) if l is leg]
    c.ok(len(k) == 1, "the new leg is listed once")
    order = k + [[j for j, l in enumerate(t.legs) if l is legs[i]][0] for i in nm[1:]]
    c.eq(c.transpose(t.a, order), want, "fused elements")


def refused(c):
    case = c.choose('case', ['empty', 'tuple', 'diag'])
    if case == 'diag':
        t, ref = D(c, 'a', ['x', 'y', 'z'][:c.choose('n', [1, 2, 3])], 2)
        c.raises(lambda: t.outProduct(['x'], 'new'), "fusing a diagonal tensor")
    else:
        t, ref = T(c, 'a', ['x', 'y'], (2, 3))
        c.raises(lambda: t.outProduct([] if case == 'empty' else ('x', 'y'), 'new'), "fusing nothing or something that is not a list")
    c.eq(c.dense(t), ref, "tensor after a refused fusing")
    c.invariant(t, "after a refused fusing")


def commute(c):
    """fusing free legs before or after a contraction gives the same result"""
    a, ra = T(c, 'a', ['x', 'y', 'm'], c.choose('da', [(2, 3, 2), (2, 2, 2)]))
    b, rb = T(c, 'b', ['m', 'z'], (2, 2))
    link(c, a, 'm', b, 'm', c.choose('how', [0, 1, 2, 3]))
    sel = c.choose('sel', [['x', 'y'], ['y', 'x']])
    want = c.total([(ra, ['x', 'y', 'm']), (rb, ['m', 'z'])], ['x', 'y', 'z'], {'x': ra.shape[0], 'y': ra.shape[1], 'm': 2, 'z': 2})
    if c.choose('after', [0, 1]):
        r = c.lib.contractTwoTensors(a, b)
        r.outProduct(sel, 'n')
    else:
        a.outProduct(sel, 'n')
        c.ok(a.getLeg('m').anotherSide() is b.getLeg('m'), "link of another leg after fusing")
        r = c.lib.contractTwoTensors(a, b)
    want, nm = fuse_ref(c, want, ['x', 'y', 'z'], sel, 'n')
    c.eq(c.obs(r, nm, "contracted"), want, "fusing free legs and contracting")


def pair(c, nl, fa, fb, dims, cplx=False, permute=True, named='e'):
    """two tensors with nl links and free legs, and the reference contraction"""
    la = ['p%d' % i for i in range(nl)] + ['f%d' % i for i in range(fa)]
    lb = ['q%d' % i for i in range(nl)] + ['g%d' % i for i in range(fb)]
    da = {x: d for x, d in zip(la, list(dims[:nl]) + [2] * fa)}
    db = {x: d for x, d in zip(lb, list(dims[:nl]) + [3] * fb)}
    if permute:
        la, lb = c.perm('la', la), c.perm('lb', lb)
    a, ra = T(c, 'a', la, [da[x] for x in la], cplx)
    b, rb = T(c, 'b', lb, [db[x] for x in lb])
    for i in range(nl):
        link(c, a, 'p%d' % i, b, 'q%d' % i, i % 4)
    out = [x for x in la if x[0] == 'f'] + [x for x in lb if x[0] == 'g']
    dd = dict(da)
    dd.update(db)
    want = c.total([(ra, la), (rb, [x.replace('q', 'p') for x in lb])], out, dd)
    return a, b, want, out


def merge_link(c):
    nl, fa, fb = c.choose('shape', [(2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (3, 0, 0), (3, 1, 0), (2, 2, 0)])
    dims = c.choose('dims', {2: [(2, 3), (2, 2), (1, 2)], 3: [(2, 2, 2), (1, 2, 3)]}[nl])
    if nl == 3 and fa and dims == (2, 2, 2):
        c.skip()
    a, b, want, out = pair(c, nl, fa, fb, dims)
    la, lb = [l for l in a.legs if l.bond is not None], None
    lb = [l.anotherSide() for l in la]
    name = c.choose('name', [None, 'one', ('A', 'B')])
    free = [l for l in list(a.legs) + list(b.legs) if l.bond is None]
    swap = c.choose('swap', [0, 1])
    x, y = (b, a) if swap else (a, b)
    r = c.lib.mergeLink(x, y, bondName=name)
    c.ok(r[0] is x and r[1] is y, "returns the two tensors")
    check_merged(c, a, b, want, out, free, 'mergeLink')
    na, nb = [l for l in a.legs if l.bond is not None][0].name, [l for l in b.legs if l.bond is not None][0].name
    if swap:
        na, nb = nb, na
    if name is None:
        # joined names of the fused legs, in the same order on both sides
        xs = [l.name for l in (lb if swap else la)]
        ys = [l.name for l in (la if swap else lb)]
        pairs = dict(zip(xs, ys))
        c.ok(sorted(na.split('|')) == sorted(xs), "default name %s of the merged link" % na)
        c.ok([pairs.get(z) for z in na.split('|')] == nb.split('|'), "default names %s, %s of the merged link" % (na, nb))
    else:
        c.ok((na, nb) == (name if isinstance(name, tuple) else (name, name)), "names of the merged link")


def check_merged(c, a, b, want, out, free, what, dim=None):
    c.invariant(a, what)
    c.invariant(b, what)
    bl = [l for l in a.legs if l.bond is not None and l.anotherSide().tensor is b]
    c.ok(len(bl) == 1 and len([l for l in b.legs if l.bond is not None]) == 1, what + ": exactly one link remains")
    c.ok(all(any(l is m for m in list(a.legs) + list(b.legs)) for l in free), what + ": free legs are kept")
    if dim is not None:
        c.ok(bl[0].dim == dim, what + ": dimension of the link is %s, expected %s" % (bl[0].dim, dim))
    r = c.lib.contractTwoTensors(a, b)
    c.eq(c.obs(r, out, what), want, what + ": contraction")


def merge_one(c):
    """a single link is only renamed, no link: nothing happens"""
    nl = c.choose('links', [0, 1])
    a, b, want, out = pair(c, nl, 1, 1, (2,) * nl, permute=False)
    name = c.choose('name', [None, 'one'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = c.choose('f', ['mergeLink', 'merge'])
        kw = {} if c.choose('warn', [0, 1]) else {'renameWarning': False}
        r = c.lib.mergeLink(a, b, bondName=name, **kw) if f == 'mergeLink' else c.lib.merge(a, b, bondName=name, chi=(4 if nl == 0 else None), **kw)
    c.ok(r[0] is a and r[1] is b, "returns the two tensors")
    if nl and name:
        c.ok('one' in a.labels and 'one' in b.labels, "renamed")
    else:
        c.ok(set(a.labels) == set(['p0'][:nl] + ['f0']) and set(b.labels) == set(['q0'][:nl] + ['g0']), "names kept")
    r = c.lib.contractTwoTensors(a, b)
    c.eq(c.obs(r, out, "contraction"), want, "contraction")


def merge_env(c):
    """links to third tensors survive merging and give the same network value"""
    dims = dict(p0=2, p1=c.choose('d', [2, 3]), f=2, g=2)
    la = c.perm('la', ['p0', 'p1', 'f'])
    lb = c.perm('lb', ['q0', 'q1', 'g'])
    a, ra = T(c, 'a', la, [dims[x] for x in la])
    b, rb = T(c, 'b', lb, [dims[x.replace('q', 'p')] for x in lb])
    e, re = T(c, 'e', ['f', 'g'], (2, 2))
    link(c, a, 'p0', b, 'q0', 0)
    link(c, e, 'f', a, 'f', 1)
    link(c, b, 'q1', a, 'p1', 1)
    link(c, b, 'g', e, 'g', 0)
    want = c.total([(ra, la), (rb, [x.replace('q', 'p') for x in lb]), (re, ['f', 'g'])], [], dims)
    if c.choose('f', [0, 1]):
        c.lib.mergeLink(a, b)
    else:
        c.lib.merge(a, b)
    for t in (a, b, e):
        c.invariant(t, "merged")
    c.ok(e.getLeg('f').anotherSide() is a.getLeg('f') and e.getLeg('g').anotherSide() is b.getLeg('g'), "links to the third tensor")
    ts = c.perm('o', [a, b, e])
    r = c.lib.optimalContract.contractTensorList(ts)
    c.eq(c.obs(r, [], "network"), want, "network value after merging")


def chi_exact(c, dims=None):
    """merging with a limit that discards nothing, or truncates to the largest singular values"""
    nl, fa, fb, dims = c.choose('shape', [(1, 1, 1, (2,)), (2, 1, 1, (1, 2)), (2, 1, 0, (2, 1)), (2, 0, 0, (2, 1)), (1, 1, 1, (3,)), (1, 2, 0, (2,)), (2, 0, 1, (2, 2)), (1, 1, 1, (1,))])
    perm = fa + fb + nl < 4
    a, b, want, out = pair(c, nl, fa, fb, dims, permute=perm)
    free = [l for l in list(a.legs) + list(b.legs) if l.bond is None]
    chi = c.choose('chi', [1, 2, 3, 5])
    if not dims[0] or (fa == 0 and fb == 0 and chi > 2):
        c.skip()
    # the matrix between the free legs of both, and its singular values
    na = [x for x in out if x[0] == 'f']
    m = 2 ** fa
    n = 3 ** fb
    mat = want.reshape((m, n))
    _, s, _ = c.xp.linalg.svd(mat)
    rank = 0
    for i in range(min(m, n)):
        if s[i] > 1e-10:
            rank += 1
    rank = max(rank, 1)     # a zero product keeps one (zero) weight
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        u, v = c.lib.merge(a, b, chi=chi, bondName=c.choose('name', [None, 'one']))
    k = min(chi, rank)
    ul = [l for l in u.legs if l.bond is not None]
    c.ok(len(ul) == 1 and ul[0].dim <= chi, "one link within the limit")
    c.ok(ul[0].dim == min(chi, rank, m, n), "dimension %s of the link, expected %s" % (ul[0].dim, min(chi, rank, m, n)))
    uu, ss, vv = c.xp.linalg.svd(mat)
    trunc = (uu[:, :k] * ss[:k]) @ vv[:k]
    check_merged(c, u, v, trunc.reshape(want.shape), out, free, 'merge with a limit')
    if k == min(m, n):
        c.eq(trunc.reshape(want.shape), want, "nothing discarded")


def like(c):
    """data-less tensors: dimensions follow the documented minimum"""
    nl = c.choose('links', [1, 2, 3])
    fa, fb = c.choose('free', [(1, 1), (0, 1), (1, 0), (2, 1)])
    d = [c.int('d%d' % i, 1, 6) for i in range(nl)]
    e = [c.int('e%d' % i, 1, 40) for i in range(fa + fb)]
    la = c.perm('la', ['p%d' % i for i in range(nl)])
    a = c.lib.TensorLike(shape=tuple(d[int(x[1:])] for x in la) + tuple(e[:fa]), labels=la + ['f%d' % i for i in range(fa)])
    b = c.lib.TensorLike(shape=tuple(e[fa:]) + tuple(d), labels=['g%d' % i for i in range(fb)] + ['q%d' % i for i in range(nl)])
    for i in range(nl):
        link(c, a, 'p%d' % i, b, 'q%d' % i, i % 4)
    full = 1
    for x in d:
        full = full * x
    chi = c.choose('chi', [None, 1, 4, 'sym'])
    if chi == 'sym':
        chi = c.int('chi', 1, 50)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        u, v = c.lib.merge(a, b, chi=chi)
    for t in (u, v):
        c.invariant(t, "data-less")
        c.ok(t.a is None and t.tensorLikeFlag, "still without data")
    ul = [l for l in u.legs if l.bond is not None]
    vl = [l for l in v.legs if l.bond is not None]
    c.ok(len(ul) == 1 and len(vl) == 1 and ul[0].anotherSide() is vl[0], "one link")
    pa = pb = 1
    for x in e[:fa]:
        pa = pa * x
    for x in e[fa:]:
        pb = pb * x
    k = ul[0].dim
    if chi is None:
        c.ok(k == full, "fused dimension")
    else:
        c.ok(c.conj([k <= chi, k <= full, k <= pa, k <= pb, c.disj([k == chi, k == full, k == pa, k == pb])]), "dimension of the merged link")
    c.ok(c.conj([u.getLeg('f%d' % i).dim == e[i] for i in range(fa)] + [v.getLeg('g%d' % i).dim == e[fa + i] for i in range(fb)]), "other dimensions")


def large(c):
    """many legs, many parallel links, large dimensions"""
    what = c.choose('what', ['fuse', 'merge'])
    if what == 'fuse':
        dims = c.choose('dims', [(2, 1, 2, 3, 2), (2, 2, 1, 2, 2, 2), (11, 3), (2, 13, 2), (1, 2, 1, 2, 1, 2, 2)])
        n = len(dims)
        names = ['x%d' % i for i in range(n)]
        t, ref = T(c, 'a', names, dims, bool(c.choose('cplx', [0, 1])))
        o = list(names)
        sel = c.choose('sel', [o, o[::-1], o[1::2] + o[::2], o[:n // 2 + 1], o[n // 2:][::-1], o[::2], o[-1:] + o[:1]])
        old = {l.name: l for l in t.legs}
        t.outProduct(list(sel) if c.choose('as', [0, 1]) else [old[x] for x in sel], 'new')
        want, nm = fuse_ref(c, ref, names, sel, 'new')
        c.eq(c.obs(t, nm, "fused"), want, "fused elements")
        c.ok([x for x in t.labels if x != 'new'] == nm[1:], "order of the other legs")
        c.invariant(t, "fused")
        return
    dims, fa, fb = c.choose('links', [((2, 2, 2, 2), 1, 0), ((2, 1, 2, 2), 1, 1), ((2, 2, 1, 2, 2), 0, 1), ((5, 3), 1, 1), ((11, 2), 0, 1), ((2, 2), 3, 1), ((1, 1, 1, 1, 1, 2), 1, 1)])
    nl = len(dims)
    la = ['p%d' % i for i in range(nl)] + ['f%d' % i for i in range(fa)]
    lb = ['q%d' % i for i in range(nl)] + ['g%d' % i for i in range(fb)]
    da = dict(zip(la, dims + (2,) * fa))
    db = dict(zip(lb, dims + (3,) * fb))
    la = c.choose('la', [la, la[::-1], la[1::2] + la[::2], la[-2:] + la[:-2]])
    lb = c.choose('lb', [lb, lb[::-1], lb[::2] + lb[1::2]])
    a, ra = T(c, 'a', la, [da[x] for x in la])
    b, rb = T(c, 'b', lb, [db[x] for x in lb])
    for i in range(nl):
        link(c, a, 'p%d' % i, b, 'q%d' % i, i % 4)
    out = [x for x in la if x[0] == 'f'] + [x for x in lb if x[0] == 'g']
    dd = dict(da)
    dd.update(db)
    want = c.total([(ra, la), (rb, [x.replace('q', 'p') for x in lb])], out, dd)
    x, y = (b, a) if c.choose('swap', [0, 1]) else (a, b)
    c.lib.mergeLink(x, y, bondName=c.choose('name', [None, 'one']))
    c.ok(len(c.lib.shareBonds(a, b)) == 1, "one link remains")
    tot = 1
    for d in dims:
        tot *= d
    c.ok(c.lib.shareBonds(a, b)[0].legs[0].dim == tot, "dimension of the merged link")
    c.invariant(a, "merged")
    c.invariant(b, "merged")
    r = c.lib.contractTwoTensors(a, b)
    c.eq(c.obs(r, out, "contracted"), want, "contraction after merging")


SCENARIOS = [
    S('fuse', fuse, bounds='10 shapes up to rank 4, every ordered subset of legs'),
    S('fuse_twice', fuse_twice),
    S('fuse_repeated', fuse_repeated),
    S('refused', refused),
    S('commute', commute),
    S('merge_link', merge_link, bounds='2 or 3 links, every leg order on both sides'),
    S('merge_one', merge_one),
    S('merge_env', merge_env),
    S('chi_exact', chi_exact, bounds='matrices up to 4x3, limits 1..5, real'),
    S('like', like, bounds='symbolic dimensions'),
    S('large', large, bounds='up to 7 legs, 6 parallel links, dimensions up to 13'),
]
