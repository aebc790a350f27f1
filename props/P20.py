"""P20: matrix-product-state and Schmidt operations preserve the represented state.

The state of a chain is the sum over all internal links of the product of the tensors' elements, as a function of the
outer legs; outer legs are told apart by the objects behind them, never by position or label."""
import warnings
from props.common import *

BOUNDS = ("Chains of 1..3 sites, physical and bond dimensions 1..3, every leg order of one tensor at a time, every centre; histories of up to 3 operations on two sites "
          "and 2 on three; Schmidt splits with up to two shared links and every limit 1..4; tensors of rank 1..4 made into chains; data-less chains with symbolic dimensions 1..30. "
          "numpy.linalg.svd is replaced by its contract; singular values are exactly zero or above 1e-6; the states are not zero (zero_state is apart).")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def state(c, tensors, outer, what, rank=None):
    """contract `tensors` over the links among them; axes of the result in the order of the leg objects in `outer`"""
    inside = set(map(id, tensors))
    name, dims, ops, free = {}, {}, [], []
    for t in tensors:
        c.invariant(t, what)
        ns = []
        for l in t.legs:
            o = l.anotherSide() if l.bond is not None else None
            if o is not None and id(o.tensor) in inside:
                key = 'b%d' % min(id(l), id(o))
            else:
                key = 'f%d' % id(l)
                free.append(l)
            dims[key] = l.dim
            ns.append(key)
        ops.append((c.dense(t), ns))
    c.ok(len(free) == len(outer) and all(any(x is y for y in outer) for x in free), what + ": the outer legs are those of before")
    return c.total(ops, ['f%d' % id(l) for l in outer], dims)


def alive(c, tensors, outer):
    """domain: the state of the chain is not zero, so no split meets a zero matrix (see zero_state for those)"""
    c.nonzero_splits(state(c, tensors, outer, "given"))


def chain(c, phys, bonds, cplx=(), pick=None, pre='s', like=False, labels=False):
    """tensors of a linked chain; returns (tensors, outer legs)"""
    n = len(phys)
    ts = []
    for i in range(n):
        sh = [('o', phys[i])]
        if i:
            sh.insert(0, ('l', bonds[i - 1]))
        if i < n - 1:
            sh.append(('r', bonds[i]))
        if pick == i:
            sh = c.perm('legs%d' % i, sh)
        nm = {'o': 'p%d' % i, 'l': 'x', 'r': 'y'} if labels else {'o': 'o', 'l': 'l', 'r': 'r'}
        lab = [nm[x] for x, _ in sh]
        d = tuple(y for _, y in sh)
        if like:
            t = c.lib.TensorLike(shape=d, labels=lab)
        else:
            t, _ = T(c, '%s%d' % (pre, i), lab, d, i in cplx)
        ts.append(t)
    for i in range(n - 1):
        (c.lib.makeLink('y', 'x', ts[i], ts[i + 1]) if labels else c.lib.makeLink('l', 'r', ts[i + 1], ts[i]))
    outer = [t.getLeg('p%d' % i if labels else 'o') for i, t in enumerate(ts)]
    return ts, outer


def intact(c, mps, outer, limit, what):
    """links, labels, positions and limits of a chain; outer: the outer leg expected at each site"""
    n = len(outer)
    c.ok(mps.n == n, what + ": number of sites")
    ts = [mps.getTensor(i) for i in range(n)]
    for i, t in enumerate(ts):
        names = sorted(l.name for l in t.legs)
        c.ok(names == sorted((['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])), what + ": labels of site %d are %s" % (i, names))
        c.ok(t.getLeg('o') is outer[i], what + ": outer leg of site %d" % i)
        if i < n - 1:
            r = t.getLeg('r')
            c.ok(r.bond is not None and r.anotherSide() is ts[i + 1].getLeg('l'), what + ": sites %d and %d are linked" % (i, i + 1))
            c.ok(r.dim <= limit, what + ": bond %d within the limit" % i)
    return ts


def isometry(c, t, cols, what):
    """sum over the legs `cols` of t conj(t) is the identity of the remaining leg"""
    (leg,) = [l for l in t.legs if l.name not in cols]
    k = t.legs.index(leg)
    a = c.dense(t)
    m = leg.dim
    g = c.zeros((m, m), c.is_complex(a))
    e = c.zeros((m, m), c.is_complex(a))
    rest = [d for i, d in enumerate(a.shape) if i != k]
    for i in range(m):
        e[i, i] = 1
        for j in range(m):
            acc = None
            for ix in c.idx(rest):
                x = a[tuple(ix[:k]) + (i,) + tuple(ix[k:])] * a[tuple(ix[:k]) + (j,) + tuple(ix[k:])].conjugate()
                acc = x if acc is None else acc + x
            g[i, j] = acc
    c.eq(g, e, what)


def canonical(c, ts, at, what):
    for i, t in enumerate(ts):
        if i < at:
            isometry(c, t, ['o', 'l'], what + ": site %d, left of the centre" % i)
        if i > at:
            isometry(c, t, ['o', 'r'], what + ": site %d, right of the centre" % i)


CHAINS = [((2,), ()), ((2, 2), (2,)), ((2, 3), (2,)), ((3, 2), (1,)), ((2, 2), (3,)), ((2, 1, 2), (2, 2)), ((2, 2, 1), (2, 1)), ((1, 2, 2), (1, 2))]


def canonicalize(c, cases=CHAINS, cplx=True):
    phys, bonds = c.choose('chain', cases)
    n = len(phys)
    cx = range(n) if cplx and n == 2 and bonds[0] < 3 and c.choose('cplx', [0, 1]) else ()
    ts, outer = chain(c, phys, bonds, cx, pick=c.choose('perm', list(range(n))), labels=True)
    ref = state(c, ts, outer, "before")
    alive(c, ts, outer)
    chi = c.choose('chi', ['bond', 16])
    if chi == 'bond':
        chi = max(bonds) if n > 1 else 1
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=chi)
    limit = mps.chi
    c.ok(limit == chi, "limit: the one given")
    intact(c, mps, outer, limit if n > 1 else 16, "new chain")
    c.eq(state(c, mps._tensors, outer, "new"), ref, "making a chain keeps the state")
    at = c.choose('centre', list(range(n)))
    mps.canonicalize(at)
    c.generic()
    new = intact(c, mps, outer, limit if n > 1 else 16, "canonicalised")
    c.eq(state(c, new, outer, "canonicalised"), ref, "state after canonicalising")
    canonical(c, new, at, "canonicalised")
    c.ok(mps.activeIdx == at, "centre is remembered")


def again(c):
    """two canonicalisations in a row"""
    ts, outer = chain(c, (2, 2), (2,))
    ref = state(c, ts, outer, "before")
    alive(c, ts, outer)
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=c.choose('chi', [2, 4]))
    for k in range(2):
        at = c.choose('centre', [0, 1])
        mps.canonicalize(at)
        c.generic()
        new = intact(c, mps, outer, mps.chi, "canonicalised")
        canonical(c, new, at, "canonicalised")
    c.eq(state(c, new, outer, "canonicalised"), ref, "state after canonicalising twice")


def check_canonical(c):
    """checkCanonical accepts exactly chains of isometries (sites built from a rotation, one of them scaled by a symbol)"""
    n = c.choose('n', [1, 2, 3])
    at = c.choose('centre', list(range(n)))
    bad = c.choose('scaled', list(range(n)))
    x = c.real('x', 0.5, 2.0)
    ts = []
    for i in range(n):
        lab = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
        a = c.zeros((2,) * len(lab))
        f = x if i == bad else 1
        if len(lab) == 2:
            a[0, 1] = f
            a[1, 0] = -f
        elif len(lab) == 1:
            a[0] = f
        else:
            # isometric in one direction only
            for k in range(2):
                if i < at:
                    a[k, 0, k] = f
                else:
                    a[k, 0, k] = f
                    if i != at:
                        a[k, 0, k], a[0, 1, k] = 0 * f, 0 * f
                        a[k, k, 0] = f
        ts.append(c.lib.Tensor(data=a, labels=lab))
    for i in range(n - 1):
        c.lib.makeLink('r', 'l', ts[i], ts[i + 1])
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=4)
    c.raises(lambda: mps.checkCanonical(), "no centre known yet")
    r = mps.checkCanonical(excepIdx=at)
    ok = True
    for i in range(n):
        if i == at:
            continue
        a = ts[i].a
        if i == bad and not bool(abs(x - 1) < 1e-13):
            if bool(abs(x - 1) > 1e-3):
                ok = False
            else:
                c.skip()
    # the middle site's direction is decided by the definition
    for i in range(1, n - 1):
        if i == at:
            continue
        a = ts[i].a
        for p in range(2):
            for q in range(2):
                acc = 0
                for u in range(2):
                    for v in range(2):
                        y = (a[u, v, p], a[u, v, q]) if i < at else (a[p, u, v], a[q, u, v])
                        acc = acc + y[0] * y[1]
                d = acc - (1 if p == q else 0)
                if bool(abs(d) > 1e-3):
                    ok = False
                elif not bool(abs(d) < 1e-11):
                    c.skip()
    c.ok(bool(r) == ok, "checkCanonical answers %s for a chain that is%s canonical" % (bool(r), '' if ok else ' not'))
    for w in (-1, n, 0.0, 'a'):
        c.raises(lambda: mps.checkCanonical(excepIdx=w), "centre outside the chain")
        c.raises(lambda: mps.canonicalize(w), "centre outside the chain")


def perm_of(n, ops):
    p = list(range(n))
    for a, b in ops:
        p.insert(b, p.pop(a))
    return p


def move(c, cases=((2, 2), (2, 1, 2), (1, 2, 2)), both=True):
    phys = c.choose('phys', list(cases))
    n = len(phys)
    bonds = (2,) if n == 2 else c.choose('bonds', [(2, 1), (1, 2), (2, 2)])
    ts, outer = chain(c, phys, bonds, pick=c.choose('perm', list(range(n))) if n == 2 else None, cplx=(0, 1) if n == 2 and c.choose('cplx', [0, 1]) else ())
    ref = state(c, ts, outer, "before")
    alive(c, ts, outer)
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=16)
    op = c.choose('op', ['swap', 'move', 'adjacent'])
    i = c.choose('i', list(range(n)))
    j = c.choose('j', list(range(n)))
    if op == 'swap':
        if abs(i - j) != 1:
            c.raises(lambda: mps.swap(i, j), "swapping sites that are not neighbours")
            c.eq(state(c, mps._tensors, outer, "refused"), ref, "refused swap")
            return
        mps.swap(i, j)
        order = perm_of(n, [(i, j)])
    elif op == 'move':
        quiet(mps.moveTensor, i, j)
        order = perm_of(n, [(i, j)])
    else:
        if i == j:
            c.raises(lambda: mps.makeAdjacent(i, j), "a site next to itself")
            return
        x, y = mps.makeAdjacent(i, j)
        lo, hi = min(i, j), max(i, j)
        c.ok((x, y) == (hi - 1, hi), "positions returned")
        order = perm_of(n, [(lo, hi - 1)])
        # (for neighbours nothing moves)
    c.generic()
    exp = [outer[k] for k in order]
    new = intact(c, mps, exp, 16, op)
    c.eq(state(c, new, outer, op), ref, "state after " + op)
    if op != 'adjacent' and i != j:
        c.ok(mps.activeIdx is None, "the centre is no longer known")


def history(c, n=2, steps=2):
    phys, bonds = ((2, 2), (2,)) if n == 2 else c.choose('chain', [((2, 1, 2), (2, 2)), ((1, 2, 2), (1, 2))])
    ts, outer = chain(c, phys, bonds)
    ref = state(c, ts, outer, "before")
    alive(c, ts, outer)
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=8)
    order = list(range(n))
    at = None
    for k in range(steps):
        op = c.choose('op', ['can%d' % i for i in range(n)] + ['swap%d' % i for i in range(n - 1)] + ['swap-%d' % i for i in range(n - 1)] + (['copy'] if k else []))
        if op.startswith('can'):
            at = int(op[3:])
            mps.canonicalize(at)
        elif op == 'copy':
            old, oldt = mps, list(mps._tensors)
            cp = mps.copyOfTensors()
            c.ok(all(x is not y for x in cp for y in oldt), "copies are new tensors")
            outer2 = [None] * n
            for s, t in enumerate(cp):
                outer2[order[s]] = t.getLeg('o')
            c.eq(state(c, cp, outer2, "copy"), ref, "state of the copied tensors")
            c.eq(state(c, oldt, outer, "copied"), ref, "state of the copied chain")
            outer = outer2
            mps = c.lib.MPS.FreeBoundaryMPS(cp, chi=8)
            at = None
        else:
            i = int(op.replace('swap-', '').replace('swap', ''))
            if '-' in op:
                mps.swap(i + 1, i)
            else:
                mps.swap(i, i + 1)
            order[i], order[i + 1] = order[i + 1], order[i]
            at = None
        c.generic()
        new = intact(c, mps, [outer[k] for k in order], 8, op)
        if at is not None:
            canonical(c, new, at, op)
        c.ok(mps.activeIdx == at, "known centre after " + op)
    c.eq(state(c, new, outer, "history"), ref, "state after the history")


def truncated(c):
    """a limit smaller than needed: exactly the largest weights of the split are kept"""
    ta, a = T(c, 'a', ['o', 'r'], (2, 2))
    tb, b = T(c, 'b', ['l', 'o'], (2, 2))
    c.lib.makeLink('r', 'l', ta, tb)
    outer = [ta.getLeg('o'), tb.getLeg('o')]
    m = c.total([(a, ['x', 'k']), (b, ['k', 'y'])], ['x', 'y'], {'x': 2, 'y': 2, 'k': 2})
    U, s, V = c.xp.linalg.svd(m)
    c.assume(s[1] > 1e-3)
    c.assume(s[0] - s[1] > 1e-3)
    root = c.choose('root', [False, True])
    chi = c.choose('chi', [1, 2])
    u, w, v = c.lib.Schimdt.SchimdtDecomposition(ta, tb, chi, squareRootSeparation=root)
    ref = c.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            acc = None
            for k in range(chi):
                e = U[i, k] * s[k] * V[k, j]
                acc = e if acc is None else acc + e
            ref[i, j] = acc
    c.eq(state(c, [u, v] if root else [u, w, v], outer, "split"), ref, "the largest weights are kept")
    if not root:
        c.eq(w.a, s[:chi], "weights")


SPLITS = [  # labels and dims of a, of b, links
    (('x', 2, 'i', 2), ('j', 2, 'y', 2), (('i', 'j'),)),
    (('i', 2, 'x', 2, 'z', 1), ('y', 2, 'j', 2), (('i', 'j'),)),
    (('i', 2, 'x', 2, 'k', 1), ('m', 1, 'y', 2, 'j', 2), (('i', 'j'), ('k', 'm'))),
    (('i', 3, 'x', 1), ('y', 2, 'j', 3), (('i', 'j'),)),
    (('i', 1, 'x', 2), ('y', 2, 'j', 1), (('i', 'j'),)),
]


def schmidt(c, cases=SPLITS):
    la, lb, links = c.choose('case', cases)
    cplx = bool(c.choose('cplx', [0, 1])) and la[1] * lb[1] <= 4 and len(la) == 4
    ta, _ = T(c, 'a', la[::2], la[1::2], cplx)
    tb, _ = T(c, 'b', lb[::2], lb[1::2], cplx)
    for x, y in links:
        c.lib.makeLink(x, y, ta, tb)
    shA, shB = links[0]
    fa = [l for l in ta.legs if l.bond is None]
    fb = [l for l in tb.legs if l.bond is None]
    na, nb = [l.name for l in fa], [l.name for l in fb]
    ref = state(c, [ta, tb], fa + fb, "before")
    root = c.choose('root', [False, True])
    swap = c.choose('swap', [0, 1]) if 'x' in na and 'y' in nb else 0
    kw = {'swapLabels': (['x'], ['y'])} if swap else {}
    alive(c, [ta, tb], fa + fb)
    chi = c.choose('chi', [4, 16])
    u, s, v = c.lib.Schimdt.SchimdtDecomposition(ta, tb, chi, squareRootSeparation=root, **kw)
    c.generic()
    c.ok((s is None) == root, "weights are given separately unless both factors take their square roots")
    ts = [u, v] if root else [u, s, v]
    c.eq(state(c, ts, fa + fb, "split"), ref, "product of the factors")
    ea = [l for l in fa if not (swap and l is fa[na.index('x')])] + ([fb[nb.index('y')]] if swap else [])
    eb = [l for l in fb if not (swap and l is fb[nb.index('y')])] + ([fa[na.index('x')]] if swap else [])
    for t, exp, sh, what in ((u, ea, shA, 'first'), (v, eb, shB, 'second')):
        rest = [l for l in t.legs if not any(l is e for e in exp)]
        c.ok(len(t.legs) == len(exp) + 1 and len(rest) == 1, what + " factor carries the legs of its side")
        c.ok(rest[0].name == sh, what + " factor: name of the new leg")
        o = rest[0].anotherSide()
        c.ok(o is not None and any(o.tensor is x for x in ts if x is not t), what + " factor is linked to its neighbour")
        # inner dimension: at most limit, and both sides
        k = rest[0].dim
        p = 1
        for l in exp:
            p *= l.dim
        c.ok(k <= chi and k <= p, what + " factor: dimension of the new leg")
    nu = {id(l): l.name for l in u.legs + v.legs}
    for l, n in list(zip(fa, na)) + list(zip(fb, nb)):
        c.ok(nu[id(l)] == n, "leg %s keeps its name (%s found)" % (n, nu[id(l)]))
    if not root:
        isometry(c, u, [l.name for l in ea], "first factor is an isometry")
        isometry(c, v, [l.name for l in eb], "second factor is an isometry")
        n = s.a.shape[0]
        c.ok(c.conj([s.a[i] >= 0 for i in range(n)] + [s.a[i] >= s.a[i + 1] for i in range(n - 1)]), "weights are not negative and ordered")
        c.ok(sorted(s.labels) == sorted([shA, shB]), "labels of the weights")


def schmidt_refused(c):
    ta, a = T(c, 'a', ['x', 'i'], (2, 2))
    tb, b = T(c, 'b', ['j', 'y'], (2, 2))
    case = c.choose('case', ['unlinked', 'kinds', 'swap', 'missing'])
    f = c.lib.Schimdt.SchimdtDecomposition
    if case == 'kinds':
        tb = c.lib.TensorLike(shape=(2, 2), labels=['j', 'y'])
    if case != 'unlinked':
        c.lib.makeLink('i', 'j', ta, tb)
    kw = {'swap': {'swapLabels': (['x'], [])}, 'missing': {'swapLabels': (['q'], ['y'])}}.get(case, {})
    c.raises(lambda: f(ta, tb, 4, **kw), "refused: " + case)
    c.eq(c.obs(ta, ['x', 'i'], "a"), a, "first tensor is left alone")
    c.ok(list(ta.labels) == ['x', 'i'] and list(tb.labels) == ['j', 'y'], "labels are left alone")


def matrix_split(c):
    n1 = c.choose('rank', [1, 2])
    if n1 == 1:
        l, d = c.choose('size', [(1, 1), (2, 2), (4, 2), (6, 2), (6, 3), (3, 1), (2, 1)])
        a = c.array('a', (l,))
        rows, cols = d, l // d
        shape0 = (d,)
    else:
        s0, s1, d = c.choose('size', [(1, 4, 2), (2, 2, 2), (2, 2, 1), (1, 3, 3), (2, 4, 2), (3, 2, 1)])
        a = c.array('a', (s0, s1))
        rows, cols = s0 * d, s1 // d
        shape0 = (s0, d)
    a0 = a.copy()
    c.nonzero_splits(a)
    chi = c.choose('chi', [None, 1, 2, 16])
    u, v = c.lib.Schimdt.matrixSchimdtDecomposition(a, d, **({} if chi is None else {'chi': chi}))
    c.generic()
    k = u.shape[-1]
    c.ok(tuple(u.shape) == shape0 + (k,) and tuple(v.shape) == (k, cols), "shapes of the factors")
    c.ok(k <= min(rows, cols) and (chi is None or k <= chi), "inner dimension within the limit")
    um = u.reshape((rows, k))
    am = a0.reshape((rows, cols))
    U, s, V = c.xp.linalg.svd(am)
    if k:
        g = c.zeros((k, k))
        e = c.zeros((k, k))
        for i in range(k):
            e[i, i] = 1
            for j in range(k):
                acc = None
                for r in range(rows):
                    x = um[r, i] * um[r, j]
                    acc = x if acc is None else acc + x
                g[i, j] = acc
        c.eq(g, e, "first factor has orthonormal columns")
        got = c.total([(um, ['i', 'k']), (v, ['k', 'j'])], ['i', 'j'], {'i': rows, 'j': cols, 'k': k})
    else:
        got = c.zeros((rows, cols))
    if chi is None or chi >= min(rows, cols):
        c.eq(got, am, "product of the factors")
    else:
        exp = c.zeros((rows, cols))
        for i in range(rows):
            for j in range(cols):
                acc = None
                for q in range(k):
                    x = U[i, q] * s[q] * V[q, j]
                    acc = x if acc is None else acc + x
                exp[i, j] = 0 if acc is None else acc
        c.eq(got, exp, "product of the factors with the largest weights")
    c.eq(a, a0, "the matrix is left alone")


def create(c, cases=((2,), (3,), (2, 2), (2, 3), (3, 2), (1, 2), (2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 2, 1, 2))):
    shape = c.choose('shape', list(cases))
    n = len(shape)
    cplx = n == 2 and shape[0] * shape[1] <= 4 and bool(c.choose('cplx', [0, 1]))
    t, ref = T(c, 'a', ['x%d' % i for i in range(n)], shape, cplx)
    legs = list(t.legs)
    c.nonzero_splits(ref)
    chi = c.choose('chi', [None, 8])
    mps = quiet(c.lib.MPS.createMPSFromTensor, t, **({} if chi is None else {'chi': chi}))
    c.generic()
    new = intact(c, mps, legs, 16 if chi is None else chi, "chain of a tensor")
    c.eq(state(c, new, legs, "chain"), ref, "state of the chain is the tensor")
    if n > 1:
        canonical(c, new, n - 1, "chain of a tensor")


def create_limit(c):
    """limit smaller than the rank: every bond within it"""
    shape = c.choose('shape', [(2, 2), (2, 2, 1), (3, 2)])
    t, ref = T(c, 'a', ['x%d' % i for i in range(len(shape))], shape)
    legs = list(t.legs)
    c.nonzero_splits(ref)
    mps = c.lib.MPS.createMPSFromTensor(t, chi=1)
    intact(c, mps, legs, 1, "limited chain")


def contract_two(c, cases, big=False):
    (pa, ba, ia), (pb, bb, ib) = c.choose('case', cases)
    A, oa = chain(c, pa, ba, pre='a')
    B, ob = chain(c, pb, bb, pre='b')
    alive(c, A, oa)
    alive(c, B, ob)
    c.lib.makeLink(A[ia].getLeg('o'), B[ib].getLeg('o'))
    outer = [l for k, l in enumerate(oa) if k != ia] + [l for k, l in enumerate(ob) if k != ib]
    ref = state(c, A + B, outer, "before")
    M = c.lib.MPS.FreeBoundaryMPS
    la, lb = c.choose('chi', [(8, 8), (8, 6)])
    r = quiet(c.lib.MPS.contractMPS, M(A, chi=la), M(B, chi=lb))
    c.generic()
    n = len(outer)
    if n == 0:
        c.eq(state(c, [r], [], "number"), ref, "value of the contraction")
        return
    c.ok(r.chi == min(la, lb), "limit of the result")
    new = intact(c, r, outer, min(la, lb), "contracted chain")
    c.eq(state(c, new, outer, "contracted"), ref, "state after contracting two chains")


PAIRS = [(((2,), (), 0), ((2,), (), 0)), (((2,), (), 0), ((2, 2), (2,), 0)), (((2, 2), (2,), 1), ((2,), (), 0)), (((2, 2), (2,), 1), ((2, 2), (2,), 0)),
         (((2, 2), (2,), 0), ((2, 2), (1,), 1)), (((2,), (), 0), ((2, 2), (2,), 1)), (((2, 2), (2,), 0), ((2,), (), 0)), (((1, 2, 2), (1, 2), 2), ((2, 2), (2,), 0)),
         (((2, 1, 2), (2, 2), 2), ((2, 1, 2), (2, 2), 0)), (((1, 2, 1), (1, 1), 1), ((2, 2), (2,), 0)), (((2, 2), (2,), 1), ((1, 2, 1), (1, 1), 1))]


def contract_refused(c):
    A, oa = chain(c, (2, 2), (2,), pre='a')
    B, ob = chain(c, (2, 2), (2,), pre='b')
    k = c.choose('links', [0, 2])
    for i in range(k):
        c.lib.makeLink(oa[i], ob[i])
    M = c.lib.MPS.FreeBoundaryMPS
    ref = state(c, A + B, [] if k else oa + ob, "before")
    a, b = M(A, chi=4), M(B, chi=4)
    c.raises(lambda: c.lib.MPS.contractMPS(a, b), "%d shared links" % k)
    c.eq(state(c, a._tensors + b._tensors, [] if k else oa + ob, "refused"), ref, "nothing changes")


def merge_two(c, cases):
    pa, ba, pb, bb, links = c.choose('case', cases)
    A, oa = chain(c, pa, ba, pre='a')
    B, ob = chain(c, pb, bb, pre='b')
    alive(c, A, oa)
    alive(c, B, ob)
    for i, j in links:
        c.lib.makeLink(oa[i], ob[j])
    outer = [l for k, l in enumerate(oa) if k not in [i for i, _ in links]] + [l for k, l in enumerate(ob) if k not in [j for _, j in links]]
    ref = state(c, A + B, outer, "before")
    M = c.lib.MPS.FreeBoundaryMPS
    a, b = M(A, chi=8), M(B, chi=8)
    quiet(c.lib.MPS.mergeMPS, a, b)
    c.generic()
    k = max(len(links) - 1, 0)
    c.ok(a.n == len(pa) - k and b.n == len(pb) - k, "every merged link takes one site off both chains")
    for m, what in ((a, 'first'), (b, 'second')):
        intact(c, m, [t.getLeg('o') for t in m._tensors], 8, what + " chain")
    ia, ib = c.lib.MPS.commonLegs(a, b)
    c.ok(len(ia) == min(1, len(links)) == len(ib), "one link is left")
    c.ok(len(c.lib.MPS.commonBonds(a, b)) == min(1, len(links)), "one link is left")
    c.eq(state(c, a._tensors + b._tensors, outer, "merged"), ref, "state after merging the links of two chains")


MERGES_BIG = [((1, 2, 2), (1, 2), (2, 2), (2,), ((1, 0), (2, 1))), ((2, 2, 1), (2, 1), (2, 2), (2,), ((0, 1), (1, 0))), ((2, 1, 2), (1, 1), (2, 2), (1,), ((0, 0), (2, 1))),
              ((2, 1, 2), (1, 1), (1, 2, 2), (1, 1), ((0, 1), (1, 0), (2, 2))), ((2, 2), (2,), (2, 2), (2,), ((0, 0), (1, 1)))]
MERGES = [((2, 2), (1,), (2, 2), (1,), ()), ((2, 2), (1,), (2, 2), (1,), ((0, 1),)), ((2, 1), (1,), (2, 1), (1,), ((0, 0), (1, 1))), ((2, 1), (2,), (1, 2), (1,), ((0, 1), (1, 0)))]


def whole(c, cases):
    kinds, edges, free, ed = c.choose('net', cases)
    net = Net(c, kinds, edges, free, dim=2, edgedim=ed)
    ref = net.ref()
    for t in net.t:
        c.nonzero_splits(c.dense(t))
    outer = [l for t in net.t for l in t.legs if l.bond is None]
    order = [net.out.index(l.name) for l in outer]
    inv = [order.index(k) for k in range(len(order))]
    r = quiet(c.lib.MPS.contractWithMPS, net.t, **({'greedyFlag': False} if c.choose('greedy', [1, 0]) == 0 else {}))
    c.generic()
    c.ok(len(r.legs) == len(outer), "rank of the result")
    if len(outer) <= 1:
        c.eq(c.dense(r), ref, "value of the network")
    else:
        # outer legs all carry the label 'o': the state is known up to the order of the outer legs of equal dimension
        c.ok(sorted(l.dim for l in r.legs) == sorted(l.dim for l in outer), "dimensions of the result")


NETS20 = [('d', [], [1], []), ('dd', [(0, 1)], [0, 0], [2]), ('dd', [(0, 1)], [1, 0], [2]), ('dd', [(0, 1)], [1, 1], [2]),
          ('ddd', [(0, 1), (1, 2)], [0, 0, 0], [2, 2]), ('dd', [(0, 1), (0, 1)], [0, 0], [2, 1])]


NETS20_BIG = [('ddd', [(0, 1), (1, 2), (0, 2)], [0, 0, 0], [2, 2, 2]), ('ddd', [(0, 1), (1, 2), (0, 2)], [0, 0, 1], [2, 1, 2]), ('dddd', [(0, 1), (1, 2), (2, 3), (0, 3)], [0, 0, 0, 0], [2, 1, 2, 1])]


def tensor_of(c):
    """toTensor: the state as one tensor, the chain is left alone"""
    phys, bonds = c.choose('chain', [((2,), ()), ((2, 3), (2,)), ((2, 1, 3), (2, 2))])
    ts, outer = chain(c, phys, bonds)
    ref = state(c, ts, outer, "before")
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=4)
    t = quiet(mps.toTensor)
    c.invariant(t, "tensor")
    dims = [l.dim for l in t.legs]
    c.ok(sorted(dims) == sorted(phys) and all(x == 'o' for x in t.labels), "legs of the tensor")
    c.eq(c.transpose(c.dense(t), [dims.index(d) for d in phys]), ref, "elements of the tensor")
    c.eq(state(c, mps._tensors, outer, "chain"), ref, "the chain is left alone")


def construct(c):
    """what is accepted as a chain; the limit; in place or not"""
    n = c.choose('n', [0, 1, 2, 3])
    if n == 0:
        c.raises(lambda: c.lib.MPS.FreeBoundaryMPS([]), "empty chain")
        return
    b = [c.int('b%d' % i, 1, 6) for i in range(n - 1)]
    p = [c.int('p%d' % i, 1, 6) for i in range(n)]
    ts, outer = chain(c, p, b, like=True, labels=True)
    M = c.lib.MPS.FreeBoundaryMPS
    if n > 1:
        bad = c.choose('bad', [None, 'unlinked', 'rank', 'order'])
        if bad == 'unlinked':
            ts[-1] = c.lib.TensorLike(shape=(2, 2), labels=['x', 'y'])
        elif bad == 'rank':
            ts[0] = c.lib.TensorLike(shape=(b[0], 2, 2), labels=['y', 'q', 'w'])
            c.lib.makeLink('y', 'x', ts[0], ts[1])
        elif bad == 'order':
            if n == 2:
                c.skip()
            ts = [ts[1], ts[0], ts[2]]
        if bad:
            c.raises(lambda: M(ts), "not a chain: " + bad, ValueError)
            return
    chi = c.int('chi', 1, 8)
    for x in b:
        c.assume(x <= chi)
    inplace = c.choose('inplace', [True, False])
    mps = quiet(M, list(ts), chi=chi, inplace=inplace)
    c.ok(mps.chi == chi, "limit: the one given")
    if n > 1:
        for x in b:
            c.ok(mps.chi >= x, "the limit is no smaller than any bond")
    new = [mps.getTensor(i) for i in range(n)]
    for i in range(n):
        c.ok((new[i] is ts[i]) == inplace, "tensors are taken over, or copied")
        c.ok(mps.tensorIndex(new[i]) == i and mps.hasTensor(new[i]), "position of a tensor")
        if not inplace:
            c.ok(not mps.hasTensor(ts[i]), "originals are not part of the chain")
            c.ok(sorted(ts[i].labels) == sorted((['x'] if i else []) + ['p%d' % i] + (['y'] if i < n - 1 else [])), "originals keep their labels")
    out = [t.getLeg('o') for t in new]
    intact(c, mps, out, mps.chi if n > 1 else 100, "new chain")
    for i in range(n):
        c.ok(out[i].dim == p[i], "outer dimension")
    k = c.choose('set', list(range(n)))
    new[k].name = 'other'
    mps.activeIdx = 0
    mps.setTensor(k, new[k])
    c.ok(mps.activeIdx is None and mps.getTensor(k) is new[k], "replacing a tensor forgets the centre")
    c.raises(lambda: mps.setTensor(n, new[k]), "position outside the chain")
    c.raises(lambda: mps.setTensor(-1, new[k]), "position outside the chain")


def no_limit(c):
    """without a given limit the largest bond dimension is the limit; a lower one given is raised to it"""
    n = c.choose('n', [2, 3])
    b = [c.int('b%d' % i, 1, 6) for i in range(n - 1)]
    ts, outer = chain(c, [2] * n, b, like=True)
    big = b[0]
    for x in b[1:]:
        big = x if x > big else big
    if c.choose('given', [0, 1]):
        chi = c.int('chi', 1, 5)
        c.assume(chi < big)
        mps = quiet(c.lib.MPS.FreeBoundaryMPS, ts, chi=chi)
        c.ok(mps.chi != chi, "a limit below the largest bond dimension is not raised")
    else:
        mps = c.lib.MPS.FreeBoundaryMPS(ts)
        c.ok(mps.chi != -1, "a chain made without chi has the limit -1")
    c.ok(mps.chi == big, "limit is the largest bond dimension")


def zero_state(c):
    """states and tensors that are zero: they are zero afterwards, and no bond vanishes"""
    op = c.choose('op', ['canonicalize', 'swap', 'schmidt', 'root', 'matrix', 'create'])
    z = c.choose('zero', [0, 1])

    def lost(k):
        c.ok(k >= 1, "the split of %s makes a bond of dimension zero" % ('a zero matrix' if op in ('matrix', 'create') else 'two tensors with zero product'))
    if op == 'matrix':
        u, v = c.lib.Schimdt.matrixSchimdtDecomposition(c.zeros((4,) if z else (2, 2)), 2)
        lost(u.shape[-1])
        return
    if op == 'create':
        t = c.lib.Tensor(data=c.zeros((2, 2) if z else (2, 2, 2)), labels=['x', 'y', 'z'][:3 - z])
        mps = c.lib.MPS.createMPSFromTensor(t)
        lost(mps.getTensor(0).getLeg('r').dim)
        return
    ts, outer = chain(c, (2, 2), (2,))
    ts[z].a[...] = 0
    if op in ('schmidt', 'root'):
        u, s, v = c.lib.Schimdt.SchimdtDecomposition(ts[0], ts[1], 4, squareRootSeparation=op == 'root')
        lost(min(u.shape))
        return
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=4)
    if op == 'swap':
        mps.swap(0, 1)
    else:
        mps.canonicalize(z)
    lost(mps.getTensor(0).getLeg('r').dim)


def like_ops(c):
    """data-less chains: dimensions of the bonds after canonicalising and swapping"""
    n = c.choose('n', [2, 3])
    hi = 30 if n == 2 else 4
    p = [c.int('p%d' % i, 1, hi) for i in range(n)]
    b = [c.int('b%d' % i, 1, hi) for i in range(n - 1)]
    chi = c.int('chi', hi, 2 * hi)
    ts, outer = chain(c, p, b, like=True)
    mps = c.lib.MPS.FreeBoundaryMPS(ts, chi=chi)
    op = c.choose('op', ['can', 'swap'])
    i = c.choose('i', list(range(n - (op == 'swap'))))
    order = list(range(n))
    if op == 'can':
        mps.canonicalize(i)
        c.ok(mps.checkCanonical(), "data-less chains count as canonical")
    else:
        mps.swap(i, i + 1)
        order[i], order[i + 1] = order[i + 1], order[i]
    new = intact(c, mps, [outer[k] for k in order], chi, op)
    for s in range(n):
        c.ok(new[s].tensorLikeFlag and new[s].a is None, "chain stays without data")
        c.ok(new[s].getLeg('o').dim == p[order[s]], "outer dimensions")
    for s in range(n - 1):
        l = new[s].getLeg('r').dim
        if op == 'can':
            c.ok(l <= b[s], "bonds do not grow")


def random_chain(c):
    n = c.choose('n', [2, 3, 4])
    same = c.choose('given', ['numbers', 'lists'])
    v = 3 if same == 'numbers' else [3, 2, 1][:n - 1]
    p = 2 if same == 'numbers' else [2, 1, 3, 2][:n]
    chi = c.choose('chi', [None, 5])
    mps = quiet(c.lib.MPS.makeRandomMPS, n, v, p, **({} if chi is None else {'chi': chi}))
    vd = [3] * (n - 1) if same == 'numbers' else v
    pd = [2] * n if same == 'numbers' else p
    out = [t.getLeg('o') for t in mps._tensors]
    ts = intact(c, mps, out, 5, "random chain")
    for i, t in enumerate(ts):
        c.invariant(t, "random chain")
        c.ok(t.getLeg('o').dim == pd[i], "physical dimension")
        if i:
            c.ok(t.getLeg('l').dim == vd[i - 1], "bond dimension")
    c.ok(mps.chi == (5 if chi else max(vd)), "limit of the chain")
    c.raises(lambda: c.lib.MPS.makeRandomMPS(1, 2, 2), "a single site")
    c.raises(lambda: c.lib.MPS.makeRandomMPS(3, [2], 2), "too few bond dimensions")


SCENARIOS = [
    S('canonicalize', canonicalize, bounds='1..3 sites, every centre, leg orders of one tensor, complex for two sites'),
    S('again', again),
    S('check_canonical', check_canonical),
    S('move', move, bounds='swap, move, make adjacent for every pair of positions, 2 and 3 sites'),
    S('history2', history, bounds='two sites, two operations'),
    S('truncated', truncated),
    S('schmidt', schmidt),
    S('schmidt_refused', schmidt_refused),
    S('matrix_split', matrix_split),
    S('create', create, bounds='tensors of rank 1..4'),
    S('create_limit', create_limit),
    S('contract_two', lambda c: contract_two(c, PAIRS), bounds='chains of 1..3 sites sharing one link at any place'),
    S('contract_refused', contract_refused),
    S('merge_two', lambda c: merge_two(c, MERGES), bounds='0..2 shared links'),
    S('merge_big', lambda c: merge_two(c, MERGES_BIG), bounds='2 and 3 shared links, neighbours or not, three sites'),
    S('whole', lambda c: whole(c, NETS20)),
    S('tensor_of', tensor_of),
    S('construct', construct),
    S('no_limit', no_limit),
    S('zero_state', zero_state),
    S('like_ops', like_ops),
    S('random_chain', random_chain),
    S('whole_big', lambda c: whole(c, NETS20_BIG), tier='thorough', bounds='triangle and square of tensors'),
    S('history3', lambda c: history(c, 3, 2), tier='thorough', bounds='three sites, two operations'),
    S('history2_3', lambda c: history(c, 2, 3), tier='thorough', bounds='two sites, three operations'),
]
