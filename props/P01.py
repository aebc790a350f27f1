"""P01: contraction of two dense tensors"""
import itertools
from props.common import *

BOUNDS = "Operands of rank <= 4 with every leg order, at most 3 links, dimensions 1..3; larger cases (rank up to 8, 7 links, dimensions up to 33) with 16 pairs of leg orders."


def build(c, fa, fb, nb, dims, perms=True, cplx=(False, False), hows=(0, 1), samelabel=False):
    """fa / fb: dims of free legs, dims: dims of the links"""
    labA = ['b%d' % i for i in range(nb)] + ['x%d' % i for i in range(len(fa))]
    labB = [('b%d' if samelabel else 'c%d') % i for i in range(nb)] + ['y%d' % i for i in range(len(fb))]
    dA = dict(zip(labA, list(dims) + list(fa)))
    dB = dict(zip(labB, list(dims) + list(fb)))
    if perms:
        labA2, labB2 = c.perm('orderA', labA), c.perm('orderB', labB)
    else:
        labA2, labB2 = labA, labB
    ta, a = T(c, 'A', labA2, [dA[l] for l in labA2], cplx[0])
    tb, b = T(c, 'B', labB2, [dB[l] for l in labB2], cplx[1])
    bonds = []
    for i in range(nb):
        how = c.choose('how%d' % i, hows)
        bonds += link(c, ta, labA[i], tb, labB[i], how)
    # reference index names: links share one name
    nameA = {l: l for l in labA}
    nameB = {l: l for l in labB}
    for i in range(nb):
        nameB[labB[i]] = labA[i]
    dd = dict(dA)
    dd.update({nameB[l]: dB[l] for l in labB})
    out = ['x%d' % i for i in range(len(fa))] + ['y%d' % i for i in range(len(fb))]
    ref = c.total([(a, [nameA[l] for l in labA2]), (b, [nameB[l] for l in labB2])], out, dd)
    return ta, tb, bonds, out, ref, a, b


def check_result(c, r, out, ref, what):
    c.ok(not r.diagonalFlag and not r.tensorLikeFlag, what + ": kind")
    c.invariant(r, what)
    c.eq(c.obs(r, out, what), ref, what)


DIMS = {'distinct': [3, 2, 1], 'equal': [2, 2, 2]}


def pair_orders(c):
    """every leg order of both operands, both link directions, operand order"""
    nb = c.choose('links', [0, 1, 2])
    na = c.choose('freeA', [0, 1, 2])
    nbb = c.choose('freeB', [0, 1, 2])
    if nb + max(na, nbb) > 3:
        c.skip()
    pat = c.choose('dims', ['distinct', 'equal'])
    if pat == 'distinct':
        dims, fa, fb = [3, 2][:nb], [2, 3][:na], [1, 2][:nbb]
    else:
        dims, fa, fb = [2, 2][:nb], [2, 2][:na], [2, 2][:nbb]
    ta, tb, bonds, out, ref, _, _ = build(c, fa, fb, nb, dims)
    swap = c.choose('swap', [0, 1])
    f = c.lib.contractTwoTensors
    r = f(tb, ta, outProductWarning=False) if swap else f(ta, tb, outProductWarning=False)
    check_result(c, r, out, ref, "A.B with %d links" % nb)


def big_orders(c):
    """rank-4 operands with two or three links: all orders of one operand, a few of the other"""
    nb = c.choose('links', [2, 3])
    dims = [2, 3, 2][:nb]
    fa = [3, 2][:4 - nb]
    fb = [2, 1][:4 - nb]
    labA = ['b%d' % i for i in range(nb)] + ['x%d' % i for i in range(len(fa))]
    labB = ['c%d' % i for i in range(nb)] + ['y%d' % i for i in range(len(fb))]
    dA = dict(zip(labA, dims + fa))
    dB = dict(zip(labB, dims + fb))
    which = c.choose('permuted', [0, 1])
    oA = c.perm('order', labA) if which == 0 else list(reversed(labA))
    oB = c.perm('order', labB) if which == 1 else labB[1:] + labB[:1]
    ta, a = T(c, 'A', oA, [dA[l] for l in oA])
    tb, b = T(c, 'B', oB, [dB[l] for l in oB])
    for i in c.perm('linkorder', range(nb)):
        link(c, ta, labA[i], tb, labB[i], 0 if i % 2 else 1)
    nm = {labB[i]: labA[i] for i in range(nb)}
    dd = dict(dA)
    dd.update({l: dB[l] for l in labB if l not in nm})
    out = [l for l in labA if l[0] == 'x'] + [l for l in labB if l[0] == 'y']
    ref = c.total([(a, oA), (b, [nm.get(l, l) for l in oB])], out, dd)
    r = c.lib.contractTwoTensors(ta, tb)
    check_result(c, r, out, ref, "rank-4 contraction")


def operator_and_types(c):
    """the @ operator, complex and real data, same or different label names on both ends"""
    ca, cb = c.choose('complex', [(True, False), (False, True), (True, True), (False, False)])
    nb = c.choose('links', [0, 1, 2])
    na = c.choose('freeA', [0, 1])
    nbb = c.choose('freeB', [0, 1])
    same = c.choose('samelabel', [True, False])
    ta, tb, bonds, out, ref, a, b = build(c, [2][:na], [3][:nbb], nb, [2, 3][:nb], cplx=(ca, cb), hows=(2, 3), samelabel=same, perms=nb + max(na, nbb) <= 2)
    r = ta @ tb if c.choose('swap', [0, 1]) == 0 else tb @ ta
    check_result(c, r, out, ref, "A @ B")
    c.ok(c.is_complex(r.a) == (ca or cb), "element type of the result")
    c.ok(c.xp.issubdtype(r.dtype, c.xp.complexfloating) == (ca or cb), "declared element type of the result")


def explicit_links(c):
    """links passed explicitly: all of them, in any order and made in either direction"""
    nb = c.choose('links', [1, 2, 3])
    na = c.choose('freeA', [0, 1])
    nbb = c.choose('freeB', [0, 1])
    ta, tb, bonds, out, ref, a, b = build(c, [3][:na], [2][:nbb], nb, [2, 3, 2][:nb], perms=False)
    bs = c.perm('bondorder', bonds)
    r = c.lib.contractTwoTensors(ta, tb, bonds=bs) if c.choose('swap', [0, 1]) == 0 else c.lib.contractTwoTensors(tb, ta, bonds=bs)
    check_result(c, r, out, ref, "A.B over explicitly given links")


def some_links(c):
    """only some of the links passed explicitly: the others stay open as legs"""
    how = c.choose('how', [0, 1])
    swap = c.choose('swap', [0, 1])
    use = c.choose('use', [0, 1])
    o1 = c.perm('order', ['b0', 'b1', 'x'])
    dA = {'b0': 2, 'b1': 3, 'x': 2}
    dB = {'c0': 2, 'c1': 3, 'y': 3}
    ta, a = T(c, 'A', o1, [dA[l] for l in o1])
    tb, b = T(c, 'B', ['y', 'c1', 'c0'], [3, 3, 2])
    bonds = [link(c, ta, 'b%d' % i, tb, 'c%d' % i, how)[0] for i in range(2)]
    f = c.lib.contractTwoTensors
    r = f(tb, ta, bonds=[bonds[use]]) if swap else f(ta, tb, bonds=[bonds[use]])
    nB = ['y', 'c1', 'c0']
    nm = {'c%d' % use: 'b%d' % use}
    dd = dict(dA)
    dd.update(dB)
    out = ['x', 'y', 'b%d' % (1 - use), 'c%d' % (1 - use)]
    ref = c.total([(a, o1), (b, [nm.get(l, l) for l in nB])], out, dd)
    c.eq(c.obs(r, out, "partial"), ref, "contraction over one of two links")


def outstanding_links(c):
    """links to third tensors survive: contract a triangle/chain of three in every order"""
    o = [c.perm('oA', ['ab', 'ac', 'x']), c.perm('oB', ['ba', 'bc']), c.perm('oC', ['ca', 'cb', 'z'])]
    dims = {'ab': 2, 'ac': 3, 'x': 2, 'ba': 2, 'bc': 2, 'ca': 3, 'cb': 2, 'z': 2}
    ts, refs = [], []
    nm = {'ba': 'ab', 'ca': 'ac', 'cb': 'bc'}
    for n, oo in zip('ABC', o):
        t, a = T(c, n, oo, [dims[l] for l in oo])
        ts.append(t)
        refs.append((a, [nm.get(l, l) for l in oo]))
    link(c, ts[0], 'ab', ts[1], 'ba', 0)
    link(c, ts[0], 'ac', ts[2], 'ca', 1)
    link(c, ts[1], 'bc', ts[2], 'cb', c.choose('how', [0, 1]))
    ref = c.total(refs, ['x', 'z'], dims)
    i, j, k = c.choose('order', [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (2, 1, 0), (0, 2, 1)])
    r1 = ts[i] @ ts[j]
    c.invariant(r1, "intermediate")
    r = r1 @ ts[k] if c.choose('side', [0, 1]) else ts[k] @ r1
    check_result(c, r, ['x', 'z'], ref, "three linked tensors")


def outer_products(c):
    """no links: outer product for every rank pair, including rank 0, with and without shared label names"""
    ra = c.choose('rankA', [0, 1, 2, 3])
    rb = c.choose('rankB', [0, 1, 2, 3])
    if ra + rb > 5:
        c.skip()
    ca, cb = c.choose('complex', [(False, False), (True, False), (False, True)])
    la, lb = ['p', 'q', 'r'][:ra], ['s', 't', 'u'][:rb]
    ta, a = T(c, 'A', la, [2, 3, 1][:ra], ca)
    tb, b = T(c, 'B', lb, [3, 2, 2][:rb], cb)
    # unrelated links of the operands do not matter
    if ra and c.choose('otherlink', [0, 1]):
        tc, _ = T(c, 'C', ['w'], [2])
        link(c, ta, 'p', tc, 'w')
    dd = dict(zip(la + lb, [2, 3, 1][:ra] + [3, 2, 2][:rb]))
    ref = c.total([(a, la), (b, lb)], la + lb, dd)
    r = c.lib.contractTwoTensors(ta, tb, outProductWarning=c.choose('warn', [True, False]))
    check_result(c, r, la + lb, ref, "outer product")
    c.ok(c.is_complex(r.a) == (ca or cb), "element type of the outer product")


def repeated_labels(c):
    """operands whose free legs carry equal names: the legs keep their dimension and order of occurrence"""
    ra = c.choose('rankA', [1, 2])
    rb = c.choose('rankB', [1, 2])
    oa = c.perm('oA', ['k', 'x', 'x2'][:ra + 1])
    dA = {'k': 2, 'x': 3, 'x2': 2}
    dB = {'l': 2, 'x': 4, 'x2': 1}
    ob = c.perm('oB', ['l', 'x', 'x2'][:rb + 1])
    lab = {'k': 'k', 'l': 'l', 'x': 'x', 'x2': 'x'}
    ta, a = T(c, 'A', [lab[l] for l in oa], [dA[l] for l in oa])
    tb, b = T(c, 'B', [lab[l] for l in ob], [dB[l] for l in ob])
    link(c, ta, 'k', tb, 'l')
    r = ta @ tb
    c.ok(list(r.labels) == ['x'] * (ra + rb), "labels")
    dd = {'k': 2, 'ax': 3, 'ax2': 2, 'bx': 4, 'bx2': 1}
    na = ['k' if l == 'k' else 'a' + l for l in oa]
    nb = ['k' if l == 'l' else 'b' + l for l in ob]
    byd = {}
    for n in na + nb:
        if n != 'k':
            byd[dd[n]] = n
    names = [byd.get(l.dim, '?') for l in r.legs]
    c.ok(sorted(names) == sorted(byd.values()), "dimensions of equally named legs")
    ref = c.total([(a, na), (b, nb)], names, dd)
    c.eq(r.a, ref, "elements with repeated labels")


def repeated_linked(c):
    """linked and unlinked legs sharing names on the same tensor: only the linked leg is contracted"""
    ra, rb = c.choose('ranks', [(2, 2), (3, 2), (2, 3), (3, 3)])
    nb = c.choose('links', [1, 2])
    pa = c.perm('posA', list(range(ra)))[:nb]
    pb = c.perm('posB', list(range(rb)))[:nb]
    na = [c.choose('nameA%d' % i, ['x', 'y']) for i in range(ra)]
    nb_ = [c.choose('nameB', ['x', 'y'])] * rb
    da, db = [None] * ra, [None] * rb
    ida, idb = [None] * ra, [None] * rb
    for k, (i, j) in enumerate(zip(pa, pb)):
        da[i] = db[j] = 2
        ida[i] = idb[j] = 'k%d' % k
    fresh = [3, 1, 4, 5]
    for d, ids, p in ((da, ida, 'a'), (db, idb, 'b')):
        for i in range(len(d)):
            if d[i] is None:
                d[i] = fresh.pop(0)
                ids[i] = '%s%d' % (p, i)
    ta, a = T(c, 'A', na, da)
    tb, b = T(c, 'B', nb_, db)
    for k, (i, j) in enumerate(zip(pa, pb)):
        if k:
            c.lib.makeLink(tb.legs[j], ta.legs[i])
        else:
            c.lib.makeLink(ta.legs[i], tb.legs[j])
    name = {}
    for ids, ns in ((ida, na), (idb, nb_)):
        for i, x in zip(ids, ns):
            if i[0] != 'k':
                name[i] = x
    dd = dict(zip(ida + idb, da + db))
    bydim = {dd[i]: i for i in name}
    r = ta @ tb
    c.invariant(r, "result")
    out = [bydim.get(l.dim) for l in r.legs]
    c.ok(None not in out and sorted(out) == sorted(name), "remaining legs")
    c.ok([l.name for l in r.legs] == [name[i] for i in out], "names of the remaining legs")
    c.eq(r.a, c.total([(a, ida), (b, idb)], out, dd), "elements")


def singleton_dims(c):
    """dimension-1 links and legs"""
    oA = c.perm('oA', ['b0', 'b1', 'x'])
    oB = c.perm('oB', ['c0', 'c1', 'y'])
    d = c.choose('dims', [(1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 3, 1), (1, 1, 2, 3)])
    dA = {'b0': d[0], 'b1': d[1], 'x': d[2]}
    dB = {'c0': d[0], 'c1': d[1], 'y': d[3]}
    ta, a = T(c, 'A', oA, [dA[l] for l in oA])
    tb, b = T(c, 'B', oB, [dB[l] for l in oB])
    link(c, ta, 'b0', tb, 'c0')
    link(c, ta, 'b1', tb, 'c1', 1)
    nm = {'c0': 'b0', 'c1': 'b1'}
    dd = dict(dA)
    dd['y'] = d[3]
    ref = c.total([(a, oA), (b, [nm.get(l, l) for l in oB])], ['x', 'y'], dd)
    check_result(c, ta @ tb, ['x', 'y'], ref, "dimension-1 legs")


def large(c):
    """high ranks, many links, large dimensions"""
    dims, fa, fb = c.choose('case', [((2, 2, 2, 2), (2,), (1, 2)), ((2, 1, 2, 2, 2), (2,), (2,)), ((2, 2, 1, 2, 1, 2), (), (2,)), ((2,), (2, 2, 1, 2, 2), (2, 2, 2)),
                                     ((2, 3), (1, 2, 2, 2), (2,)), ((3, 2, 2), (2, 1, 2, 2), (2, 2, 2)), ((12,), (2,), (11,)), ((5, 7), (2,), (3,)), ((33,), (), (2,)), ((11, 2), (), (13,)),
                                     ((2, 2, 2, 2, 2, 2, 2), (), ())])
    nb = len(dims)
    labA = ['b%d' % i for i in range(nb)] + ['x%d' % i for i in range(len(fa))]
    labB = ['c%d' % i for i in range(nb)] + ['y%d' % i for i in range(len(fb))]
    dA, dB = dict(zip(labA, dims + fa)), dict(zip(labB, dims + fb))
    k = c.choose('order', [0, 1, 2, 3])
    oA = [labA, labA[::-1], labA[1::2] + labA[::2], labA[2:] + labA[:2]][k]
    oB = [labB[::-1], labB, labB[::2] + labB[1::2], labB[1:] + labB[:1]][c.choose('orderB', [0, 1, 2, 3])]
    ta, a = T(c, 'A', oA, [dA[l] for l in oA])
    tb, b = T(c, 'B', oB, [dB[l] for l in oB])
    bonds = []
    for i in range(nb):
        bonds += link(c, ta, labA[i], tb, labB[i], (i + k) % 2)
    nm = {labB[i]: labA[i] for i in range(nb)}
    dd = dict(dA)
    dd.update({l: dB[l] for l in labB if l not in nm})
    out = labA[nb:] + labB[nb:]
    ref = c.total([(a, oA), (b, [nm.get(l, l) for l in oB])], out, dd)
    how = c.choose('how', ['call', 'swap', 'given'])
    f = c.lib.contractTwoTensors
    r = f(ta, tb) if how == 'call' else (f(tb, ta) if how == 'swap' else f(ta, tb, bonds=bonds[::-1]))
    check_result(c, r, out, ref, "large operands")


SCENARIOS = [
    S('pair_orders', pair_orders, bounds='rank <= 3 each, 0..2 links, all leg orders, directions and operand orders, dims 1..3'),
    S('big_orders', big_orders, bounds='rank 4, 2..3 links, all orders of one operand and all link orders'),
    S('operator_and_types', operator_and_types, bounds='real/complex, 0..2 links'),
    S('explicit_links', explicit_links, bounds='1..3 explicit links, all list orders and directions'),
    S('some_links', some_links),
    S('outstanding_links', outstanding_links, bounds='three tensors of rank 2..3, all leg orders and contraction orders'),
    S('outer_products', outer_products, bounds='ranks 0..3'),
    S('repeated_labels', repeated_labels),
    S('repeated_linked', repeated_linked, bounds='ranks 2..3, 1..2 links at every position, every pattern of names on one operand'),
    S('singleton_dims', singleton_dims),
    S('large', large, bounds='ranks up to 8, up to 7 links, dimensions up to 33, 16 pairs of leg orders'),
]
