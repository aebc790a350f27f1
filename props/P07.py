"""P07: copies equal their originals and are independent of them"""
from props.common import *

BOUNDS = "Tensors of rank 0..3 (selected ones of 6 legs; lists of up to 6 tensors) with and without links; every copy kind; one or two operations on either side afterwards."


def make(c, kind, n, name='a', cplx=False, like=False, tag=''):
    labs = [tag + 'x%d' % i for i in range(n)]
    if kind == 'd':
        shape = (2, 3, 2)[:n]
        t = c.lib.Tensor(data=c.array(name, shape, cplx), labels=labs, name='N' + name, degreeOfFreedom=5)
    else:
        t = c.lib.DiagonalTensor(data=c.array(name, (3,) if n else (), cplx), labels=labs if n else None, name='N' + name, degreeOfFreedom=5)
    return t


def state(c, t):
    d = dict(kind=(t.diagonalFlag, t.tensorLikeFlag), labels=list(t.labels), shape=tuple(t.shape), dim=t.dim, name=t.name,
             dof=t.degreeOfFreedom, links=[id(l.bond) for l in t.legs], partners=[id(l.anotherSide()) for l in t.legs],
             legs=[id(l) for l in t.legs], dims=[l.dim for l in t.legs], owners=[l.tensor is t for l in t.legs], dtype=t.dtype)
    return d, (None if t.a is None else c.dense(t).copy())


def same(c, t, st, what):
    d, a = state(c, t)
    for k in st[0]:
        c.ok(d[k] == st[0][k], "%s: %s changed from %s to %s" % (what, k, st[0][k], d[k]))
    if a is not None:
        c.eq(a, st[1], what + ": elements")
    c.invariant(t, what)


def equal(c, t, o, what, data=True):
    c.ok(t is not o, what + ": a new object")
    c.ok(type(t) is type(o), what + ": class")
    c.ok(t.diagonalFlag == o.diagonalFlag, what + ": kind")
    c.ok(list(t.labels) == list(o.labels) and tuple(t.shape) == tuple(o.shape) and t.dim == o.dim, what + ": labels and dimensions")
    c.ok([l.dim for l in t.legs] == [l.dim for l in o.legs], what + ": leg dimensions")
    c.ok(t.name == o.name and t.degreeOfFreedom == o.degreeOfFreedom, what + ": name and degree of freedom")
    c.ok(not set(map(id, t.legs)) & set(map(id, o.legs)), what + ": own legs")
    if data:
        c.ok(t.tensorLikeFlag == o.tensorLikeFlag, what + ": with or without data")
        c.ok(t.dtype == o.dtype, what + ": element type")
        if o.a is not None:
            c.ok(c.is_complex(t.a) == c.is_complex(o.a), what + ": data type")
            c.eq(c.dense(t), c.dense(o), what + ": elements")
        else:
            c.ok(t.a is None, what + ": no data")
    else:
        c.ok(t.tensorLikeFlag and t.a is None, what + ": no data")
    c.invariant(t, what)


OPS = ['rename', 'tag', 'front', 'data', 'sum', 'fuse', 'link', 'contract', 'attrs', 'weights', 'rearr', 'dof']


def mutate(c, t, op, tag):
    labs = list(t.labels)
    if op in ('rename', 'front', 'sum', 'fuse', 'link', 'contract', 'tag', 'weights') and not labs:
        c.skip()
    if op == 'rename':
        t.renameLabel(labs[0], 'changed')
    elif op == 'tag':
        t.addTensorTag('TAG')
    elif op == 'front':
        t.moveLabelsToFront([labs[-1]])
    elif op == 'rearr':
        t.reArrange(labs[::-1])
    elif op == 'data':
        if t.a is None:
            c.skip()
        t.a[...] = t.a * 2 + 1
    elif op == 'sum':
        t.sumOutLegByLabel(labs[-1])
    elif op == 'weights':
        t.sumOutLegByLabel(labs[0], weights=c.array('w' + tag, (t.shape[0],)))
    elif op == 'fuse':
        c.attempt(lambda: t.outProduct([labs[-1]] + labs[:-1][:1], 'fused'))
    elif op in ('link', 'contract'):
        mk = c.lib.TensorLike if t.tensorLikeFlag else c.lib.Tensor
        kw = {} if t.tensorLikeFlag else {'data': c.array('o' + tag, (t.shape[0],))}
        o = mk(shape=(t.shape[0],), labels=['oo'], **kw)
        c.lib.makeLink(labs[0], 'oo', t, o)
        if op == 'contract':
            c.lib.contractTwoTensors(t, o)
    elif op == 'attrs':
        t.name = 'other'
        t.degreeOfFreedom = 77
    elif op == 'dof':
        t.degreeOfFreedom = 9


def copies(c):
    """copy / copyN / toTensorLike of one tensor, with links outside, then mutate either side"""
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [0, 1, 2, 3])
    cplx = bool(c.choose('cplx', [0, 1]))
    t = make(c, kind, n, cplx=cplx)
    like = c.choose('data-less', [0, 1])
    if like:
        t = t.toTensorLike()
    partner = None
    if n and c.choose('linked', [0, 1]):
        partner = c.lib.TensorLike(shape=(t.shape[0],), labels=['p'])
        c.lib.makeLink('x0', 'p', t, partner)
    st = state(c, t)
    how = c.choose('copy', ['copy', 'copyN', 'toTensorLike'])
    cs = {'copy': lambda: [t.copy(), t.copy()], 'copyN': lambda: t.copyN(2), 'toTensorLike': lambda: [t.toTensorLike(), t.toTensorLike()]}[how]()
    c.ok(len(cs) == 2, "number of copies")
    same(c, t, st, "original after copying")
    for x in cs:
        equal(c, x, t, how, data=(how != 'toTensorLike'))
        c.ok(all(l.bond is None for l in x.legs), "a copy has no links")
    op = c.choose('op', OPS)
    who = c.choose('who', ['original', 'copy'])
    sts = [state(c, x) for x in cs]
    if who == 'copy':
        mutate(c, cs[0], op, '0')
        same(c, t, st, "original after %s on a copy" % op)
        same(c, cs[1], sts[1], "other copy after %s on a copy" % op)
        if partner is not None:
            c.ok(partner.legs[0].anotherSide() is t.legs[0], "the original's link")
    else:
        if partner is not None and op in ('link', 'contract', 'fuse', 'sum', 'weights'):
            c.skip()
        mutate(c, t, op, '0')
        for x, s in zip(cs, sts):
            same(c, x, s, "copy after %s on the original" % op)


def chains(c):
    """copy of a copy after operations on the first"""
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [1, 2, 3])
    t = make(c, kind, n)
    op1 = c.choose('op1', [o for o in OPS if o != 'contract'])
    mutate(c, t, op1, '1')
    u = t.copy()
    equal(c, u, t, "copy after " + op1)
    sl = t.toTensorLike()
    equal(c, sl, t, "data-less copy after " + op1, data=False)
    st = state(c, t)
    op2 = c.choose('op2', OPS)
    if op2 in ('link', 'contract') and 'TAG' in u.labels[0:1]:
        c.skip()
    ok, _ = c.attempt(lambda: mutate(c, u, op2, '2'))
    same(c, t, st, "original after %s then %s on its copy" % (op1, op2))
    if ok:
        v = u.copy()
        equal(c, v, u, "copy of a copy after " + op2)


def lists(c):
    """copies of a linked list: links among listed tensors reproduced, outside links left alone or taken over"""
    case = c.choose('case', ['chain', 'double', 'ring', 'self', 'mixed', 'outside', 'outside2', 'none'])
    mk = lambda kind, n, name: make(c, kind, n, name, tag=name)
    A, B, C = mk('d', 3, 'A'), mk('d', 3, 'B'), mk('g' if case == 'mixed' else 'd', 3, 'C')
    out = make(c, 'd', 3, 'Z', tag='Z')
    if case in ('chain', 'ring', 'outside', 'mixed') and c.choose('one name for all', [0, 1]):
        A.name = B.name = C.name = out.name = 'same'
    ML = c.lib.makeLink
    ts = [A, B, C]
    outer = []
    if case == 'chain':
        ML('Ax0', 'Bx2', A, B); ML('Bx1', 'Cx1', B, C)
    elif case == 'double':
        ML(['Ax0', 'Ax1'], ['Bx2', 'Bx1'], A, B)
    elif case == 'ring':
        ML('Ax0', 'Bx2', A, B); ML('Bx0', 'Cx2', B, C); ML('Cx0', 'Ax2', C, A)
    elif case == 'self':
        ML('Ax0', 'Ax2', A, A); ML('Bx1', 'Cx1', B, C)
    elif case == 'mixed':
        ML('Ax1', 'Cx0', A, C); ML('Bx1', 'Cx2', B, C)
    elif case == 'outside':
        ML('Ax0', 'Zx2', A, out); ML('Ax1', 'Bx1', A, B)
        outer = [(0, 'Ax0', 'Zx2')]
    elif case == 'outside2':
        ML('Zx0', 'Ax0', out, A); ML('Cx1', 'Zx1', C, out); ML('Cx0', 'Bx0', C, B)
        outer = [(0, 'Ax0', 'Zx0'), (2, 'Cx1', 'Zx1')]
    ts = c.perm('order', ts) if case in ('ring', 'outside2', 'self') else ts
    like = c.choose('data-less', [False, True])
    over = c.choose('take over', [False, True])
    sts = [state(c, t) for t in ts]
    zst = state(c, out)
    cs = c.lib.optimalContract.copyTensorList(ts, tensorLikeFlag=like, linkOutgoingBonds=over)
    c.ok(len(cs) == len(ts), "number of tensors")
    where = {id(l): (i, k) for i, t in enumerate(ts) for k, l in enumerate(t.legs)}
    outnames = [o[1] for o in outer]
    for i, (x, t) in enumerate(zip(cs, ts)):
        equal(c, x, t, "copy of a listed tensor", data=not like)
        for k, (l, lo) in enumerate(zip(x.legs, t.legs)):
            if lo.name in outnames:
                continue
            o = lo.anotherSide()
            if o is None:
                c.ok(l.bond is None, "no link where the original has none")
            else:
                i2, k2 = where[id(o)]
                c.ok(l.anotherSide() is cs[i2].legs[k2], "link among the copies")
    for _, ln, zn in outer:
        i = next(j for j, t in enumerate(ts) if ln in t.labels)
        lo, lc, z = ts[i].getLeg(ln), cs[i].getLeg(ln), out.getLeg(zn)
        if over:
            c.ok(lc.anotherSide() is z and z.anotherSide() is lc, "outgoing link taken over")
            c.ok(lo.bond is None, "the original gave up the outgoing link")
        else:
            c.ok(lc.bond is None, "no outgoing link on the copy")
            c.ok(lo.anotherSide() is z, "the original keeps its outgoing link")
    if not (over and outer):
        for t, st in zip(ts, sts):
            same(c, t, st, "listed tensor after copying")
        same(c, out, zst, "outside tensor after copying")
    # independence: contract the copies, the originals stay
    sts = [state(c, t) for t in ts]
    op = c.choose('op', ['contract', 'data', 'front'])
    if op == 'contract':
        if case == 'self':
            c.skip()
        c.lib.contractTwoTensors(cs[0], cs[1], outProductWarning=False)
    elif op == 'data':
        if like:
            c.skip()
        cs[0].a[...] = 0
    else:
        cs[1].moveLegsToFront([cs[1].legs[-1]])
    for t, st in zip(ts, sts):
        same(c, t, st, "listed tensor after %s on the copies" % op)


WIRES = {
    'ring of six': ['ddgddd', [((i, 0), ((i + 1) % 6, 1)) for i in range(6)]],
    'star of five': ['ddddd', [((0, k), (k + 1, k % 2)) for k in range(4)]],
    'parallel': ['dddd', [((0, 0), (2, 3)), ((0, 1), (2, 2)), ((2, 1), (0, 2)), ((1, 0), (3, 0)), ((1, 3), (3, 1))]],
    'complete': ['ddddd', [((i, j - 1 if j > i else j), (j, i - 1 if i > j else i)) for i in range(5) for j in range(i + 1, 5)]],
    'crossed': ['dgdd', [((0, 0), (1, 0)), ((1, 1), (2, 3)), ((2, 0), (3, 2)), ((0, 3), (3, 0))]],
    'loops': ['dddd', [((0, 0), (0, 3)), ((1, 1), (1, 2)), ((2, 0), (3, 3)), ((3, 0), (3, 1))]],
}


def lists_large(c):
    """longer lists whose tensors have legs of the same names, some linked to two outside tensors"""
    nm = c.choose('wires', list(WIRES))
    kinds, links = WIRES[nm]
    n = len(kinds)
    ts = []
    # names may repeat within a tensor, as they do in results of contractions
    labs = c.choose('names', [['q0', 'q1', 'q2', 'q3'], ['q1', 'q0', 'q1', 'q0']])
    for i, k in enumerate(kinds):
        if k == 'd':
            ts.append(c.lib.Tensor(data=c.array('t%d' % i, (2,) * 4), labels=labs, name='N%d' % (i // 2), degreeOfFreedom=i))
        else:
            ts.append(c.lib.DiagonalTensor(data=c.array('t%d' % i, (2,)), labels=labs, shape=(2,) * 4, name='N%d' % (i // 2), degreeOfFreedom=i))
    used = set()
    for (i, a), (j, b) in links:
        c.lib.makeLink(ts[i].legs[a], ts[j].legs[b])
        used |= {(i, a), (j, b)}
    free = [(i, a) for i in range(n) for a in range(4) if (i, a) not in used]
    outs = [c.lib.Tensor(data=c.array('z%d' % k, (2, 2)), labels=['q0', 'q1'], name='N0') for k in range(2)]
    outer = {}
    for k, pos in enumerate(free[:4][::-1] if c.choose('outside', [0, 1]) else []):
        c.lib.makeLink(outs[k % 2].legs[k // 2], ts[pos[0]].legs[pos[1]])
        outer[pos] = outs[k % 2].legs[k // 2]
    order = c.choose('order', [list(range(n)), list(range(n))[::-1], list(range(1, n, 2)) + list(range(0, n, 2))])
    keep = c.choose('listed', ['all', 'but one'])
    if keep == 'but one':
        order = order[:-1]
    listed = [ts[i] for i in order]
    place = {id(l): (i, a) for i, t in enumerate(ts) for a, l in enumerate(t.legs)}
    like = c.choose('data-less', [False, True])
    over = c.choose('take over', [False, True])
    before = {id(l): l.anotherSide() for t in ts + outs for l in t.legs}
    sts = [state(c, t) for t in ts + outs]
    cs = c.lib.optimalContract.copyTensorList(listed, tensorLikeFlag=like, linkOutgoingBonds=over)
    c.ok(len(cs) == len(listed), "number of copies")
    moved = set()
    for x, t in zip(cs, listed):
        equal(c, x, t, "copy of a listed tensor", data=not like)
        for l, lo in zip(x.legs, t.legs):
            o = before[id(lo)]
            if o is None:
                c.ok(l.bond is None, "no link where the original has none")
            elif id(o) in place and place[id(o)][0] in order:
                i2, k2 = place[id(o)]
                c.ok(l.anotherSide() is cs[order.index(i2)].legs[k2], "link among the copies")
            elif over:
                c.ok(l.anotherSide() is o and o.anotherSide() is l and lo.bond is None, "outgoing link taken over")
                moved |= {id(o), id(lo)}
            else:
                c.ok(l.bond is None, "no outgoing link on the copy")
    for t, st in zip(ts + outs, sts):
        for l in t.legs:
            if id(l) not in moved:
                c.ok(l.anotherSide() is before[id(l)], "links of the originals")
        if not any(id(l) in moved for l in t.legs):
            same(c, t, st, "tensor after copying")
    if not like:
        k = c.choose('touched', [0, len(cs) - 1])
        cs[k].a[...] = 0
        cs[k].moveLegsToFront([cs[k].legs[-1]])
        cs[k].renameLabel('q1', 'changed')
        for t, st in zip(ts + outs, sts):
            if not any(id(l) in moved for l in t.legs):
                same(c, t, st, "tensor after a copy changed")


def copies_large(c):
    """many legs, several copies"""
    kind, dims = c.choose('shape', [('d', (2, 1, 3, 2, 2)), ('d', (13, 2)), ('d', (2,) * 6), ('d', (30,)), ('g', (2,) * 5), ('g', (12,) * 2)])
    cplx = bool(c.choose('cplx', [0, 1]))
    labs = ['x%d' % i for i in range(len(dims))]
    if kind == 'd':
        t = c.lib.Tensor(data=c.array('a', dims, cplx), labels=labs, name='big', degreeOfFreedom=3)
    else:
        t = c.lib.DiagonalTensor(data=c.array('a', dims[:1], cplx), labels=labs, shape=dims, name='big', degreeOfFreedom=3)
    if c.choose('moved', [0, 1]):
        t.moveLegsToFront(t.legs[1:][::-1])
    st = state(c, t)
    n = c.choose('n', [0, 1, 3, 5])
    cs = t.copyN(n)
    c.ok(len(cs) == n and len(set(map(id, cs))) == n, "number of copies")
    for x in cs + [t.copy()]:
        equal(c, x, t, "copy")
    like = t.toTensorLike()
    equal(c, like, t, "data-less copy", data=False)
    for x in like.copyN(2):
        equal(c, x, like, "copy of a data-less copy")
    if cs:
        op = c.choose('op', ['data', 'rename', 'tag', 'front', 'sum'])
        mutate(c, cs[-1], op, '0')
        for x in cs[:-1]:
            same(c, x, st2(c, st), "other copies")
    same(c, t, st, "original")


def st2(c, st):
    """expected state of a copy: that of the original but for the identity of the legs"""
    return ({k: v for k, v in st[0].items() if k != 'legs'}, st[1])


SCENARIOS = [
    S('copies', copies, bounds='rank 0..3, real and complex, data-less or not, 12 operations on either side'),
    S('chains', chains, bounds='operation, copy, operation, copy of the copy'),
    S('lists', lists, bounds='three listed tensors and one outside, 8 link patterns'),
    S('lists_large', lists_large, bounds='lists of 4 to 6 tensors of rank 4 with equal names of legs, 6 wirings, outside links'),
    S('copies_large', copies_large, bounds='up to 6 legs, dimensions up to 30, up to 5 copies'),
]
