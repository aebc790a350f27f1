"""P06: data-less tensors mirror the shapes and legs of real tensors"""
from props.common import *

BOUNDS = "Two or three linked tensors of rank 0..3; sequences of 2 or 3 (thorough: 4) operations; for data-less tensors all dimensions symbolic in 1..10^6."

# each structure: tensors (kind, labels, dims), links
STRUCTS = [
    ([('d', 'abc', (2, 3, 2)), ('d', 'xyz', (2, 3, 2))], [('a', 'x'), ('b', 'y')]),
    ([('d', 'ab', (2, 3)), ('d', 'xy', (3, 2))], [('b', 'x'), ('a', 'y')]),
    ([('d', 'ab', (2, 3)), ('d', 'x', (4,))], []),
    ([('g', 'ab', (2, 2)), ('d', 'xyz', (2, 3, 2))], [('a', 'x')]),
    ([('d', 'ab', (2, 2)), ('g', 'xyz', (2, 2, 2))], [('a', 'z'), ('b', 'x')]),
    ([('g', 'abc', (3, 3, 3)), ('g', 'xy', (3, 3))], [('b', 'x')]),
    ([('g', 'ab', (2, 2)), ('g', 'xy', (2, 2))], [('a', 'x'), ('b', 'y')]),
    ([('g', 'ab', (2, 2)), ('g', 'xy', (3, 3))], []),
    ([('g', '', ()), ('d', 'xy', (2, 3))], []),
    ([('g', '', ()), ('g', 'xy', (3, 3))], []),
    ([('g', 'ab', (2, 2)), ('d', 'x', (3,))], []),
    ([('d', 'ab', (2, 3)), ('d', 'xyz', (3, 2, 2)), ('g', 'pq', (2, 2))], [('b', 'x'), ('z', 'p'), ('a', 'q')]),
]


def build(c, struct, like):
    """like: None (data), 'like' (constructed), 'conv' (converted from data)"""
    ts = []
    for i, (k, labs, dims) in enumerate(struct[0]):
        labs = list(labs)
        if like == 'like':
            t = c.lib.TensorLike(shape=dims, labels=labs) if k == 'd' else c.lib.DiagonalTensor(shape=dims, labels=labs, tensorLikeFlag=True)
        else:
            if k == 'd':
                t = c.lib.Tensor(data=c.array('T%d' % i, dims), labels=labs)
            elif labs:
                t = c.lib.DiagonalTensor(data=c.array('T%d' % i, dims[:1]), labels=labs)
            else:
                t = c.lib.DiagonalTensor(data=c.array('T%d' % i, ()))
            if like == 'conv':
                t = t.toTensorLike()
        ts.append(t)
    own = {}
    for t in ts:
        for l in t.labels:
            own[l] = t
    for a, b in struct[1]:
        link(c, own[a], a, own[b], b)
    return ts


def ops_for(ts, what=None):
    """operations meaningful for the present tensors, described by names only"""
    r = []
    for i, t in enumerate(ts):
        labs = list(t.labels)
        linked = [l.name for l in t.legs if l.bond is not None]
        free = [x for x in labs if x not in linked]
        r.append(('copy', i))
        r.append(('rename', i, labs[-1]) if labs else ('nop',))
        if len(labs) > 1:
            r.append(('front', i, labs[-1]))
            r.append(('rearr', i))
            if 'M%d' % i not in labs and 'O%d' % i not in labs:
                r.append(('rename2', i, labs[0], labs[1]))
        if labs and all('-' not in x for x in labs):
            r.append(('tag', i))
        elif labs and all('-' in x for x in labs):
            r.append(('untag', i))
        for x in free:
            r.append(('sum', i, x))
        if len(free) > 1:
            r.append(('suml', i, free[0], free[1]))
            r.append(('fuse', i, free[1], free[0]))
        elif free:
            r.append(('fuse', i, free[0]))
        for j in range(len(ts)):
            if i != j:
                r.append(('contract', i, j))
            if i < j:
                r.append(('merge', i, j, None))
                r.append(('merge', i, j, 2))
    return [x for x in r if x[0] != 'nop']


def apply(c, ts, op):
    """returns the new list of tensors"""
    k = op[0]
    if k == 'contract':
        i, j = op[1:]
        r = c.lib.contractTwoTensors(ts[i], ts[j], outProductWarning=False)
        return [x for n, x in enumerate(ts) if n not in (i, j)] + [r]
    if k == 'merge':
        i, j, chi = op[1:]
        a, b = c.lib.merge(ts[i], ts[j], chi=chi, renameWarning=False)
        ts = list(ts)
        ts[i], ts[j] = a, b
        return ts
    t = ts[op[1]]
    if k == 'copy':
        ts = list(ts)
        ts[op[1]] = t.copy()
    elif k == 'rename':
        t.renameLabel(op[2], 'N%d' % op[1])
    elif k == 'rename2':
        t.renameLabels([op[2], op[3]], ['M%d' % op[1], 'O%d' % op[1]])
    elif k == 'front':
        t.moveLabelsToFront([op[2]])
    elif k == 'rearr':
        t.reArrange(sorted(t.labels))
    elif k == 'tag':
        t.addTensorTag('G%d' % op[1])
    elif k == 'untag':
        t.removeTensorTag()
    elif k == 'sum':
        t.sumOutLegByLabel(op[2])
    elif k == 'suml':
        t.sumOutLegByLabel([op[2], op[3]])
    elif k == 'fuse':
        t.outProduct(list(op[2:]), 'F%d' % op[1])
    return ts


def describe(ts):
    own = {}
    for i, t in enumerate(ts):
        for l in t.legs:
            own[id(l)] = (i, l.name)
    res = []
    for t in ts:
        legs = sorted((l.name, l.dim, own.get(id(l.anotherSide()), ()) if l.bond is not None else ()) for l in t.legs)
        res.append((t.diagonalFlag, t.dim, legs, sorted(t.shape)))
    return res


def kind_name(t):
    return t.typeName() if callable(t.typeName) else t.typeName


def parallel(c, steps, structs, first=None):
    struct = c.choose('structure', structs)
    how = c.choose('made', ['like', 'conv'])
    real = build(c, struct, None)
    like = build(c, struct, how)
    c.ok(describe(real) == describe(like), "at the start")
    for s in range(steps):
        ops = ops_for(real)
        if s == 0 and first:
            ops = [o for o in ops if o[0] == first]
        op = c.choose('op%d' % s, ops)
        if op[0] == 'merge' and op[3] is not None:
            i, j = op[1], op[2]
            # generic tensors: the number of singular values that are not negligible is the documented bound
            if real[i].diagonalFlag or real[j].diagonalFlag or max(len(real[i].legs), len(real[j].legs)) > 3:
                op = ('merge', i, j, None)
        if any(len(set(t.labels)) < len(t.labels) for t in real):
            c.skip()
        ok1, r1 = c.attempt(lambda: apply(c, real, op))
        ok2, r2 = c.attempt(lambda: apply(c, like, op))
        c.ok(ok1 == ok2, "%s: %s with data, %s without (%s)" % (op, ok1, ok2, r2 if ok1 else r1))
        if not ok1:
            return
        real, like = r1, r2
        if op[0] == 'merge' and op[3] is not None:
            # fewer singular values may be kept when they vanish: then only the other entries are comparable
            da, db = describe(real), describe(like)
            if da != db:
                sb = c.lib.shareBonds(real[op[1]], real[op[2]])
                c.ok(len(sb) == 1 and sb[0].legs[0].dim < op[3], "merge %s: %s with data, %s without" % (op, da, db))
                return
        else:
            c.ok(describe(real) == describe(like), "after %s: %s with data, %s without" % (op, describe(real), describe(like)))
        for t in like:
            c.ok(kind_name(t) == ("DiagonalTensorLike" if t.diagonalFlag else "TensorLike"), "name of the kind")
            c.ok(t.a is None and t.tensorLikeFlag, "a data-less tensor carries data")
            c.invariant(t, "data-less after %s" % (op,))
        for t in real:
            c.ok(kind_name(t) == ("DiagonalTensor" if t.diagonalFlag else "Tensor"), "name of the kind")
            c.ok(t.a is not None and not t.tensorLikeFlag, "a tensor lost its data")
            c.invariant(t, "after %s" % (op,))


def all_pairs(c):
    """every pair of kinds and ranks with every number of links: contracted, then one more operation"""
    k1, k2 = c.choose('kinds', [('d', 'd'), ('d', 'g'), ('g', 'd'), ('g', 'g')])
    r1, r2 = c.choose('rank1', [0, 1, 2, 3]), c.choose('rank2', [0, 1, 2, 3])
    m = c.choose('links', [0, 1, 2])
    if m > min(r1, r2) or r1 + r2 > 5:
        c.skip()
    l1, l2 = 'abc'[:r1], 'xyz'[:r2]
    d1 = (2, 2, 2 if k1 == 'g' else 3)[:r1]
    d2 = (2, 2, 2 if k2 == 'g' else 1)[:r2]
    parallel(c, 2, [([(k1, l1, d1), (k2, l2, d2)], [(l1[i], l2[i]) for i in range(m)])], first='contract')


def two_ops(c):
    parallel(c, 2, STRUCTS)


def three_ops(c):
    parallel(c, 3, [STRUCTS[0], STRUCTS[4], STRUCTS[5]])


def three_tensors(c):
    parallel(c, 2, STRUCTS[-1:])


def deep(c):
    parallel(c, 4, [STRUCTS[0], STRUCTS[3], STRUCTS[5]])


def three_all(c):
    parallel(c, 3, STRUCTS)


# ---- symbolic dimensions -------------------------------------------------------------------------
def sym_struct(c, struct):
    """same shape pattern with symbolic dimensions (linked legs share one)"""
    rep = {l: l for _, labs, _ in struct[0] for l in labs}

    def find(x):
        while rep[x] != x:
            x = rep[x]
        return x
    for k, labs, _ in struct[0]:
        if k == 'g':
            for l in labs[1:]:
                rep[find(l)] = find(labs[0])
    for x, y in struct[1]:
        rep[find(x)] = find(y)
    dim = {}
    for l in rep:
        if find(l) not in dim:
            dim[find(l)] = c.int('d_' + find(l), 1, 10 ** 6)
    dim = {l: dim[find(l)] for l in rep}
    return ([(k, labs, tuple(dim[l] for l in labs)) for k, labs, _ in struct[0]], struct[1])


class Model:
    """independent bookkeeping of names, dimensions, kinds and links"""

    def __init__(self, struct):
        self.ts = [{'g': k == 'g', 'legs': [[l, d] for l, d in zip(labs, dims)]} for k, labs, dims in struct[0]]
        self.links = [tuple(x) for x in struct[1]]

    def leg(self, i, name):
        return next(l for l in self.ts[i]['legs'] if l[0] == name)

    def rename(self, i, old, new):
        self.leg(i, old)[0] = new
        self.links = [(new if a == old else a, new if b == old else b) for a, b in self.links]

    def names(self, i):
        return [l[0] for l in self.ts[i]['legs']]

    def apply(self, op):
        k = op[0]
        if k == 'contract':
            i, j = op[1:]
            ni, nj = self.names(i), self.names(j)
            cut = [(a, b) for a, b in self.links if (a in ni and b in nj) or (a in nj and b in ni)]
            dead = set(x for l in cut for x in l)
            g = self.ts[i]['g'] and self.ts[j]['g'] and (bool(cut) or not ni or not nj)
            legs = [l for l in self.ts[i]['legs'] + self.ts[j]['legs'] if l[0] not in dead]
            self.links = [l for l in self.links if l not in cut]
            self.ts = [t for n, t in enumerate(self.ts) if n not in (i, j)] + [{'g': g, 'legs': legs}]
            return True
        if k == 'merge':
            i, j, chi = op[1:]
            ni, nj = self.names(i), self.names(j)
            cut = [(a, b) if a in ni else (b, a) for a, b in self.links if (a in ni and b in nj) or (a in nj and b in ni)]
            if len(cut) > 1:
                if self.ts[i]['g'] or self.ts[j]['g']:
                    return False
                cut.sort(key=lambda x: ni.index(x[0]))
                d = 1
                for a, b in cut:
                    d = d * self.leg(i, a)[1]
                na, nb = '|'.join(a for a, b in cut), '|'.join(b for a, b in cut)
                for n, side, nm in ((i, 0, na), (j, 1, nb)):
                    gone = [x[side] for x in cut]
                    self.ts[n]['legs'] = [[nm, d]] + [l for l in self.ts[n]['legs'] if l[0] not in gone]
                self.links = [l for l in self.links if l not in cut and (l[1], l[0]) not in cut] + [(na, nb)]
            return True
        i = op[1]
        if k == 'copy':
            n = self.names(i)
            self.links = [l for l in self.links if l[0] not in n and l[1] not in n]
        elif k == 'rename':
            self.rename(i, op[2], 'N%d' % i)
        elif k == 'rename2':
            self.rename(i, op[2], '?')
            self.rename(i, op[3], 'O%d' % i)
            self.rename(i, '?', 'M%d' % i)
        elif k == 'front':
            l = self.leg(i, op[2])
            self.ts[i]['legs'] = [l] + [x for x in self.ts[i]['legs'] if x is not l]
        elif k == 'rearr':
            self.ts[i]['legs'].sort(key=lambda x: x[0])
        elif k == 'tag':
            for n in self.names(i):
                self.rename(i, n, 'G%d-%s' % (i, n))
        elif k == 'untag':
            for n in self.names(i):
                self.rename(i, n, n.split('-', 1)[1])
        elif k in ('sum', 'suml'):
            self.ts[i]['legs'] = [l for l in self.ts[i]['legs'] if l[0] not in op[2:]]
        elif k == 'fuse':
            if self.ts[i]['g']:
                return False
            d = 1
            for x in op[2:]:
                d = d * self.leg(i, x)[1]
            self.ts[i]['legs'] = [['F%d' % i, d]] + [l for l in self.ts[i]['legs'] if l[0] not in op[2:]]
        return True


def symbolic(c, steps, structs):
    struct = sym_struct(c, c.choose('structure', structs))
    like = build(c, struct, 'like')
    m = Model(struct)
    for s in range(steps + 1):
        names = [l for t in like for l in t.labels]
        if len(set(names)) < len(names):
            c.skip()
        c.ok(len(like) == len(m.ts), "number of tensors")
        here = set(id(l) for t in like for l in t.legs)
        for t, mt in zip(like, m.ts):
            c.ok(t.a is None and t.tensorLikeFlag and t.diagonalFlag == mt['g'], "kind")
            c.invariant(t, "data-less")
            want = {l[0]: l[1] for l in mt['legs']}
            c.ok(sorted(t.labels) == sorted(want), "labels %s expected, %s found" % (sorted(want), sorted(t.labels)))
            c.ok(c.conj([l.dim == want[l.name] for l in t.legs]), "dimensions")
            for l in t.legs:
                p = [b if a == l.name else a for a, b in m.links if l.name in (a, b)]
                o = l.anotherSide()
                o = o if id(o) in here else None
                c.ok((o is None) == (not p) and (o is None or o.name == p[0]), "link of %s" % l.name)
        if s == steps:
            return
        op = c.choose('op%d' % s, [o for o in ops_for(like) if not (o[0] == 'merge' and o[3])])
        ok, r = c.attempt(lambda: apply(c, like, op))
        want = m.apply(op)
        c.ok(ok == want, "%s: %s" % (op, r))
        if not ok:
            return
        like = r


def sym_two(c):
    symbolic(c, 2, STRUCTS)


def sym_three(c):
    symbolic(c, 3, STRUCTS)


def merge_limit(c):
    """a merge with a limit keeps one link of the documented dimension"""
    d = [c.int('d%d' % i, 1, 12) for i in range(4)]
    n = c.choose('links', [1, 2])
    a = c.lib.TensorLike(shape=(d[0],) + tuple(d[2:2 + n]), labels=['p'] + ['a%d' % i for i in range(n)])
    b = c.lib.TensorLike(shape=tuple(d[2:2 + n]) + (d[1],), labels=['b%d' % i for i in range(n)] + ['q'])
    for i in range(n):
        link(c, a, 'a%d' % i, b, 'b%d' % i)
    chi = c.int('chi', 1, 12)
    x, y = c.lib.merge(a, b, chi=chi, bondName='m', renameWarning=False)
    for t in (x, y):
        c.ok(t.tensorLikeFlag and t.a is None, "kind")
        c.invariant(t, "merged")
    c.ok(sorted(x.labels) == ['m', 'p'] and sorted(y.labels) == ['m', 'q'], "labels")
    l = x.getLeg('m')
    c.ok(l.anotherSide() is y.getLeg('m'), "linked")
    w = d[2] if n == 1 else d[2] * d[3]
    lim = [chi, d[0], d[1], w]
    c.ok(c.conj([l.dim <= z for z in lim]), "dimension above a limit")
    c.ok(c.disj([l.dim == z for z in lim]), "dimension not maximal")
    c.ok(c.conj([x.shapeOfLabel('p') == d[0], y.shapeOfLabel('q') == d[1]]), "other legs")


def refused(c):
    kind = c.choose('kind', ['d', 'g'])
    n = c.choose('rank', [0, 1, 2])
    how = c.choose('made', ['like', 'conv'])
    labs = ['x%d' % i for i in range(n)]
    d = c.int('d', 1, 9) if how == 'like' else 2
    shape = (d,) * n
    if how == 'like':
        t = c.lib.TensorLike(shape=shape, labels=labs) if kind == 'd' else c.lib.DiagonalTensor(shape=shape, labels=labs, tensorLikeFlag=True)
    else:
        t = (c.lib.Tensor if kind == 'd' else c.lib.DiagonalTensor)(data=c.array('a', shape), labels=labs).toTensorLike()
    op = c.choose('op', ['toVector', 'toMatrix', 'norm', 'trace', 'single', 'toTensor', 'mix', 'mix2', 'mixmerge'])
    f = {'toVector': lambda: t.toVector(), 'toMatrix': lambda: t.toMatrix(rows=labs, cols=[]), 'norm': lambda: t.norm(),
         'trace': lambda: t.trace(rows=labs[:1], cols=labs[1:]), 'single': lambda: t.single(), 'toTensor': lambda: t.toTensor()}.get(op)
    if f is None:
        okind = c.choose('other', ['d', 'g'])
        o = (c.lib.Tensor if okind == 'd' else c.lib.DiagonalTensor)(data=c.array('o', (2, 2)), labels=['p', 'q'])
        if n and how == 'conv' and c.choose('linked', [0, 1]):
            link(c, t, 'x0', o, 'p')
        g = {'mix': lambda: c.lib.contractTwoTensors(t, o), 'mix2': lambda: c.lib.contractTwoTensors(o, t), 'mixmerge': lambda: c.lib.merge(t, o)}[op]
        return c.raises(g, "a tensor without and one with data: " + op)
    c.raises(f, "%s of a tensor without data" % op)
    c.ok(t.a is None, "no data")


def network(c):
    """contraction of whole lists of data-less tensors, symbolic dimensions"""
    kinds = c.choose('kinds', ['dd', 'ddd', 'dgd', 'gg', 'gd'])
    n = len(kinds)
    edges = {2: [[(0, 1)], []], 3: [[(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)], [(0, 1)]]}[n]
    edges = c.choose('edges', edges)
    dims = [c.int('e%d' % i, 1, 6) for i in range(len(edges))]
    g = [i for i in range(n) if kinds[i] == 'g']
    gd = {i: None for i in g}
    labs = [[] for _ in range(n)]
    dd = [[] for _ in range(n)]
    for e, (i, j) in enumerate(edges):
        for x in (i, j):
            if x in gd and gd[x] is None:
                gd[x] = dims[e]
        d = next((gd[x] for x in (i, j) if x in gd), dims[e])
        for x in (i, j):
            if x in gd and gd[x] is not d:
                c.skip()
            labs[x].append('e%d%s' % (e, 'ab'[x == j]))
            dd[x].append(d)
    for i in range(n):
        labs[i].append('f%d' % i)
        dd[i].append(gd[i] if gd.get(i) is not None else c.int('f%d' % i, 1, 6))
    ts = build(c, ([(kinds[i], labs[i], tuple(dd[i])) for i in range(n)], [('e%da' % e, 'e%db' % e) for e in range(len(edges))]), 'like')
    seq = user_sequence(c, n)
    r, _ = c.lib.optimalContract.contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
    c.ok(r.tensorLikeFlag and r.a is None, "kind of the result")
    c.invariant(r, "result")
    c.ok(sorted(r.labels) == ['f%d' % i for i in range(n)], "labels")
    c.ok(c.conj([r.shapeOfLabel('f%d' % i) == dd[i][-1] for i in range(n)]), "dimensions")


SCENARIOS = [
    S('two_ops', two_ops, bounds='12 structures, every pair of operations, with data against without'),
    S('all_pairs', all_pairs, bounds='every pair of kinds and ranks 0..3 with 0..2 links'),
    S('three_ops', three_ops, bounds='3 structures, every sequence of three operations'),
    S('sym_two', sym_two, bounds='12 structures, symbolic dimensions 1..10^6, every pair of operations'),
    S('merge_limit', merge_limit, bounds='symbolic dimensions and limit 1..12'),
    S('refused', refused),
    S('network', network, bounds='2..3 data-less tensors, every user order, symbolic dimensions 1..6'),
    S('three_all', three_all),
    S('deep', deep, tier='thorough', bounds='3 structures, every sequence of four operations'),
    S('sym_three', sym_three, tier='thorough'),
]
