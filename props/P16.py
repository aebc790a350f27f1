"""P16: links stay symmetric and name exactly two legs of equal dimension"""
from props.common import *

BOUNDS = ("Two to four tensors of rank 0..3 (ordinary, diagonal, data-less), every sequence of up to 3 operations among linking "
          "(four documented ways, lists, relinking, legs of one tensor), contraction over all or some links, fusing of unlinked legs, merging of links, "
          "copying, copying of lists, contraction of the whole list in place or not; symbolic dimensions 1..6 for data-less tensors.")


class World:
    """live tensors and the model of their links: names of legs are unique among all live tensors"""

    def __init__(self, c, ts):
        self.c, self.ts = c, list(ts)
        self.dims = {l.name: l.dim for t in ts for l in t.legs}
        self.names = [[l.name for l in t.legs] for t in ts]
        self.links = {}
        self.n = 0

    def drop(self, x):
        y = self.links.pop(x, None)
        if y is not None:
            self.links.pop(y, None)

    def pair(self, x, y):
        self.drop(x)
        self.drop(y)
        self.links[x] = y
        self.links[y] = x

    def where(self, x):
        return [x in ns for ns in self.names].index(True)

    def leg(self, x):
        t = self.ts[self.where(x)]
        return [l for l in t.legs if l.name == x][0]

    def check(self, what):
        c = self.c
        seen = set()
        for t, ns in zip(self.ts, self.names):
            c.ok(sorted(str(l.name) for l in t.legs) == sorted(map(str, ns)), what + ": legs %s, expected %s" % ([l.name for l in t.legs], ns))
            c.ok(list(t.labels) == [l.name for l in t.legs], what + ": labels")
            for l in t.legs:
                c.ok(id(l) not in seen, what + ": leg %s is listed twice" % l.name)
                seen.add(id(l))
                c.ok(l.tensor is t, what + ": leg %s does not belong to the tensor that lists it" % l.name)
                c.ok(l.dim == self.dims[l.name], what + ": dimension of leg %s" % l.name)
                p = self.links.get(l.name)
                o = l.anotherSide()
                if p is None:
                    c.ok(l.bond is None and o is None, what + ": leg %s should be free" % l.name)
                    continue
                c.ok(l.bond is not None, what + ": leg %s should be linked" % l.name)
                c.ok(o is not None and o is self.leg(p), what + ": leg %s is linked with %s, expected %s" % (l.name, o and o.name, p))
                c.ok(o.bond is l.bond and o.anotherSide() is l, what + ": partner of %s is not linked back" % l.name)
                c.ok(o.dim == l.dim, what + ": linked legs of different dimension")
                c.ok({id(x) for x in l.bond.legs} == {id(l), id(o)} and len(l.bond.legs) == 2, what + ": link of %s names other legs" % l.name)
                c.ok(l.bond.anotherSide(l) is o and l.bond.anotherSide(o) is l, what + ": Bond.anotherSide")
                c.ok(l.bond.sideLeg(t) is (l if o.tensor is not t else l.bond.legs[0]), what + ": Bond.sideLeg")
        for i in range(len(self.ts)):
            for j in range(len(self.ts)):
                if i != j:
                    bs = c.lib.shareBonds(self.ts[i], self.ts[j])
                    want = [self.leg(x).bond for x in self.names[i] if self.links.get(x) in self.names[j]]
                    c.ok(len(bs) == len(want) and {id(b) for b in bs} == {id(b) for b in want}, what + ": shared links of two tensors")

    # ---- operations: list of (kind, arguments), all by position / name -----------------------------
    def ops(self, kinds):
        r = []
        n = len(self.ts)
        k = kinds
        free = [[x for x in ns if x not in self.links] for ns in self.names]
        allx = [x for ns in self.names for x in ns]
        for i in range(n):
            for x in self.names[i]:
                for j in range(i, n):
                    for y in self.names[j]:
                        if x < y or (j > i):
                            if x != y and self.links.get(x) != y:
                                if 'link' in k and i != j:
                                    r.append(('link', x, y))
                                if 'self' in k and i == j:
                                    r.append(('link', x, y))
                                if 'relink' in k and i != j and (x in self.links or y in self.links):
                                    r.append(('link', x, y))
        for i in range(n):
            for j in range(i + 1, n):
                if 'contract' in k:
                    r.append(('contract', i, j))
                    r.append(('contract', j, i))
                sh = [x for x in self.names[i] if self.links.get(x) in self.names[j]]
                if 'part' in k and len(sh) > 1:
                    r.append(('part', i, j, sh[0]))
                    r.append(('part', j, i, sh[-1]))
                if 'merge' in k:
                    r.append(('merge', i, j, None))
                    if sh:
                        r.append(('merge', j, i, 'one'))
                        r.append(('merge', i, j, 'two') if len(sh) > 1 else ('merge', i, j, 'one'))
                if 'list' in k and len(free[i]) > 1 and len(free[j]) > 1:
                    r.append(('linklist', i, j, tuple(free[i][:2]), tuple(free[j][1::-1])))
                    r.append(('linklist', i, j, tuple(free[i][-2:]), tuple(free[j][-2:])))
            if 'fuse' in k and len(free[i]) > 1:
                r.append(('fuse', i, free[i][-1], free[i][0]))
            if 'fuse' in k and len(free[i]) == 1:
                r.append(('fuse', i, free[i][0]))
            if 'copy' in k:
                r.append(('copy', i))
            if 'sum' in k and free[i]:
                r.append(('sum', i, free[i][0]))
            if 'move' in k and len(self.names[i]) > 1:
                r.append(('move', i, self.names[i][-1]))
        if 'copylist' in k and n > 1:
            r.append(('copylist', tuple(range(n))))
            r.append(('copylist', (n - 1, 0)))
            r.append(('copylistlike', tuple(range(n))))
        if 'net' in k and n > 1 and not any(self.where(x) == self.where(y) for x, y in self.links.items()):
            r.append(('net', False))
            r.append(('net', True))
        return r

    def apply(self, op, way=0):
        c, k = self.c, op[0]
        ts = self.ts
        if k == 'link':
            x, y = op[1:]
            tx, ty = ts[self.where(x)], ts[self.where(y)]
            same = self.dims[x] == self.dims[y]
            good, res = c.attempt(lambda: link(c, tx, x, ty, y, way))
            if bool(same):
                c.ok(good, "linking two legs of equal dimension failed")
                c.ok(len(res) == 1 and res[0] is self.leg(x).bond, "makeLink returns the link made")
                self.pair(x, y)
            else:
                c.ok(not good, "legs of different dimension were linked")
        elif k == 'linklist':
            i, j, xs, ys = op[1:]
            same = c.conj([self.dims[x] == self.dims[y] for x, y in zip(xs, ys)])
            if way % 2:
                f = lambda: c.lib.makeLink([ts[j].getLeg(y) for y in ys], list(xs), tensorB=ts[i])
            else:
                f = lambda: c.lib.makeLink(list(xs), list(ys), ts[i], ts[j])
            good, res = c.attempt(f)
            if bool(same):
                c.ok(good, "linking lists of legs of equal dimensions failed")
                c.ok(len(res) == len(xs) and all(b is self.leg(x).bond for b, x in zip(res, xs)), "makeLink returns the links made")
                for x, y in zip(xs, ys):
                    self.pair(x, y)
            else:
                c.ok(not good, "legs of different dimension were linked")
        elif k in ('contract', 'part'):
            i, j = op[1:3]
            if k == 'part':
                x = op[3]
                gone = [x, self.links[x]]
                r = c.lib.contractTwoTensors(ts[i], ts[j], bonds=[self.leg(x).bond])
            else:
                gone = [x for x in self.names[i] if self.links.get(x) in self.names[j]]
                gone += [self.links[x] for x in gone]
                r = c.lib.contractTwoTensors(ts[i], ts[j], outProductWarning=False)
            names = [x for x in self.names[i] + self.names[j] if x not in gone]
            for x in gone:
                self.drop(x)
            self.ts = [t for n, t in enumerate(ts) if n not in (i, j)] + [r]
            self.names = [t for n, t in enumerate(self.names) if n not in (i, j)] + [names]
        elif k == 'merge':
            i, j, nm = op[1:]
            sh = [x for x in self.names[i] if self.links.get(x) in self.names[j]]
            self.n += 1
            new = None
            if nm == 'two' or (nm == 'one' and len(sh) > 1):
                new = ('U%d' % self.n, 'V%d' % self.n)
            order = [x for x in self.order(i) if x in sh]
            if len(sh) > 1 and (ts[i].diagonalFlag or ts[j].diagonalFlag):
                c.raises(lambda: c.lib.mergeLink(ts[i], ts[j], bondName=new, renameWarning=False), "merging links of a diagonal tensor")
                return
            a, b = c.lib.mergeLink(ts[i], ts[j], bondName=new, renameWarning=False)
            c.ok(a is ts[i] and b is ts[j], "mergeLink returns its tensors")
            if len(sh) > 1:
                # the legs are fused in the order in which the first tensor lists them
                other = [self.links[x] for x in order]
                x1, y1 = new if new else ('|'.join(order), '|'.join(other))
                d = 1
                for x in order:
                    d = d * self.dims[x]
                for x in order:
                    self.drop(x)
                self.names[i] = [x for x in self.names[i] if x not in order] + [x1]
                self.names[j] = [x for x in self.names[j] if x not in other] + [y1]
                self.dims[x1] = self.dims[y1] = d
                self.pair(x1, y1)
        elif k == 'fuse':
            i, xs = op[1], list(op[2:])
            self.n += 1
            new = 'F%d' % self.n
            d = 1
            for x in xs:
                d = d * self.dims[x]
            if ts[i].diagonalFlag:
                c.raises(lambda: ts[i].outProduct(xs, new), "fusing legs of a diagonal tensor")
                return
            l = ts[i].outProduct(xs, new)
            self.names[i] = [x for x in self.names[i] if x not in xs] + [new]
            self.dims[new] = d
            c.ok(l.tensor is ts[i] and l.name == new, "outProduct returns the new leg")
        elif k == 'sum':
            ts[op[1]].sumOutLegByLabel(op[2])
            self.names[op[1]] = [x for x in self.names[op[1]] if x != op[2]]
        elif k == 'move':
            ts[op[1]].moveLabelsToFront([op[2]])
        elif k == 'copy':
            i = op[1]
            t = ts[i].copy() if way % 2 == 0 else ts[i].toTensorLike().copy() if ts[i].tensorLikeFlag else ts[i].copyN(1)[0]
            c.ok(t is not ts[i], "a copy is a new tensor")
            self.n += 1
            c.ok([l.name for l in t.legs] == [l.name for l in ts[i].legs], "labels of a copy")
            new = [x + 'c%d' % self.n for x in t.labels]
            for x, y in zip(t.labels, new):
                self.dims[y] = self.dims[x]
            t.renameLabels(list(t.labels), new)
            self.ts = self.ts + [t]
            self.names = self.names + [new]
        elif k in ('copylist', 'copylistlike'):
            sub = list(op[1])
            cp = c.lib.optimalContract.copyTensorList([ts[i] for i in sub], tensorLikeFlag=(k == 'copylistlike'))
            c.ok(len(cp) == len(sub), "copies of a list")
            w = World.__new__(World)
            w.c, w.ts, w.dims, w.n = c, cp, self.dims, 0
            w.names = [list(self.names[i]) for i in sub]
            inside = {x for ns in w.names for x in ns}
            w.links = {x: y for x, y in self.links.items() if x in inside and y in inside}
            w.check("copied list")
        elif k == 'net':
            f = c.lib.optimalContract.contractWithSequence
            r = f(list(ts), inplace=op[1], outProductWarning=False)
            w = World.__new__(World)
            w.c, w.ts, w.dims, w.n = c, [r], self.dims, 0
            w.names = [[x for ns in self.names for x in ns if x not in self.links]]
            w.links = {}
            w.check("contracted list")
            if op[1]:
                self.ts, self.names, self.links = w.ts, w.names, {}

    def order(self, i):
        return [l.name for l in self.ts[i].legs]


def tensors(c, struct, sym):
    ts = []
    for i, (k, labs, dims) in enumerate(struct):
        labs = list(labs)
        if sym:
            if k == 'd':
                dd = tuple(c.int('d.' + x, 1, 6) for x in labs)
                t = c.lib.TensorLike(shape=dd, labels=labs)
            else:
                e = c.int('d%d' % i, 1, 6)
                t = c.lib.DiagonalTensor(shape=tuple(e for _ in labs), labels=labs, tensorLikeFlag=True)
        elif k == 'd':
            t = c.lib.Tensor(data=c.array('T%d' % i, dims), labels=labs)
        else:
            t = c.lib.DiagonalTensor(data=c.array('T%d' % i, dims[:1]), labels=labs)
        ts.append(t)
    return ts


STRUCTS = {
    'dd': [('d', 'abc', (2, 3, 2)), ('d', 'pq', (2, 2))],
    'ddd': [('d', 'ab', (2, 2)), ('d', 'pq', (2, 2)), ('d', 'xy', (2, 3))],
    'dg': [('d', 'ab', (2, 2)), ('g', 'pqr', (2, 2, 2))],
    'gg': [('g', 'ab', (2, 2)), ('g', 'pq', (2, 2))],
}


def run(c, struct, sym, kinds, steps, ways=True, pre=None):
    w = World(c, tensors(c, struct, sym))
    w.check("fresh tensors")
    if pre:
        for op in pre:
            w.apply(op)
        w.check("first links")
    for s in range(steps):
        ops = w.ops(kinds)
        if not ops:
            break
        op = c.choose('op%d' % s, ops)
        w.apply(op, (c.choose('way', [0, 1, 2, 3]) if ways and s == 0 else s + 1))
        w.check("after step %d (%s)" % (s, op[0]))


def linking(c, steps=2):
    """linking and relinking in all four ways with symbolic dimensions, refused links change nothing"""
    struct = STRUCTS[c.choose('struct', ['dd', 'ddd', 'dg', 'gg'])]
    run(c, struct, True, ['link'], steps)


def relinking(c, steps=2):
    """legs linked before are linked again, also with legs of their own tensor"""
    struct = STRUCTS[c.choose('struct', ['dd', 'ddd', 'gg'])]
    names = [list(x[1]) for x in struct]
    run(c, struct, False, ['relink', 'self', 'contract'], steps, pre=[('link', names[0][0], names[1][0]), ('link', names[0][1], names[1][1])])


def lists(c):
    """lists of legs in one call: all or nothing"""
    struct = STRUCTS[c.choose('struct', ['dd', 'ddd', 'dg', 'gg'])]
    w = World(c, tensors(c, struct, True))
    names = [list(x[1]) for x in struct]
    k = c.choose('k', [1, 2, 3])
    xs = c.perm('xs', names[0][:k])
    ys = names[1][:k]
    if len(xs) < k or len(ys) < k:
        c.skip()
    if c.choose('before', [0, 1]):
        w.apply(('link', xs[0], ys[-1]))
        w.check("first link")
    w.apply(('linklist', 0, 1, tuple(xs), tuple(ys)), c.choose('way', [0, 1]))
    w.check("after linking lists")


def refused(c):
    """lists of different length, unknown labels, labels without a tensor are refused, nothing changes"""
    struct = STRUCTS[c.choose('struct', ['dd', 'dg', 'gg'])]
    w = World(c, tensors(c, struct, True))
    a, b = w.ts[:2]
    mk = c.lib.makeLink
    if c.choose('before', [0, 1]):
        w.apply(('link', 'a', 'p'))
    bad = [lambda: mk(['a', 'b'], ['p'], a, b), lambda: mk(['a'], ['p', 'q'], a, b), lambda: mk('a', 'p', a), lambda: mk('a', 'p', None, b),
           lambda: mk(['b', 'a'], [b.legs[0], 'q'], tensorA=a), lambda: mk(['a', 'z'], ['p', 'q'], a, b), lambda: mk('a', 'a', a, b), lambda: mk('a', 'p', b, a),
           lambda: c.lib.Bond(a.legs[0], 'p'), lambda: c.lib.Bond(a, b)]
    c.raises(bad[c.choose('bad', range(len(bad)))], "an ill-formed link")
    w.check("after a refused link")


def bond_dims(c):
    """Bond itself refuses different dimensions and leaves the legs alone"""
    L = c.lib.Leg
    d = [c.int('d%d' % i, 1, 6) for i in range(3)]
    l = [L(None, x, 'l%d' % i) for i, x in enumerate(d)]
    c.ok(all(x.bond is None and x.anotherSide() is None for x in l), "fresh legs are free")
    model = [None] * 3
    for s in range(2):
        i, j = c.choose('p%d' % s, [(0, 1), (1, 0), (1, 2), (2, 0)])
        good, b = c.attempt(lambda: c.lib.Bond(l[i], l[j], name=c.choose('name', [None, 'x'])))
        if bool(d[i] == d[j]):
            c.ok(good, "two legs of equal dimension")
            for k in (i, j):
                if model[k] is not None:
                    model[model[k]] = None
            model[i], model[j] = j, i
            c.ok(b.anotherSide(l[i]) is l[j] and b.anotherSide(l[j]) is l[i] and b.legs[0] is l[i] and b.legs[1] is l[j], "sides of a link")
            o = [k for k in range(3) if k not in (i, j)][0]
            c.raises(lambda: b.anotherSide(l[o]), "a leg outside the link")
        else:
            c.ok(not good, "legs of different dimension")
        for k in range(3):
            if model[k] is None:
                c.ok(l[k].bond is None and l[k].anotherSide() is None, "leg %d is free" % k)
            else:
                c.ok(l[k].bond is not None and l[k].anotherSide() is l[model[k]] and l[k].bond is l[model[k]].bond, "leg %d is linked" % k)


PRE = {
    'dd': [('link', 'a', 'p')],
    'ddd': [('link', 'a', 'p'), ('link', 'q', 'x')],
    'dg': [('link', 'a', 'p'), ('link', 'b', 'r')],
    'gg': [('link', 'b', 'p')],
}


def history(c, steps=2, structs=('dd', 'ddd', 'dg', 'gg'), sym=False):
    """any mixture of operations on linked tensors"""
    s = c.choose('struct', list(structs))
    kinds = ['link', 'self', 'list', 'contract', 'part', 'merge', 'fuse', 'copy', 'sum', 'move', 'copylist', 'net']
    run(c, STRUCTS[s], sym, kinds, steps, ways=False, pre=PRE[s])


def history_like(c, steps=2):
    """the same for tensors without data and symbolic dimensions"""
    s = c.choose('struct', ['dd', 'dg', 'ddd'])
    w = World(c, tensors(c, STRUCTS[s], True))
    kinds = ['link', 'contract', 'merge', 'fuse', 'copy', 'copylist']
    for op in PRE[s]:
        c.assume(w.dims[op[1]] == w.dims[op[2]])
        w.apply(op)
    w.check("first links")
    for k in range(steps):
        ops = w.ops(kinds)
        if not ops:
            break
        op = c.choose('op%d' % k, ops)
        w.apply(op, k)
        w.check("after step %d (%s)" % (k, op[0]))


def contract_only(c):
    """a ring of four tensors contracted step by step in every order, over all or some links"""
    struct = [('d', 'ab', (2, 2)), ('d', 'pqr', (2, 2, 3)), ('g', 'xy', (2, 2)), ('d', 'uv', (2, 2))]
    k = c.choose('links', [[('a', 'p'), ('q', 'x'), ('y', 'u'), ('v', 'b')], [('a', 'p'), ('b', 'q'), ('x', 'u'), ('y', 'v')], [('a', 'x'), ('b', 'y'), ('p', 'u')], [('a', 'b'), ('p', 'q'), ('x', 'u')]])
    run(c, struct, False, ['contract', 'part'], 3, ways=False, pre=[('link',) + x for x in k])


def merges(c):
    """links merged, then merged with more links, contracted, copied"""
    struct = [('d', 'abc', (2, 2, 2)), ('d', 'pqr', (2, 2, 2))]
    n = c.choose('n', [1, 2, 3])
    ys = c.perm('ys', list('pqr'))[:n]
    run(c, struct, False, ['merge', 'contract', 'copylist', 'link', 'move'], 2, ways=False, pre=[('link', x, y) for x, y in zip('abc', ys)])


def own(c, steps=2):
    """a tensor with links between its own legs, used in other ways"""
    struct = [('d', 'abcd', (2, 2, 2, 2)), ('d', 'pq', (2, 2))]
    k = c.choose('links', [[('a', 'b')], [('b', 'd')], [('d', 'a')], [('a', 'c'), ('b', 'd')], [('a', 'b'), ('c', 'p')], [('b', 'c'), ('p', 'q')], [('c', 'd'), ('a', 'p'), ('b', 'q')]])
    run(c, struct, False, ['fuse', 'sum', 'move', 'copy', 'copylist', 'link', 'contract', 'part', 'merge'], steps, ways=False, pre=[('link',) + x for x in k])


SCENARIOS = [
    S('own', own),
    S('linking', linking),
    S('relinking', relinking),
    S('lists', lists),
    S('refused', refused),
    S('bond', bond_dims),
    S('history', history),
    S('history-like', history_like),
    S('contractions', contract_only),
    S('merges', merges),
    S('history3', lambda c: history(c, 3, ('dd', 'dg', 'gg'))),
    S('history3-ddd', lambda c: history(c, 3, ('ddd',))),
    S('history-like3', lambda c: history_like(c, 3), 'thorough'),
    S('linking3', lambda c: linking(c, 3), 'thorough'),
    S('relinking3', lambda c: relinking(c, 3)),
]
