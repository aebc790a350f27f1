"""P17: a network described by text is the network that text denotes"""
from props.common import *

BOUNDS = ("Texts of up to 4 tensors and 4 labels; every name (upper- and lower-case letters symbolic), labels of 1..3 characters (letters, after the first one also digits, "
          "in braces or a bare letter), every dimension of 1..3 digits (digits symbolic, no leading zero; bare digit or in braces); arbitrary symbolic printable texts "
          "of up to 5 characters for the refusals.")

NAMES = {'l': ('l', 0, 1), '{l}': ('{l}', 1, 2), '{ll}': ('{ll}', 1, 3), '{ld}': ('{ld}', 1, 3), '{lll}': ('{lll}', 1, 4)}
SIZES = {'': 0, 'D': 1, '{D}': 1, '{Dd}': 2, '{Ddd}': 3}


def number(c, codes):
    r = 0
    for k in codes:
        r = r * 10 + (k - 48)
    return r


def build(c, shape, names, sizes):
    """shape: number of labels per tensor; returns the text and [(name, [(label, dim or None)])]"""
    spec, plan = '', []
    for i, n in enumerate(shape):
        plan.append((len(spec), []))
        spec += 'U'
        for k in range(n):
            nm = c.choose('n%d.%d' % (i, k), names)
            sz = c.choose('s%d.%d' % (i, k), sizes)
            form, a, b = NAMES[nm]
            at = len(spec)
            spec += form
            pos = None
            if sz:
                j = len(spec) + (1 if sz[0] == '{' else 0)
                pos = (j, j + SIZES[sz])
            spec += sz
            plan[-1][1].append((at + a, at + b, pos))
    t = c.text('t', spec)
    codes = c.codes(t)
    return t, [(t[p], [(t[a:b], None if q is None else number(c, codes[q[0]:q[1]])) for a, b, q in legs]) for p, legs in plan]


def classes(c, want):
    """groups of equal labels: [[(tensor, leg index), ...]]; skips when a tensor repeats a label"""
    groups = []
    for i, (_, legs) in enumerate(want):
        for k, (lab, d) in enumerate(legs):
            for g in groups:
                if bool(g[0][2] == lab):
                    g.append((i, k, lab, d))
                    break
            else:
                groups.append([(i, k, lab, d)])
    for g in groups:
        if len({x[0] for x in g}) < len(g):
            c.skip()
    return groups


def verdict(c, groups):
    """True if the text is to be accepted"""
    for g in groups:
        if len(g) > 2:
            return False
        if len(g) == 2 and g[0][3] is not None and g[1][3] is not None and not bool(g[0][3] == g[1][3]):
            return False
    return True


def expect(c, ts, want, groups, what):
    c.ok(len(ts) == len(want), what + ": %d tensors, expected %d" % (len(ts), len(want)))
    dims, part = {}, {}
    for g in groups:
        d = [x[3] for x in g if x[3] is not None]
        for x in g:
            dims[x[:2]] = d[0] if d else None
            part[x[:2]] = [y[:2] for y in g if y is not x]
    for i, (t, (name, legs)) in enumerate(zip(ts, want)):
        c.ok(t.name == name, what + ": name of tensor %d" % i)
        c.ok(t.tensorLikeFlag and t.a is None and not t.diagonalFlag, what + ": tensors without data")
        c.ok(len(t.legs) == len(legs), what + ": tensor %d has %d legs, expected %d" % (i, len(t.legs), len(legs)))
        for k, (l, (lab, d)) in enumerate(zip(t.legs, legs)):
            c.ok(l.name == lab, what + ": label %d of tensor %d" % (k, i))
            e = dims[(i, k)]
            if e is None:
                c.ok(l.dim is None, what + ": no dimension given")
            else:
                c.ok(l.dim is not None, what + ": a dimension is lost")
                c.ok(l.dim == e, what + ": dimension of leg %d of tensor %d" % (k, i))
            c.ok(l.tensor is t, what + ": owner of a leg")
            p = part[(i, k)]
            if p:
                c.ok(l.bond is not None and l.anotherSide() is ts[p[0][0]].legs[p[0][1]], what + ": leg %d of tensor %d is not linked with the leg of the same label" % (k, i))
                c.ok(l.anotherSide().anotherSide() is l, what + ": link is symmetric")
            else:
                c.ok(l.bond is None, what + ": leg %d of tensor %d should be free" % (k, i))


def listing(c, shapes, names, sizes):
    shape = c.choose('shape', shapes)
    t, want = build(c, shape, names, sizes)
    groups = classes(c, want)
    good, ts = c.attempt(lambda: c.lib.tensorGraph.createTensorListFromText(t))
    if verdict(c, groups):
        c.ok(good, "a well-formed text is refused (%s)" % ('' if good else type(ts).__name__))
        expect(c, ts, want, groups, "text")
    else:
        c.ok(not good, "a label used three times or with two dimensions is accepted")


def graph(c, shapes, names, sizes):
    """the tensor graph of a text: one edge per link, one free edge per free leg"""
    shape = c.choose('shape', shapes)
    t, want = build(c, shape, names, sizes)
    groups = classes(c, want)
    good, g = c.attempt(lambda: c.lib.optimalContract.makeTensorGraphFromText(t))
    if not verdict(c, groups):
        c.ok(not good, "a label used three times or with two dimensions is accepted")
        return
    c.ok(good, "a well-formed text is refused")
    c.ok(len(g.v) == len(want), "one vertex per tensor")
    for v, (name, legs) in zip(g.v, want):
        c.ok(v.name == name, "vertex name")
        c.ok(len(v.edges) == len(legs), "degree of a vertex")
        c.ok(v.index < len(want), "vertex index")
    es = list(g.getEdges())
    c.ok(len(es) == len(groups), "%d edges, expected %d" % (len(es), len(groups)))
    for gr in groups:
        ends = sorted(x[0] for x in gr) if len(gr) == 2 else [-1, gr[0][0]]
        d = [x[3] for x in gr if x[3] is not None]
        hit = None
        for e in es:
            if sorted(-1 if v is None else v.index for v in e.vertices) == ends and (bool(e.weight == d[0]) if d and e.weight is not None else (not d and e.weight is None)):
                hit = e
                break
        c.ok(hit is not None, "an edge %s is missing" % (ends,))
        es = [e for e in es if e is not hit]


def one_text(c, shapes, names, sizes):
    """a single sub-text is decoded to its labels and dimensions"""
    n = c.choose('shape', shapes)
    t, want = build(c, [n], names, sizes)
    labels, shape = c.lib.tensorGraph.decodeSubText(t[1:])
    legs = want[0][1]
    c.ok(len(labels) == len(legs) and len(shape) == len(legs), "number of labels")
    for a, d, (lab, e) in zip(labels, shape, legs):
        c.ok(a == lab, "label")
        c.ok(d is None if e is None else d is not None, "dimension given or missing")
        if e is not None:
            c.ok(d == e, "dimension")
    x = c.lib.tensorGraph.createTensorFromText(t)
    c.ok(x.name == want[0][0], "name")
    c.ok(len(x.legs) == len(legs), "legs")
    for l, (lab, e) in zip(x.legs, legs):
        c.ok(l.name == lab and l.bond is None and l.tensor is x, "leg")
        if e is not None:
            c.ok(l.dim == e, "leg dimension")


def up(c, ch):
    return bool(ch.isupper())


def refused(c, n):
    """texts not starting with an upper-case letter"""
    n = c.choose('n', n)
    t = c.text('t', '?' * n)
    if n:
        codes = c.codes(t)
        c.assume(c.disj([codes[0] < 65, codes[0] > 90]))
    which = c.choose('f', ['one', 'list', 'graph'])
    tg = c.lib.tensorGraph
    f = {'one': tg.createTensorFromText, 'list': tg.createTensorListFromText, 'graph': c.lib.optimalContract.makeTensorGraphFromText}[which]
    c.raises(lambda: f(t), "a text not starting with an upper-case letter")


def accepted(c, n):
    """whatever text is accepted: its tensors are named by its upper-case letters in order, labels occur in the text, links join equal labels"""
    t = c.text('t', 'U' + '?' * c.choose('n', n))
    good, ts = c.attempt(lambda: c.lib.tensorGraph.createTensorListFromText(t))
    ups = [ch for ch in t if up(c, ch)]
    if not good:
        c.ok(True)
        return
    c.ok(len(ts) == len(ups), "one tensor per upper-case letter")
    seen = []
    for x, u in zip(ts, ups):
        c.ok(x.name == u, "tensors are named by the upper-case letters in order")
        for l in x.legs:
            c.ok(not any(up(c, ch) for ch in l.name), "labels have no upper-case letters")
            seen.append(l)
    for i, a in enumerate(seen):
        same = [b for b in seen if b is not a and bool(a.name == b.name)]
        c.ok(len(same) <= 1, "a label occurs more than twice in an accepted text")
        if same:
            c.ok(a.anotherSide() is same[0], "equal labels are linked")
        else:
            c.ok(a.bond is None, "a label that occurs once is free")


def thrice(c):
    """a label used three times is refused wherever it occurs, also when some occurrences are in one tensor"""
    nm = c.choose('name', ['l', '{ll}'])
    sz = c.choose('size', ['', 'D', '{Dd}'])
    where = c.choose('where', [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3), (0, 0, 1), (0, 1, 1), (0, 0, 2), (1, 1, 1), (0, 2, 2), (0, 0, 0, 0), (0, 0, 1, 1)])
    spec = ''
    w = len(nm.strip('{}'))
    at = []
    for i in range(max(where) + 1):
        spec += 'U'
        for k in range(where.count(i)):
            at.append(len(spec) + (1 if nm[0] == '{' else 0))
            spec += nm + sz
            if k == 0 and i == 0 and c.choose('between', [0, 1]):
                spec += 'l'
        if i not in where:
            spec += 'l'
    t = c.text('t', spec)
    c.assume(c.conj([t[at[0]:at[0] + w] == t[a:a + w] for a in at[1:]]))
    codes = c.codes(t)
    if sz:
        # the same dimension everywhere: nothing else is wrong with the text
        o = w + (1 if nm[0] == '{' else 0) + (1 if sz[0] == '{' else 0)
        c.assume(c.conj([codes[a + o + j] == codes[at[0] + o + j] for a in at[1:] for j in range(SIZES[sz])]))
    c.raises(lambda: c.lib.tensorGraph.createTensorListFromText(t), "a label used three times")
    c.raises(lambda: c.lib.optimalContract.makeTensorGraphFromText(t), "a label used three times")


N1, N2, N3 = ['l', '{ll}'], ['l', '{l}', '{ll}', '{ld}'], list(NAMES)
Z1, Z2, Z3 = ['', 'D', '{Dd}'], ['', 'D', '{D}', '{Dd}'], list(SIZES)

SCENARIOS = [
    S('one', lambda c: one_text(c, [1, 2], N3, Z3)),
    S('one3', lambda c: one_text(c, [3], N1, Z1)),
    S('list2', lambda c: listing(c, [(1,), (1, 1), (2,)], N3, Z2)),
    S('list3', lambda c: listing(c, [(2, 1), (1, 2), (1, 1, 1)], N1, Z1)),
    S('letters', lambda c: listing(c, [(2, 2), (1, 2, 1), (2, 1, 1)], ['l'], ['', 'D'])),
    S('graph', lambda c: graph(c, [(1, 1), (2, 1), (1, 1, 1)], ['l'], Z1)),
    S('thrice', thrice),
    S('refused', lambda c: refused(c, [0, 1, 2, 3])),
    S('accepted', lambda c: accepted(c, [1, 2])),
    S('accepted3', lambda c: accepted(c, [3])),
    S('one4', lambda c: one_text(c, [4], N1, Z1)),
    S('one3full', lambda c: one_text(c, [3], N3, Z2), 'thorough'),
    S('list3full', lambda c: listing(c, [(2, 1), (1, 2), (1, 1, 1)], N2, Z2), 'thorough'),
    S('list4', lambda c: listing(c, [(2, 2), (1, 2, 1), (2, 1, 1)], N1, ['', '{Dd}'])),
    S('graph4', lambda c: graph(c, [(2, 2), (1, 2, 1), (1, 1, 1, 1)], ['l'], ['', '{Dd}'])),
    S('refused5', lambda c: refused(c, [4, 5]), 'thorough'),
]
