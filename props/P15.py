"""P15: graphs and lattice builders contain exactly the intended edges"""
import numpy as np
from props.common import *

BOUNDS = "Graphs of up to 4 vertices, every history of up to 5 additions and listings; lattices of every size up to 6x6 (symbolic size; periodic and doubled ones 5x5), symbolic weights; complete graphs up to 16 vertices; tensor graphs of up to 3 tensors with symbolic dimensions."


def key(vs):
    return tuple(sorted(-1 if v is None else v.index for v in vs))


def listing(c, g, model, what, loops=True):
    """model: [(i, j, weight, edge object or None)], j None for a free edge"""
    es = g.getEdges()
    c.ok(len(es) == len(model), what + ": %d edges listed, %d expected" % (len(es), len(model)))
    c.ok(len(set(map(id, es))) == len(es), what + ": an edge is listed twice")
    left = list(model)
    for e in es:
        hit = None
        for m in left:
            if m[3] is not None:
                if m[3] is e:
                    hit = m
                    break
            elif key(e.vertices) == tuple(sorted((-1 if m[1] is None else m[1], m[0]))) and bool(e.weight is m[2] or (m[2] is not None and e.weight is not None and e.weight == m[2])):
                hit = m
                break
        c.ok(hit is not None, what + ": edge %s is not expected" % (key(e.vertices),))
        left = [m for m in left if m is not hit]
        c.ok(key(e.vertices) == tuple(sorted((-1 if hit[1] is None else hit[1], hit[0]))), what + ": ends of an edge")
        if hit[2] is None:
            c.ok(e.weight is None, what + ": weight")
        else:
            c.ok(e.weight == hit[2], what + ": weight")
    for v in g.v:
        mine = [e for e in es if any(x is v for x in e.vertices)]
        c.ok(set(map(id, v.edges)) == set(map(id, mine)), what + ": edges of vertex %d" % v.index)
        nl = [e for e in mine if sum(x is v for x in e.vertices) == 1]
        c.ok(all(sum(x is e for x in v.edges) == 1 for e in nl), what + ": an edge occurs twice at vertex %d" % v.index)
        for e in nl:
            o = [x for x in e.vertices if x is not v]
            c.ok(e.anotherSide(v) is o[0], what + ": navigating an edge")
            if o[0] is not None:
                c.ok(e.anotherSide(o[0]) is v, what + ": navigating an edge back")
        if len(nl) == len(mine):
            c.ok(v.degree == len(mine), what + ": degree")


def history(c, steps=4):
    """adding edges interleaved with listing"""
    n = c.choose('n', [2, 3])
    g = c.lib.UndirectedGraph(n)
    model = []
    c.ok([v.index for v in g.v] == list(range(n)), "vertices")
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for s in range(steps):
        a = c.choose('s%d' % s, ['list'] + pairs)
        if a == 'list':
            listing(c, g, model, "listing %d" % s)
        else:
            w = c.choose('w%d' % s, [None, 1]) if s == 0 else (None if s == 2 else 1)
            if w is not None:
                w = c.real('w%d' % s)
            e = g.addEdge(a[0], a[1], weight=w) if w is not None or s else g.addEdge(a[0], a[1])
            model.append((a[0], a[1], w, e))
            c.ok(key(e.vertices) == tuple(sorted(a)), "returned edge")
    listing(c, g, model, "final listing")
    listing(c, g, model, "second listing")
    if model:
        out = [v for v in g.v if v not in model[0][3].vertices]
        if out:
            c.raises(lambda: model[0][3].anotherSide(out[0]), "navigating an edge from elsewhere")


def refused(c):
    """indices outside the graph are refused, nothing is added"""
    n = c.choose('n', [1, 2, 3])
    cls = c.choose('class', ['undirected', 'graph', 'tensor'])
    g = c.lib.UndirectedGraph(n) if cls == 'undirected' else c.lib.TensorGraph(n) if cls == 'tensor' else c.lib.graph.Graph(n)
    if n > 1:
        g.addEdge(0, 1, weight=c.real('w'))
    i, j = c.int('i', -4, 6), c.int('j', -4, 6)
    bad = c.disj([i < 0, j < 0, i >= n, j >= n])
    c.assume(bad)
    c.raises(lambda: g.addEdge(i, j), "vertex that does not exist")
    c.ok(sum(len(v.edges) for v in g.v) == (0 if n == 1 else 1 if cls == 'graph' else 2), "edges after a refusal")
    if cls != 'graph':
        c.ok(len(g.getEdges()) == (1 if n > 1 else 0), "edges after a refusal")


def directed(c):
    """a directed graph keeps each edge at its source"""
    n = c.choose('n', [2, 3])
    g = c.lib.graph.Graph(n)
    model = []
    for s in range(3):
        i, j = c.choose('e%d' % s, [(i, j) for i in range(n) for j in range(n)])
        w = c.real('w%d' % s)
        e = g.addEdge(i, j, weight=w)
        model.append((i, j, w, e))
        for v in g.v:
            mine = [m for m in model if m[0] == v.index]
            c.ok(v.degree == len(mine) and all(x is m[3] for x, m in zip(v.edges, mine)), "edges of a vertex")
        c.ok(e.vertices[0] is g.v[i] and e.vertices[1] is g.v[j], "ends of a directed edge")
        c.ok(e.weight == w, "weight")


def tensor_graph(c, steps=4):
    """free edges, indices of edges, interleaved with listings"""
    n = 2
    g = c.lib.TensorGraph(n)
    model = []
    for s in range(steps):
        a = c.choose('s%d' % s, ['list', 'index', 0, 1, (0, 1), (1, 0)])
        if a == 'list':
            listing(c, g, model, "listing %d" % s)
        elif a == 'index':
            g.addEdgeIndex()
            es = g.getEdges()
            c.ok(len(es) == len(model) and [e.index for e in es] == list(range(len(es))), "indices of the edges")
            listing(c, g, model, "indexing %d" % s)
        elif isinstance(a, tuple):
            w = c.int('d%d' % s, 1, 9)
            e = g.addEdge(a[0], a[1], weight=w)
            model.append((a[0], a[1], w, e))
        else:
            w = c.int('d%d' % s, 1, 9)
            have = set(map(id, g.v[a].edges))
            g.addFreeEdge(a, weight=w)
            new = [e for e in g.v[a].edges if id(e) not in have]
            c.ok(len(new) == 1, "one free edge is added")
            model.append((a, None, w, new[0]))
    listing(c, g, model, "final listing")
    g.addEdgeIndex()
    c.ok(sorted(e.index for e in g.getEdges()) == list(range(len(model))), "indices of the edges")


def size(c, lo, hi, square=True):
    """(n, m or None)"""
    n = c.int('n', lo, hi)
    if square and c.choose('square', [0, 1]):
        return n, None, n, n
    m = c.int('m', lo, hi)
    return n, m, n, m


def weights(c):
    how = c.choose('weight', ['default', 'one', 'tuple', 'int', 'numpy'])
    if how == 'default':
        return None, 0.0, 0.0
    if how in ('int', 'numpy'):
        w = 3 if how == 'int' else np.float64(0.25)
        return w, w, w
    a = c.real('wv')
    if how == 'one':
        return a, a, a
    b = c.real('wh')
    return (a, b), a, b


def built(c, g, want, nv, what):
    """want: [(i, j, weight)]"""
    c.ok(len(g.v) == nv and g.n == nv, what + ": number of vertices")
    c.ok([v.index for v in g.v] == list(range(nv)), what + ": vertex indices")
    es = g.getEdges()
    c.ok(len(es) == len(want), what + ": %d edges, %d expected" % (len(es), len(want)))
    by = {}
    for i, j, w in want:
        by.setdefault(tuple(sorted((i, j))), []).append(w)
    got = {}
    for e in es:
        got.setdefault(key(e.vertices), []).append(e.weight)
    c.ok(sorted(by) == sorted(got) and all(len(by[k]) == len(got[k]) for k in by), what + ": edges")
    for k in by:
        if len(by[k]) == 1:
            c.ok(got[k][0] == by[k][0], what + ": weight of edge %s" % (k,))
        else:
            # parallel edges: the same weights in some order
            conds = []
            import itertools
            for p in itertools.permutations(got[k]):
                conds.append(c.conj([x == y for x, y in zip(p, by[k])]))
            c.ok(c.disj(conds), what + ": weights of edges %s" % (k,))
    for v in g.v:
        mine = [e for e in es if any(x is v for x in e.vertices)]
        c.ok(set(map(id, v.edges)) == set(map(id, mine)), what + ": edges at vertex %d" % v.index)


def call(f, n, m, w):
    kw = {}
    if m is not None:
        kw['m'] = m
    if w is not None:
        kw['weight'] = w
    return f(n, **kw)


def pbc(c, hi=3):
    n, m, nn, mm = size(c, 1, hi)
    w, wv, wh = weights(c)
    g = call(c.lib.graphFuncs.squareLatticePBC, n, m, w)
    nn, mm = int(nn), int(mm)
    want = []
    for x in range(nn):
        for y in range(mm):
            want.append((x * mm + y, x * mm + (y + 1) % mm, wh))
            want.append((x * mm + y, ((x + 1) % nn) * mm + y, wv))
    built(c, g, want, nn * mm, "periodic lattice")


def fbc(c, hi=4):
    n, m, nn, mm = size(c, 1, hi)
    w, wv, wh = weights(c)
    g = call(c.lib.graphFuncs.squareLatticeFBC, n, m, w)
    nn, mm = int(nn), int(mm)
    want = []
    for x in range(nn):
        for y in range(mm):
            if y + 1 < mm:
                want.append((x * mm + y, x * mm + y + 1, wh))
            if x + 1 < nn:
                want.append((x * mm + y, (x + 1) * mm + y, wv))
    built(c, g, want, nn * mm, "lattice with free boundaries")


def double(c, hi=3):
    """plaquettes of a checkerboard; the numbering of the sites is found from the graph, not assumed"""
    n, m, nn, mm = size(c, 1, hi)
    w, w1, w2 = weights(c)
    g = call(c.lib.graphFuncs.doubleSquareLatticeFBC, n, m, w)
    nn, mm = int(nn), int(mm)
    # sites: horizontal rows first (up/bottom of plaquettes, from up to down, left to right), then left/right sites
    up = lambda x, y: x * mm + y
    side = lambda x, y: (nn + 1) * mm + x * (mm + 1) + y
    want = []
    for x in range(nn):
        for y in range(mm):
            want.append((side(x, y), up(x + 1, y), w1))
            want.append((up(x, y), side(x, y + 1), w1))
            want.append((side(x, y), up(x, y), w2))
            want.append((up(x + 1, y), side(x, y + 1), w2))
    built(c, g, want, nn * (mm + 1) + mm * (nn + 1), "doubled lattice")


def complete(c, hi=5, lo=1):
    n = c.int('n', lo, hi)
    if c.choose('weight', [0, 1]):
        w = c.real('w')
        g = c.lib.graphFuncs.completeGraph(n, weight=w)
    else:
        w = 0.0
        g = c.lib.graphFuncs.completeGraph(n)
    k = int(n)
    built(c, g, [(i, j, w) for i in range(k) for j in range(i + 1, k)], k, "complete graph")


def lattice_grows(c):
    """edges added to a built lattice after listing it are listed too"""
    f = c.choose('f', ['squareLatticePBC', 'squareLatticeFBC', 'completeGraph'])
    g = getattr(c.lib.graphFuncs, f)(3)
    if c.choose('before', [0, 1]):
        g.getEdges()
    k = len(g.getEdges()) if c.choose('count', [0, 1]) else None
    w = c.real('w')
    e = g.addEdge(0, 2, weight=w)
    es = g.getEdges()
    c.ok(sum(x is e for x in es) == 1, "the added edge is listed once")
    if k is not None:
        c.ok(len(es) == k + 1, "number of edges")


def sizes_refused(c):
    f = c.choose('f', ['squareLatticePBC', 'squareLatticeFBC', 'doubleSquareLatticeFBC', 'completeGraph'])
    x = c.real('x', 1, 3)
    c.raises(lambda: getattr(c.lib.graphFuncs, f)(x), "size that is not an integer")


def from_tensors(c):
    """the tensor graph of a list has an edge per link within the list and a free edge per other leg"""
    ta = c.choose('a', [['x', 'f'], ['x', 'y'], ['x', 'y', 'f']])
    d = {k: c.int('d' + k, 1, 9) for k in 'xyf'}
    kind = c.choose('like', [1, 0])
    if not kind:
        d = {'x': 2, 'y': 3, 'f': 1}
    mk = lambda labs, g=False: (c.lib.TensorLike(shape=tuple(d[k] for k in labs), labels=list(labs)) if kind else c.lib.Tensor(data=c.zeros(tuple(d[k] for k in labs)), labels=list(labs)))
    A, B, C_ = mk(ta), mk(['x', 'y']), mk(['y'])
    A.name, B.name = 'A', 'B'
    link(c, A, 'x', B, 'x', c.choose('how', [0, 1]))
    mode = c.choose('mode', ['AB', 'ABC', 'outside'])
    want = [(0, 1, d['x'])]
    if 'y' in ta and mode == 'AB' and c.choose('double', [0, 1]):
        link(c, A, 'y', B, 'y', 1)
        want.append((0, 1, d['y']))
        rest = [(0, None, d[k]) for k in ta if k == 'f']
    else:
        rest = [(0, None, d[k]) for k in ta if k != 'x']
        if mode == 'ABC':
            link(c, C_, 'y', B, 'y', 0)
            want.append((1, 2, d['y']))
        elif mode == 'outside':
            link(c, C_, 'y', B, 'y', 0)
            rest.append((1, None, d['y']))
        else:
            rest.append((1, None, d['y']))
    ts = [A, B] + ([C_] if mode == 'ABC' else [])
    g = c.lib.optimalContract.makeTensorGraph(ts)
    c.ok(g.n == len(ts) and [v.name for v in g.v] == [t.name for t in ts], "vertices are the tensors")
    built_sym(c, g, want + rest)
    c.ok([e.index for e in g.getEdges()] == list(range(len(want + rest))), "edges are numbered")
    c.ok(list(g.diagonalFlags) == [False] * len(ts), "kinds")


def built_sym(c, g, want):
    import itertools
    es = g.getEdges()
    k2 = lambda i, j: tuple(sorted((-1 if j is None else j, i)))
    by, got = {}, {}
    for i, j, w in want:
        by.setdefault(k2(i, j), []).append(w)
    for e in es:
        got.setdefault(key(e.vertices), []).append(e.weight)
    c.ok(sorted(by) == sorted(got) and all(len(by[k]) == len(got[k]) for k in by), "edges %s, expected %s" % (sorted((k, len(v)) for k, v in got.items()), sorted((k, len(v)) for k, v in by.items())))
    for k in by:
        c.ok(c.disj([c.conj([x == y for x, y in zip(p, by[k])]) for p in itertools.permutations(got[k])]), "dimensions of edges %s" % (k,))


SCENARIOS = [
    S('history', history, bounds='2 or 3 vertices, 4 steps'),
    S('refused', refused, bounds='symbolic indices -4..6'),
    S('directed', directed),
    S('tensor_graph', tensor_graph, bounds='4 steps'),
    S('pbc', pbc, bounds='symbolic size 1..3'),
    S('fbc', fbc, bounds='symbolic size 1..4'),
    S('double', double, bounds='symbolic size 1..3'),
    S('complete', complete, bounds='symbolic size 1..5'),
    S('lattice_grows', lattice_grows),
    S('sizes_refused', sizes_refused),
    S('from_tensors', from_tensors, bounds='symbolic dimensions 1..9'),
    S('history5', lambda c: history(c, 5), bounds='5 steps'),
    S('tensor_graph5', lambda c: tensor_graph(c, 5), bounds='5 steps'),
    S('pbc5', lambda c: pbc(c, 5), bounds='symbolic size 1..5'),
    S('fbc6', lambda c: fbc(c, 6), bounds='symbolic size 1..6'),
    S('double5', lambda c: double(c, 5), bounds='symbolic size 1..5'),
    S('complete8', lambda c: complete(c, 8), bounds='symbolic size 1..8'),
    S('complete_large', lambda c: complete(c, 16, 9), bounds='symbolic size 9..16'),
]
