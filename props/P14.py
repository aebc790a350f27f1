"""P14: Ising networks evaluate to the exact partition function"""
import warnings
import numpy as np
from props.common import *

BOUNDS = "All multigraphs on up to 3 vertices with up to 2 parallel edges per pair and every simple graph on 4 and chosen ones on 4 and 5, every coupling symbolic; graphs of up to 12 vertices and 15 edges with up to three symbolic couplings; site tensors of degree 0..6; square, plaquette and measured tensors with symbolic temperature, couplings and field."


def spins(c, n):
    return list(c.idx((2,) * n))


def graph(c, n, edges, w):
    g = c.lib.UndirectedGraph(n)
    for k, (i, j) in enumerate(edges):
        if c.choose('dir%d' % k, [0, 1]) if len(edges) <= 2 else k % 2:
            i, j = j, i
        g.addEdge(i, j, weight=w[k])
    return g


def exact(c, n, edges, e):
    """sum over spins of prod exp(+-J); e: exp(J) per edge"""
    tot = None
    for s in spins(c, n):
        p = None
        for k, (i, j) in enumerate(edges):
            f = e[k] if s[i] == s[j] else 1 / e[k]
            p = f if p is None else p * f
        if p is None:
            p = 1.0
        tot = p if tot is None else tot + p
    return tot


def three(c):
    """a multigraph on up to three vertices"""
    n = c.choose('n', [1, 2, 3])
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    m = {}
    for p in pairs:
        m[p] = c.choose('mult%d%d' % p, [0, 1, 2] if n > 2 else [0, 1, 2, 3])
    edges = [p for r in range(3) for p in pairs if m[p] > r]
    if c.choose('order', [0, 1]):
        edges = edges[::-1]
    return n, edges


FOUR = {
    'square': [(0, 1), (1, 2), (2, 3), (0, 3)], 'star': [(0, 1), (0, 2), (0, 3)], 'two': [(0, 1), (2, 3)], 'path': [(0, 2), (2, 1), (1, 3)],
    'tail': [(0, 1), (1, 2), (0, 2), (2, 3)], 'isolated': [(0, 2), (2, 3), (0, 3)], 'diamond': [(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)],
}


def network_z(c, n, edges):
    w = [c.real('J%d' % k, 0, 2) for k in range(len(edges))]
    e = [c.exp(x) for x in w]
    g = graph(c, n, edges, w)
    ts = c.lib.Ising.IsingTNFromUndirectedGraph(g)
    c.ok(len(ts) == n, "one tensor per site")
    deg = [sum((i == v) + (j == v) for i, j in edges) for v in range(n)]
    c.ok([t.dim for t in ts] == deg and all(tuple(t.shape) == (2,) * d for t, d in zip(ts, deg)), "one leg of dimension 2 per edge end")
    for t in ts:
        c.invariant(t, "site")
        c.ok(all(l.bond is not None for l in t.legs), "every leg is linked")
    want = exact(c, n, edges, e)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        z = c.lib.optimalContract.contractTensorList(ts)
    c.eq(c.arr0(z.single()), c.arr0(want), "contracted network")


def z3_(c):
    n, edges = three(c)
    network_z(c, n, edges)


def z4(c, names=None):
    nm = c.choose('graph', names or [x for x in FOUR if x != 'diamond'])
    network_z(c, 4, FOUR[nm])


def z4all(c):
    """every simple graph on four vertices"""
    edges = c.subset('e', [(i, j) for i in range(4) for j in range(i + 1, 4)])
    if c.choose('order', [0, 1]):
        edges = edges[::-1]
    network_z(c, 4, edges)


def z5(c):
    nm = c.choose('graph', ['ring', 'star', 'house', 'tree', 'double ring'])
    network_z(c, 5, {'ring': [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], 'star': [(4, 0), (4, 1), (4, 2), (4, 3)], 'house': [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)],
                       'tree': [(0, 1), (1, 2), (1, 3), (3, 4)], 'double ring': [(0, 1), (1, 2), (0, 2), (3, 4), (3, 4)]}[nm])


def enumeration(c):
    """direct enumeration and single weights, couplings of either sign"""
    if c.choose('four', [0, 1]):
        n, edges = 4, FOUR[c.choose('graph', list(FOUR))]
    else:
        n, edges = three(c)
    w = [c.real('J%d' % k, -2, 2) for k in range(len(edges))]
    e = [c.exp(x) for x in w]
    g = graph(c, n, edges, w)
    z = c.lib.Ising.exactZFromGraphIsing(g)
    c.eq(c.arr0(z), c.arr0(exact(c, n, edges, e)), "enumerated partition function")
    # each assignment has its weight: the spin of vertex i is bit i of the mask (or the mirrored convention)
    S = c.choose('S', list(range(1 << n)))
    a = c.lib.funcs.intToBitList(S, n)
    c.ok(sorted(a) == sorted(int(b) for b in bin(S)[2:].zfill(n)), "bits of the mask")
    p = None
    for k, (i, j) in enumerate(edges):
        f = e[k] if a[i] == a[j] else 1 / e[k]
        p = f if p is None else p * f
    c.eq(c.arr0(c.lib.Ising.getIsingWeight(g, S)), c.arr0(1.0 if p is None else p), "weight of one assignment")


def no_bonds(c):
    """graphs of n vertices without any edge, the empty one included"""
    n = c.choose('n', [0, 1, 2, 3, 5, 7])
    g = graph(c, n, [], [])
    c.eq(c.arr0(c.lib.Ising.exactZFromGraphIsing(g)), c.arr0(1.0 * 2 ** n), "every assignment counts once")
    ts = c.lib.Ising.IsingTNFromUndirectedGraph(g)
    c.ok(len(ts) == n, "one tensor per site")
    p = 1.0
    for t in ts:
        c.ok(t.shape == (), "no legs")
        p = p * t.single()
    c.eq(c.arr0(p), c.arr0(1.0 * 2 ** n), "product of the sites")
    for S in (0, (1 << n) - 1):
        c.eq(c.arr0(c.lib.Ising.getIsingWeight(g, S)), c.arr0(1.0), "weight of one assignment")


def edge_matrix(c):
    """the symmetric square root of [[e^J, e^-J], [e^-J, e^J]]"""
    J = c.real('J', 0, 3)
    m = c.lib.Ising.IsingEdgeMatrix(J)
    e = c.exp(J)
    g = c.zeros((2, 2))
    w = c.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            g[i, j] = m[i, 0] * m[j, 0] + m[i, 1] * m[j, 1]
            w[i, j] = e if i == j else 1 / e
    c.ok(tuple(m.shape) == (2, 2), "shape")
    c.eq(g, w, "edge matrix times its transpose")
    c.eq(c.arr0(m[0, 1]), c.arr0(m[1, 0]), "edge matrix is symmetric")


def site(c):
    """a site tensor with an edge matrix attached to every leg gives the weights of the neighbouring spins"""
    dim = c.choose('dim', [0, 1, 2, 3, 4, None])
    as_list = c.choose('list', [0, 1])
    d = 4 if dim is None else dim
    labs = c.choose('labels', [None, 1])
    if labs:
        labs = ['s%d' % k for k in range(d)][::-1]
    kw = {} if dim is None else {'dim': dim}
    if labs is not None:
        kw['labels'] = list(labs)
    if as_list:
        if d > 3:
            c.skip()
        Js = [c.real('J%d' % k, 0, 2) for k in range(d)]
        arg = list(Js) if c.choose('as', [0, 1]) else tuple(Js)
    else:
        Js = [c.real('J', 0, 2)] * d
        arg = Js[0] if d else c.real('J', 0, 2)
    t = c.lib.Ising.IsingSiteTensor(arg, **kw)
    c.invariant(t, "site")
    c.ok(tuple(t.shape) == (2,) * d, "shape")
    if labs is not None:
        c.ok(list(t.labels) == labs, "labels")
    c.ok(len(set(t.labels)) == d, "labels are distinct")
    ms = [c.lib.Ising.IsingEdgeMatrix(J) for J in Js]
    es = [c.exp(J) for J in Js]
    a = t.a
    out = c.zeros((2,) * d)
    want = c.zeros((2,) * d)
    for ix in c.idx((2,) * d):
        acc = None
        for k in c.idx((2,) * d):
            p = a[k]
            for q in range(d):
                p = p * ms[q][k[q], ix[q]]
            acc = p if acc is None else acc + p
        out[ix] = acc
        acc = None
        for s in range(2):
            p = None
            for q in range(d):
                f = es[q] if s == ix[q] else 1 / es[q]
                p = f if p is None else p * f
            p = 1.0 if p is None else p
            acc = p if acc is None else acc + p
        want[ix] = acc
    c.eq(out, want, "site with its neighbours")


def number_kinds(c):
    """couplings given as any kind of real number mean their value"""
    J = c.choose('J', [1, 0, 2, 0.5, np.float64(0.5), np.float64(0.0), np.float64(1)])
    dim = c.choose('dim', [0, 1, 2, 3])
    t, f = c.lib.Ising.IsingSiteTensor(J, dim=dim), c.lib.Ising.IsingSiteTensor(float(J), dim=dim)
    c.eq(t.a, f.a, "site tensor of a coupling of another kind")
    G = c.lib.graphFuncs
    a, b = G.squareLatticeFBC(2, weight=J), G.squareLatticeFBC(2, weight=float(J))
    c.ok([(e.vertices[0].index, e.vertices[1].index, float(e.weight)) for e in a.getEdges()] == [(e.vertices[0].index, e.vertices[1].index, e.weight) for e in b.getEdges()], "lattice of a coupling of another kind")
    c.eq(c.arr0(c.lib.Ising.exactZFromGraphIsing(a)), c.arr0(c.lib.Ising.exactZFromGraphIsing(b)), "enumeration with a coupling of another kind")


def site_refused(c):
    case = c.choose('case', [0, 1, 2])
    J = c.real('J', 0, 1)
    f = c.lib.Ising.IsingSiteTensor
    if case == 0:
        c.raises(lambda: f([J, J], dim=3), "number of couplings")
    elif case == 1:
        c.raises(lambda: f(J, dim=3, labels=['a', 'b']), "number of labels")
    else:
        c.raises(lambda: c.lib.Ising.IsingTNFromUndirectedGraph(c.lib.graph.Graph(2)), "graph that is not undirected")


def measure(s):
    return sum(-0.5 if x == 0 else 0.5 for x in s)


def energy(s):
    return sum(-1 if s[i] == s[(i + 1) % 4] else 1 for i in range(4))


def square(c):
    """square tensor: weights, observables and the field"""
    obs = c.choose('obs', [None, 'M', 'E'])
    beta = c.real('beta', -1, 1)
    e = c.exp(beta)
    h = c.choose('h', [None, 1])
    kw = {}
    if obs:
        kw['obs'] = obs
    if h:
        h = c.real('h', -1, 1)
        kw['symmetryBroken'] = h
        eh = c.exp(h)
    t = c.lib.Ising.squareIsingTensor(beta, **kw)
    c.ok(sorted(t.labels) == sorted(['u', 'l', 'd', 'r']), "labels")
    pos = [t.labels.index(x) for x in ['u', 'l', 'd', 'r']]
    a = c.obs(t, ['u', 'l', 'd', 'r'], "square")
    want = c.zeros((2,) * 4)
    for s in spins(c, 4):
        E, M = energy(s), measure(s)
        v = 1.0
        for _ in range(abs(E)):
            v = v * (1 / e if E > 0 else e)
        if h is not None:
            for _ in range(int(abs(M))):
                v = v * (eh if M > 0 else 1 / eh)
            c.ok(float(M) == int(M), "magnetisation per square")
        v = v * {None: 1.0, 'M': M, 'E': float(E)}[obs]
        want[s] = v
    c.eq(a, want, "square tensor")
    c.ok(t.degreeOfFreedom == 2, "degrees of freedom")


def local(c):
    """the local measure of four spins"""
    f = c.lib.Ising.squareTensorMeasure
    obs = c.choose('obs', [None, 'M', 'E', 'x'])
    s = tuple(c.choose('s%d' % k, [0, 1]) for k in range(4))
    if obs == 'x':
        return c.raises(lambda: f(s, 'x'), "unknown observable")
    c.eq(c.arr0(f(s, obs)), c.arr0({None: 1.0, 'M': measure(s), 'E': float(energy(s))}[obs]), "local measure")


def plaquette(c):
    how = c.choose('weight', ['one', 'tuple', 'list'])
    w = [c.real('wv', -1, 1), c.real('wh', -1, 1)]
    if how == 'one':
        w[1] = w[0]
        arg = w[0]
    else:
        arg = tuple(w) if how == 'tuple' else list(w)
    dia = c.choose('diamond', [None, False, True])
    t = c.lib.Ising.plaquetteIsingTensor(arg) if dia is None else c.lib.Ising.plaquetteIsingTensor(arg, diamondForm=dia)
    labs = ['r', 'd', 'l', 'u'] if dia else ['ru', 'rd', 'ld', 'lu']
    a = c.obs(t, labs, "plaquette")
    ev, eh = c.exp(w[0]), c.exp(w[1])
    want = c.zeros((2,) * 4)
    for s in spins(c, 4):
        v = None
        # ru-rd and ld-lu are vertical, rd-ld and lu-ru horizontal
        for i, j, x in ((0, 1, ev), (2, 3, ev), (1, 2, eh), (3, 0, eh)):
            f = x if s[i] == s[j] else 1 / x
            v = f if v is None else v * f
        want[s] = v
    c.eq(a, want, "plaquette tensor")
    c.ok(t.degreeOfFreedom == 2, "degrees of freedom")
    if how == 'list':
        c.ok(len(arg) == 2 and arg[0] is w[0] and arg[1] is w[1], "the caller's list changed")


def plaquette_refused(c):
    w = c.real('w', -1, 1)
    bad = c.choose('case', [[], [0], [0, 1, 2]])
    c.raises(lambda: c.lib.Ising.plaquetteIsingTensor([w for _ in bad]), "number of weights")


def two_plaquettes(c):
    """plaquettes on the doubled lattice: the graph's enumeration equals the contracted plaquettes"""
    n, m = c.choose('size', [(1, 1), (1, 2)])
    w = (c.real('a', -1, 1), c.real('b', -1, 1))
    g = c.lib.graphFuncs.doubleSquareLatticeFBC(n, m, weight=w)
    z = c.lib.Ising.exactZFromGraphIsing(g)
    # left-top edges lead from left-bottom to right-up: the diamond's vertical weight
    ts = [c.lib.Ising.plaquetteIsingTensor((w[1], w[0]), diamondForm=True) for _ in range(m)]
    for k in range(m - 1):
        link(c, ts[k], 'r', ts[k + 1], 'l')
    r = c.lib.optimalContract.contractTensorList(ts) if m > 1 else ts[0]
    a = c.dense(r)
    tot = None
    for ix in c.idx(a.shape):
        tot = a[ix] if tot is None else tot + a[ix]
    c.eq(c.arr0(z), c.arr0(tot), "partition function of the doubled lattice")


def magnetisation(c):
    """infinite lattice: zero above the critical temperature, the eighth root of 1 - sinh(2 V / T)^-4 below"""
    t = c.real('t', 0.1, 6)
    V = c.real('V', 0.5, 2) if c.choose('V', [0, 1]) else None
    f = c.lib.Ising.infiniteIsingExactM
    m = f(t) if V is None else (f(t * V, V) if c.choose('kw', [0, 1]) else f(T=t * V, V=V))
    Tc = 2.269185314213022
    if c.guard(t > Tc * (1 + 1e-9)):
        c.eq(c.arr0(m), c.zeros(()), "above the critical temperature")
    elif c.guard(t < Tc * (1 - 1e-9)):
        e = c.exp(2 / t)
        s = (e - 1 / e) * 0.5
        c.ok(m >= 0, "not negative")
        c.eq(c.arr0(m * m * m * m * m * m * m * m * (s * s * s * s)), c.arr0(s * s * s * s - 1), "below the critical temperature", tol=1e-6)
    else:
        c.skip()


LARGE = {
    'K5': (5, [(i, j) for i in range(5) for j in range(i + 1, 5)]),
    'prism': (6, [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (0, 3), (1, 4), (2, 5)]),
    'star of six': (7, [(6, k) for k in range(6)]),
    'hub first': (6, [(0, k) for k in range(1, 6)] + [(1, 2)]),
    'ring of eight': (8, [(i, (i + 1) % 8) for i in range(8)]),
    'ladder': (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)]),
    'five parallel': (2, [(0, 1)] * 5),
    'parallel with tails': (4, [(0, 1)] * 4 + [(1, 2), (2, 3), (2, 3), (2, 3)]),
    'double torus': (4, [(0, 1), (0, 1), (2, 3), (2, 3), (0, 2), (0, 2), (1, 3), (1, 3)]),
    'chain of twelve': (12, [(i, i + 1) for i in range(11)]),
    'K6': (6, [(i, j) for j in range(6) for i in range(j)]),
    'grid': (9, [(0, 1), (1, 2), (3, 4), (4, 5), (6, 7), (7, 8), (0, 3), (1, 4), (2, 5), (3, 6), (4, 7), (5, 8)]),
    'hub of eleven': (12, [(0, 11)] + [(0, k) for k in range(2, 11)] + [(0, 1)]),
    'isolated many': (7, [(1, 4), (4, 6)]),
}


def large_weights(c, edges):
    m = c.choose('symbols', [1, 2, 3])
    w = [c.real('J%d' % k, 0, 2) for k in range(min(m, len(edges)))]
    e = [c.exp(x) for x in w]
    sel = [(k * k + k // 3) % len(w) for k in range(len(edges))]
    return [w[k] for k in sel], [e[k] for k in sel]


def exact_sum(c, n, edges, e):
    """the partition function by summing out one spin after the other"""
    f = [(set(x), (lambda s, x=x, v=v: v if s[x[0]] == s[x[1]] else 1 / v)) for x, v in zip(edges, e)]
    f = [(tuple(sorted(x)), {(a, b): (g({tuple(sorted(x))[0]: a, tuple(sorted(x))[1]: b})) for a in (0, 1) for b in (0, 1)}) for x, g in f]
    for v in range(n):
        mine = [x for x in f if v in x[0]]
        f = [x for x in f if v not in x[0]]
        vs = tuple(sorted(set(u for x in mine for u in x[0]) - {v}))
        t = {}
        for ix in c.idx((2,) * len(vs)):
            s = dict(zip(vs, ix))
            tot = None
            for a in (0, 1):
                s[v] = a
                p = 1.0
                for us, tab in mine:
                    p = p * tab[tuple(s[u] for u in us)]
                tot = p if tot is None else tot + p
            t[tuple(ix)] = tot
        f.append((vs, t))
    p = 1.0
    for vs, t in f:
        p = p * t[()]
    return p


def large(c):
    """more vertices, edges, parallel edges and higher degrees, with up to three different couplings"""
    nm = c.choose('graph', list(LARGE))
    n, edges = LARGE[nm]
    w, e = large_weights(c, edges)
    want = exact_sum(c, n, edges, e)
    g = graph(c, n, edges, w)
    if c.choose('what', ['network', 'sum'] if n <= 9 else ['network']) == 'sum':
        c.eq(c.arr0(c.lib.Ising.exactZFromGraphIsing(g)), c.arr0(want), "enumerated partition function")
        return
    ts = c.lib.Ising.IsingTNFromUndirectedGraph(g)
    c.ok(len(ts) == n, "one tensor per site")
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        z = c.lib.optimalContract.contractTensorList(ts) if n <= 9 else chain(c, ts)
    c.eq(c.arr0(z.single()), c.arr0(want), "contracted network")


def chain(c, ts):
    r = ts[0]
    for t in ts[1:]:
        r = c.lib.contract.contractTwoTensors(r, t)
    return r


def site_large(c):
    """sites of degree five and six"""
    d = c.choose('dim', [5, 6])
    m = c.choose('symbols', [1, 2])
    w = [c.real('J%d' % k, 0, 2) for k in range(m)]
    e = [c.exp(x) for x in w]
    sel = [k % m for k in range(d)]
    labs = ['s%d' % k for k in range(d)]
    t = c.lib.Ising.IsingSiteTensor([w[k] for k in sel] if m > 1 else w[0], dim=d, labels=list(labs))
    c.invariant(t, "site")
    c.ok(tuple(t.shape) == (2,) * d and list(t.labels) == labs, "shape and labels")
    ms = [c.lib.Ising.IsingEdgeMatrix(x) for x in w]
    a = t.a
    for ix in [(0,) * d, (1,) * d, (0, 1) * (d // 2) + (0,) * (d % 2), (0,) * (d - 1) + (1,), (1,) + (0,) * (d - 1)]:
        want = None
        for s in range(2):
            p = None
            for q in range(d):
                f = ms[sel[q]][s, ix[q]]
                p = f if p is None else p * f
            want = p if want is None else want + p
        c.eq(c.arr0(a[ix]), c.arr0(want), "element of the site tensor")


SCENARIOS = [
    S('edge_matrix', edge_matrix),
    S('site', site, bounds='degree 0..4, couplings equal or (up to degree 3) all different'),
    S('number_kinds', number_kinds, bounds='seven couplings'),
    S('site_refused', site_refused),
    S('network3', z3_, bounds='all multigraphs on up to 3 vertices with up to 2 parallel edges per pair (3 on two vertices)'),
    S('network4', z4, bounds='6 graphs on 4 vertices'),
    S('enumeration', enumeration),
    S('no_bonds', no_bonds, bounds='0 to 7 isolated vertices'),
    S('square', square),
    S('magnetisation', magnetisation, bounds='every temperature and interaction, away from the critical point'),
    S('local', local),
    S('plaquette', plaquette),
    S('plaquette_refused', plaquette_refused),
    S('two_plaquettes', two_plaquettes),
    S('network4all', z4all, bounds='every simple graph on 4 vertices'),
    S('network5', z5, bounds='5 graphs on 5 vertices'),
    S('large', large, bounds='14 graphs of up to 12 vertices, 15 edges, 5 parallel edges and degree 11, up to three different couplings'),
    S('site_large', site_large, bounds='degree 5 and 6'),
]
