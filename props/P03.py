"""P03: networks contract to one value, whatever the order"""
from props.common import *

BOUNDS = "Networks of 1..4 tensors (5 in the thorough tier) with up to 6 links (parallel links included), dimensions 1..3; ten topologies of 6..8 tensors, dimension 2."

# topologies: (number of tensors, edges)
TOPO = {
    'single': (1, []),
    'pair': (2, [(0, 1)]),
    'double': (2, [(0, 1), (1, 0)]),
    'apart2': (2, []),
    'chain3': (3, [(0, 1), (1, 2)]),
    'ring3': (3, [(0, 1), (1, 2), (2, 0)]),
    'ring3double': (3, [(0, 1), (1, 2), (2, 0), (0, 1)]),
    'pair+1': (3, [(0, 2)]),
    'apart3': (3, []),
    'chain4': (4, [(2, 0), (0, 3), (3, 1)]),
    'star4': (4, [(1, 0), (1, 2), (1, 3)]),
    'ring4': (4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    'two pairs': (4, [(0, 2), (1, 3)]),
    'tetra': (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]),
    'ring3+1': (4, [(0, 1), (1, 3), (3, 0)]),
}


def contract(c, ts, how, n):
    oc = c.lib.optimalContract
    if how == 'list':
        return oc.contractTensorList(ts, outProductWarning=False)
    if how == 'default':
        return oc.contractWithSequence(ts, outProductWarning=False)
    if how == 'real':
        return oc.contractWithSequence(ts, typicalDim=None, outProductWarning=False)
    if how == 'bf':
        return oc.contractWithSequence(ts, bf=True, typicalDim=None, outProductWarning=False)
    if how == 'bftypical':
        return oc.contractWithSequence(ts, bf=True, outProductWarning=False)
    if how == 'greedy':
        return oc.contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)[0]
    if how == 'greedyseq':
        return oc.contractWithSequence(ts, seq=oc.generateGreedySequence(ts), outProductWarning=False)
    if how == 'optseq':
        return oc.contractWithSequence(ts, seq=oc.generateOptimalSequence(ts, bf=True), outProductWarning=False)
    seq = user_sequence(c, n)
    return oc.contractWithSequence(ts, seq=seq, outProductWarning=False)


HOWS = ['list', 'default', 'real', 'bf', 'bftypical', 'greedy', 'greedyseq', 'optseq']


def kinds_of(c, n, edges, full):
    if full:
        return [c.choose('kind%d' % i, ['d', 'g']) for i in range(n)]
    return c.choose('kinds', [['d'] * n, ['g'] * n, ['d', 'g'] * n, ['g', 'd'] * n])[:n]


def edge_dims(kinds, edges):
    """links of diagonal tensors all have dimension 2; other links alternate 3, 2"""
    # links in the same component of diagonal tensors must agree; use 2 for any link touching a diagonal tensor
    return [2 if 'g' in (kinds[i], kinds[j]) else (3 if k % 2 == 0 else 2) for k, (i, j) in enumerate(edges)]


def strategies(c):
    """every built-in strategy on every topology and kind pattern"""
    name = c.choose('topology', sorted(TOPO))
    n, edges = TOPO[name]
    kinds = kinds_of(c, n, edges, n <= 3)
    free = c.choose('free', [[1] * 4, [0] * 4, [2, 0, 1, 0]])[:n]
    if n == 4 and len(edges) == 6 and free[0] == 2:
        c.skip()
    net = Net(c, kinds, edges, free, edgedim=edge_dims(kinds, edges), legperm='rev')
    how = c.choose('how', HOWS)
    snap = net.snapshot()
    r = contract(c, net.t, how, n)
    net.check(r, "%s order" % how)
    net.intact(snap, "%s order" % how)


def user_orders(c):
    """every valid sequence, both directions of each step"""
    name = c.choose('topology', [k for k in sorted(TOPO) if TOPO[k][0] in (2, 3)] + ['ring4', 'star4', 'two pairs'])
    n, edges = TOPO[name]
    kinds = kinds_of(c, n, edges, n <= 2)
    free = c.choose('free', [[1, 0, 1, 0], [0, 2, 0, 1]])[:n]
    net = Net(c, kinds, edges, free, edgedim=edge_dims(kinds, edges))
    snap = net.snapshot()
    seq = user_sequence(c, n, ordered=n <= 3)
    r = c.lib.optimalContract.contractWithSequence(net.t, seq=seq, outProductWarning=False)
    net.check(r, "user order")
    net.intact(snap, "user order")


def leg_orders(c):
    """every leg order of every tensor of small networks, default order"""
    name, kinds, free = c.choose('case', [('ring3', 'ddd', [1, 0, 0]), ('chain3', 'dgd', [1, 1, 1]), ('ring3', 'gdd', [0, 1, 0]), ('ring3double', 'ddg', [0, 0, 0]),
                                          ('star4', 'dddd', [1, 0, 0, 0]), ('double', 'dd', [1, 1]), ('ring4', 'dddd', [0, 0, 0, 0])])
    n, edges = TOPO[name]
    net = Net(c, list(kinds), edges, free, edgedim=edge_dims(kinds, edges), legperm='all')
    r = c.lib.optimalContract.contractTensorList(net.t, outProductWarning=False)
    net.check(r, "default order")


def again(c):
    """contracting the same list twice with different strategies, and list order permuted"""
    name = c.choose('topology', ['ring3', 'chain3', 'ring4', 'two pairs', 'star4'])
    n, edges = TOPO[name]
    kinds = kinds_of(c, n, edges, False)
    net = Net(c, kinds, edges, [1, 0, 1, 0][:n], edgedim=edge_dims(kinds, edges), cplx=(0,) if c.choose('cplx', [0, 1]) else ())
    h1 = c.choose('first', ['default', 'greedy'])
    h2 = c.choose('second', ['real', 'bf', 'greedyseq', 'list'])
    ts = net.t
    order = c.perm('list', range(n)) if n <= 3 else list(range(n))[::-1]
    ts2 = [ts[i] for i in order]
    snap = net.snapshot()
    r = contract(c, ts, h1, n)
    net.check(r, "first contraction")
    # changing the result must not reach the inputs
    r.a[...] = 0
    for l in list(r.legs):
        l.name = 'z' + l.name
    r2 = contract(c, ts2, h2, n)
    net.check(r2, "second contraction")
    net.intact(snap, "after two contractions")


def inplace(c):
    """in-place contraction gives the same value"""
    name = c.choose('topology', ['pair', 'chain3', 'ring3', 'ring4', 'apart2', 'pair+1'])
    n, edges = TOPO[name]
    kinds = kinds_of(c, n, edges, False)
    net = Net(c, kinds, edges, [1, 0, 1, 0][:n], edgedim=edge_dims(kinds, edges))
    net.ref()
    seq = user_sequence(c, n, ordered=False) if c.choose('user', [0, 1]) else None
    ts = list(net.t)
    r = c.lib.optimalContract.contractWithSequence(ts, seq=seq, inplace=True, outProductWarning=False)
    net.check(r, "in place")


def outgoing(c):
    """lists whose tensors are linked to tensors outside the list"""
    net = Net(c, list(c.choose('kinds', ['ddd', 'gdd', 'dgd'])), [(0, 1), (1, 2), (2, 0)], [1, 0, 1])
    sub = c.choose('sub', [[0, 1], [1, 2], [0, 2], [2, 1]])
    how = c.choose('how', ['list', 'real', 'bf', 'greedy'])
    snap = net.snapshot()
    r = contract(c, [net.t[i] for i in sub], how, 2)
    out = [x for i in sub for x in net.labels[i]]
    inner = [(la, lb) for i, la, j, lb in net.links if i in sub and j in sub]
    for la, lb in inner:
        out.remove(la)
        out.remove(lb)
    refs = []
    nm = dict((b, a) for a, b in inner)
    for i in sub:
        lab = [l.name for l in net.t[i].legs]
        refs.append((net.refs[i][0], [nm.get(x, x) for x in lab]))
    ref = c.total(refs, out, net.dims)
    c.invariant(r, "sub-network")
    c.eq(c.obs(r, out, "sub-network"), ref, "sub-network value")
    net.intact(snap, "sub-network")


def same_names(c):
    """linked legs of one tensor carrying the same name"""
    name = c.choose('topology', ['double', 'ring3', 'ring3double', 'ring4', 'star4'])
    n, edges = TOPO[name]
    kinds = kinds_of(c, n, edges, False)
    net = Net(c, kinds, edges, [1, 0, 1, 0][:n], edgedim=[2] * len(edges) if c.choose('dims', [0, 1]) else edge_dims(kinds, edges), legperm=(0,) if n < 4 else 'rev')
    for t in net.t:
        for l in t.legs:
            if l.bond is not None:
                l.name = 's'
    how = c.choose('how', ['list', 'real', 'greedy', 'user', 'inplace'])
    snap = net.snapshot()
    if how == 'user':
        r = c.lib.optimalContract.contractWithSequence(net.t, seq=user_sequence(c, n, ordered=False), outProductWarning=False)
    elif how == 'inplace':
        r = c.lib.optimalContract.contractWithSequence(list(net.t), inplace=True, outProductWarning=False)
    else:
        r = contract(c, net.t, how, n)
    net.check(r, "network with repeated names")
    if how != 'inplace':
        net.intact(snap, "network with repeated names")


def five(c):
    """five tensors, built-in strategies and random-free user orders"""
    edges = c.choose('edges', [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [(0, 2), (1, 2), (3, 2), (4, 2)], [(0, 1), (2, 3), (3, 4)], [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2)]])
    kinds = list(c.choose('kinds', ['ddddd', 'dgdgd', 'ggddd', 'ddgdd']))
    net = Net(c, kinds, edges, [1, 0, 0, 1, 0], dim=2)
    how = c.choose('how', HOWS + ['user'])
    if how == 'user':
        seq = user_sequence(c, 5, ordered=False)
        r = c.lib.optimalContract.contractWithSequence(net.t, seq=seq, outProductWarning=False)
    else:
        r = contract(c, net.t, how, 5)
    net.check(r, "five tensors")


MANY = {
    'chain6': (6, [(3, 0), (0, 5), (5, 1), (1, 4), (4, 2)]),
    'ring6': (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)]),
    'ladder6': (6, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]),
    'star6': (6, [(5, 0), (5, 1), (5, 2), (5, 3), (5, 4)]),
    'three pairs': (6, [(0, 5), (4, 1), (2, 3)]),
    'ring3 ring3': (6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]),
    'chain7': (7, [(6, 5), (5, 4), (4, 3), (3, 2), (2, 1), (1, 0)]),
    'tree7': (7, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6)]),
    'chain8': (8, [(0, 4), (4, 1), (1, 5), (5, 2), (2, 6), (6, 3), (3, 7)]),
    'doubled6': (6, [(0, 1), (0, 1), (1, 2), (2, 3), (2, 3), (3, 4), (4, 5)]),
}


def many(c):
    """six to eight tensors"""
    name = c.choose('topology', sorted(MANY))
    n, edges = MANY[name]
    kinds = c.choose('kinds', [['d'] * n, (['d', 'g', 'd', 'd'] * 2)[:n], (['g', 'd'] * 4)[:n]])
    free = c.choose('free', [[0] * n, [1] + [0] * (n - 2) + [1], [0, 1, 0, 1] + [0] * (n - 4)])
    net = Net(c, kinds, edges, free, dim=2, legperm='rev')
    how = c.choose('how', ['list', 'real', 'bf', 'greedy', 'greedyseq', 'first', 'last', 'mixed'])
    snap = net.snapshot()
    oc = c.lib.optimalContract
    if how == 'first':
        r = oc.contractWithSequence(net.t, seq=[(0, i) for i in range(1, n)], outProductWarning=False)
    elif how == 'last':
        r = oc.contractWithSequence(net.t, seq=[(i, i - 1) for i in range(n - 1, 0, -1)], outProductWarning=False)
    elif how == 'mixed':
        seq = [(i, i + 1) for i in range(0, n - 1, 2)] + [(0, 2 * i) for i in range((n - 1) // 2, 0, -1)]
        r = oc.contractWithSequence(net.t, seq=seq, outProductWarning=False)
    else:
        r = contract(c, net.t, how, n)
    net.check(r, "%d tensors" % n)
    net.intact(snap, "%d tensors" % n)


SCENARIOS = [
    S('strategies', strategies, bounds='15 topologies of 1..4 tensors, all kind patterns up to 3 tensors, 8 strategies'),
    S('user_orders', user_orders, bounds='every sequence for networks of 2..4 tensors'),
    S('leg_orders', leg_orders, bounds='every leg order of every tensor'),
    S('again', again),
    S('inplace', inplace),
    S('outgoing', outgoing),
    S('same_names', same_names, bounds='5 topologies, all linked legs of a tensor named alike'),
    S('five', five, tier='thorough', bounds='four topologies of five tensors, every sequence'),
    S('many', many, bounds='10 topologies of 6..8 tensors, 8 orders, dimension 2'),
]
