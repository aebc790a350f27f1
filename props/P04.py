"""P04: the contraction order found is valid and of minimal cost"""
import itertools
from props.common import *

BOUNDS = ("Connected networks of 2..4 tensors (5 and 6 with a typical dimension, or one dimension symbolic in 1..20 at a time); every dimension is a symbolic integer "
          "in 1..6 (windows of 2 or 3 symbols for larger networks), single dimensions up to 10^6; the typical dimension is a symbolic integer in 2..12 (2..40 for 6 tensors).")

# name: (kinds, edges, free legs per tensor)
NETS = {
    'pair': ('dd', [(0, 1)], [1, 1]),
    'pair gd': ('gd', [(0, 1)], [1, 2]),
    'pair gg': ('gg', [(0, 1)], [1, 1]),
    'double': ('dd', [(0, 1), (0, 1)], [1, 1]),
    'chain': ('ddd', [(0, 1), (1, 2)], [1, 1, 1]),
    'chain closed': ('ddd', [(0, 1), (1, 2)], [0, 0, 0]),
    'chain open': ('ddd', [(0, 1), (1, 2)], [1, 0, 1]),
    'ring': ('ddd', [(0, 1), (1, 2), (2, 0)], [1, 1, 1]),
    'ring closed': ('ddd', [(0, 1), (1, 2), (2, 0)], [0, 0, 0]),
    'ring gdd': ('gdd', [(0, 1), (1, 2), (2, 0)], [0, 1, 1]),
    'ring dgd': ('dgd', [(0, 1), (1, 2), (2, 0)], [1, 1, 0]),
    'chain dgd': ('dgd', [(0, 1), (1, 2)], [1, 1, 1]),
    'chain gdg': ('gdg', [(0, 1), (1, 2)], [1, 1, 1]),
    'chain ggd': ('ggd', [(0, 1), (1, 2)], [1, 0, 1]),
    'chain ggg': ('ggg', [(0, 1), (1, 2)], [1, 1, 0]),
    'ring ggd': ('ggd', [(0, 1), (1, 2), (2, 0)], [1, 0, 1]),
    'double chain': ('ddd', [(0, 1), (0, 1), (1, 2)], [1, 0, 1]),
}
NETS4 = {
    'chain4': ('dddd', [(0, 1), (1, 2), (2, 3)], [1, 0, 0, 1]),
    'star4': ('dddd', [(0, 1), (0, 2), (0, 3)], [0, 1, 1, 1]),
    'ring4': ('dddd', [(0, 1), (1, 2), (2, 3), (3, 0)], [1, 0, 1, 0]),
    'ring4 dgdg': ('dgdg', [(0, 1), (1, 2), (2, 3), (3, 0)], [1, 0, 1, 1]),
    'ring4 ggdd': ('ggdd', [(0, 1), (1, 2), (2, 3), (3, 0)], [1, 0, 1, 1]),
    'star4 gddd': ('gddd', [(0, 1), (0, 2), (0, 3)], [1, 1, 1, 1]),
    'star4 dggg': ('dggg', [(0, 1), (0, 2), (0, 3)], [0, 1, 1, 0]),
    'chain4 gdgd': ('gdgd', [(0, 1), (1, 2), (2, 3)], [1, 1, 0, 1]),
    'tetra': ('dddd', [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], [0, 0, 0, 0]),
    'paw': ('ddgd', [(0, 1), (1, 2), (2, 0), (2, 3)], [1, 0, 0, 1]),
    'scrambled4': ('dddd', [(2, 0), (3, 1), (0, 3)], [1, 1, 1, 1]),
}
NETS5 = {
    'chain5': ('ddddd', [(0, 1), (1, 2), (2, 3), (3, 4)], [1, 0, 1, 0, 1]),
    'ring5': ('ddddd', [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [1, 0, 1, 1, 0]),
    'star5': ('dgddd', [(0, 1), (0, 2), (0, 3), (0, 4)], [0, 1, 1, 1, 1]),
    'house5': ('ddgdd', [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)], [1, 0, 1, 0, 0]),
    'mixed5': ('gdgdg', [(0, 1), (1, 2), (2, 3), (3, 4), (1, 3)], [1, 0, 1, 1, 0]),
}


def variables(kinds, edges, free):
    """groups of indices that share a dimension: all legs of a diagonal tensor. -> (edge var, free vars per tensor, count)"""
    items = [('e', k) for k in range(len(edges))] + [('f', i, k) for i in range(len(kinds)) for k in range(free[i])]
    grp = {x: x for x in items}

    def find(x):
        while grp[x] != x:
            x = grp[x]
        return x
    for i, kd in enumerate(kinds):
        if kd == 'g':
            legs = [('e', k) for k, e in enumerate(edges) if i in e] + [('f', i, k) for k in range(free[i])]
            for x in legs[1:]:
                grp[find(x)] = find(legs[0])
    roots = []
    for x in items:
        if find(x) not in roots:
            roots.append(find(x))
    return {x: roots.index(find(x)) for x in items}, len(roots)


def build_graph(c, kinds, edges, free, dim):
    """the graph the search works on, built through its public interface"""
    n = len(kinds)
    g = c.lib.TensorGraph(n, [k == 'g' for k in kinds])
    for k, (i, j) in enumerate(edges):
        g.addEdge(i, j, dim['e', k])
    for i in range(n):
        for k in range(free[i]):
            g.addFreeEdge(i, dim['f', i, k])
    return g


def build_tensors(c, kinds, edges, free, dim):
    """data-less tensors linked as described"""
    n = len(kinds)
    ts = []
    for i in range(n):
        lab = ['e%d' % k + ('a' if e[0] == i else 'b') for k, e in enumerate(edges) if i in e] + ['f%d%d' % (i, k) for k in range(free[i])]
        shp = [dim['e', k] for k, e in enumerate(edges) if i in e] + [dim['f', i, k] for k in range(free[i])]
        if kinds[i] == 'g':
            ts.append(c.lib.DiagonalTensor(labels=lab, shape=tuple(shp), tensorLikeFlag=True))
        else:
            ts.append(c.lib.TensorLike(labels=lab, shape=tuple(shp)))
    for k, (i, j) in enumerate(edges):
        c.lib.makeLink('e%da' % k, 'e%db' % k, ts[i], ts[j])
    return ts


class Oracle:
    """cost of contraction sequences, computed on index sets"""

    def __init__(self, kinds, edges, free, dim):
        self.n = len(kinds)
        self.dim = dim
        self.start = []
        for i, kd in enumerate(kinds):
            legs = frozenset([('e', k) for k, e in enumerate(edges) if i in e] + [('f', i, k) for k in range(free[i])])
            self.start.append((legs, kd == 'g'))

    def prod(self, legs):
        r = 1
        for x in sorted(legs, key=str):
            r = r * self.dim[x]
        return r

    def step(self, a, b):
        (la, ga), (lb, gb) = a, b
        shared = la & lb
        if ga and gb and shared:
            cost = self.dim[next(iter(la))]
        elif ga or gb:
            cost = self.prod(la ^ lb)
        else:
            cost = self.prod(la | lb)
        return cost, (la ^ lb, ga and gb and bool(shared))

    def cost(self, seq):
        st = dict(enumerate(self.start))
        tot = 0
        for s, t in seq:
            cst, r = self.step(st[s], st[t])
            tot = tot + cst
            st[min(s, t)] = r
            del st[max(s, t)]
        return tot

    def all_costs(self):
        """costs of all sequences (deduplicated contraction trees)"""
        memo = {}

        def trees(S):
            if S in memo:
                return memo[S]
            if len(S) == 1:
                (i,) = S
                memo[S] = [(0, self.start[i])]
                return memo[S]
            out = {}
            first = min(S)
            rest = sorted(S - {first})
            for r in range(len(rest)):
                for c2 in itertools.combinations(rest, r):
                    A = frozenset((first,) + c2)
                    for ca, sa in trees(A):
                        for cb, sb in trees(S - A):
                            cst, res = self.step(sa, sb)
                            tot = ca + cb + cst
                            out[(key(tot), res)] = (tot, res)
            memo[S] = list(out.values())
            return memo[S]
        return [x for x, _ in trees(frozenset(range(self.n)))]


def key(v):
    p = getattr(v, 'p', v)
    return p.key() if hasattr(p, 'key') else p


def valid(c, seq, n, what):
    alive = set(range(n))
    seq = list(seq)
    c.ok(len(seq) == n - 1, what + ": the sequence has %d steps for %d tensors" % (len(seq), n))
    for s, t in seq:
        c.ok(s != t and s in alive and t in alive, what + ": step (%s, %s) uses a tensor that is gone" % (s, t))
        alive.discard(max(s, t))


def check(c, orc, seq, reported, costs, what):
    valid(c, seq, orc.n, what)
    mine = orc.cost(seq)
    c.ok(c.conj([mine <= x for x in costs]), what + ": the sequence is not of minimal cost")
    if reported is not None:
        c.ok(reported == mine, what + ": reported cost differs from the cost of the sequence")


FIXED = [2, 3, 1, 4, 2, 5]


def dims_for(c, kinds, edges, free, hi, limit, rotate=False):
    """`limit` symbolic dimensions in 1..hi (a window over the distinct indices), the others fixed"""
    grp, m = variables(kinds, edges, free)
    off = c.choose('window', list(range(0, m, limit)) if m > limit else [0]) if rotate else 0
    vs = []
    for i in range(m):
        k = (i - off) % m
        vs.append(c.int('d%d' % i, 1, hi) if k < limit else FIXED[i % len(FIXED)])
    return {x: vs[g] for x, g in grp.items()}


def search(c, nets, hi, limit, mode, names=None, rotate=True):
    name = c.choose('net', sorted(nets) if names is None else names)
    kinds, edges, free = nets[name]
    dim = dims_for(c, kinds, edges, free, hi, limit, rotate)
    orc = Oracle(kinds, edges, free, dim)
    g = build_graph(c, kinds, edges, free, dim)
    seq = g.optimalContractSequence(bf=(mode == 'bf'), typicalDim=None)
    rep = g.optimalCostResult()
    check(c, orc, seq, rep, orc.all_costs(), "%s, %s" % (name, mode))


def exhaustive3(c):
    """exhaustive search, up to three tensors, all dimensions symbolic"""
    search(c, NETS, 5, 9, 'bf')


def exhaustive4(c):
    search(c, NETS4, 6, 3, 'bf')


def default3(c):
    """default search, up to three tensors"""
    search(c, NETS, 10, 2, 'default')


def default3x3(c):
    search(c, NETS, 6, 3, 'default')


def default4(c):
    search(c, NETS4, 6, 2, 'default')


def exhaustive4_more(c):
    search(c, NETS4, 8, 4, 'bf')


def default4_more(c):
    search(c, NETS4, 6, 3, 'default')


def default5(c):
    search(c, NETS5, 8, 2, 'default')


def exhaustive5(c):
    search(c, NETS5, 4, 2, 'bf')


def typical(c):
    """one typical dimension for every index, symbolic; any network"""
    nets = dict(NETS)
    nets.update(NETS4)
    nets.update(NETS5)
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    mode = c.choose('mode', ['default', 'bf'])
    td = c.int('typicalDim', 2, 12)
    grp, m = variables(kinds, edges, free)
    orc = Oracle(kinds, edges, free, {x: td for x in grp})
    real = {x: 2 + g % 3 for x, g in grp.items()}
    if c.choose('tensors', [0, 1]):
        ts = build_tensors(c, kinds, edges, free, real)
        seq = c.lib.optimalContract.generateOptimalSequence(ts, bf=(mode == 'bf'), typicalDim=td)
        rep = None
    else:
        g = build_graph(c, kinds, edges, free, real)
        seq = g.optimalContractSequence(bf=(mode == 'bf'), typicalDim=td)
        rep = g.optimalCostResult()
    check(c, orc, seq, rep, orc.all_costs(), "%s, typical dimension, %s" % (name, mode))


def default_typical(c):
    """default typical dimension, and asking for the cost before searching"""
    nets = dict(NETS)
    nets.update(NETS4)
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    grp, m = variables(kinds, edges, free)
    dim = {x: c.int('d%d' % g, 1, 50) for x, g in grp.items()} if False else {x: 2 + g % 3 for x, g in grp.items()}
    orc = Oracle(kinds, edges, free, {x: 10 for x in grp})
    g = build_graph(c, kinds, edges, free, dim)
    before = g.optimalCostResult()
    costs = orc.all_costs()
    c.ok(before == min(costs), "cost asked before the search")
    seq = g.optimalContractSequence()
    check(c, orc, seq, g.optimalCostResult(), costs, name)
    c.ok(g.optimalCostResult() == before, "asking again gives the same cost")


def tensors_small(c):
    """real dimensions through data-less tensors and the sequence generators; greedy is valid"""
    name = c.choose('net', ['pair gd', 'chain open', 'ring', 'ring gdd', 'chain ggd', 'double'])
    kinds, edges, free = NETS[name]
    dim = dims_for(c, kinds, edges, free, 8, 2)
    orc = Oracle(kinds, edges, free, dim)
    ts = build_tensors(c, kinds, edges, free, dim)
    mode = c.choose('mode', ['default', 'bf', 'greedy'])
    oc = c.lib.optimalContract
    if mode == 'greedy':
        valid(c, oc.generateGreedySequence(ts), len(kinds), "greedy")
        return
    seq = oc.generateOptimalSequence(ts, bf=(mode == 'bf'), typicalDim=None)
    check(c, orc, seq, None, orc.all_costs(), "%s, tensors, %s" % (name, mode))
    # the tensors are not consumed by the search
    seq2 = oc.generateOptimalSequence(ts, bf=(mode != 'bf'), typicalDim=None)
    check(c, orc, seq2, None, orc.all_costs(), "%s, again" % name)


def research(c):
    """repeating the search in another mode, or after the graph grew, gives the optimum for the graph as it is"""
    td = c.int('d', 1, 6)
    e = c.int('e', 1, 6)
    kinds = c.choose('kinds', ['ddd', 'dgd'])
    edges = [(0, 1), (1, 2)]
    free = [1, 0, 1]
    grp, m = variables(kinds, edges, free)
    dim = {x: (td if g == 0 else e) for x, g in grp.items()}
    g = build_graph(c, kinds, edges, free, dim)
    g.optimalContractSequence(bf=bool(c.choose('first bf', [0, 1])), typicalDim=None)
    orc = Oracle(kinds, edges, free, dim)
    grow = c.choose('grow', ['no', 'edge', 'free'])
    if grow == 'edge':
        if kinds[1] == 'g':
            c.skip()
        g.addEdge(0, 2, e)
        edges = edges + [(0, 2)]
        dim = dict(dim)
        dim['e', 2] = e
    elif grow == 'free':
        g.addFreeEdge(2, td)
        free = [1, 0, 2]
        dim = dict(dim)
        dim['f', 2, 1] = td
    orc = Oracle(kinds, edges, free, dim)
    seq = g.optimalContractSequence(bf=bool(c.choose('second bf', [0, 1])), typicalDim=None)
    check(c, orc, seq, g.optimalCostResult(), orc.all_costs(), "second search")


# pairs of wirings of tensors of one and the same shape (x, y) / (x, y, y): which legs are linked
WIRINGS = {
    'three': (3, 2, [[((0, 0), (1, 0)), ((1, 1), (2, 1))], [((0, 1), (1, 1)), ((1, 0), (2, 0))],
                     [((0, 0), (2, 0)), ((0, 1), (1, 1))], [((0, 1), (2, 1)), ((2, 0), (1, 0))]]),
    'three wide': (3, 3, [[((0, 0), (1, 0)), ((1, 1), (2, 1))], [((0, 1), (1, 2)), ((1, 0), (2, 0))],
                          [((0, 2), (2, 1)), ((2, 0), (1, 0))]]),
}


def two_networks(c):
    """networks of tensors of the same shapes, linked differently, one after the other: each gets its own order"""
    n, rank, wirings = WIRINGS[c.choose('shape', sorted(WIRINGS))]
    x, y = c.int('x', 1, 5), c.int('y', 1, 5)
    shape = (x, y, y)[:rank]
    level, mode = c.choose('how', [('tensors', 'default'), ('tensors', 'bf'), ('graph', 'default')])
    first = c.choose('first', list(range(len(wirings))))
    second = (first + c.choose('next', [1, 2])) % len(wirings)
    for turn, k in enumerate((first, second)):
        edges = [(a, b) for (a, la), (b, lb) in wirings[k]]
        used = {}
        for e, (p, q) in enumerate(wirings[k]):
            used[p] = used[q] = e
        dim = {('e', e): shape[p[1]] for e, (p, q) in enumerate(wirings[k])}
        free = []
        for i in range(n):
            fl = [l for l in range(rank) if (i, l) not in used]
            free.append(len(fl))
            for m, l in enumerate(fl):
                dim['f', i, m] = shape[l]
        orc = Oracle('d' * n, edges, free, dim)
        what = "network %d of 2" % (turn + 1)
        if level != 'graph':
            ts = [c.lib.TensorLike(labels=['l%d' % l for l in range(rank)], shape=shape) for i in range(n)]
            for (a, la), (b, lb) in wirings[k]:
                c.lib.makeLink('l%d' % la, 'l%d' % lb, ts[a], ts[b])
            seq = c.lib.optimalContract.generateOptimalSequence(ts, bf=(mode == 'bf'), typicalDim=None)
            check(c, orc, seq, None, orc.all_costs(), what + ", tensors")
        if level != 'tensors':
            g = build_graph(c, 'd' * n, edges, free, dim)
            seq = g.optimalContractSequence(bf=(mode == 'bf'), typicalDim=None)
            check(c, orc, seq, g.optimalCostResult(), orc.all_costs(), what + ", graph")


def greedy_valid(c):
    """greedy: valid sequence on every network, symbolic dimensions"""
    nets = dict(NETS)
    nets.update(NETS4)
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    dim = dims_for(c, kinds, edges, free, 6, 2)
    g = build_graph(c, kinds, edges, free, dim)
    valid(c, g.optimalContractSequence(greedy=True, typicalDim=None), len(kinds), "greedy")


NETS6 = {
    'chain6': ('dddddd', [(3, 0), (0, 5), (5, 1), (1, 4), (4, 2)], [1, 0, 0, 1, 0, 1]),
    'ring6': ('dddddd', [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)], [1, 0, 1, 0, 0, 1]),
    'ladder6': ('dddddd', [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)], [0, 0, 0, 0, 0, 0]),
    'star6': ('dddddg', [(5, 0), (5, 1), (5, 2), (5, 3), (5, 4)], [1, 0, 1, 1, 1, 1]),
    'mixed6': ('gdgddg', [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (1, 4)], [1, 0, 0, 1, 0, 1]),
    'doubled6': ('dddddd', [(0, 1), (0, 1), (1, 2), (2, 3), (2, 3), (3, 4), (4, 5)], [0, 1, 0, 0, 1, 0]),
}


def six_typical(c):
    """six tensors, one symbolic typical dimension"""
    name = c.choose('net', sorted(NETS6))
    kinds, edges, free = NETS6[name]
    mode = c.choose('mode', ['default', 'bf'])
    td = c.int('typicalDim', 2, 40)
    grp, m = variables(kinds, edges, free)
    orc = Oracle(kinds, edges, free, {x: td for x in grp})
    real = {x: 2 + g % 3 for x, g in grp.items()}
    g = build_graph(c, kinds, edges, free, real)
    seq = g.optimalContractSequence(bf=(mode == 'bf'), typicalDim=td)
    check(c, orc, seq, g.optimalCostResult(), orc.all_costs(), "%s, typical dimension, %s" % (name, mode))


def one_dim(c, nets, hi, mode):
    """one symbolic dimension at a time, the others fixed"""
    search(c, nets, hi, 1, mode)


def wide_range(c):
    """dimensions of any magnitude: one symbolic dimension up to a million, the others fixed between 1 and thousands"""
    nets = dict(NETS)
    nets.update(NETS4)
    bf = True
    name = c.choose('net', sorted(nets) if bf else ['chain', 'pair gd', 'ring', 'ring dgd'])
    kinds, edges, free = nets[name]
    grp, m = variables(kinds, edges, free)
    off = c.choose('which', list(range(m)) if bf else [0, m - 1])
    fixed = c.choose('fixed', [[1000, 3, 70, 1, 4096, 2, 17], [100, 100, 100, 100, 100, 100, 100]])
    d = c.int('d', 1, 10 ** 6)
    dim = {x: (d if g == off else fixed[g % 7]) for x, g in grp.items()}
    orc = Oracle(kinds, edges, free, dim)
    g = build_graph(c, kinds, edges, free, dim)
    seq = g.optimalContractSequence(bf=bf, typicalDim=None)
    check(c, orc, seq, g.optimalCostResult(), orc.all_costs(), "%s, wide range" % name)


SCENARIOS = [
    S('exhaustive3', exhaustive3, bounds='17 networks of up to 3 tensors, every dimension symbolic in 1..5'),
    S('exhaustive4', exhaustive4, bounds='11 networks of 4 tensors, windows of 3 symbolic dimensions in 1..6, the others fixed'),
    S('default3', default3, bounds='17 networks of up to 3 tensors, windows of 2 symbolic dimensions in 1..10'),
    S('default3x3', default3x3, bounds='17 networks of up to 3 tensors, windows of 3 symbolic dimensions in 1..6'),
    S('default4', default4, bounds='11 networks of 4 tensors, windows of 2 symbolic dimensions in 1..6'),
    S('typical', typical, bounds='33 networks of up to 5 tensors, typical dimension symbolic in 2..12'),
    S('default_typical', default_typical),
    S('tensors_small', tensors_small),
    S('research', research),
    S('greedy_valid', greedy_valid),
    S('two_networks', two_networks, bounds='7 wirings of 3 tensors of one shape, both dimensions symbolic in 1..5, two searches in a row'),
    S('exhaustive4_more', exhaustive4_more, tier='thorough', bounds='windows of 4 symbolic dimensions in 1..8'),
    S('default4_more', default4_more, tier='thorough', bounds='windows of 3 symbolic dimensions in 1..6'),
    S('exhaustive5', exhaustive5, tier='thorough', bounds='networks of 5 tensors, windows of 2 symbolic dimensions in 1..4'),
    S('default5', default5, tier='thorough', bounds='networks of 5 tensors, windows of 2 symbolic dimensions in 1..8'),
    S('six_typical', six_typical, bounds='6 networks of 6 tensors, typical dimension symbolic in 2..40'),
    S('one_dim5', lambda c: one_dim(c, NETS5, 20, 'bf'), bounds='5 networks of 5 tensors, one symbolic dimension in 1..20 at a time'),
    S('one_dim5d', lambda c: one_dim(c, NETS5, 20, 'default'), bounds='5 networks of 5 tensors, one symbolic dimension in 1..20 at a time'),
    S('one_dim6', lambda c: one_dim(c, NETS6, 12, 'bf'), bounds='6 networks of 6 tensors, one symbolic dimension in 1..12 at a time'),
    S('wide_range', wide_range, bounds='28 networks of up to 4 tensors, one symbolic dimension in 1..10^6 at a time, exhaustive search'),
]
