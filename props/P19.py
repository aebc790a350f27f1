"""P19: contraction cost accounting equals the work the index sizes imply"""
from props.common import *
from props.P04 import NETS, NETS4, NETS5, Oracle, variables, build_tensors, build_graph, dims_for, valid

BOUNDS = ("Pairs of tensors of rank 0..4 with up to 4 links, every dimension symbolic in 1..10^6; networks of 2..5 tensors, every dimension symbolic in 1..6 "
          "for given sequences (every valid sequence up to 4 tensors), windows of 2 symbolic dimensions for searched sequences.")


def make(c, kind, labels, dims, like):
    if kind == 'g':
        if like:
            return c.lib.DiagonalTensor(labels=labels, shape=tuple(dims), tensorLikeFlag=True)
        return c.lib.DiagonalTensor(labels=labels, data=c.array('D' + labels[0], (dims[0],))) if labels else c.lib.DiagonalTensor(data=c.array('D', ()))
    if like:
        return c.lib.TensorLike(labels=labels, shape=tuple(dims))
    return c.lib.Tensor(labels=labels, data=c.array('T' + ''.join(labels), tuple(dims)))


def expected(ka, kb, da, db, shared):
    """da, db: {leg: dim}; shared: [(leg of a, leg of b)] -> cost, level"""
    sa, sb = {x for x, _ in shared}, {y for _, y in shared}
    if ka == 'g' and kb == 'g' and shared:
        return da[shared[0][0]], 1
    legs = [d for x, d in da.items() if ka == kb == 'd' or x not in sa] + [d for y, d in db.items() if y not in sb]
    p = 1
    for d in legs:
        p = p * d
    return p, len(legs)


def pairs(c, like=True):
    """every pair of kinds and ranks, every number of links in every arrangement, symbolic dimensions, both orders of the operands"""
    ka, kb = c.choose('kinds', ['dd', 'dg', 'gd', 'gg'])
    ra, rb = c.choose('ra', [0, 1, 2, 3, 4] if like else [0, 1, 2, 3]), c.choose('rb', [0, 1, 2, 3, 4] if like else [0, 1, 2])
    n = c.choose('n', [0, 1, 2, 3, 4] if like else [0, 1, 2])
    if n > min(ra, rb):
        c.skip()
    la, lb = ['a%d' % i for i in range(ra)], ['b%d' % i for i in range(rb)]
    xs = la[:n] if c.choose('side', [0, 1]) else la[ra - n:]
    ys = (lb[:n] if c.choose('sideb', [0, 1]) else lb[rb - n:])[::-1 if c.choose('rev', [0, 1]) else 1]
    shared = list(zip(xs, ys))

    def num(name, fixed):
        return c.int(name, 1, 10 ** 6) if like else fixed
    # dimensions: legs of a diagonal tensor share one, linked legs share one
    da, db = {}, {}
    if ka == 'g' and kb == 'g' and n:
        e = num('e', 2)
        da, db = {x: e for x in la}, {y: e for y in lb}
    else:
        ea, eb = num('ea', 2), num('eb', 2 if n else 3)
        for i, x in enumerate(la):
            da[x] = ea if ka == 'g' else num('d' + x, 2 + i % 2)
        for i, y in enumerate(lb):
            db[y] = eb if kb == 'g' else num('d' + y, 3 - i % 2)
        for x, y in shared:
            if ka == 'g' and kb == 'd':
                db[y] = da[x]
            else:
                da[x] = db[y]
    ta, tb = make(c, ka, la, [da[x] for x in la], like), make(c, kb, lb, [db[y] for y in lb], like)
    for k, (x, y) in enumerate(shared):
        link(c, ta, x, tb, y, k % 2)
    f = c.lib.optimalContract.contractCost
    cost, level = f(ta, tb)
    want, lev = expected(ka, kb, da, db, shared)
    c.ok(cost == want, "cost of a pair")
    c.ok(level == lev, "level %s of a pair, expected %s" % (level, lev))
    cost2, level2 = f(tb, ta)
    c.ok(cost2 == want, "cost with the operands exchanged")
    c.ok(level2 == lev, "level with the operands exchanged")
    c.ok(f(ta, tb)[0] == want, "cost asked again")
    c.ok(len(ta.legs) == ra and len(tb.legs) == rb and [l.name for l in ta.legs] == la and [l.name for l in tb.legs] == lb, "operands changed")
    c.ok(all((l.bond is None) == (l.name not in xs) for l in ta.legs), "links changed")


def pairs_data(c):
    """the same cost for tensors with data"""
    pairs(c, False)


def outside(c):
    """links to third tensors and links of a tensor with itself count as unlinked indices of the pair"""
    d = {x: c.int('d' + x, 1, 20) for x in 'pqrst'}
    k = c.choose('kind', ['ddd', 'gdd', 'dgd'])
    if k[0] == 'g':
        d['p'] = d['q'] = d['r']
    if k[1] == 'g':
        d['q'] = d['s'] = d['t']
    A = make(c, k[0], ['p', 'q', 'r'], [d['p'], d['q'], d['r']], True)
    B = make(c, k[1], ['q', 's', 't'], [d['q'], d['s'], d['t']], True)
    C = make(c, k[2], ['r', 't'], [d['r'], d['t']], True)
    link(c, A, 'q', B, 'q')
    link(c, A, 'r', C, 'r', 1)
    link(c, B, 't', C, 't', 2)
    f = c.lib.optimalContract.contractCost
    for (X, kx), (Y, ky) in c.choose('pair', [(((A, k[0]), (B, k[1])),), (((B, k[1]), (C, k[2])),), (((C, k[2]), (A, k[0])),)]):
        sh = [l.name for l in X.legs if l.name in [m.name for m in Y.legs]]
        want = expected(kx, ky, {l.name: d[l.name] for l in X.legs}, {l.name: d[l.name] for l in Y.legs}, [(s, s) for s in sh])
        r = f(X, Y)
        c.ok(r[0] == want[0] and r[1] == want[1], "cost within a network")


def run_total(c, ts, orc, steps, what, **k):
    r, cost = c.lib.optimalContract.contractAndCostWithSequence(ts, outProductWarning=False, **k)
    c.ok(cost == orc.cost(steps), what + ": total cost")
    return r


def given(c, nets=None, hi=6):
    """the total of every valid user sequence, in place or not, dimensions symbolic"""
    nets = nets or NETS
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    grp, m = variables(kinds, edges, free)
    vs = [c.int('d%d' % i, 1, hi) for i in range(m)]
    dim = {x: vs[g] for x, g in grp.items()}
    ts = build_tensors(c, kinds, edges, free, dim)
    seq = user_sequence(c, len(kinds), ordered=len(kinds) < 4)
    inplace = c.choose('inplace', [False, True]) if len(kinds) < 4 else False
    orc = Oracle(kinds, edges, free, dim)
    run_total(c, list(ts), orc, seq, name, seq=list(seq), inplace=inplace)
    if not inplace:
        run_total(c, list(ts), orc, seq, name + ", again", seq=list(seq))


def given4(c):
    given(c, NETS4)


def given5(c):
    given(c, NETS5)


def apart(c):
    """sequences that multiply unlinked tensors"""
    kinds = c.choose('kinds', ['ddd', 'gdd', 'ggd', 'dgg', 'ggg'])
    edges = c.choose('edges', [[], [(0, 1)], [(0, 2)]])
    free = c.choose('free', [[1, 2, 1], [1, 1, 2], [2, 0, 1]] + ([[0, 0, 0], [0, 0, 1], [1, 0, 0]] if kinds == 'ddd' else []))
    if any(free[i] + sum(i in e for e in edges) == 0 for i in range(3) if kinds[i] == 'g'):
        c.skip()
    grp, m = variables(kinds, edges, free)
    vs = [c.int('d%d' % i, 1, 9) for i in range(m)]
    dim = {x: vs[g] for x, g in grp.items()}
    ts = build_tensors(c, kinds, edges, free, dim)
    seq = user_sequence(c, 3)
    run_total(c, ts, Oracle(kinds, edges, free, dim), seq, "unlinked tensors", seq=seq)


def searched(c, nets, limit, hi, modes):
    """the total reported for a searched order is that of the sequence the search returns; with real dimensions the default is never worse than another order"""
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    dim = dims_for(c, kinds, edges, free, hi, limit, True)
    ts = build_tensors(c, kinds, edges, free, dim)
    orc = Oracle(kinds, edges, free, dim)
    oc = c.lib.optimalContract
    mode = c.choose('mode', modes)
    if mode == 'greedy':
        seq = oc.generateGreedySequence(ts)
        k = dict(greedy=True)
    else:
        k = dict(bf=mode.startswith('bf'))
        if mode.endswith('real'):
            k['typicalDim'] = None
        elif mode.endswith('3'):
            k['typicalDim'] = 3
        seq = oc.generateOptimalSequence(ts, **k)
    valid(c, seq, len(kinds), name)
    r, cost = oc.contractAndCostWithSequence(list(ts), outProductWarning=False, **k)
    c.ok(cost == orc.cost(seq), "%s, %s: total cost of the searched order" % (name, mode))
    if mode.endswith('real'):
        c.ok(c.conj([cost <= x for x in orc.all_costs()]), "%s, %s: another order is cheaper" % (name, mode))


def greedy_cost(c):
    """the cost the graph reports for its greedy order"""
    nets = dict(NETS)
    nets.update(NETS4)
    name = c.choose('net', sorted(nets))
    kinds, edges, free = nets[name]
    dim = dims_for(c, kinds, edges, free, 6, 2)
    g = build_graph(c, kinds, edges, free, dim)
    seq = g.optimalContractSequence(greedy=True, typicalDim=None)
    c.ok(list(seq) == list(g.greedySeq), "greedy sequence of the graph")
    c.ok(g.greedyCost == Oracle(kinds, edges, free, dim).cost(seq), "%s: cost of the greedy order" % name)


def given_wide(c):
    """totals are exact for dimensions of any size"""
    given(c, NETS, 10 ** 6)


def exact_total(c):
    """sums of costs beyond the precision of floating-point numbers"""
    name = c.choose('net', [x for x in sorted(NETS) if len(NETS[x][0]) == 3])
    kinds, edges, free = NETS[name]
    grp, m = variables(kinds, edges, free)
    first = c.choose('first', [0, 1, 2])
    big = [999983, 1000003, 999979, 1000033, 999961]
    dim = {x: big[(first + g) % 5] for x, g in grp.items()}
    ts = build_tensors(c, kinds, edges, free, dim)
    seq = user_sequence(c, 3, ordered=True)
    cost = c.lib.optimalContract.contractAndCostWithSequence(ts, seq=list(seq), outProductWarning=False)[1]
    want = Oracle(kinds, edges, free, dim).cost(seq)
    c.ok(cost == want and int(cost) == int(want), "%s: the total is %r, the sum of the costs is %r" % (name, cost, want))


SCENARIOS = [
    S('pairs', pairs),
    S('pairs_data', pairs_data),
    S('outside', outside),
    S('given', given),
    S('given4', given4),
    S('apart', apart),
    S('searched', lambda c: searched(c, NETS, 2, 8, ['default', 'real', 'bf', 'bfreal', 'greedy', '3'])),
    S('searched4', lambda c: searched(c, NETS4, 2, 4, ['default', 'bfreal', 'greedy'])),
    S('greedy_cost', greedy_cost),
    S('given5', given5),
    S('searched4real', lambda c: searched(c, NETS4, 2, 6, ['real', 'bf'])),
    S('searched5', lambda c: searched(c, NETS5, 2, 4, ['default', 'bfreal', 'greedy'])),
    S('given_wide', given_wide, bounds='networks of up to 3 tensors, all dimensions symbolic in 1..10^6'),
    S('exact_total', exact_total, bounds='networks of 3 tensors with dimensions near 10^6'),
]
