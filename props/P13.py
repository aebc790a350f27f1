"""P13: the ready-made network recipes compute their documented diagrams.

Each diagram is written as tensors whose legs are given line names; a line occurring twice is summed, the others
are the outer lines, grouped (in row-major order) into the legs of the result."""
import warnings
from props.common import *

BOUNDS = "Every recipe with distinct symbolic tensors: all lines of dimension 2 for the small recipes, and for the large ones every pair (thorough: every triple) of lines of dimension 2, or 3 and 2, with the others 1; every leg order of one tensor at a time; shared tensors as built by the dictionary helpers."

DIAGRAMS = {
    'triangleContractFTN': (
        {'u': '1:A 2:p 3:q', 'l': '1:B 2:r 3:p', 'r': '1:C 2:q 3:r'},
        {'1': 'A', '2': 'B', '3': 'C'}),
    'squareContractFTN': (
        {'ul': 'u:a l:c d:1 r:2', 'ur': 'u:b l:2 d:3 r:g', 'dl': 'u:1 l:d d:e r:4', 'dr': 'u:3 l:4 d:f r:h'},
        {'u': 'ab', 'l': 'cd', 'd': 'ef', 'r': 'gh'}),
    'squareContractOutFTN': (
        {'ul': 'd:1 r:2 o:a', 'ur': 'd:3 l:2 o:b', 'dl': 'u:1 r:4 o:c', 'dr': 'u:3 l:4 o:d'},
        {'u': 'a', 'r': 'b', 'l': 'c', 'd': 'd'}),
    'CTMRGHEdgeExtendFTN': (
        {'p': 'l:a r:b u:1', 'w': 'u:c d:1 l:d r:e'},
        {'l': 'ad', 'r': 'be', 'u': 'c'}),
    'CTMRGVEdgeExtendFTN': (
        {'p': 'u:a d:b r:1', 'w': 'u:c d:d l:1 r:e'},
        {'u': 'ac', 'd': 'bd', 'r': 'e'}),
    'CTMRGCornerExtendFTN': (
        {'c': 'u:1 r:2', 'pv': 'u:a d:1 r:3', 'ph': 'l:2 r:b u:4', 'w': 'u:c d:4 l:3 r:d'},
        {'u': 'ac', 'r': 'bd'}),
    'CTMRGHEdgeBuildFTN': (
        {'p': 'l:1 r:2 u:a', 'al': 'l:b r:1', 'ar': 'l:c r:2'},
        {'l': 'b', 'r': 'c', 'u': 'a'}),
    'CTMRGVEdgeBuildFTN': (
        {'p': 'u:1 d:2 r:a', 'au': 'u:1 d:b', 'ad': 'u:2 d:c'},
        {'u': 'b', 'd': 'c', 'r': 'a'}),
    'CTMRGEvenZFTN': (
        {'alu': 'u:1 r:2', 'ald': 'u:1 r:3', 'aru': 'u:4 r:2', 'ard': 'u:4 r:3'}, {}),
    'CTMRGOddFTN': (
        {'alu': 'u:1 r:2', 'ald': 'u:3 r:4', 'aru': 'u:5 r:6', 'ard': 'u:7 r:8', 'pu': 'l:2 r:6 u:9', 'pd': 'l:4 r:8 u:k',
         'pl': 'u:1 d:3 r:m', 'pr': 'u:5 d:7 r:n', 'w': 'u:9 d:k l:m r:n'}, {}),
    'HOTRGHorizontalContractFTN': (
        {'u': 'u:a d:1 l:2 r:3', 'd': 'u:1 d:b l:4 r:5', 'l': 'u:2 d:4 o:c', 'r': 'u:3 d:5 o:e'},
        {'u': 'a', 'd': 'b', 'l': 'c', 'r': 'e'}),
    'HOTRGVerticalContractFTN': (
        {'l': 'u:2 d:4 l:a r:1', 'r': 'u:3 d:5 l:1 r:b', 'u': 'l:2 r:3 o:c', 'd': 'l:4 r:5 o:e'},
        {'u': 'c', 'd': 'e', 'l': 'a', 'r': 'b'}),
    # the environments: two copies of a 2x1 (1x2) block whose far sides are joined
    'squareHorizontalContractFTN:l': (
        {'ul': 'u:1 d:2 l:a r:3', 'dl': 'u:2 d:4 l:b r:5', 'ur': 'u:1 d:6 l:c r:3', 'dr': 'u:6 d:4 l:e r:5'},
        {'l': 'ab', 'r': 'ce'}),
    'squareHorizontalContractFTN:r': (
        {'ur': 'u:1 d:2 r:a l:3', 'dr': 'u:2 d:4 r:b l:5', 'ul': 'u:1 d:6 r:c l:3', 'dl': 'u:6 d:4 r:e l:5'},
        {'r': 'ab', 'l': 'ce'}),
    'squareVerticalContractFTN:u': (
        {'ul': 'l:1 r:2 u:a d:3', 'ur': 'l:2 r:4 u:b d:5', 'dl': 'l:1 r:6 u:c d:3', 'dr': 'l:6 r:4 u:e d:5'},
        {'u': 'ab', 'd': 'ce'}),
    'squareVerticalContractFTN:d': (
        {'dl': 'l:1 r:2 d:a u:3', 'dr': 'l:2 r:4 d:b u:5', 'ul': 'l:1 r:6 d:c u:3', 'ur': 'l:6 r:4 d:e u:5'},
        {'d': 'ab', 'u': 'ce'}),
    'EvenblyTNRQEnvFTN': (
        {'uul': 'l:a u:b r:1 d:2', 'uur': 'l:3 u:4 r:1 d:5', 'udl': 'l:6 u:2 r:7 d:8', 'udr': 'l:6 u:5 r:9 d:k',
         'dul': 'l:m u:n r:7 d:8', 'dur': 'l:m u:o r:9 d:k', 'ddl': 'l:c u:e r:p d:n', 'ddr': 'l:3 u:4 r:p d:o'},
        {'1': 'ab', '2': 'ce'}),
    # the networks of the tensor network renormalisation example
    'TNR.createQxAFTN': (
        {'q': 'h:1 v:2 o:a', 'A': 'l:1 u:2 r:b d:c'}, {'v': 'c', 'h': 'b', 'o': 'a'}),
    'TNR.createCFTN': (
        {'ul': 'v:1 h:3 o:a', 'ur': 'v:2 h:3 o:b', 'dl': 'v:1 h:4 o:c', 'dr': 'v:2 h:4 o:e'}, {'ul': 'a', 'ur': 'b', 'dl': 'c', 'dr': 'e'}),
    'TNR.createCCFTN': (
        {'u': 'ul:a ur:b dl:1 dr:2', 'd': 'ul:c ur:e dl:1 dr:2'}, {'ul': 'a', 'ur': 'b', 'dl': 'c', 'dr': 'e'}),
}
BIG = ['CTMRGOddFTN', 'EvenblyTNRQEnvFTN', 'squareHorizontalContractFTN:l', 'squareHorizontalContractFTN:r', 'squareVerticalContractFTN:u', 'squareVerticalContractFTN:d',
       'HOTRGHorizontalContractFTN', 'HOTRGVerticalContractFTN', 'squareContractFTN', 'CTMRGCornerExtendFTN']
SMALL = [x for x in DIAGRAMS if x not in BIG]


def parse(name):
    tens, out = DIAGRAMS[name]
    return dict((n, [tuple(x.split(':')) for x in s.split()]) for n, s in tens.items()), out


def lines_of(tens):
    r = []
    for legs in tens.values():
        for _, l in legs:
            if l not in r:
                r.append(l)
    return r


def reference(c, ops, out, dims):
    """ops: [(array, lines)]; out: {label: lines}"""
    labs = list(out)
    flat_out = [x for l in labs for x in out[l]]
    r = c.total(ops, flat_out, dims)
    shape = []
    for l in labs:
        k = 1
        for x in out[l]:
            k *= dims[x]
        shape.append(k)
    return r.reshape(tuple(shape)), labs


def recipe(c, name):
    f, _, d = name.partition(':')
    g = getattr(c.lib.TNR, f[4:]) if f.startswith('TNR.') else getattr(c.lib.contractExp, f)
    return g(d) if d else g()


def use(c, name, dims, flip=None, cplx=None, ftn=None, tag=''):
    tens, out = parse(name)
    ten, ops = {}, []
    for n, legs in tens.items():
        ls = legs
        if flip == n:
            ls = c.perm('legs', legs) if len(tens) < 8 else c.choose('legs', [legs[::-1], legs[1:] + legs[:1]])
        t, a = T(c, tag + n, [x for x, _ in ls], [dims[l] for _, l in ls], cplx == n)
        ten[n] = t
        ops.append((a, [l for _, l in ls]))
    f = ftn or recipe(c, name)
    res = f.contract(c.lib.TensorDict(ten) if len(tens) % 2 else ten)
    want, labs = reference(c, ops, out, dims)
    c.eq(c.obs(res, labs, name), want, name)
    c.invariant(res, name)
    for n, legs in tens.items():
        c.ok(sorted(ten[n].labels) == sorted(x for x, _ in legs) and all(l.bond is None for l in ten[n].legs), name + ": supplied tensors are left alone")
    return f


def uniform(c):
    """all lines of one dimension, or outer lines 3 (1) and inner lines 2"""
    name = c.choose('recipe', SMALL)
    tens, out = parse(name)
    outer = [x for v in out.values() for x in v]
    k = c.choose('dims', [0, 1, 2])
    dims = dict((l, {0: 2, 1: 3 if l in outer else 2, 2: 1 if l in outer else 3}[k]) for l in lines_of(tens))
    use(c, name, dims, c.choose('flip', list(tens)) if k == 0 else None, c.choose('cplx', [None] + list(tens)[:1]) if k == 0 else None)


def windows(c, names=BIG, r=2):
    """two (three) lines wide, the others of dimension 1, and every line its own dimension where it matters"""
    name = c.choose('recipe', names)
    tens, out = parse(name)
    ls = lines_of(tens)
    i = c.choose('i', list(range(len(ls))))
    j = c.choose('j', list(range(i, len(ls))))
    dims = dict((l, 1) for l in ls)
    dims[ls[i]] = 3 if r == 2 else 2
    dims[ls[j]] = 2
    if r == 3:
        k = c.choose('k', list(range(j, len(ls))))
        dims[ls[k]] = 2
    use(c, name, dims)


def blocks(c):
    """lines in four groups, two groups wide: every pair of lines is wide together in some choice"""
    name = c.choose('recipe', BIG)
    tens, out = parse(name)
    ls = lines_of(tens)
    i, j = c.choose('groups', [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])
    dims = dict((l, 2 if k % 4 in (i, j) else 1) for k, l in enumerate(ls))
    use(c, name, dims)


def wide(c):
    """the large recipes with the lines around one tensor wide"""
    name = c.choose('recipe', BIG)
    tens, out = parse(name)
    n = c.choose('tensor', list(tens))
    dims = dict((l, 1) for l in lines_of(tens))
    for k, (_, l) in enumerate(tens[n]):
        dims[l] = 2
    use(c, name, dims, flip=n, cplx=n)


def full(c):
    """all lines of dimension 2 in the large recipes of four tensors"""
    name = c.choose('recipe', [x for x in BIG if x not in ('CTMRGOddFTN', 'EvenblyTNRQEnvFTN')])
    tens, out = parse(name)
    use(c, name, dict((l, 2) for l in lines_of(tens)))


def again(c):
    """one recipe object used with different dimensions, and two objects of the same recipe"""
    name = c.choose('recipe', SMALL + ['squareContractFTN', 'squareHorizontalContractFTN:l', 'CTMRGCornerExtendFTN'])
    tens, out = parse(name)
    ls = lines_of(tens)
    f = None
    for k in range(2):
        w = c.choose('wide%d' % k, [0, 1, 2])
        dims = dict((l, 2 if i % 3 == w else 1) for i, l in enumerate(ls))
        f = use(c, name, dims, ftn=f, tag='use%d' % k)
    use(c, name, dict((l, 2 if i % 2 else 1) for i, l in enumerate(ls)), tag='other')


def shared(c):
    """dictionaries built from one or two tensors"""
    case = c.choose('case', ['triangle', 'square', 'square2', 'env', 'even'])
    l = c.choose('order', [0, 1, 2])
    rot = lambda s: list(s)[l:] + list(s)[:l]
    E = c.lib.contractExp
    if case == 'triangle':
        t, a = T(c, 'a', rot('123'), (2, 2, 2), bool(c.choose('cplx', [0, 1])))
        d = E.makeTriangleTensorDict(t)
        who = {'u': a, 'l': a, 'r': a}
        name = 'triangleContractFTN'
        legs = rot('123')
    else:
        legs = rot('uldr')
        t, a = T(c, 'a', legs, (2,) * 4)
        u, b = T(c, 'b', legs, (2,) * 4)
        if case == 'square2':
            d = E.makeSquareTensorDict(t, u)
            who = {'ul': a, 'ur': b, 'dr': a, 'dl': b}
        else:
            d = E.makeSquareTensorDict(t)
            who = {'ul': a, 'ur': a, 'dr': a, 'dl': a}
        name = {'square': 'squareContractFTN', 'square2': 'squareContractFTN', 'env': 'squareHorizontalContractFTN:l', 'even': 'squareVerticalContractFTN:d'}[case]
    if case == 'even' or case == 'env':
        if l != 1:
            c.skip()
    res = recipe(c, name).contract(d)
    tens, out = parse(name)
    ops = [(who[n], [dict(tens[n])[x] for x in legs]) for n in tens]
    want, labs = reference(c, ops, out, dict((x, 2) for x in lines_of(tens)))
    c.eq(c.obs(res, labs, name), want, name)
    c.eq(c.obs(t, legs, "supplied tensor"), a, "supplied tensor")


def disentangled(c):
    """the environment of the TNR example; its disentangler is symmetric under exchanging left and right"""
    dims = dict((l, 1) for l in 'abce12345678')
    i = c.choose('wide', ['a7', 'b8', 'c1', 'e2', '34', '56', 'ab', '78', '12', 'ce', '35', '46', '3456'])
    for l in i:
        dims[l] = 2
    # ql.v, qr.v meet u at 3, 4; yl.v, yr.v at 5, 6: the two sides have equal dimensions
    dims['3'] = dims['4'] = max(dims['3'], dims['4'])
    dims['5'] = dims['6'] = max(dims['5'], dims['6'])
    tens = {'CC': ('ul:a ur:b dl:7 dr:8'), 'ql': 'h:1 v:3 o:7', 'qr': 'h:2 v:4 o:8', 'yl': 'h:1 v:5 o:c', 'yr': 'h:2 v:6 o:e'}
    ten, ops = {}, []
    flip = c.choose('flip', [None] + list(tens))
    for n, spec in tens.items():
        legs = [tuple(x.split(':')) for x in spec.split()]
        if flip == n:
            legs = legs[::-1]
        t, a = T(c, n, [x for x, _ in legs], [dims[l] for _, l in legs])
        ten[n] = t
        ops.append((a, [l for _, l in legs]))
    w = c.array('w', (dims['3'], dims['4'], dims['5'], dims['6']))
    u = w + c.transpose(w, (1, 0, 3, 2))
    ten['u'] = c.lib.Tensor(data=u, labels=['ol', 'or', 'il', 'ir'])
    ops.append((u, list('3456')))
    res = c.lib.TNR.createSCEnvSFTN().contract(ten)
    c.eq(c.obs(res, ['ul', 'dl', 'ur', 'dr'], "environment"), c.total(ops, list('acbe'), dims), "environment of the TNR example")


def refused_direction(c):
    f, d = c.choose('case', [('squareHorizontalContractFTN', 'u'), ('squareHorizontalContractFTN', 'd'), ('squareVerticalContractFTN', 'l'), ('squareVerticalContractFTN', 'r'), ('squareVerticalContractFTN', 'x')])
    c.raises(lambda: getattr(c.lib.contractExp, f)(d), "direction that does not exist")


def traces(c):
    case = c.choose('case', ['triangle', 'square', 'self'])
    E = c.lib.contractExp
    cplx = bool(c.choose('cplx', [0, 1]))
    if case == 'triangle':
        ex = c.choose('extra', [0, 1])
        la = c.perm('la', ['1', '2', '3'] + ['e'] * ex)
        d = {'1': 2, '2': 3, '3': 2, 'e': 2}
        if ex:
            d['2'] = 1
        lb = c.perm('lb', ['1', '2', '3'])
        a, ra = T(c, 'a', la, [d[x] for x in la], cplx)
        b, rb = T(c, 'b', lb, [d[x] for x in lb])
        if c.choose('linked', [0, 1]):
            link(c, a, '1', b, '1')
        same = not ex and c.choose('same', [0, 1])
        if same:
            b, rb, lb = a, ra, la
        partners = [l.anotherSide() for l in a.legs + b.legs]
        for _ in range(c.choose('calls', [1, 2])):
            r = E.triangleTensorTrace(a, b)
        out = ['e'] * ex
        c.ok(all(x is y for x, y in zip([l.anotherSide() for l in a.legs + b.legs], partners)) and list(a.labels) == list(la) and list(b.labels) == list(lb), "links and labels of the inputs")
        c.eq(c.obs(b, lb, "second input"), rb, "second input")
        c.eq(c.obs(r, out, "trace of two triangles"), c.total([(ra, la), (rb, lb)], out, d), "trace of two triangles")
        c.eq(c.obs(a, la, "input"), ra, "input")
        c.invariant(a, "input")
    elif case == 'square':
        l = c.perm('l', list('uldr'))
        d = c.choose('dims', [(2, 2), (2, 3)])
        dd = dict(u=d[0], d=d[0], l=d[1], r=d[1])
        a, ra = T(c, 'a', l, [dd[x] for x in l], cplx)
        r = E.squareTrace(a)
        c.eq(c.arr0(r), c.arr0(c.total([(ra, [{'u': 'V', 'd': 'V', 'l': 'H', 'r': 'H'}[x] for x in l])], [], {'V': d[0], 'H': d[1]})), "trace of a square tensor")
    else:
        kind = c.choose('kind', ['d', 'g'])
        dims = c.choose('dims', {'d': [(2,), (2, 3), (2, 1, 2), (2, 2, 2, 2)], 'g': [(2,), (3, 3), (2, 2, 2)]}[kind])
        labs = ['x%d' % i for i in range(len(dims))] if c.choose('distinct', [1, 0]) else ['x'] * len(dims)
        a, ra = T(c, 'a', labs, dims, cplx) if kind == 'd' else D(c, 'a', labs, dims[0], cplx)
        r = E.selfTrace(a)
        acc = None
        for ix in c.idx(dims):
            e = ra[ix] * ra[ix]
            acc = e if acc is None else acc + e
        c.eq(c.arr0(r.single()), c.arr0(acc), "overlap of a tensor with itself")
        c.ok(list(a.labels) == labs and all(x.bond is None for x in a.legs), "input")


def factory(c):
    """the small tensor factories keep elements and name the legs as documented"""
    F = c.lib.tensorFactory
    case = c.choose('case', ['triangle', 'square', 'ul', 'ur', 'dl', 'dr', 'bad'])
    if case == 'bad':
        a = c.array('a', c.choose('shape', [(2, 2), (2, 2, 2, 2, 2)]))
        c.raises(lambda: F.makeTriangleTensor(a), "triangle of another rank")
        c.raises(lambda: F.makeSquareTensor(a), "square of another rank")
        c.raises(lambda: F.makeSquareOutTensor(c.array('b', (2, 2, 2)), 'xx'), "corner that does not exist")
        return
    cplx = bool(c.choose('cplx', [0, 1]))
    if case == 'square':
        a = c.array('a', (2, 3, 1, 2), cplx)
        l = c.choose('labels', [None, ['a', 'b', 'c', 'd']])
        t = F.makeSquareTensor(a) if l is None else F.makeSquareTensor(a, l)
        want = l or ['u', 'l', 'd', 'r']
    else:
        a = c.array('a', (2, 3, 1), cplx)
        if case == 'triangle':
            l = c.choose('labels', [None, ['2', '3', '1']])
            t = F.makeTriangleTensor(a) if l is None else F.makeTriangleTensor(a, labels=l)
            want = l or ['1', '2', '3']
        else:
            t = F.makeSquareOutTensor(a, case)
            want = {'ul': ['d', 'r', 'o'], 'ur': ['d', 'l', 'o'], 'dl': ['u', 'r', 'o'], 'dr': ['u', 'l', 'o']}[case]
    c.ok(list(t.labels) == want, "labels")
    c.eq(c.dense(t), a, "elements")
    c.invariant(t, case)


SCENARIOS = [
    S('uniform', uniform, bounds='10 small recipes, every line 1..3, every leg order of one tensor'),
    S('blocks', blocks, bounds='10 large recipes, half of the lines wide at a time, covering every pair'),
    S('windows', windows, tier='thorough', bounds='10 large recipes, every pair of lines wide'),
    S('wide', wide, bounds='10 large recipes, all lines around one tensor wide, every leg order of it'),
    S('full', full, tier='quick', bounds='8 recipes of 4 tensors, all lines of dimension 2'),
    S('again', again),
    S('shared', shared),
    S('disentangled', disentangled, bounds='one environment of 6 tensors, 13 choices of wide lines'),
    S('refused_direction', refused_direction),
    S('traces', traces),
    S('factory', factory),
    S('windows3', lambda c: windows(c, BIG, 3), tier='thorough', bounds='10 large recipes, every triple of lines wide'),
]
