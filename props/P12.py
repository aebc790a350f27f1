"""P12: a reusable finite network always contracts what it describes"""
import warnings
from props.common import *

BOUNDS = "Up to 4 (selected networks: 8) tensors of rank 0..5 with dimensions 1..3 (symbolic elements, data-less ones with symbolic dimensions), every order of names and links, histories of up to 3 edits between 2..4 contractions."


class Model:
    """what a description denotes, kept beside the real object"""

    def __init__(self, names=()):
        self.names, self.links, self.pre, self.post, self.out = list(names), [], [], [], []

    def expect(self, c, ten, tag=True):
        """ten: {name: (reference array, labels)} -> (array, labels); labels without tags when tag is False"""
        ops, dims, used = [], {}, {}
        for k, (n, l, m, k2) in enumerate(self.links):
            used[n + '-' + l] = used[m + '-' + k2] = 's%d' % k
        free = []
        for n in self.names:
            a, labs = ten[n]
            labs = list(labs)
            for (x, o, w) in self.pre:
                if x == n and o in labs:
                    labs[labs.index(o)] = w
            keys = []
            for i, l in enumerate(labs):
                f = n + '-' + l
                if f in used:
                    keys.append(used[f])
                else:
                    keys.append('%s/%d' % (f, i))
                    free.append((f, keys[-1]))
            ops.append((a, keys))
            dims.update(zip(keys, a.shape))
        r = c.total(ops, [k for _, k in free], dims)
        nm = [f for f, _ in free]
        for labs, new in self.out:
            r, nm = fuse_ref(c, r, nm, ['-'.join(x) if isinstance(x, tuple) else x for x in labs], 'res-' + new)
        for (x, o, w) in self.post:
            if x + '-' + o in nm:
                nm[nm.index(x + '-' + o)] = x + '-' + w
        return r, [x[x.index('-') + 1:] if tag else x for x in nm]


def fuse_ref(c, ref, names, sel, new):
    pos = [names.index(x) for x in sel]
    rest = [i for i in range(len(names)) if i not in pos]
    d = 1
    for i in pos:
        d *= ref.shape[i]
    out = c.zeros((d,) + tuple(ref.shape[i] for i in rest), c.is_complex(ref))
    for ix in c.idx(ref.shape):
        r = 0
        for i in pos:
            r = r * ref.shape[i] + ix[i]
        out[(r,) + tuple(ix[i] for i in rest)] = ref[ix]
    return out, [new] + [names[i] for i in rest]


class Pair:
    """the real description and its model, edited together"""

    def __init__(self, c, names=None, **kw):
        self.c = c
        self.f = c.lib.FiniteTensorNetwork(**({} if names is None else {'tensorNames': names}), **kw)
        self.m = Model(names or ())

    def link(self, a, la, b, lb):
        self.f.addLink(a, la, b, lb)
        self.m.links.append((a, la, b, lb))

    def add(self, n):
        self.f.addTensor(n)
        self.m.names.append(n)

    def rem(self, n):
        self.f.removeTensor(n)
        self.m.names.remove(n)

    def pre(self, *x):
        self.f.addPreNameChange(*x)
        self.m.pre.append(x)

    def post(self, *x):
        self.f.addPostNameChange(*x)
        self.m.post.append(x)

    def rpre(self, *x):
        self.f.removePreNameChange(*x)
        self.m.pre.remove(x)

    def rpost(self, *x):
        self.f.removePostNameChange(*x)
        self.m.post.remove(x)

    def out(self, labs, new):
        self.f.addPostOutProduct(labs, new)
        self.m.out.append((list(labs), new))

    def run(self, ten, what, wrap=False, tag=None):
        """ten: {name: (tensor, reference, labels)}"""
        c = self.c
        snap = {}
        for n, (t, a, l) in ten.items():
            snap[n] = (t, t.a, None if t.a is None else t.a.copy(), list(t.legs), [x.name for x in t.legs], [x.bond for x in t.legs], [x.tensor for x in t.legs])
        d = dict((n, t) for n, (t, a, l) in ten.items())
        keys = list(d)
        # results with equal labels can only be told apart by their tags
        ref = dict((n, (a, l)) for n, (t, a, l) in ten.items())
        want, nm = self.m.expect(c, ref, tag is not False)
        if len(set(nm)) < len(nm):
            tag = False
            want, nm = self.m.expect(c, ref, False)
        kw = {} if tag is None else {'removeTensorTag': tag}
        res = self.f.contract(c.lib.TensorDict(d) if wrap else d, **kw)
        if len(set(nm)) < len(nm):
            # equal names even with tags (two legs of one tensor, whose elements are symmetric in them)
            names, left = [l.name for l in res.legs], list(range(len(nm)))
            c.ok(sorted(names) == sorted(nm), what + ": labels %s expected, %s found" % (sorted(nm), sorted(names)))
            order = []
            for x in nm:
                i = [k for k in left if names[k] == x][0]
                left.remove(i)
                order.append(i)
            c.eq(c.transpose(c.dense(res), order), want, what)
        else:
            c.eq(c.obs(res, nm, what), want, what)
        c.invariant(res, what)
        c.ok(all(l.bond is None for l in res.legs), what + ": the result has no links")
        c.ok(list(d) == keys and all(d[n] is ten[n][0] for n in keys), what + ": the dictionary changed")
        for n, (t, a, ac, legs, nms, bonds, owners) in snap.items():
            c.ok(t.a is a and len(t.legs) == len(legs) and all(x is y for x, y in zip(t.legs, legs)), what + ": legs of a supplied tensor changed")
            c.ok([x.name for x in t.legs] == nms and all(x.bond is y for x, y in zip(t.legs, bonds)) and all(x.tensor is y for x, y in zip(t.legs, owners)), what + ": labels or links of a supplied tensor changed")
            c.ok(all(x is not y for x in res.legs for y in legs), what + ": the result shares legs with a supplied tensor")
            if ac is not None:
                c.eq(t.a, ac, what + ": elements of a supplied tensor changed")
        return res


def mk(c, name, labels, dims, kind='d', cplx=False):
    t, a = T(c, name, labels, dims, cplx) if kind == 'd' else D(c, name, labels, dims[0], cplx)
    return (t, a, list(labels))


SINGLE = {
    # name: (links, {tensor: labels})
    'pair': ([('a', 'x', 'b', 'y')], {'a': ['u', 'x'], 'b': ['y', 'v']}),
    'double': ([('a', 'x', 'b', 'x'), ('b', 'y', 'a', 'y')], {'a': ['x', 'y', 'u'], 'b': ['y', 'x']}),
    'chain': ([('b', 'l', 'a', 'r'), ('b', 'r', 'c', 'l')], {'a': ['r', 'u'], 'b': ['l', 'r'], 'c': ['l', 'u']}),
    'ring': ([('a', 'r', 'b', 'l'), ('b', 'r', 'c', 'l'), ('c', 'r', 'a', 'l')], {'a': ['l', 'r'], 'b': ['l', 'r'], 'c': ['l', 'r']}),
    'apart': ([('a', 'x', 'b', 'x')], {'a': ['x', 'u'], 'b': ['x'], 'c': ['u']}),
    'none': ([], {'a': ['u'], 'b': ['u', 'v']}),
    'star': ([('m', 'p', 'a', 'p'), ('m', 'q', 'b', 'p'), ('m', 'r', 'c', 'p')], {'m': ['p', 'q', 'r'], 'a': ['p', 'u'], 'b': ['p'], 'c': ['p', 'u']}),
}


def single(c):
    """one use: every topology, order of names, links and legs, kinds of tensors, options"""
    nm = c.choose('net', list(SINGLE))
    links, labs = SINGLE[nm]
    names = c.perm('names', list(labs)) if len(labs) < 4 else list(labs)
    real = c.choose('cost', [None, True, False])
    p = Pair(c, names if c.choose('names_as', [0, 1]) else tuple(names), **({} if real is None else {'realCost': real}))
    ls = links[::-1] if c.choose('rev', [0, 1]) else links
    for (a, la, b, lb) in ls:
        if c.choose('dir', [0, 1]):
            a, la, b, lb = b, lb, a, la
        p.link(a, la, b, lb)
    ten = {}
    g = c.choose('diag', ['', names[0], names[-1]])
    for k, n in enumerate(c.perm('supply', list(labs)) if len(labs) == 2 else labs):
        l = labs[n] if k != 1 else labs[n][::-1]
        ten[n] = mk(c, n, l, [2] * len(l), 'g' if n == g and nm != 'double' else 'd', k == 0)
    p.run(ten, nm, wrap=bool(c.choose('wrap', [0, 1])), tag=c.choose('tag', [None, False]) if len(labs) == 2 else None)


SCHEMES = [{}, {'a': 'T10', 'b': 'T1', 'x': 'k', 'u': 'A', 'w': 'T1', 'y': 'T10', 'v': 'aa', 'n': 'B', 'z': 'a0'},
           {'a': 'y', 'b': 'x', 'x': 'b', 'y': 'zz', 'u': 'b1', 'w': 'a', 'v': 'a', 'n': 'x', 'z': 'y'}]


class Named(Pair):
    """a Pair whose names are all replaced (the scenario's names are only meant to be different)"""

    def __init__(self, c, names, scheme, **kw):
        self.sub = lambda x: tuple(map(self.sub, x)) if isinstance(x, tuple) else '-'.join(scheme.get(z, z) for z in x.split('-'))
        Pair.__init__(self, c, [self.sub(n) for n in names], **kw)

    def link(self, *x):
        Pair.link(self, *map(self.sub, x))

    def pre(self, *x):
        Pair.pre(self, *map(self.sub, x))

    def post(self, *x):
        Pair.post(self, *map(self.sub, x))

    def out(self, labs, new):
        Pair.out(self, [self.sub(x) for x in labs], self.sub(new))


def repeated(c):
    """several renamings of legs of one name; removing one of them leaves the others"""
    p = Pair(c, ['a', 'b'])
    p.link('a', 'j', 'b', 'x')
    when = c.choose('when', ['pre', 'post'])
    new = c.choose('new', [['p', 'q'], ['q', 'p'], ['p', 'p']])
    for n in new:
        getattr(p, when)('a', 'i', n)
    if c.choose('other', [0, 1]):
        getattr(p, when)('b', 'y', 'p')
    t, a = T(c, 'a', ['i', 'i', 'j'], (2, 2, 2))
    for k in range(2):
        a[1, 0, k] = a[0, 1, k]
        t.a[1, 0, k] = t.a[0, 1, k]
    b = mk(c, 'b', ['x', 'y'], (2, 2))
    if c.choose('before', [0, 1]):
        p.run({'a': (t, a, ['i', 'i', 'j']), 'b': b}, "both", tag=False)
        p.f.unlock()
    for n in c.choose('gone', [[0], [1], [1, 0]]):
        getattr(p, 'r' + when)('a', 'i', new[n])
    p.run({'a': (t, a, ['i', 'i', 'j']), 'b': b}, "after removing a renaming", tag=False)


def renames(c):
    """renamings before, fusings and renamings after"""
    scheme = c.choose('scheme', SCHEMES)
    sub = lambda l: [scheme.get(x, x) for x in l]
    p = Named(c, ['a', 'b'], scheme)
    pre = c.choose('pre', [0, 1, 2])
    la, lb = ['x', 'u', 'w'], ['y', 'v']
    if pre == 0:
        p.link('a', 'x', 'b', 'y')
    elif pre == 1:
        p.pre('a', 'x', 'm')
        p.link('a', 'm', 'b', 'y')
    else:
        p.pre('b', 'y', 't')
        p.pre('b', 'v', 'y')
        p.link('b', 't', 'a', 'x')
    bv = 'y' if pre == 2 else 'v'
    out = c.choose('out', [0, 1, 2, 3, 4])
    if out == 1:
        p.out([('a', 'u'), 'b-' + bv], 'n')
    elif out == 2:
        p.out(['b-' + bv, 'a-u'], 'n')
    elif out == 3:
        p.out(['a-w', 'a-u', ('b', bv)], 'n')
    elif out == 4:
        p.out(['a-w', 'a-u'], 'n')
        p.out([('b', bv), c.choose('form', ['res-n', ('res', 'n')])], 'k')
    post = c.choose('post', [0, 1, 2, 3])
    if post == 1:
        p.post('a', 'w', 'z')
        p.post('b', bv, 'q')
    elif post == 2:
        # names exchanged within one tensor
        p.post('a', 'w', 't')
        p.post('a', 'u', 'w')
        p.post('a', 't', 'u')
    elif post == 3:
        p.post('res', 'n', 'fin')
    ten = {p.sub('a'): mk(c, 'a', sub(c.perm('la', la)), (2, 2, 2)), p.sub('b'): mk(c, 'b', sub(c.perm('lb', lb)), (2, 2))}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p.run(ten, "renamings and fusings", tag=c.choose('tag', [None, False, True]))


def same_tensor(c):
    """one tensor under several names, complex or diagonal"""
    kind = c.choose('kind', ['d', 'g', 'c'])
    net = c.choose('net', ['pair', 'ring', 'chain'])
    labs = {'pair': ['x', 'y'], 'ring': ['l', 'r'], 'chain': ['l', 'r', 'u']}[net]
    t = mk(c, 't', c.perm('l', labs), (2,) * len(labs), 'g' if kind == 'g' else 'd', kind == 'c')
    names = ['a', 'b'] if net == 'pair' else ['a', 'b', 'c']
    p = Pair(c, names, realCost=bool(c.choose('real', [0, 1])))
    if net == 'pair':
        p.link('a', 'x', 'b', 'x')
        if c.choose('both', [0, 1]):
            p.link('a', 'y', 'b', 'y')
    elif net == 'ring':
        for i in range(3):
            p.link(names[i], 'r', names[(i + 1) % 3], 'l')
    else:
        p.link('a', 'r', 'b', 'l')
        p.link('b', 'r', 'c', 'l')
    for i in range(2):
        p.run(dict((n, t) for n in names), "use %d" % i)


def dims_history(c):
    """the same description with tensors of other dimensions and kinds"""
    net = c.choose('net', ['chain', 'ring', 'star'])
    links, labs = SINGLE[net]
    p = Pair(c, list(labs), realCost=bool(c.choose('real', [0, 1])))
    for l in links:
        p.link(*l)
    for step in range(3):
        case = c.choose('dims%d' % step, [0, 1, 2, 3])
        dl = {0: [1, 2, 3], 1: [3, 2, 1], 2: [2, 2, 2], 3: [2, 2, 2]}[case]
        d = {}
        for k, (a, la, b, lb) in enumerate(links):
            d[a, la] = d[b, lb] = dl[k]
        ten = {}
        for n in (labs if step != 1 else list(labs)[::-1]):
            dims = [d.get((n, l), 2) for l in labs[n]]
            ten[n] = mk(c, '%s%d' % (n, step), labs[n], dims, 'g' if case == 3 and n in ('b', 'm') and len(set(dims)) == 1 else 'd')
        p.run(ten, "use %d" % step)


EDITS = ['none', 'add', 'remove', 'link', 'pre', 'rpre', 'post', 'rpost', 'out']


def edits(c, n=2):
    """contract, unlock, edit, contract again"""
    p = Pair(c, ['a', 'b'], realCost=bool(c.choose('real', [0, 1])))
    p.link('a', 'x', 'b', 'x')
    p.pre('a', 'o', 'k')
    p.post('b', 'z', 'last')
    have = ['a', 'b']
    if c.choose('third', [0, 1]):
        p.add('d')
        have.append('d')
    labs = {'a': ['x', 'o', 'y'], 'b': ['x', 'y', 'z'], 'd': ['p'], 'e': ['p', 'q'], 'f': ['w'], 'h': ['v']}
    linked = {'a', 'b'}
    done = set()

    def go(step):
        ten = {}
        for i, nm in enumerate(have):
            ten[nm] = mk(c, '%s%d' % (nm, step), labs[nm] if step % 2 == 0 else labs[nm][::-1], (2,) * len(labs[nm]))
        p.run(ten, "after %d edits (%s)" % (step, sorted(done)))
    if c.choose('before', [0, 1]):
        go(0)
    for step in range(1, n + 1):
        e = c.choose('edit%d' % step, EDITS)
        if e in done and e not in ('add', 'none'):
            c.skip()
        p.f.unlock()
        if e == 'add':
            new = [x for x in ('d', 'e', 'f', 'h') if x not in have][0]
            p.add(new)
            have.append(new)
        elif e == 'remove':
            r = [x for x in have if x not in linked]
            if not r:
                c.skip()
            p.rem(r[0])
            have.remove(r[0])
        elif e == 'link':
            p.link('b', 'y', 'a', 'y')
        elif e == 'pre':
            p.pre('b', 'z', 'zz')
        elif e == 'rpre':
            p.rpre('a', 'o', 'k')
        elif e == 'post':
            p.post('a', 'k', 'first')
        elif e == 'rpost':
            p.rpost('b', 'z', 'last')
        elif e == 'out':
            if 'pre' in done or 'rpre' in done or 'rpost' in done:
                c.skip()
            p.out([('a', 'k'), ('b', 'z')], 'f')
        if 'out' in done and e in ('pre', 'rpre', 'rpost'):
            c.skip()
        done.add(e)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            go(step)


def locked(c):
    """a locked description refuses every edit and still describes the same network"""
    p = Pair(c, ['a', 'b'])
    p.link('a', 'x', 'b', 'x')
    p.pre('a', 'o', 'k')
    p.post('b', 'z', 'last')
    ten = lambda s: {'a': mk(c, 'a%d' % s, ['x', 'o'], (2, 2)), 'b': mk(c, 'b%d' % s, ['z', 'x'], (2, 2))}
    f = p.f
    how = c.choose('how', ['lock', 'contract', 'relock'])
    if how == 'lock':
        f.lock()
    else:
        p.run(ten(0), "first use")
        if how == 'relock':
            f.unlock()
            f.lock()
    acts = [lambda: f.addTensor('d'), lambda: f.removeTensor('a'), lambda: f.addLink('a', 'o', 'b', 'z'), lambda: f.addPreNameChange('a', 'x', 'q'),
            lambda: f.addPostNameChange('a', 'k', 'q'), lambda: f.removePreNameChange('a', 'o', 'k'), lambda: f.removePostNameChange('b', 'z', 'last'),
            lambda: f.addPostOutProduct(['a-k', 'b-z'], 'f')]
    k = c.choose('edit', list(range(len(acts))))
    c.raises(acts[k], "edit %d of a locked description" % k)
    p.run(ten(1), "after a refused edit")
    c.raises(acts[k], "edit %d after another use" % k)
    f.unlock()
    if k == 1:
        return
    c.ok(c.attempt(acts[k])[0], "edit %d of an unlocked description" % k)


def mismatch(c):
    """names that do not match are refused, and a correct use afterwards is right"""
    p = Pair(c, ['a', 'b'])
    p.link('a', 'x', 'b', 'x')
    ten = {'a': mk(c, 'a', ['x', 'o'], (2, 2)), 'b': mk(c, 'b', ['x', 'z'], (2, 2)), 'd': mk(c, 'd', ['x'], (2,))}
    if c.choose('first', [0, 1]):
        p.run({'a': ten['a'], 'b': ten['b']}, "first use")
    keys = c.choose('keys', [['a'], ['b'], [], ['a', 'b', 'd'], ['a', 'd'], ['d', 'b'], ['d']])
    d = dict((k, ten[k][0]) for k in keys)
    c.raises(lambda: p.f.contract(d), "names %s" % keys)
    if c.choose('dimension', [0, 1]):
        bad = mk(c, 'bad', ['x', 'z'], (3, 2))
        c.raises(lambda: p.f.contract({'a': ten['a'][0], 'b': bad[0]}), "linked legs of different dimension")
    for k in ten:
        t, a, l = ten[k]
        c.ok([x.name for x in t.legs] == l and all(x.bond is None for x in t.legs), "tensors after a refusal")
    p.run({'b': ten['b'], 'a': ten['a']}, "correct use")


def separate(c):
    """two descriptions never influence each other, however they are made and interleaved"""
    names = ['a', 'b']
    how = c.choose('how', ['default', 'shared list', 'own'])
    if how == 'default':
        p, q = Pair(c), Pair(c)
        for n in names:
            p.add(n)
        for n in ['b', 'c', 'a']:
            q.add(n)
    else:
        arg = names if how == 'shared list' else list(names)
        p = Pair(c, arg)
        q = Pair(c, arg if how == 'shared list' else list(names))
        q.add('c')
        c.ok(names == ['a', 'b'], "the caller's list of names changed")
    order = c.choose('order', [0, 1])
    ten = {'a': mk(c, 'a', ['x', 'y'], (2, 2)), 'b': mk(c, 'b', ['x', 'y'], (2, 2)), 'c': mk(c, 'c', ['x'], (2,))}
    if order:
        q.link('a', 'x', 'c', 'x')
        q.post('b', 'y', 'k')
    p.link('a', 'x', 'b', 'y')
    if not order:
        q.link('a', 'x', 'c', 'x')
        q.post('b', 'y', 'k')
    seq = c.choose('seq', ['pq', 'qp', 'pqp', 'qpq'])
    for s in seq:
        if s == 'p':
            p.run({'a': ten['a'], 'b': ten['b']}, "first description")
        else:
            q.run(ten, "second description")
    if how == 'shared list' and c.choose('late', [0, 1]):
        names.append('zz')
        p.run({'a': ten['a'], 'b': ten['b']}, "after the caller's list changed")


def results(c):
    """results feed later uses, and never share anything with the inputs"""
    p = Pair(c, ['a', 'b'], realCost=bool(c.choose('real', [0, 1])))
    p.link('a', 'x', 'b', 'y')
    p.post('a', 'y', 'y')
    a, b = mk(c, 'a', ['x', 'y'], (2, 2)), mk(c, 'b', ['x', 'y'], (2, 2))
    r = p.run({'a': a, 'b': b}, "first")
    # r has legs y (of a) and x (of b)
    ra, nm = p.m.expect(c, {'a': a[1:], 'b': b[1:]})
    if c.choose('next', [0, 1]):
        r2 = p.run({'a': (r, c.transpose(ra, [nm.index(l) for l in r.labels]), list(r.labels)), 'b': a}, "result used again")
    r.a[(0, 0)] = 7
    r.renameLabel('x', 'other')
    p.run({'a': a, 'b': b}, "after the result changed")


def linked_inputs(c):
    """supplied tensors that have links of their own are left as they are"""
    p = Pair(c, ['a', 'b'])
    p.link('a', 'x', 'b', 'x')
    a, b, e = mk(c, 'a', ['x', 'y'], (2, 2)), mk(c, 'b', ['x', 'y'], (2, 2)), mk(c, 'e', ['x'], (2,))
    link(c, a[0], 'x', (b if c.choose('to', [0, 1]) else e)[0], 'x', c.choose('how', [0, 1]))
    if c.choose('more', [0, 1]):
        link(c, a[0], 'y', b[0], 'y', 0)
    for i in range(2):
        p.run({'a': a, 'b': b}, "use %d" % i)
    c.invariant(a[0], "supplied tensor")
    c.invariant(b[0], "supplied tensor")


def like(c):
    """data-less tensors: the result's legs, then the same description with real data"""
    p = Pair(c, ['a', 'b', 'd'], realCost=bool(c.choose('real', [0, 1])))
    p.link('a', 'x', 'b', 'x')
    p.link('b', 'y', 'd', 'y')
    fuse = c.choose('fuse', [0, 1])
    if fuse:
        p.out([('a', 'o'), ('d', 'z')], 'f')
    lo, hi = 1, 9
    dx, dy, do, dz = c.int('dx', lo, hi), c.choose('dy', [2, 7]), c.int('do', lo, hi), c.choose('dz', [1, 5])
    L = lambda labs, dims: c.lib.TensorLike(shape=dims, labels=labs)
    order = c.choose('order', [0, 1])

    def go_like():
        r = p.f.contract({'a': L(['x', 'o'], (dx, do)), 'b': L(['y', 'x'], (dy, dx)), 'd': L(['z', 'y'], (dz, dy))})
        c.ok(r.a is None and r.tensorLikeFlag, "no data")
        c.invariant(r, "data-less")
        if fuse:
            c.ok(list(r.labels) == ['f'], "labels")
            c.ok(r.shape[0] == do * dz, "dimension")
        else:
            c.ok(sorted(r.labels) == ['o', 'z'], "labels")
            c.ok(c.conj([r.getLeg('o').dim == do, r.getLeg('z').dim == dz]), "dimensions")

    def go_real(k):
        p.run({'a': mk(c, 'a%d' % k, ['x', 'o'], (2, 2)), 'b': mk(c, 'b%d' % k, ['y', 'x'], (3, 2)), 'd': mk(c, 'd%d' % k, ['z', 'y'], (2, 3))}, "real data")
    if order:
        go_real(0)
        go_like()
        go_real(1)
    else:
        go_like()
        go_real(0)


def scalars(c):
    """rank-0 tensors and single-tensor descriptions"""
    k = c.choose('case', ['one', 'scalar', 'two scalars', 'diag scalar'])
    if k == 'one':
        p = Pair(c, ['a'])
        p.pre('a', 'x', 'w')
        p.post('a', 'y', 'v')
        ten = {'a': mk(c, 'a', ['x', 'y'], (2, 3))}
    elif k == 'scalar':
        p = Pair(c, ['a', 'b', 'c'])
        p.link('a', 'x', 'c', 'x')
        ten = {'a': mk(c, 'a', ['x'], (2,)), 'b': mk(c, 'b', [], ()), 'c': mk(c, 'c', ['x'], (2,))}
    elif k == 'two scalars':
        p = Pair(c, ['a', 'b'])
        ten = {'a': mk(c, 'a', [], ()), 'b': mk(c, 'b', [], ())}
    else:
        p = Pair(c, ['a', 'b'])
        d = c.array('s', ())
        ten = {'a': mk(c, 'a', ['x'], (2,)), 'b': (c.lib.DiagonalTensor(data=d), d, [])}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(2):
            p.run(ten, "use %d" % i)


def bookkeeping(c):
    """the description reports the tensors it holds; TensorDict stores what it is given"""
    f = c.lib.FiniteTensorNetwork(tensorNames=['a'])
    names = ['a']
    for i in range(3):
        e = c.choose('e%d' % i, ['b', 'c', '-a', '-b'])
        if e[0] == '-':
            if e[1:] in names:
                f.removeTensor(e[1:])
                names.remove(e[1:])
            else:
                c.raises(lambda: f.removeTensor(e[1:]), "removing a tensor that is not there")
        elif e not in names:
            f.addTensor(e)
            names.append(e)
        c.ok(f.tensorCount == len(names) and sorted(f.tensorNames) == sorted(names), "names")
    d = c.lib.TensorDict()
    t, _ = T(c, 't', ['x'], (2,))
    u, _ = T(c, 'u', ['x'], (2,))
    d.setTensor('a', t)
    d.setTensor('b', u)
    c.ok(d.getTensor('a') is t and d.getTensor('b') is u and d.tensorCount == 2, "stored tensors")
    d.setTensor('a', u)
    d.deleteTensor('b')
    c.ok(d.getTensor('a') is u and d.tensorCount == 1, "after replacing and deleting")
    c.raises(lambda: d.deleteTensor('b'), "deleting twice")
    c.ok(c.lib.TensorDict().tensorCount == 0, "a new dictionary is empty")


MANY = {
    'ring of six': (6, [(i, 'r', (i + 1) % 6, 'l') for i in range(6)], {0: ['l', 'r', 'u'], 3: ['u', 'r', 'l']}, ['l', 'r']),
    'ring of eight': (8, [((i + 1) % 8, 'l', i, 'r') for i in range(8)], {5: ['r', 'l', 'u']}, ['l', 'r']),
    'star': (6, [(5, 'k%d' % i, i, 'p') for i in range(5)], {5: ['k3', 'k1', 'k4', 'k0', 'k2'], 2: ['u', 'p'], 4: ['p', 'u']}, ['p']),
    'ladder': (6, [(0, 'r', 1, 'l'), (1, 'r', 2, 'l'), (4, 'l', 3, 'r'), (5, 'l', 4, 'r'), (0, 'd', 3, 't'), (4, 't', 1, 'd'), (2, 'd', 5, 't')],
               {0: ['d', 'r'], 1: ['l', 'd', 'r'], 2: ['l', 'd', 'u'], 3: ['t', 'r', 'u'], 4: ['r', 't', 'l'], 5: ['t', 'l']}, []),
    'pairs': (6, [(0, 'l', 5, 'r'), (0, 'r', 5, 'l'), (2, 'l', 3, 'l'), (4, 'r', 1, 'l')], {2: ['l', 'u'], 1: ['l']}, ['l', 'r']),
}


def many(c):
    """more tensors, used three times in different ways"""
    nm = c.choose('net', list(MANY))
    n, links, special, usual = MANY[nm]
    name = c.choose('names', [lambda i: 'T%d' % (i + 8), lambda i: 'zyxwvutsr'[i], lambda i: 'a' * (i + 1)])
    labs = {i: special.get(i, usual) for i in range(n)}
    if nm == 'pairs':
        labs[4], labs[3] = ['r'], ['l', 'r']
    order = c.choose('order', [list(range(n)), list(range(n))[::-1]])
    p = Pair(c, [name(i) for i in order], **({'realCost': False} if c.choose('typical', [0, 1]) else {}))
    for i, a, j, b in links:
        p.link(name(i), a, name(j), b)
    last = [(i, x) for i in range(n) for x in labs[i] if not any((i, x) in ((y[0], y[1]), (y[2], y[3])) for y in links)]
    ext = c.choose('extras', [0, 1, 2])
    if ext and len(last) > 1:
        (i, x), (j, y) = last[0], last[-1]
        if ext == 1:
            p.pre(name(i), x, 'first')
            p.post(name(i), 'first', 'second')
            p.out([name(i) + '-first', name(j) + '-' + y], 'n') if c.choose('fused', [0, 1]) else p.post(name(j), y, 'third')
        else:
            p.out([(name(j), y), (name(i), x)], 'n')
            p.post('res', 'n', 'end')
    for step in range(2):
        ten = {}
        for i in (range(n) if step else range(n - 1, -1, -1)):
            l = labs[i] if not step else labs[i][::-1]
            sym = (i + step) % 3 == 0
            if sym:
                ten[name(i)] = mk(c, 't%d.%d' % (i, step), l, (2,) * len(l))
            else:
                t, a = fixed(c, l, i + 10 * step)
                ten[name(i)] = (t, a, list(l))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p.run(ten, "%s, use %d" % (nm, step), wrap=bool(step), tag=False)


def fixed(c, labs, seed):
    """a tensor of small fixed numbers"""
    import numpy as np
    a = np.array([((7 * k + 3 * seed + k * k) % 9) - 4 for k in range(2 ** len(labs))], dtype=float).reshape((2,) * len(labs))
    b = c.zeros(a.shape)
    for ix in c.idx(a.shape):
        b[ix] = a[ix]
    return c.lib.Tensor(data=b.copy(), labels=list(labs)), b


SCENARIOS = [
    S('single', single, bounds='7 networks of 2..4 tensors, every order of names'),
    S('renames', renames),
    S('repeated', repeated),
    S('same_tensor', same_tensor),
    S('dims_history', dims_history, bounds='3 uses with 4 dimension patterns each'),
    S('edits', edits, bounds='2 edits out of 9 kinds'),
    S('locked', locked),
    S('mismatch', mismatch),
    S('separate', separate),
    S('results', results),
    S('linked_inputs', linked_inputs),
    S('like', like, bounds='two symbolic dimensions 1..9'),
    S('scalars', scalars),
    S('bookkeeping', bookkeeping),
    S('edits3', lambda c: edits(c, 3), bounds='3 edits out of 9 kinds'),
    S('many', many, bounds='6 to 8 tensors, 5 topologies, every third tensor symbolic, two uses'),
]
