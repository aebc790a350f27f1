"""P18: index arithmetic and list helpers obey their defining equations"""
import math
import numpy as np
from props.common import *

BOUNDS = ("Integers up to 4000 (bases up to 10, up to 5 digits, shapes of up to 4 dimensions), multinomials of up to 9 elements, partitions of up to 6 into up to 4 parts; "
          "lists of up to 4 symbolic elements (every equality pattern); arrays and matrices up to 3x3 of symbolic real or complex numbers, symbolic thresholds; "
          "every stream of random draws from a two-letter alphabet for unique names of length 1 and 2.")


def letters(c, name, n):
    """n symbolic list elements, known only by which of them are equal"""
    t = c.text(name, 'l' * n)
    return [t[i] for i in range(n)]


def same(c, a, b, what):
    c.ok(len(a) == len(b), what + ": %d elements, expected %d" % (len(a), len(b)))
    for x, y in zip(a, b):
        c.ok(x is y or bool(x == y), what)


def has(l, x):
    return any(bool(y == x) for y in l)


def count(l, x):
    return sum(1 for y in l if bool(y == x))


# ---------------------------------------------------------------- integers
def digits(c):
    """expansion in any base: the digits are those of x modulo D^dim"""
    F = c.lib.funcs
    D = c.choose('D', [2, 3, 5, 10])
    dim = c.choose('dim', [0, 1, 2, 3, 4] if D < 5 else [1, 2, 3])
    x = c.int('x', 0, 4000)
    r = F.intToDBaseTuple(x, dim, D)
    c.ok(isinstance(r, tuple) and len(r) == dim, "a tuple of dim digits")
    v = 0
    for i, k in enumerate(r):
        c.ok(c.conj([k >= 0, k < D]), "digit out of range")
        v = v + k * D ** i
    c.ok(v == x % (D ** dim), "the digits represent x")


def anybase(c):
    F = c.lib.funcs
    D = c.int('D', 2, 12)
    dim = c.choose('dim', [1, 2])
    q, a, b = c.int('q', 0, 3), c.int('a', 0, 11), c.int('b', 0, 11)
    c.assume(c.conj([a < D, b < D]))
    x = a + D * b + (D * D * q if dim == 2 else 0)
    r = F.intToDBaseTuple(x, dim, D)
    c.ok(len(r) == dim, "number of digits")
    c.ok(r[0] == a, "lowest digit")
    if dim == 2:
        c.ok(r[1] == b, "second digit")


def bits(c):
    F = c.lib.funcs
    dim = c.choose('dim', range(7))
    x = c.int('x', 0, 200)
    for f, ty in ((F.intToBitList, list), (F.intToBitTuple, tuple)):
        r = f(x, dim)
        c.ok(isinstance(r, ty) and len(r) == dim, "kind and length")
        v = 0
        for i, k in enumerate(r):
            c.ok(c.conj([k >= 0, k <= 1]), "a bit")
            v = v + k * 2 ** i
        c.ok(v == x % 2 ** dim, "the bits represent x")


def modulus(c):
    F = c.lib.funcs
    x = c.int('x', -2000, 2000)
    m = c.choose('m', [1, 2, 3, 7, 10, 64])
    r = F.safeMod(x, m)
    c.ok(c.conj([r >= 0, r < m]), "remainder out of range")
    k = c.int('k', -30, 30)
    c.ok(F.safeMod(x + k * m, m) == r, "remainder is periodic")
    c.ok((x - r) % m == 0, "remainder is congruent")


def modulus2(c):
    """symbolic modulus"""
    F = c.lib.funcs
    m = c.int('m', 1, 12)
    r0 = c.int('r', 0, 11)
    q = c.int('q', -9, 9)
    c.assume(r0 < m)
    c.ok(F.safeMod(q * m + r0, m) == r0, "remainder")


def mixed(c):
    """mixed-radix decoding in row-major order"""
    F = c.lib.funcs
    shape = c.choose('shape', [(), (3,), (2, 3), (3, 2), (2, 3, 4), (4, 1, 2), (2, 2, 3, 2)])
    labels = c.perm('labels', list('abcd'[:len(shape)])) if len(shape) < 4 else list('dbac')
    idx = c.int('idx', 0, max(1, math.prod(shape)) - 1)
    ll, sh = list(labels), tuple(shape)
    r = F.getIndexDict(idx, ll, sh)
    c.ok(ll == list(labels) and set(r) == set(labels), "keys are the labels")
    v = 0
    for l, d in zip(labels, shape):
        c.ok(c.conj([r[l] >= 0, r[l] < d]), "index out of range")
        v = v * d + r[l]
    c.ok(v == idx, "row-major position of the indices")


def mixed2(c):
    """mixed-radix decoding with symbolic dimensions"""
    F = c.lib.funcs
    d = [c.int('d%d' % i, 1, 8) for i in range(2)]
    i, j = c.int('i', 0, 7), c.int('j', 0, 7)
    c.assume(c.conj([i < d[0], j < d[1]]))
    r = F.getIndexDict(i * d[1] + j, ['x', 'y'], (d[0], d[1]))
    c.ok(r['x'] == i, "first index")
    c.ok(r['y'] == j, "second index")


def comb(c):
    F = c.lib.funcs
    p = c.choose('p', [0, 1, 2, 3])
    n = c.int('n', 0, 12)
    num = 1
    for i in range(p):
        num = num * (n - i)
    c.ok(F.myComb(n, p) * math.factorial(p) == num, "n choose p")


def comb_large(c):
    """counts beyond the precision of a float"""
    n = c.int('n', 0, 2 ** 34)
    c.ok(c.lib.funcs.myComb(n, 2) * 2 == n * (n - 1), "n choose 2")
    c.ok(c.lib.funcs.myComb(n, 1) == n, "n choose 1")


def multinomial(c):
    """ways of dividing different elements into parts of given sizes"""
    F = c.lib.funcs
    k = c.choose('k', [0, 1, 2, 3])
    d = [c.int('d%d' % i, 0, 4 if k < 3 else 3) for i in range(k)]
    l = list(d)
    r = F.calculateDivisionTimes(l)
    c.ok(len(l) == k and all(x is y for x, y in zip(l, d)), "argument unchanged")
    v, den = [int(x) for x in d], 1
    for x in v:
        den *= math.factorial(x)
    c.ok(r == math.factorial(sum(v)) // den, "multinomial coefficient")


def partitions(c):
    F = c.lib.funcs
    k = c.choose('k', [1, 2, 3, 4, 5, 6, 8])
    n = int(c.int('n', 0, 7 if k <= 4 else 4))
    r = [list(x) for x in F.divideIntoKParts(n, k)]
    c.ok(all(len(x) == k and sum(x) == n and min(x) >= 0 for x in r), "every list has k parts and sum n")
    c.ok(len({tuple(x) for x in r}) == len(r), "a division occurs twice")
    c.ok(len(r) == math.comb(n + k - 1, k - 1), "number of divisions")


def products(c):
    F = c.lib.funcs
    n = c.choose('n', range(5))
    x = [c.real('x%d' % i) for i in range(n)]
    t = tuple(x)
    p = 1
    for y in x:
        p = p * y
    c.eq(F.tupleProduct(t), p, "product")
    s = 0.0
    for i in range(n):
        s = s + x[i] * x[(i + 1) % n]
    c.eq(F.spinChainProductSum(list(x)), s, "periodic chain")
    d = tuple(c.int('d%d' % i, 0, 9) for i in range(n))
    q = 1
    for y in d:
        q = q * y
    c.ok(F.tupleProduct(d) == q, "product of dimensions")


def letters_of(c):
    F = c.lib.funcs
    n = c.choose('n', [0, 1, 2])
    x = tuple(c.int('x%d' % i, 0, 27) for i in range(n))
    bad = c.disj([k >= 26 for k in x]) if x else False
    good, r = c.attempt(lambda: F.indexTupleToStr(x))
    if bool(bad):
        c.ok(not good, "an index beyond the alphabet is accepted")
    else:
        c.ok(good, "indices within the alphabet are refused")
        c.ok(len(r) == n and all(ord(a) - 97 == int(b) for a, b in zip(r, x)), "letters")
    c.raises(lambda: F.indexTupleToStr(list(x)), "a list of indices")


# ---------------------------------------------------------------- lists
def difference(c):
    F = c.lib.funcs
    n, m = c.choose('n', [0, 1, 2, 3, 4]), c.choose('m', [0, 1, 2])
    a = letters(c, 'a', n)
    u = letters(c, 'u', m)
    a0, u0 = list(a), list(u)
    ok, r = c.attempt(lambda: F.listDifference(a, u))
    same(c, a, a0, "argument unchanged")
    same(c, u, u0, "argument unchanged")
    ref, fine = list(a0), True
    for x in u0:
        hit = [i for i, y in enumerate(ref) if bool(x == y)]
        if hit:
            ref.pop(hit[0])
        else:
            fine = False
            break
    if fine:
        c.ok(ok, "removing present elements failed")
        same(c, r, ref, "list difference")
    else:
        c.ok(not ok, "removing an absent element succeeded")
    same(c, F.deleteAllInUsed(a, u), [x for x in a0 if not has(u0, x)], "deleting all used elements")
    same(c, a, a0, "argument unchanged")


def multisets(c):
    F = c.lib.funcs
    n, m = c.choose('n', [0, 1, 2, 3]), c.choose('m', [0, 1, 2, 3])
    a, b = letters(c, 'a', n), letters(c, 'b', m)
    want = n == m and all(count(a, x) == count(b, x) for x in a)
    c.ok(bool(F.compareLists(a, b)) == want, "multiset comparison")
    r = F.commonElements(a, b)
    c.ok(all(has(a, x) and has(b, x) and count(r, x) == 1 for x in r), "common elements")
    c.ok(all(has(r, x) for x in a if has(b, x)), "a common element is missing")
    s = F.listSymmetricDifference(a, b)
    c.ok(all(has(a, x) != has(b, x) and count(s, x) == 1 for x in s), "symmetric difference")
    c.ok(all(has(s, x) for x in a if not has(b, x)) and all(has(s, x) for x in b if not has(a, x)), "symmetric difference lacks an element")
    c.ok(bool(F.checkAllEqual(tuple(a))) == all(bool(x == y) for x in a for y in a), "all equal")


def positions(c):
    """duplicate-aware look-up: the k-th occurrence asked is the k-th occurrence in the list"""
    F = c.lib.funcs
    n, m = c.choose('n', [0, 1, 2, 3]), c.choose('m', [0, 1, 2, 3])
    a, b = letters(c, 'a', n), letters(c, 'b', m)
    a0, b0 = list(a), list(b)
    r = F.generateIndices(a, b)
    same(c, a, a0, "argument unchanged")
    same(c, b, b0, "argument unchanged")
    c.ok(len(r) == m, "one answer per element asked")
    for k in range(m):
        before = sum(1 for y in b0[:k] if bool(y == b0[k]))
        at = [i for i, y in enumerate(a0) if bool(y == b0[k])]
        if before < len(at):
            c.ok(r[k] == at[before] and r[k] is not None, "position of occurrence %d" % before)
        else:
            c.ok(r[k] is None, "an element not found has no position")


def removal(c):
    F = c.lib.funcs
    n = c.choose('n', [0, 1, 2, 3, 4])
    t = tuple(c.real('x%d' % i) for i in range(n))
    m = c.choose('m', [0, 1, 2, 3])
    idx = [c.int('i%d' % k, 0, 5) for k in range(m)]
    r = F.tupleRemoveByIndex(t, list(idx))
    keep = [x for i, x in enumerate(t) if not any(bool(k == i) for k in idx)]
    c.ok(isinstance(r, tuple) and len(r) == len(keep) and all(x is y for x, y in zip(r, keep)), "elements at the other indices, in order")


def pairs(c):
    F = c.lib.funcs
    n = c.choose('n', range(6))
    x = [c.real('x%d' % i) for i in range(n)]
    r = list(F.pairIterator(x))
    want = [(x[i], x[j]) for i in range(n) for j in range(i + 1, n)]
    c.ok(len(r) == len(want) and all(a is p and b is q for (a, b), (p, q) in zip(r, want)), "pairs in order")
    if n == 2:
        a, b = F.tupleSwap(tuple(x))
        c.ok(a is x[1] and b is x[0], "swapped pair")
    ks = ['k%d' % i for i in range(n)]
    v = c.real('v')
    for f in (lambda: F.identicalTensorDict(v, ks), lambda: F.mapToDict(ks, v)):
        d = f()
        c.ok(set(d) == set(ks) and all(d[k] is v for k in ks), "dictionary with one value")
    c.ok(F.combineName(ks) == '|'.join(ks) and F.combineName(ks, 'g') == 'g' and F.combineName(namesList=ks, givenName=None) == '|'.join(ks), "combined name")


def combine(c):
    F = c.lib.funcs
    d = {k: letters(c, k, c.choose(k, [0, 1, 2])) for k in 'pq'}
    d['r'] = letters(c, 'r', 1)
    d0 = {k: list(v) for k, v in d.items()}
    names = c.choose('names', [[], ['p'], ['q', 'p'], ['p', 'p'], ['r', 'q'], ['p', 'z']])
    ok, r = c.attempt(lambda: F.getCombineSet(d, names))
    if 'z' in names:
        c.ok(not ok, "an unknown name is accepted")
        return
    c.ok(ok, "known names are refused")
    r = list(r)
    allx = [x for k in names for x in d0[k]]
    c.ok(all(has(allx, x) and count(r, x) == 1 for x in r), "union")
    c.ok(all(has(r, x) for x in allx), "union lacks an element")
    for k in d:
        same(c, d[k], d0[k], "argument unchanged")


def directions(c):
    F = c.lib.funcs
    n = c.choose('n', [0, 1, 2, 3])
    t = c.text('t', '?' * n if n < 2 else 'l' * n)
    opp = {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}
    ok, r = c.attempt(lambda: F.oppositeDirection(t))
    want = []
    for ch in t:
        hit = [o for k, o in opp.items() if bool(ch == k)]
        if not hit:
            c.ok(not ok, "an unknown direction is accepted")
            return
        want.append(hit[0])
    c.ok(ok, "a direction is refused")
    c.ok(len(r) == n, "length")
    for x, y in zip(r, want):
        c.ok(x == y, "opposite direction")
    if n:
        c.ok(F.oppositeDirection(r) == t, "opposite of the opposite")


# ---------------------------------------------------------------- arrays
def scaling(c):
    F = c.lib.funcs
    h, w = c.choose('h', [1, 2, 3]), c.choose('w', [1, 2, 3])
    cx = c.choose('cx', [(0, 0), (1, 0), (0, 1), (1, 1)])
    a = c.array('a', (h, w), bool(cx[0]))
    dr, dl = c.array('dr', (w,), bool(cx[1])), c.array('dl', (h,), bool(cx[1]))
    keep = [x.copy() for x in (a, dr, dl)]
    r, l = F.rightDiagonalProduct(a, dr), F.leftDiagonalProduct(a, dl)
    z = any(cx)
    R, L = c.zeros((h, w), z), c.zeros((h, w), z)
    for i in range(h):
        for j in range(w):
            R[i, j] = a[i, j] * dr[j]
            L[i, j] = dl[i] * a[i, j]
    c.eq(r, R, "matrix times diagonal")
    c.eq(l, L, "diagonal times matrix")
    for x, y in zip((a, dr, dl), keep):
        c.eq(x, y, "argument changed")


def conj_products(c):
    F = c.lib.funcs
    h, w = c.choose('h', [1, 2, 3]), c.choose('w', [1, 2, 3])
    cx = bool(c.choose('cx', [0, 1]))
    a = c.array('a', (h, w), cx)
    keep = a.copy()
    conj = (lambda x: x.conjugate()) if cx else (lambda x: x)
    H = c.zeros((w, h), cx)
    for i in range(h):
        for j in range(w):
            H[j, i] = conj(a[i, j])
    c.eq(F.transposeConjugate(a), H, "conjugate transpose")
    P, Q = c.zeros((w, w), cx), c.zeros((h, h), cx)
    for i in range(w):
        for j in range(w):
            P[i, j] = sum((conj(a[k, i]) * a[k, j] for k in range(1, h)), conj(a[0, i]) * a[0, j])
    for i in range(h):
        for j in range(h):
            Q[i, j] = sum((a[i, k] * conj(a[j, k]) for k in range(1, w)), a[i, 0] * conj(a[j, 0]))
    c.eq(F.aDaggerAProduct(a), P, "conjugate transpose times matrix")
    c.eq(F.aADaggerProduct(a), Q, "matrix times conjugate transpose")
    c.eq(a, keep, "argument changed")


def sq(c, x, cx):
    return x.real * x.real + x.imag * x.imag if cx else x * x


def errors(c):
    """distances of a matrix from identity, diagonal, symmetric matrices and from another matrix"""
    F = c.lib.funcs
    cx = bool(c.choose('cx', [0, 1]))
    h, w = c.choose('shape', [(1, 1), (2, 2), (2, 1), (1, 2)] if cx else [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2)])
    a = c.array('a', (h, w), cx)
    keep = a.copy()

    def nrm2(m):
        t = 0.0
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                t = t + sq(c, m[i, j], cx)
        return t
    e = a.copy()
    for i in range(min(h, w)):
        e[i, i] = e[i, i] - 1
    ie = F.identityError(a)
    c.eq(ie * ie, nrm2(e), "square of the identity error")
    c.ok(ie >= 0, "a distance is not negative")
    eps = c.real('eps', lo=0)
    if h * w <= (2 if cx else 4):
        c.ok(bool(F.checkIdentity(a, eps)) == bool(nrm2(e) < eps * eps), "identity check with a threshold")
    c.eq(a, keep, "argument changed")


def relative(c):
    """relative distances"""
    F = c.lib.funcs
    cx = bool(c.choose('cx', [0, 1]))
    h, w = c.choose('shape', [(1, 1), (2, 2), (2, 1), (1, 2)] if cx else [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2)])
    a = c.array('a', (h, w), cx)
    keep = a.copy()

    def nrm2(m):
        t = 0.0
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                t = t + sq(c, m[i, j], cx)
        return t
    n2 = nrm2(a)
    c.assume(n2 > 0)
    n1 = c.sqrt(n2)
    b = c.array('b', (h, w), cx)
    d = a.copy()
    for i in range(h):
        for j in range(w):
            d[i, j] = a[i, j] - b[i, j]
    me = F.matDiffError(a, b)
    c.eq(me * n1, c.sqrt(nrm2(d)), "relative distance of two matrices")
    if h == w:
        d, s = a.copy(), a.copy()
        for i in range(h):
            d[i, i] = 0 * d[i, i]
            for j in range(h):
                s[i, j] = a[i, j] - a[j, i]
        x, y = F.diagError(a), F.symmetricError(a)
        c.eq(x * n1, c.sqrt(nrm2(d)), "distance from a diagonal matrix")
        c.eq(y * n1, c.sqrt(nrm2(s)), "distance from a symmetric matrix")
    c.eq(a, keep, "argument changed")


def projector(c):
    F = c.lib.funcs
    cx = bool(c.choose('cx', [0, 1]))
    h, w = c.choose('shape', [(1, 1), (2, 1), (1, 2), (2, 2)])
    a = c.array('a', (h, w), cx)
    conj = (lambda x: x.conjugate()) if cx else (lambda x: x)
    t = 0.0
    for i in range(w):
        for j in range(w):
            p = None
            for k in range(h):
                q = conj(a[k, i]) * a[k, j]
                p = q if p is None else p + q
            if i == j:
                p = p - 1
            t = t + sq(c, p, cx)
    e = F.projectorError(a)
    c.eq(e * e, t, "distance of the product with the conjugate transpose from the identity")


def largest(c):
    """scaling to maximal magnitude one"""
    F = c.lib.funcs
    n = c.choose('n', [1, 2, 3])
    a = c.array('a', (n,))
    keep = a.copy()
    m = None
    for i in range(n):
        x = a[i] if bool(a[i] >= 0) else -a[i]
        if m is None or bool(x > m):
            m = x
    c.assume(m > 0)
    r = F.normalizeInfinity(a)
    c.eq(r * m, keep, "proportional with the largest magnitude one")
    c.eq(a, keep, "argument changed")


def absval(x):
    return x if bool(x >= 0) else -x


def tolerance(c):
    F = c.lib.funcs
    a, b, eps = c.real('a'), c.real('b'), c.real('eps', lo=0)
    d = absval(a - b)
    c.ok(bool(F.floatEqual(a, b, eps)) == bool(d < eps), "absolute tolerance")
    c.ok(bool(F.floatRelativeEqual(a, b, eps)) == bool(2 * d <= eps * (absval(a) + absval(b))), "relative tolerance")
    c.ok(bool(F.floatEqual(b, a, eps)) == bool(F.floatEqual(a, b, eps)), "tolerance is symmetric")
    c.ok(bool(F.floatRelativeEqual(b, a, eps)) == bool(F.floatRelativeEqual(a, b, eps)), "relative tolerance is symmetric")
    c.ok(F.floatRelativeEqual(a, a), "a number equals itself")


def arrays_equal(c):
    F = c.lib.funcs
    sa, sb = c.choose('shapes', [((2,), (2,)), ((2,), (3,)), ((1, 2), (2, 1)), ((1, 2), (1, 2)), ((3,), (3,)), ((), ())])
    a, b, eps = c.array('a', sa), c.array('b', sb), c.real('eps', lo=0)
    r = F.floatArrayEqual(a, b, eps)
    if sa != sb:
        c.ok(not bool(r), "arrays of different shape")
        return
    want = all([bool(absval(a[i] - b[i]) < eps) for i in c.idx(sa)])
    c.ok(bool(r) == want, "elementwise tolerance")


def cutoffs(c):
    F = c.lib.funcs
    n = c.choose('n', [0, 1, 2, 3])
    s = [c.real('s%d' % i) for i in range(n)]
    if c.choose('sorted', [0, 1]):
        for i in range(n - 1):
            c.assume(s[i] >= s[i + 1])
    thr = c.real('thr')
    k = F.getCutoff(list(s), thr)
    want = n
    for i in range(n):
        if bool(s[i] < thr):
            want = i
            break
    c.ok(k == want, "first index below the threshold")
    x, y = F.getValidValues(list(s), thr)
    keep = [i for i in range(n) if bool(absval(s[i]) < thr)]
    c.ok(list(x) == keep and all(p is s[i] or bool(p == s[i]) for p, i in zip(y, keep)) and len(y) == len(keep), "valid values")
    lo, hi = c.real('lo'), c.real('hi')
    v = c.real('v')
    c.ok(bool(F.getInRangeFunc(lo, hi)(v)) == bool(c.conj([v > lo, v < hi])), "open range")


def inverse(c):
    F = c.lib.funcs
    n = c.choose('n', [0, 1, 2, 3])
    k = c.choose('cut', range(n + 1))
    s = c.array('s', (n,))
    keep = s.copy()
    for i in range(k):
        c.assume(s[i] != 0)
    r = F.partialInverse(s, k)
    c.ok(len(r) == n, "length")
    for i in range(n):
        c.eq(r[i] * keep[i] if i < k else r[i], 1.0 if i < k else 0.0, "partial inverse %d" % i)
    c.eq(s, keep, "argument changed")


def nonzero(c):
    F = c.lib.funcs
    n = c.choose('n', [1, 2, 3])
    cx = bool(c.choose('cx', [0, 1])) and n < 3
    a = c.array('a', (n,), cx)
    eps = c.real('eps', lo=0)
    want = 0
    for i in range(n):
        if cx:
            want += bool(sq(c, a[i], True) > eps * eps)
        else:
            want += bool(absval(a[i]) > eps)
    c.ok(F.nonZeroElementN(a, eps) == want, "number of elements above the threshold")


def eyes(c):
    F = c.lib.funcs
    n, l = c.choose('n', [0, 1, 2, 3, 4]), c.choose('l', [1, 2, 3])
    r = F.ndEye(n, l)
    c.ok(tuple(r.shape) == (l,) * n, "shape")
    cx = bool(c.choose('cx', [0, 1]))
    a = c.array('a', (l,), cx) if n else c.array('a', (), cx)
    keep = a.copy()
    d = F.diagonalNDTensor(a, n)
    c.ok(tuple(d.shape) == (l,) * n, "shape")
    E, Dd = c.zeros((l,) * n), c.zeros((l,) * n, cx)
    for i in c.idx((l,) * n):
        if len(set(i)) <= 1:
            E[i] = 1.0
            Dd[i] = a[i[0]] if n else a[()]
    c.eq(r, E, "identity tensor")
    c.eq(d, Dd, "diagonal tensor")
    if n and l:
        d[(0,) * n] = 0
        c.eq(a, keep, "the values are shared with the argument")


def bisect(c):
    """the answer is within the accuracy of the point where the predicate turns true"""
    F = c.lib.funcs
    l, w = c.real('l'), c.real('w', lo=0)
    eps = c.real('eps', lo=0)
    k = c.choose('k', [1, 2, 4, 8])
    c.assume(c.conj([w > 0, w <= k * eps]))
    if k > 1:
        c.assume(w * 2 > k * eps)
    x = c.real('x', lo=0)
    c.assume(x <= w)
    r = l + w
    calls = []

    def enough(m):
        calls.append(m)
        return bool(m - l > x) if strict else bool(m - l >= x)
    strict = c.choose('strict', [0, 1])
    m = F.binarySearch(l, r, enough, eps)
    c.le(m - (l + x), eps, "accuracy")
    c.le((l + x) - m, eps, "accuracy")
    c.le(l, m, "within the range")
    c.le(m, r, "within the range")
    for y in calls:
        c.ok(c.conj([y >= l, y <= r]), "asked outside the range")
    c.raises(lambda: F.binarySearch(r, l, enough, eps), "an empty range")


def dtypes(c):
    F = c.lib.funcs
    T = [np.dtype(x) for x in ('float16', 'float32', 'float64', 'longdouble', 'complex64', 'complex128', 'clongdouble')]
    a, b = c.choose('a', T), c.choose('b', T)
    r = np.dtype(F.priorDataType(a, b))
    c.ok(r == np.promote_types(a, b), "element type %s of %s and %s" % (r, a, b))
    c.ok(np.dtype(F.priorDataType(b, a)) == r, "order of the types")


# ---------------------------------------------------------------- unique names
class Draws:
    """random.choice scripted by the scenario: every draw is one of two letters"""

    def __init__(self, c, limit):
        self.c, self.n, self.limit = c, 0, limit

    def choice(self, seq):
        self.n += 1
        if self.n > self.limit:
            self.c.skip()
        return seq[self.c.choose('draw%d' % self.n, [0, 1])]


def names(c):
    """unique names under every stream of random draws and every history of adding and removing"""
    F, S_ = c.lib.funcs, c.lib.stringSet
    n = c.choose('n', [1, 2])
    s = S_.StringSet(n)
    old, old2 = F.random, getattr(S_, 'random', None)
    d = Draws(c, 6)
    F.random = d
    if old2 is not None:
        S_.random = d
    try:
        live = []
        for k in range(3):
            op = c.choose('op%d' % k, ['new', 'given', 'add', 'remove', 'dup'])
            if op == 'new':
                if n == 1 and len([x for x in live if len(x) == 1 and x in 'ab']) == 2:
                    c.skip()
                x = s.newString()
                c.ok(len(x) == n, "length %d of a generated name, expected %d" % (len(x), n))
                c.ok(x not in live, "a generated name is already used")
                live.append(x)
            elif op in ('given', 'add'):
                x = 'k%d' % k
                r = s.newString(x) if op == 'given' else s.add(x)
                if op == 'given':
                    c.ok(r == x, "a given name is returned")
                live.append(x)
            elif not live:
                c.raises(lambda: s.remove('zz'), "removing an unknown name")
            elif op == 'dup':
                c.raises(lambda: s.add(live[-1]), "adding a used name")
                c.raises(lambda: s.newString(live[0]), "asking for a used name")
            else:
                s.remove(live.pop(0))
            for x in ['a', 'b', 'aa', 'ab', 'k0', 'k1', 'k2']:
                c.ok(bool(s.contains(x)) == (x in live), "contents")
        known = {'a'} if n == 1 else {'ab', 'ba', 'aa'}
        x = F.getNewString(known, n)
        c.ok(x not in known and len(x) == n, "a new string")
        c.ok(len(F.randomString(n)) == n, "length of a random string")
    finally:
        F.random = old
        if old2 is not None:
            S_.random = old2


SCENARIOS = [S(f.__name__, f) for f in
             (digits, anybase, bits, modulus, modulus2, mixed, mixed2, comb, comb_large, multinomial, partitions, products, letters_of, difference, multisets, positions,
              removal, pairs, combine, directions, scaling, conj_products, errors, relative, projector, largest, tolerance, arrays_equal, cutoffs, inverse, nonzero, eyes,
              bisect, dtypes, names)]
