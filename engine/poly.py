"""Exact (Laurent) polynomials over solver variables.

A value is either a python number (int / Fraction) or a Poly: {monomial: coefficient} where a monomial is a
sorted tuple of (variable id, exponent).  Square-root atoms r (r*r == s) are rewritten on multiplication, and
exponential atoms may carry negative exponents.  The normal form is only an encoding: verdicts come from z3.
"""
from fractions import Fraction

CTX = None  # the current path context (set by core.Ctx)


def set_ctx(c):
    global CTX
    CTX = c


class Poly:
    __slots__ = ("t", "_z", "_key")

    def __init__(self, t):
        self.t = t
        self._z = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __repr__(self):
        return "<poly %d>" % len(self.t)


def num(x):
    """python/numpy number -> int or Fraction"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    f = Fraction(float(x)) if not hasattr(x, "numerator") else Fraction(x)
    return f.numerator if f.denominator == 1 else f


def norm(t):
    """dict -> value"""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        c = t[()]
        if isinstance(c, Fraction) and c.denominator == 1:
            return c.numerator
        return c
    return Poly(t)


def var(i):
    return Poly({((i, 1),): 1})


def is_const(a):
    return not isinstance(a, Poly)


def terms(a):
    if isinstance(a, Poly):
        return a.t
    return {(): a} if a != 0 else {}


def add(a, b):
    if not isinstance(a, Poly):
        if not isinstance(b, Poly):
            return a + b
        if a == 0:
            return b
        a, b = b, a
    if not isinstance(b, Poly):
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c == 0:
            t.pop((), None)
        else:
            t[()] = c
        return norm(t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        d = t.get(m)
        if d is None:
            t[m] = c
        else:
            d = d + c
            if d == 0:
                del t[m]
            else:
                t[m] = d
    return norm(t)


def neg(a):
    if not isinstance(a, Poly):
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if not isinstance(b, Poly) and b == 0:
        return a
    return add(a, neg(b))


_mm = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        for v, e in b:
            e2 = d.get(v, 0) + e
            if e2:
                d[v] = e2
            else:
                d.pop(v, None)
        r = tuple(sorted(d.items()))
        if len(_mm) > 400000:
            _mm.clear()
        _mm[k] = r
    return r


def mul(a, b):
    if not isinstance(a, Poly):
        if not isinstance(b, Poly):
            return a * b
        a, b = b, a
    if not isinstance(b, Poly):
        if b == 0:
            return 0
        if b == 1:
            return a
        return Poly({m: c * b for m, c in a.t.items()})
    t = {}
    sq = CTX.sqrt_of if CTX is not None else None
    extra = None
    for ma, ca in a.t.items():
        for mb, cb in b.t.items():
            m = mono_mul(ma, mb)
            c = ca * cb
            if sq:
                hit = None
                for v, e in m:
                    if v in sq and (e >= 2 or e <= -2):
                        hit = (v, e)
                        break
                if hit is not None:
                    v, e = hit
                    k = abs(e) // 2 * (1 if e > 0 else -1)
                    rest = tuple(x for x in m if x[0] != v)
                    if e - 2 * k:
                        rest = tuple(sorted(rest + ((v, e - 2 * k),)))
                    w = ipow(sq[v], k)
                    if isinstance(w, Poly) or not rest:
                        p = mul(Poly({rest: c}) if rest else c, w)
                    else:           # a constant: other squares may be left
                        p = mul(Poly({rest[1:]: c * w}) if rest[1:] else c * w, Poly({rest[:1]: 1}))
                    extra = p if extra is None else add(extra, p)
                    continue
            d = t.get(m)
            if d is None:
                t[m] = c
            else:
                d = d + c
                if d == 0:
                    del t[m]
                else:
                    t[m] = d
    r = norm(t)
    if extra is not None:
        r = add(r, extra)
    return r


def ipow(a, k):
    if k < 0:
        return div(1, ipow(a, -k))
    r = 1
    b = a
    while k:
        if k & 1:
            r = mul(r, b)
        k >>= 1
        if k:
            b = mul(b, b)
    return r


def const_div(a, b):
    q = Fraction(a) / Fraction(b)
    return q.numerator if q.denominator == 1 else q


def mono_div_exact(a, b):
    """a / b when b is a single term and every exponent stays non-negative; None otherwise"""
    if not isinstance(b, Poly) or len(b.t) != 1:
        return None
    (mb, cb), = b.t.items()
    inv = tuple((v, -e) for v, e in mb)
    t = {}
    for m, c in terms(a).items():
        q = mono_mul(m, inv)
        if any(e < 0 for _, e in q):
            return None
        t[q] = const_div(c, cb)
    return norm(t)


def div(a, b):
    if not isinstance(b, Poly):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if not isinstance(a, Poly):
            return const_div(a, b)
        return Poly({m: const_div(c, b) for m, c in a.t.items()})
    if not isinstance(a, Poly) and a == 0:
        return 0
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        if all(CTX.vars[v].nonzero for v, _ in mb):
            inv = Poly({tuple((v, -e) for v, e in mb): const_div(1, cb)})
            return mul(a, inv)
    # proportional polynomials
    if isinstance(a, Poly) and len(a.t) == len(b.t):
        m0 = next(iter(b.t))
        if m0 in a.t:
            r = const_div(a.t[m0], b.t[m0])
            if all(a.t.get(m) == c * r for m, c in b.t.items()):
                CTX.assume_nonzero(b)
                return r
    return CTX.quotient(a, b)


def sign(a):
    """syntactic sign: '+' (>0), '0+' (>=0), '-', '0-', '0' or None"""
    if not isinstance(a, Poly):
        return "+" if a > 0 else ("-" if a < 0 else "0")
    pos = neg_ = strict = 0
    for m, c in a.t.items():
        st = True
        for v, e in m:
            V = CTX.vars[v]
            if V.pos:
                continue
            if V.nonneg or e % 2 == 0:
                if not (V.nonzero and e % 2 == 0):
                    st = False
                continue
            return None
        if c > 0:
            pos += 1
        else:
            neg_ += 1
        strict += st
    if pos and not neg_:
        return "+" if strict else "0+"
    if neg_ and not pos:
        return "-" if strict else "0-"
    return None
