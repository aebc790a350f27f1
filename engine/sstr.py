"""Strings whose characters are symbolic: the length is concrete, every character a bounded symbolic code."""
import z3
from . import poly as P
from .core import EngineLimit
from .sym import SBool, SInt, mk_int, cmp_poly


def _code(x):
    return x.p if isinstance(x, SInt) else x


def _eqc(a, b):
    """equality of two character codes as SBool or bool"""
    a, b = _code(a), _code(b)
    if not isinstance(a, P.Poly) and not isinstance(b, P.Poly):
        return a == b
    return cmp_poly(P.sub(a, b), '==')


def _ge(a, b):
    d = P.sub(b, a)
    if not isinstance(d, P.Poly):
        return d <= 0
    return cmp_poly(d, '<=')


def _rng(c, lo, hi):
    c = _code(c)
    if not isinstance(c, P.Poly):
        return lo <= c <= hi
    return _and([_ge(c, lo), _ge(hi, c)])


def _and(l):
    r = True
    for x in l:
        if x is False:
            return False
        if x is True:
            continue
        r = x if r is True else r & x
    return r


def _or(l):
    r = False
    for x in l:
        if x is True:
            return True
        if x is False:
            continue
        r = x if r is False else r | x
    return r


def _not(x):
    return (not x) if isinstance(x, bool) else ~x


class SStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    @staticmethod
    def lift(x):
        if isinstance(x, SStr):
            return x
        if isinstance(x, str):
            return SStr([ord(k) for k in x])
        return None

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SStr(self.cs[i])
        return SStr([self.cs[i]])

    def __iter__(self):
        for c in self.cs:
            yield SStr([c])

    def __add__(self, o):
        o = SStr.lift(o)
        return NotImplemented if o is None else SStr(self.cs + o.cs)

    def __radd__(self, o):
        o = SStr.lift(o)
        return NotImplemented if o is None else SStr(o.cs + self.cs)

    def __mul__(self, n):
        return SStr(self.cs * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        o = SStr.lift(o)
        if o is None:
            return NotImplemented
        if len(o.cs) != len(self.cs):
            return False
        return _and([_eqc(a, b) for a, b in zip(self.cs, o.cs)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else _not(r)

    def _lex(self, o, strict):
        o = SStr.lift(o)
        if o is None:
            return NotImplemented
        for a, b in zip(self.cs, o.cs):
            if bool(_eqc(a, b)):
                continue
            return _not(_ge(_code(a), _code(b)))
        return len(self.cs) < len(o.cs) if strict else len(self.cs) <= len(o.cs)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return _not(self._lex(o, False))

    def __ge__(self, o):
        return _not(self._lex(o, True))

    def __hash__(self):
        # keys of one dictionary compare by the solver; a concrete string never meets them (raises below)
        return 0x5357

    def __contains__(self, o):
        o = SStr.lift(o)
        n = len(o.cs)
        return bool(_or([SStr(self.cs[i:i + n]) == o for i in range(len(self.cs) - n + 1)]))

    def _all(self, ranges, nonempty=True):
        if not self.cs:
            return False
        return _and([_or([_rng(c, ord(a), ord(b)) for a, b in ranges]) for c in self.cs])

    def _any(self, ranges):
        return _or([_or([_rng(c, ord(a), ord(b)) for a, b in ranges]) for c in self.cs])

    def isdigit(self):
        return self._all(['09'])

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(['az', 'AZ'])

    def isalnum(self):
        return self._all(['az', 'AZ', '09'])

    def isspace(self):
        return self._all(['  ', '\t\r', '\x1c\x1f'])

    def islower(self):
        return _and([self._any(['az']), _not(self._any(['AZ']))])

    def isupper(self):
        return _and([self._any(['AZ']), _not(self._any(['az']))])

    def isascii(self):
        return True

    def startswith(self, o):
        o = SStr.lift(o)
        return SStr(self.cs[:len(o.cs)]) == o

    def endswith(self, o):
        o = SStr.lift(o)
        return len(o.cs) <= len(self.cs) and SStr(self.cs[len(self.cs) - len(o.cs):]) == o

    def find(self, o, lo=0, hi=None):
        o = SStr.lift(o)
        hi = len(self.cs) if hi is None else min(hi, len(self.cs))
        for i in range(lo, hi - len(o.cs) + 1):
            if bool(SStr(self.cs[i:i + len(o.cs)]) == o):
                return i
        return -1

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, o):
        o = SStr.lift(o)
        if len(o.cs) != 1:
            raise EngineLimit("count of a longer substring")
        return sum(1 for c in self if bool(c == o))

    def _case(self, lo, hi, d):
        out = []
        for c in self.cs:
            r = _rng(c, ord(lo), ord(hi))
            out.append(c + d if bool(r) else c)
        return SStr(out)

    def lower(self):
        return self._case('A', 'Z', 32)

    def upper(self):
        return self._case('a', 'z', -32)

    def ord(self):
        if len(self.cs) != 1:
            raise TypeError("ord() expected a character")
        return self.cs[0]

    def toint(self, base=10):
        if base != 10:
            raise EngineLimit("int(text, base)")
        d = self.isdigit()
        if not bool(d):
            raise ValueError("invalid literal for int()")
        r = 0
        for c in self.cs:
            r = r * 10 + (c - 48)
        return r

    def __repr__(self):
        return "symstr"

    def __str__(self):
        return "symstr"

    def __format__(self, spec):
        return "symstr"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            raise EngineLimit("str.%s of a symbolic text" % n)
        raise AttributeError(n)
