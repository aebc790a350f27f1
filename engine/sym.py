"""Symbolic scalars (Sym: floats / complex, SInt: python integers, SBool) and the symbolic ndarray SArr."""
import numbers, operator
from fractions import Fraction
import numpy as np
import z3
from . import poly as P
from .core import EngineLimit, PathPruned

F64 = np.dtype('float64')
C128 = np.dtype('complex128')
BOOL = np.dtype('bool')
I64 = np.dtype('int64')
OBJ = np.dtype('O')


def ctx():
    return P.CTX


# ------------------------------------------------------------------------------------------------- SBool
class SBool:
    __slots__ = ("c",)
    shape = ()
    ndim = 0
    dtype = BOOL

    def __init__(self, c):
        if isinstance(c, SBool):
            c = c.c
        self.c = c if isinstance(c, z3.BoolRef) else z3.BoolVal(bool(c))

    def __bool__(self):
        return ctx().decide_bool(self.c)

    def __and__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else SBool(z3.And(self.c, o.c))

    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else SBool(z3.Or(self.c, o.c))

    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else SBool(z3.Xor(self.c, o.c))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.c))

    def logical_not(self):
        return SBool(z3.Not(self.c))

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def toint(self):
        return SInt(ctx().ite(z3.simplify(self.c), 1, 0))

    def __add__(self, o):
        return self.toint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.toint() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.toint() - o

    def __rsub__(self, o):
        return o - self.toint()

    def __eq__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else SBool(self.c == o.c)

    def __ne__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else SBool(self.c != o.c)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return "symbool"

    def __format__(self, spec):
        return "symbool"


def as_bool(o):
    if isinstance(o, SBool):
        return o
    if isinstance(o, (bool, np.bool_)):
        return SBool(bool(o))
    return None


def cmp_poly(d, op):
    """SBool for (d op 0)"""
    if not isinstance(d, P.Poly):
        return SBool({'<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0}[op])
    s = P.sign(d)
    if s is not None:
        if s == '+':
            return SBool(op == '!=')
        if s == '-':
            return SBool(op in ('<', '<=', '!='))
        if s == '0-' and op == '<=':
            return SBool(True)
        if s == '0+' and op == '<':
            return SBool(False)
    b = ctx().bv_cmp(d, op)
    if b is not None:
        return SBool(b)
    z = ctx().z(d)
    return SBool({'<': z < 0, '<=': z <= 0, '==': z == 0, '!=': z != 0}[op])


# ------------------------------------------------------------------------------------------------- Sym
_NUM = (int, float, Fraction, np.floating, np.integer)
_CNUM = (complex, np.complexfloating)


def lift(o):
    """-> (re, im, dtype or None for weak python scalars) or None"""
    if isinstance(o, Sym):
        return o.re, o.im, o.vdt
    if isinstance(o, SInt):
        return o.p, 0, None
    if isinstance(o, SBool):
        return o.toint().p, 0, None
    if isinstance(o, (bool, np.bool_)):
        return int(o), 0, None
    if isinstance(o, _NUM):
        f = o
        if isinstance(f, (float, np.floating)) and not np.isfinite(f):
            raise EngineLimit("inf/nan constant")
        return P.num(f), 0, (o.dtype if isinstance(o, np.generic) else None)
    if isinstance(o, _CNUM):
        return P.num(float(o.real)), P.num(float(o.imag)), (o.dtype if isinstance(o, np.generic) else C128)
    return None


def promote(d1, d2):
    if d1 is None:
        return d2
    if d2 is None:
        return d1
    if d1 == d2:
        return d1
    return np.promote_types(d1, d2)


def is_c(d):
    return d is not None and d.kind == 'c'


class Sym:
    """A numpy-like float or complex scalar."""
    __slots__ = ("re", "im", "vdt")
    pyfloat = False
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 500

    def __init__(self, re, im=0, vdt=None):
        self.re = re
        self.im = im
        if vdt is None:
            vdt = F64 if (not isinstance(im, P.Poly) and im == 0) else C128
        self.vdt = vdt

    # numpy scalar protocol
    @property
    def dtype(self):
        return self.vdt

    @property
    def real(self):
        return Sym(self.re, 0, F64 if self.vdt.kind == 'c' else self.vdt)

    @property
    def imag(self):
        return Sym(self.im, 0, F64 if self.vdt.kind == 'c' else self.vdt)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return Sym(self.re, P.neg(self.im), self.vdt)

    conj = conjugate

    def arr(self):
        return SArr.make((), [self], self.vdt)

    def reshape(self, *shape, **k):
        return self.arr().reshape(*shape)

    def ravel(self):
        return self.arr().ravel()

    flatten = ravel

    def sum(self, *a, **k):
        return self

    prod = max = min = mean = sum

    def astype(self, dt):
        return cast(self, np.dtype(dt))

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self if i == () else self.arr()
        return self.arr()[i]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return run_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return run_function(func, args, kw)

    # arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        l = lift(o)
        if l is None:
            return NotImplemented
        a, b = (self.re, self.im, self.vdt), l
        if swap:
            a, b = b, a
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, c_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, c_sub)

    def __rsub__(self, o):
        return self._bin(o, c_sub, True)

    def __mul__(self, o):
        return self._bin(o, c_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, c_div)

    def __rtruediv__(self, o):
        return self._bin(o, c_div, True)

    def __floordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return Sym(ctx().floor(P.div(self.re, l[0])), 0, self.vdt)

    def __neg__(self):
        return Sym(P.neg(self.re), P.neg(self.im), self.vdt)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, SInt):
            k = int(ctx().concretise(k.p))
        if isinstance(k, Sym) and not isinstance(k.re, P.Poly) and k.im == 0:
            k = k.re
        if isinstance(k, (float, np.floating, Fraction)):
            f = Fraction(float(k)) if not isinstance(k, Fraction) else k
            if f.denominator == 1:
                k = f.numerator
            elif f.denominator <= 64 and self.vdt.kind != 'c':
                return Sym(ctx().proot(self.re, f.denominator), 0, self.vdt) ** f.numerator
            else:
                raise EngineLimit("fractional power")
        if isinstance(k, (int, np.integer)):
            k = int(k)
            if k == 0:
                return Sym(1, 0, self.vdt)
            r = self
            for _ in range(abs(k) - 1):
                r = r * self
            if k < 0:
                r = Sym(1, 0, self.vdt) / r
            return r
        return NotImplemented

    def __rpow__(self, b):
        if not isinstance(self.re, P.Poly):
            return Sym(*lift(b)) ** self.re
        raise EngineLimit("symbolic exponent")

    def __abs__(self):
        if self.vdt.kind == 'c':
            return Sym(ctx().psqrt(P.add(P.mul(self.re, self.re), P.mul(self.im, self.im))))
        s = P.sign(self.re)
        if s in ('+', '0+', '0'):
            return self
        if s in ('-', '0-'):
            return -self
        return Sym(abs_atom(self.re), 0, self.vdt)

    absolute = __abs__
    fabs = __abs__

    def square(self):
        return self * self

    def sqrt(self):
        if self.vdt.kind == 'c':
            raise EngineLimit("complex sqrt")
        return Sym(ctx().psqrt(self.re), 0, self.vdt)

    def exp(self):
        if self.vdt.kind == 'c':
            raise EngineLimit("complex exp")
        return Sym(ctx().pexp(self.re), 0, self.vdt)

    def cosh(self):
        return (self.exp() + (-self).exp()) * 0.5

    def sinh(self):
        return (self.exp() - (-self).exp()) * 0.5

    def tanh(self):
        a, b = self.exp(), (-self).exp()
        return (a - b) / (a + b)

    def log(self):
        if self.vdt.kind == 'c':
            raise EngineLimit("complex log")
        return Sym(ctx().plog(self.re), 0, self.vdt)

    def log1p(self):
        return (self + 1).log()

    def log2(self):
        return self.log() / Sym(ctx().plog(2))

    def log10(self):
        return self.log() / Sym(ctx().plog(10))

    def expm1(self):
        return self.exp() - 1

    def cos(self):
        raise EngineLimit("trigonometric function")

    sin = tan = cos

    def sign(self):
        c = ctx()
        if self > 0:
            return Sym(1, 0, self.vdt)
        if self < 0:
            return Sym(-1, 0, self.vdt)
        return Sym(0, 0, self.vdt)

    def floor(self):
        return Sym(ctx().floor(self.re), 0, self.vdt)

    def rint(self):
        return Sym(ctx().floor(P.add(self.re, Fraction(1, 2))), 0, self.vdt)

    def round(self, n=0, **k):
        if n:
            raise EngineLimit("round with digits")
        return self.rint()

    def __round__(self, n=None):
        if n:
            raise EngineLimit("round with digits")
        return SInt(ctx().floor(P.add(self.re, Fraction(1, 2))))

    def __floor__(self):
        return SInt(ctx().floor(self.re))

    def __ceil__(self):
        return SInt(P.neg(ctx().floor(P.neg(self.re))))

    def isfinite(self):
        return SBool(True)

    def isnan(self):
        return SBool(False)

    isinf = isnan

    def _cmp(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not np.isfinite(o):
            if np.isnan(o):
                return SBool(op == '!=')
            pos = o > 0
            lt = pos if not swap else not pos
            return SBool({'<': lt, '<=': lt, '==': False, '!=': True}[op])
        l = lift(o)
        if l is None:
            return NotImplemented
        if op in ('<', '<='):
            d = P.sub(l[0], self.re) if swap else P.sub(self.re, l[0])
            return cmp_poly(d, op)
        e = cmp_poly(P.sub(self.re, l[0]), '==')
        di = P.sub(self.im, l[1])
        if isinstance(di, P.Poly) or di != 0:
            e = SBool(z3.And(e.c, cmp_poly(di, '==').c))
        return e if op == '==' else SBool(z3.simplify(z3.Not(e.c)))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        r = self._cmp(0, '!=')
        return bool(r)

    def __hash__(self):
        if isinstance(self.re, P.Poly) or isinstance(self.im, P.Poly):
            raise EngineLimit("hash of a symbolic number")
        return hash(float(self.re))

    def const(self):
        if isinstance(self.re, P.Poly) or isinstance(self.im, P.Poly):
            return None
        return complex(self.re, self.im) if is_c(self.vdt) else float(self.re)

    def __float__(self):
        c = self.const()
        if c is None:
            raise EngineLimit("float() of a symbolic number")
        return float(c)

    def __complex__(self):
        c = self.const()
        if c is None:
            raise EngineLimit("complex() of a symbolic number")
        return complex(c)

    def toint(self):
        """python int(): truncation; a float that only carries an integer up to rounding may come out below it"""
        p = self.re
        if not isinstance(p, P.Poly):
            return int(p)
        s = P.sign(p)
        if s in ('+', '0+') or ctx().decide_bool(ctx().z(p) >= 0):
            f = ctx().floor(p)
            if self.vdt.kind == 'f':
                f = ctx().rounded(p, f)
            return SInt(f)
        return SInt(P.neg(ctx().floor(P.neg(p))))

    def __int__(self):
        r = self.toint()
        return r if isinstance(r, int) else int(ctx().concretise(r.p))

    def __trunc__(self):
        return self.toint()

    def is_integer(self):
        f = ctx().floor(self.re)
        return cmp_poly(P.sub(self.re, f), '==')

    def __repr__(self):
        c = self.const()
        return "sym" if c is None else repr(c)

    def __format__(self, spec):
        return "sym"


numbers.Number.register(Sym)


class PyFloat(Sym):
    """a python float (arithmetic with python numbers stays a python float)"""
    __slots__ = ()
    pyfloat = True

    def _bin(self, o, f, swap=False):
        r = Sym._bin(self, o, f, swap)
        if isinstance(r, Sym) and (isinstance(o, (PyFloat, SInt)) or type(o) in (int, float, bool)):
            return PyFloat(r.re, r.im, r.vdt)
        return r

    def __neg__(self):
        return PyFloat(P.neg(self.re), 0, F64)

    def __abs__(self):
        r = Sym.__abs__(self)
        return PyFloat(r.re, 0, F64)

    def __pow__(self, k):
        r = Sym.__pow__(self, k)
        return PyFloat(r.re, 0, F64) if isinstance(r, Sym) and r.vdt == F64 else r


numbers.Real.register(PyFloat)


def abs_atom(p):
    c = ctx()
    # canonical: |p| = |-p|
    key = ('abs', p.key())
    nkey = ('abs', P.neg(p).key())
    r = c._sqrt_cache.get(key) or c._sqrt_cache.get(nkey)
    if r is None:
        r = c.new_var('abs', nonneg=True)
        z, zp = c.z(r), c.z(p)
        c.add(z == z3.If(zp >= 0, zp, -zp))
        m = next(iter(r.t))
        c.sqrt_of[m[0][0]] = P.mul(p, p)
        c._sqrt_cache[key] = r
    return r


def c_add(a, b):
    return Sym(P.add(a[0], b[0]), 0 if _z(a[1]) and _z(b[1]) else P.add(a[1], b[1]), promote(a[2], b[2]))


def c_sub(a, b):
    return Sym(P.sub(a[0], b[0]), 0 if _z(a[1]) and _z(b[1]) else P.sub(a[1], b[1]), promote(a[2], b[2]))


def _z(x):
    return not isinstance(x, P.Poly) and x == 0


def c_mul(a, b):
    dt = promote(a[2], b[2])
    ra, ia, rb, ib = a[0], a[1], b[0], b[1]
    if _z(ia) and _z(ib):
        return Sym(P.mul(ra, rb), 0, dt)
    return Sym(P.sub(P.mul(ra, rb), P.mul(ia, ib)), P.add(P.mul(ra, ib), P.mul(ia, rb)), dt)


def c_div(a, b):
    dt = promote(a[2], b[2])
    ra, ia, rb, ib = a[0], a[1], b[0], b[1]
    if dt is None or dt.kind in 'iub':
        dt = F64
    if _z(ib):
        if _z(rb):
            raise PathPruned("division by zero (inf/nan)")
        return Sym(P.div(ra, rb), 0 if _z(ia) else P.div(ia, rb), dt)
    n = P.add(P.mul(rb, rb), P.mul(ib, ib))
    return Sym(P.div(P.add(P.mul(ra, rb), P.mul(ia, ib)), n), P.div(P.sub(P.mul(ia, rb), P.mul(ra, ib)), n), dt)


def cast(s, dt):
    if dt == OBJ:
        return s
    if type(s) is PyFloat:
        s = Sym(s.re, 0, F64)
    if isinstance(s, SBool):
        if dt.kind == 'b':
            return s
        s = Sym(s.toint().p, 0, I64)
    if isinstance(s, SInt):
        s = Sym(s.p, 0, I64)
    if not isinstance(s, Sym):
        l = lift(s)
        if l is None:
            raise EngineLimit("cannot store %r in a numeric array" % type(s))
        s = Sym(l[0], l[1], dt)
    if dt.kind == 'c':
        return s if s.vdt == dt else Sym(s.re, s.im, dt)
    if dt.kind == 'f':
        if s.vdt == dt:
            return s
        return Sym(s.re, 0, dt)          # numpy: the imaginary part is discarded
    if dt.kind in 'iu':
        if not isinstance(s.re, P.Poly):
            return Sym(int(s.re), 0, dt)
        if ctx().is_int(s.re):
            return Sym(s.re, 0, dt)
        r = s.toint()
        return Sym(r.p if isinstance(r, SInt) else r, 0, dt)
    if dt.kind == 'b':
        return s != 0
    raise EngineLimit("cast to %s" % dt)


# ------------------------------------------------------------------------------------------------- SInt
def int_lift(o):
    if isinstance(o, SInt):
        return o.p
    if isinstance(o, SBool):
        return o.toint().p
    if isinstance(o, (bool, np.bool_)):
        return int(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    return None


def mk_int(p):
    return SInt(p) if isinstance(p, P.Poly) else (int(p) if Fraction(p).denominator == 1 else Sym(p))


class SInt:
    """A symbolic python integer."""
    __slots__ = ("p",)
    shape = ()
    ndim = 0
    dtype = I64

    def __init__(self, p):
        self.p = p

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _f(self, o, f, swap=False):
        p = int_lift(o)
        if p is not None:
            return mk_int(f(p, self.p) if swap else f(self.p, p))
        if isinstance(o, np.ndarray):
            return NotImplemented
        l = lift(o)
        if l is None:
            return NotImplemented
        return None

    def _asf(self):
        return Sym(self.p, 0, F64)

    def __add__(self, o):
        r = self._f(o, P.add)
        return self._asf() + o if r is None else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._f(o, P.sub)
        return self._asf() - o if r is None else r

    def __rsub__(self, o):
        r = self._f(o, P.sub, True)
        return o - self._asf() if r is None else r

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * int(ctx().concretise(self.p))
        r = self._f(o, P.mul)
        return self._asf() * o if r is None else r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._asf() / o

    def __rtruediv__(self, o):
        return o / self._asf()

    def __floordiv__(self, o):
        p = int_lift(o)
        if p is None:
            return NotImplemented
        return mk_int(int_floordiv(self.p, p))

    def __rfloordiv__(self, o):
        p = int_lift(o)
        if p is None:
            return NotImplemented
        return mk_int(int_floordiv(p, self.p))

    def __mod__(self, o):
        p = int_lift(o)
        if p is None:
            return NotImplemented
        return mk_int(P.sub(self.p, P.mul(p, int_floordiv(self.p, p))))

    def __rmod__(self, o):
        p = int_lift(o)
        if p is None:
            return NotImplemented
        return mk_int(P.sub(p, P.mul(self.p, int_floordiv(p, self.p))))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, k, mod=None):
        if mod is not None:
            raise EngineLimit("modular power")
        if isinstance(k, SInt):
            k = int(ctx().concretise(k.p))
        if isinstance(k, (int, np.integer)) and k >= 0:
            return mk_int(P.ipow(self.p, int(k)))
        return self._asf() ** k

    def __rpow__(self, b):
        return b ** int(ctx().concretise(self.p))

    def __neg__(self):
        return SInt(P.neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    def _conc(self):
        return int(ctx().concretise(self.p))

    def _mask(self, m):
        """self & m for a concrete m >= 0: the runs of one bits cut out by division and remainder."""
        r, lo = 0, 0
        while m >> lo:
            if not (m >> lo) & 1:
                lo += 1
                continue
            n = 1
            while (m >> (lo + n)) & 1:
                n += 1
            r = r + ((self // (1 << lo)) % (1 << n)) * (1 << lo)
            lo += n
        return r

    def _bits(self, o):
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, SInt):
            o = o._conc()
        return operator.index(o) if isinstance(o, (int, np.integer)) else None

    def __and__(self, o):
        o = self._bits(o)
        if o is None:
            return NotImplemented
        return self - self._mask(-1 - o) if o < 0 else self._mask(o)

    __rand__ = __and__

    def __or__(self, o):
        o = self._bits(o)
        if o is None:
            return NotImplemented
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        o = self._bits(o)
        if o is None:
            return NotImplemented
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** o)

    def __rlshift__(self, o):
        return o << self._conc()

    def __rshift__(self, o):
        return self // (2 ** o)

    def __rrshift__(self, o):
        return o >> self._conc()

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return self._conc().bit_length()

    def _cmp(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not np.isfinite(o):
            return self._asf()._cmp(o, op, swap)
        l = lift(o)
        if l is None:
            return NotImplemented
        if not _z(l[1]):
            return SBool(op == '!=')
        d = P.sub(l[0], self.p) if swap else P.sub(self.p, l[0])
        return cmp_poly(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self._cmp(0, '!='))

    def __hash__(self):
        return hash(self._conc())

    def __index__(self):
        return self._conc()

    def __int__(self):
        return self._conc()

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(self._conc())

    def sqrt(self):
        return Sym(ctx().psqrt(self.p))

    def exp(self):
        return self._asf().exp()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return run_ufunc(ufunc, method, inputs, kw)

    def item(self):
        return self

    def __repr__(self):
        return "symint"

    def __format__(self, spec):
        return "symint"


numbers.Integral.register(SInt)


def int_floordiv(a, b):
    c = ctx()
    if not isinstance(b, P.Poly):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if not isinstance(a, P.Poly):
            return a // b
        if all(Fraction(x).denominator == 1 and x % b == 0 for x in a.t.values()):
            return P.Poly({m: x // b for m, x in a.t.items()})
        key = ('fd', a.key(), b)
        q = c._quot_cache.get(key)
        if q is None:
            q = c.new_var('idiv', 'int', nonneg=(b > 0 and P.sign(a) in ('+', '0+')))
            c.stats.atoms += 1
            zq, za = c.z(q), c.z(a)
            if b > 0:
                c.add(z3.And(b * zq <= za, za < b * zq + b))
            else:
                c.add(z3.And(b * zq >= za, za > b * zq + b))
            c._quot_cache[key] = q
        return q
    # symbolic divisor
    if c.decide_bool(cmp_poly(b, '==').c):
        raise ZeroDivisionError("integer division or modulo by zero")
    ex = P.mono_div_exact(a, b)
    if ex is not None and c.is_int(ex):
        return ex
    if isinstance(a, P.Poly) and a.key() == b.key():
        return 1
    akey = a.key() if isinstance(a, P.Poly) else a
    key = ('fd', akey, b.key())
    q = c._quot_cache.get(key)
    if q is None:
        pos = c.decide_bool(z3.Not(cmp_poly(b, '<').c))
        q = c.new_var('idiv', 'int', nonneg=(pos and P.sign(a) in ('+', '0+', '0')))
        c.stats.atoms += 1
        zq, za, zb = c.z(q), c.z(a), c.z(b)
        if pos:
            c.add(z3.And(zb * zq <= za, za < zb * zq + zb))
        else:
            c.add(z3.And(zb * zq >= za, za > zb * zq + zb))
        c._quot_cache[key] = q
    return q


# ------------------------------------------------------------------------------------------------- SArr
def to_elem(x, dt):
    return cast(x, dt)


class SArr(np.ndarray):
    """object ndarray of Sym with a virtual dtype"""
    __array_priority__ = 1000

    @staticmethod
    def make(shape, elems, dt):
        base = np.empty(shape, dtype=object)
        fl = base.reshape(-1)
        for i, e in enumerate(elems):
            fl[i] = e
        r = base.view(SArr)
        r._vdt = np.dtype(dt)
        return r

    def __array_finalize__(self, obj):
        self._vdt = getattr(obj, '_vdt', F64)

    @property
    def dtype(self):
        return self._vdt

    @property
    def itemsize(self):
        return self._vdt.itemsize

    @property
    def nbytes(self):
        return self._vdt.itemsize * self.size

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return wrap_scalar(r, self._vdt)

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        dt = self._vdt
        if isinstance(val, (np.ndarray, list, tuple)):
            v = as_sarr(val)
            base = np.empty(v.shape, dtype=object)
            bf, vf = base.reshape(-1), np.asarray(v.view(np.ndarray)).reshape(-1)
            for i in range(vf.shape[0]):
                bf[i] = cast(vf[i], dt)
            np.ndarray.__setitem__(self.view(np.ndarray), idx, base if base.shape else base[()])
        else:
            np.ndarray.__setitem__(self.view(np.ndarray), idx, cast(val, dt))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return run_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return run_function(func, args, kw)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]] if self.ndim == len(a) else self.reshape(-1)[a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.reshape(-1)[0]

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        return SArr.make(self.shape, [cast(x, dt) for x in flat(self)], dt)

    @property
    def real(self):
        dt = F64 if self._vdt.kind == 'c' else self._vdt
        return SArr.make(self.shape, [x.real for x in flat(self)], dt)

    @property
    def imag(self):
        dt = F64 if self._vdt.kind == 'c' else self._vdt
        return SArr.make(self.shape, [x.imag for x in flat(self)], dt)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def all(self, axis=None, **k):
        return np.all(self, axis=axis)

    def any(self, axis=None, **k):
        return np.any(self, axis=axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return np.prod(self, axis=axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def dot(self, o):
        return np.dot(self, o)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def max(self, axis=None, **k):
        return np.max(self, axis=axis)

    def min(self, axis=None, **k):
        return np.min(self, axis=axis)

    def __bool__(self):
        if self.size == 1:
            return bool(flat(self)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __complex__(self):
        return complex(self.item())

    def __repr__(self):
        return "symarray%r" % (self.shape,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index1(i) for i in idx)
    return fix_index1(idx)


def fix_index1(i):
    if isinstance(i, SInt):
        return int(i)
    if isinstance(i, Sym):
        if i.vdt.kind in 'iu':
            return int(i)
        raise IndexError("only integers, slices are valid indices")
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, slice):
        f = lambda x: x if x is None else x.__index__()
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, SArr):
        vals = [bool(x) if i._vdt.kind == 'b' else int(x) for x in flat(i)]
        return np.array(vals, dtype=bool if i._vdt.kind == 'b' else int).reshape(i.shape)
    if isinstance(i, list):
        return [fix_index1(x) for x in i]
    return i


def flat(a):
    return list(a.view(np.ndarray).reshape(-1)) if isinstance(a, np.ndarray) else [a]


def wrap_scalar(r, dt):
    if isinstance(r, SArr):
        return r
    if type(r) is Sym:
        return r if r.vdt == dt or dt == OBJ else cast(r, dt)
    if isinstance(r, (SBool, SInt)):
        return r
    if isinstance(r, np.ndarray):
        v = r.view(SArr)
        v._vdt = dt
        return v
    if lift(r) is not None:
        return cast(r, dt)
    return r


def deep_dtype(x):
    if isinstance(x, SArr):
        return x._vdt
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, Sym):
        return x.vdt
    if isinstance(x, SBool):
        return BOOL
    if isinstance(x, SInt):
        return I64
    if isinstance(x, (list, tuple)):
        d = None
        for y in x:
            d = promote(d, deep_dtype(y))
        return d
    if isinstance(x, (bool, np.bool_)):
        return BOOL
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return I64
    if isinstance(x, float) or isinstance(x, Fraction):
        return F64
    if isinstance(x, complex):
        return C128
    return OBJ


def as_sarr(x, dt=None):
    """any array-like -> SArr (fresh storage unless it already is one)"""
    if isinstance(x, SArr):
        if dt is None or np.dtype(dt) == x._vdt:
            return x
        return x.astype(dt)
    d = np.dtype(dt) if dt is not None else deep_dtype(x)
    if d is None:
        d = F64
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            els = list(x.reshape(-1))
            if dt is None:
                d = None
                for e in els:
                    d = promote(d, deep_dtype(e))
                d = d or F64
            return SArr.make(x.shape, [cast(e, d) for e in els], d)
        return SArr.make(x.shape, [cast(e.item(), d) for e in x.reshape(-1)], d)
    if isinstance(x, (list, tuple)):
        subs = [as_sarr(y, d) for y in x]
        if not subs:
            return SArr.make((0,), [], d)
        sh = subs[0].shape
        if any(s.shape != sh for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        els = []
        for s in subs:
            els += flat(s)
        return SArr.make((len(subs),) + sh, els, d)
    return SArr.make((), [cast(x, d)], d)


def has_sym(x, depth=0):
    if isinstance(x, (SArr, Sym, SInt, SBool)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 2:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


_CMPS = {'greater': '>', 'less': '<', 'greater_equal': '>=', 'less_equal': '<=', 'equal': '==', 'not_equal': '!='}
_BOOLF = {'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'isfinite', 'isnan', 'isinf'}
_REALF = {'absolute', 'fabs', }
_FLOATF = {'sqrt', 'exp', 'cosh', 'sinh', 'tanh', 'log', 'log2', 'log10', 'log1p', 'expm1', 'true_divide', 'divide'}


def _b(x):
    """ufunc operand -> object ndarray/scalar"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (Sym, SInt, SBool)):
        return x
    if isinstance(x, np.ndarray) and x.dtype != OBJ:
        return as_sarr(x).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return as_sarr(x).view(np.ndarray)
    if isinstance(x, (bool, np.bool_)):
        return SBool(bool(x))
    if isinstance(x, (int, float, complex, np.generic, Fraction)):
        l = lift(x)
        return Sym(l[0], l[1], l[2] or (I64 if isinstance(x, (int, np.integer)) else F64))
    return x


def ufunc_dtype(name, inputs):
    d = None
    weak = None
    for x in inputs:
        if isinstance(x, (SArr, np.ndarray, Sym, np.generic, SBool)):
            d = promote(d, deep_dtype(x))
        else:
            weak = promote(weak, deep_dtype(x))
    if d is None:
        d = weak
    elif weak is not None:
        order = 'biufc'
        if weak.kind in order and d.kind in order:
            kw, kd = ('i' if weak.kind == 'u' else weak.kind), ('i' if d.kind == 'u' else d.kind)
            if 'bifc'.index(kw) > 'bifc'.index(kd):
                d = weak if kd != 'f' else (C128 if d.itemsize == 8 else np.dtype('complex64'))
    if name in _CMPS or name in _BOOLF:
        return BOOL
    if name in _REALF and is_c(d):
        return F64
    if name in _FLOATF and d is not None and d.kind in 'iub':
        return F64
    if name in ('add', 'multiply', 'subtract', 'matmul') and d is not None and d.kind == 'b':
        return BOOL
    return d


def boolify(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SBool(bool(x))
    if isinstance(x, (Sym, SInt)):
        return x != 0
    return SBool(bool(x))


def run_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if dtype is not None:
        inputs = tuple(x.astype(dtype) if isinstance(x, SArr) else x for x in inputs)
    dt = ufunc_dtype(name, inputs)
    if method == 'reduce' and name in ('logical_and', 'logical_or'):
        return reduce_bool(name, inputs[0], kw.get('axis', 0))
    if method in ('reduce', 'accumulate', 'reduceat') and dt == BOOL and name == 'add':
        inputs = (as_sarr(inputs[0]).astype('int64'),) + tuple(inputs[1:])
        dt = I64
    if method == 'reduce':
        a = as_sarr(inputs[0])
        axis = kw.get('axis', 0)
        if name in ('add', 'multiply'):
            kw.pop('initial', None)
            kw.pop('where', None)
            r = getattr(ufunc, 'reduce')(a.view(np.ndarray), **kw)
            return finish(r, dt, out)
        if name in ('maximum', 'minimum'):
            kw.pop('initial', None)
            kw.pop('where', None)
            r = np.frompyfunc(sym_max if name == 'maximum' else sym_min, 2, 1).reduce(a.view(np.ndarray), **kw)
            return finish(r, dt, out)
    base = [_b(x) for x in inputs]
    if method == '__call__':
        if name == 'matmul':
            r = obj_matmul(base[0], base[1])
        elif name in ('absolute', 'conjugate', 'sqrt', 'exp', 'cosh', 'sinh', 'tanh', 'square', 'sign', 'negative',
                      'positive', 'log', 'floor', 'ceil', 'rint', 'isfinite', 'isnan', 'isinf', 'log10', 'log2', 'log1p',
                      'fabs', 'cos', 'sin', 'tan', 'reciprocal', 'logical_not', 'invert'):
            f = _UN[name]
            r = np.frompyfunc(f, 1, 1)(base[0]) if isinstance(base[0], np.ndarray) else f(base[0])
        elif name in _BIN:
            if isinstance(base[0], np.ndarray) or isinstance(base[1], np.ndarray):
                r = np.frompyfunc(_BIN[name], 2, 1)(_oarr(base[0]), _oarr(base[1]))
            else:
                r = _BIN[name](base[0], base[1])
        else:
            raise EngineLimit("ufunc " + name)
        return finish(r, dt, out)
    if method == 'outer' and name in _BIN:
        A, B = np.asarray(base[0], dtype=object), np.asarray(base[1], dtype=object)
        f = _BIN[name]
        r = np.empty(A.shape + B.shape, dtype=object)
        rf = r.reshape(-1)
        k = 0
        bl = list(B.reshape(-1))
        for x in A.reshape(-1):
            for y in bl:
                rf[k] = f(x, y)
                k += 1
        return finish(r if r.shape else r[()], dt, out)
    if method == 'accumulate' and name in _BIN:
        r = np.frompyfunc(_BIN[name], 2, 1).accumulate(base[0], **kw)
        return finish(r, dt, out)
    raise EngineLimit("ufunc %s.%s" % (name, method))


def sym_max(a, b):
    return a if bool(a >= b) else b


def sym_min(a, b):
    return a if bool(a <= b) else b


def _boolop(f):
    return lambda a, b: SBool(f(boolify(a).c, boolify(b).c))


_UN = {
    'absolute': abs, 'fabs': abs, 'conjugate': lambda x: x.conjugate(), 'sqrt': lambda x: tofl(x).sqrt(),
    'exp': lambda x: tofl(x).exp(), 'cosh': lambda x: tofl(x).cosh(), 'sinh': lambda x: tofl(x).sinh(),
    'tanh': lambda x: tofl(x).tanh(), 'square': lambda x: x * x, 'sign': lambda x: tofl(x).sign(),
    'negative': lambda x: -x, 'positive': lambda x: x, 'log': lambda x: tofl(x).log(), 'log2': lambda x: tofl(x).log2(),
    'log10': lambda x: tofl(x).log10(), 'log1p': lambda x: tofl(x).log1p(), 'expm1': lambda x: tofl(x).expm1(),
    'floor': lambda x: tofl(x).floor(), 'ceil': lambda x: -((-tofl(x)).floor()), 'rint': lambda x: tofl(x).rint(),
    'isfinite': lambda x: SBool(True), 'isnan': lambda x: SBool(False), 'isinf': lambda x: SBool(False),

    'cos': lambda x: tofl(x).cos(), 'sin': lambda x: tofl(x).sin(), 'tan': lambda x: tofl(x).tan(),
    'reciprocal': lambda x: 1 / x, 'logical_not': lambda x: ~boolify(x), 'invert': lambda x: ~x if isinstance(x, (SBool, SInt)) else (not x if isinstance(x, (bool, np.bool_)) else _limit('invert of a number')),
}
_BIN = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'true_divide': lambda a, b: a / b, 'divide': lambda a, b: a / b, 'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b, 'power': lambda a, b: a ** b, 'float_power': lambda a, b: a ** b,
    'greater': lambda a, b: a > b, 'less': lambda a, b: a < b, 'greater_equal': lambda a, b: a >= b,
    'less_equal': lambda a, b: a <= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'maximum': sym_max, 'minimum': sym_min, 'fmax': sym_max, 'fmin': sym_min,
    'logical_and': _boolop(z3.And), 'logical_or': _boolop(z3.Or), 'logical_xor': _boolop(z3.Xor),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
}


def tofl(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SInt):
        return x._asf()
    if isinstance(x, SBool):
        return x.toint()._asf()
    l = lift(x)
    return Sym(l[0], l[1])


def reduce_bool(name, a, axis):
    a = as_sarr(a)
    f = (lambda l: SBool(z3.simplify(z3.And([boolify(x).c for x in l])))) if name == 'logical_and' else \
        (lambda l: SBool(z3.simplify(z3.Or([boolify(x).c for x in l]))))
    if axis is None or a.ndim <= 1:
        return f(flat(a))
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    sh = b.shape[:-1]
    b = b.reshape((-1, b.shape[-1]))
    return SArr.make(sh, [f(list(r)) for r in b], BOOL)


def _oarr(x):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def obj_matmul(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    return np.matmul(A, B)


def finish(r, dt, out=None):
    if isinstance(r, np.ndarray):
        res = r.view(SArr) if r.dtype == OBJ else as_sarr(r)
        if dt is not None and dt != OBJ:
            fl = res.view(np.ndarray).reshape(-1)
            bad = any((type(x) is not Sym or x.vdt != dt) for x in fl) if dt.kind != 'b' else False
            if bad:
                res = SArr.make(r.shape, [cast(x, dt) for x in fl], dt)
            res._vdt = dt
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if not np.can_cast(res._vdt, o.dtype, 'same_kind'):
                    raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (res._vdt, o.dtype))
                o[...] = res
                return o
        return res
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            o[...] = r
            return o
    if isinstance(r, SBool) or dt is None:
        return r
    if dt.kind == 'b':
        return boolify(r)
    return cast(r, dt)


# ---------------------------------------------------------------------------------- numpy functions
FUNCS = {}


def impl(*fs):
    def deco(f):
        for x in fs:
            FUNCS[x] = f
        return f
    return deco


def unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(unwrap(y) for y in x)
    if isinstance(x, list):
        return [unwrap(y) for y in x]
    if isinstance(x, np.ndarray) and x.dtype != OBJ and x.dtype.kind in 'fc':
        return as_sarr(x).view(np.ndarray)
    if isinstance(x, SInt):
        return int(x)
    if isinstance(x, Sym):
        return x.arr().view(np.ndarray)
    return x


def rewrap(r, dt):
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            v = r.view(SArr)
            v._vdt = dt or F64
            fl = r.reshape(-1) if r.size else []
            if any(type(x) is not Sym and not isinstance(x, SBool) for x in fl):
                return SArr.make(r.shape, [cast(x, v._vdt) for x in fl], v._vdt)
            return v
        return r
    if isinstance(r, tuple):
        return tuple(rewrap(x, dt) for x in r)
    if isinstance(r, list):
        return [rewrap(x, dt) for x in r]
    if isinstance(r, Sym):
        return cast(r, dt) if dt is not None else r
    return r


_STRUCT_ARG0_ONLY = {np.argsort}


def run_function(func, args, kw):
    f = FUNCS.get(func)
    if f is not None:
        return f(*args, **kw)
    name = getattr(func, '__name__', str(func))
    mod = getattr(func, '__module__', '') or ''
    if 'linalg' in mod or 'fft' in mod:
        raise EngineLimit("numpy function %s.%s" % (mod, name))
    dt = deep_dtype([a for a in list(args) + list(kw.values()) if has_sym(a)])
    kw = {k: v for k, v in kw.items() if not (k == 'dtype')}
    r = func(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()})
    return rewrap(r, dt)


@impl(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sarr(a)
    if a._vdt.kind == 'b':
        if axis is None or a.ndim == 1:
            t = 0
            for x in flat(a):
                t = boolify(x).toint() + t
            return t
        a = a.astype('int64')
    dt = a._vdt
    if isinstance(axis, SInt):
        axis = int(axis)
    r = np.add.reduce(a.view(np.ndarray), axis=axis, keepdims=keepdims)
    if not isinstance(r, np.ndarray):
        return cast(r, dt)
    return finish(r, dt)


@impl(np.prod)
def _prod(a, axis=None, **k):
    a = as_sarr(a)
    r = np.multiply.reduce(a.view(np.ndarray), axis=axis)
    return finish(r, a._vdt)


@impl(np.any)
def _any(a, axis=None, **k):
    return reduce_bool('logical_or', a, axis)


@impl(np.all)
def _all(a, axis=None, **k):
    return reduce_bool('logical_and', a, axis)


@impl(np.max)
def _max(a, axis=None, **k):
    a = as_sarr(a)
    r = np.frompyfunc(sym_max, 2, 1).reduce(a.view(np.ndarray) if axis is not None else a.view(np.ndarray).reshape(-1), axis=axis or 0)
    return finish(r, a._vdt)


@impl(np.min)
def _min(a, axis=None, **k):
    a = as_sarr(a)
    r = np.frompyfunc(sym_min, 2, 1).reduce(a.view(np.ndarray) if axis is not None else a.view(np.ndarray).reshape(-1), axis=axis or 0)
    return finish(r, a._vdt)


FUNCS[np.amax] = _max
FUNCS[np.amin] = _min


def _along(f, a, axis, keepdims=False):
    """f: list of elements -> value, applied along an axis (None: the whole array)."""
    a = as_sarr(a)
    if axis is None:
        if keepdims:
            raise EngineLimit("keepdims over a whole array")
        return f(flat(a))
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(m.shape[:-1], dtype=np.int64)
    for k in np.ndindex(*m.shape[:-1]):
        r[k] = f(list(m[k]))
    if keepdims:
        r = np.expand_dims(r, axis)
    return r if r.shape else r[()]


def _best(better):
    def f(l):
        b = 0
        for i in range(1, len(l)):
            if bool(better(l[i], l[b])):
                b = i
        return b
    return f


@impl(np.argmax)
def _argmax(a, axis=None, out=None, keepdims=False):
    return _along(_best(lambda x, y: x > y), a, axis, keepdims is True)


@impl(np.argmin)
def _argmin(a, axis=None, out=None, keepdims=False):
    return _along(_best(lambda x, y: x < y), a, axis, keepdims is True)


def _order(l):
    import functools
    return sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: -1 if bool(l[i] < l[j]) else (1 if bool(l[j] < l[i]) else 0)))


@impl(np.argsort)
def _argsort(a, axis=-1, **k):
    a = as_sarr(a)
    if axis is None:
        return np.array(_order(flat(a)))
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(m.shape, dtype=np.int64)
    for q in np.ndindex(*m.shape[:-1]):
        r[q] = _order(list(m[q]))
    return np.moveaxis(r, -1, axis)


@impl(np.sort)
def _sort(a, axis=-1, **k):
    a = as_sarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    r = np.take_along_axis(a.view(np.ndarray), _argsort(a, axis), axis).view(SArr)
    r._vdt = a._vdt
    return r


@impl(np.count_nonzero)
def _cnz(a, axis=None, keepdims=False):
    return _along(lambda l: sum(1 for x in l if bool(boolify(x))), a, axis, keepdims)


@impl(np.nonzero)
def _nonzero(a):
    a = as_sarr(a)
    return np.nonzero(np.array([bool(boolify(x)) for x in flat(a)], dtype=bool).reshape(a.shape))


@impl(np.where)
def _where(c, x=None, y=None):
    if x is None:
        return _nonzero(c)
    c = as_sarr(c)
    X, Y = as_sarr(x), as_sarr(y)
    dt = promote(X._vdt, Y._vdt)
    C, X, Y = np.broadcast_arrays(c.view(np.ndarray), X.view(np.ndarray), Y.view(np.ndarray))
    els = []
    for cc, xx, yy in zip(C.reshape(-1), X.reshape(-1), Y.reshape(-1)):
        b = z3.simplify(boolify(cc).c)
        xx, yy = cast(xx, dt), cast(yy, dt)
        els.append(Sym(ctx().ite(b, xx.re, yy.re), ctx().ite(b, xx.im, yy.im) if dt.kind == 'c' else 0, dt))
    return SArr.make(C.shape, els, dt)


@impl(np.copy)
def _copy(a, order='K', subok=False):
    a = as_sarr(a)
    r = np.array(a.view(np.ndarray), copy=True, order=order).view(SArr)
    r._vdt = a._vdt
    return r


def _limit(msg):
    raise EngineLimit(msg)


@impl(np.einsum)
def _einsum(*args, **kw):
    kw.pop('optimize', None)
    kw.pop('dtype', None)
    if isinstance(args[0], str):
        ops = [as_sarr(a) for a in args[1:]]
        rest = [args[0]]
    else:
        n = len(args) // 2
        ops = [as_sarr(a) for a in args[0:2 * n:2]]

        def sub(l):
            return ''.join('...' if x is Ellipsis else chr((65 if int(x) < 26 else 71) + int(x)) for x in l)
        rest = [','.join(sub(l) for l in args[1:2 * n:2]) + ('->' + sub(args[-1]) if len(args) % 2 else '')]
    dt = None
    for o in ops:
        dt = promote(dt, o._vdt)
    kw.pop('out', None) is not None and _limit("einsum with out")
    r = np.einsum(rest[0], *[o.view(np.ndarray) for o in ops], **kw)
    return finish(r, dt) if not isinstance(r, np.ndarray) else rewrap_view(r, dt)


def rewrap_view(r, dt):
    v = r.view(SArr)
    v._vdt = dt
    return v


@impl(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = as_sarr(a), as_sarr(b)
    r = np.tensordot(a.view(np.ndarray), b.view(np.ndarray), axes)
    return finish(r, promote(a._vdt, b._vdt))


@impl(np.dot)
def _dot(a, b, out=None):
    a, b = as_sarr(a), as_sarr(b)
    r = np.dot(a.view(np.ndarray), b.view(np.ndarray))
    return finish(r, promote(a._vdt, b._vdt))


@impl(np.inner)
def _inner(a, b):
    a, b = as_sarr(a), as_sarr(b)
    return finish(np.inner(a.view(np.ndarray), b.view(np.ndarray)), promote(a._vdt, b._vdt))


@impl(np.vdot)
def _vdot(a, b):
    a, b = as_sarr(a).ravel(), as_sarr(b).ravel()
    return _dot(a.conj(), b)


@impl(np.outer)
def _outer(a, b, out=None):
    a, b = as_sarr(a).ravel(), as_sarr(b).ravel()
    return run_ufunc(np.multiply, 'outer', (a, b), {})


@impl(np.kron)
def _kron(a, b):
    a, b = as_sarr(a), as_sarr(b)
    return finish(np.kron(a.view(np.ndarray), b.view(np.ndarray)), promote(a._vdt, b._vdt))


@impl(np.trace)
def _trace(a, *args, **kw):
    a = as_sarr(a)
    return finish(np.trace(a.view(np.ndarray), *args, **kw), a._vdt)


@impl(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sarr(a), as_sarr(b)
    return np.all(abs(a - b) <= atol + rtol * abs(b))


@impl(np.array_equal)
def _array_equal(a, b, **k):
    a, b = as_sarr(a), as_sarr(b)
    if a.shape != b.shape:
        return False
    return np.all(a == b)


@impl(np.isclose)
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sarr(a), as_sarr(b)
    return abs(a - b) <= atol + rtol * abs(b)


@impl(np.iscomplexobj)
def _iscomplexobj(a):
    return as_sarr(a)._vdt.kind == 'c'


@impl(np.isrealobj)
def _isrealobj(a):
    return as_sarr(a)._vdt.kind != 'c'


@impl(np.real)
def _real(a):
    return a.real if isinstance(a, (SArr, Sym)) else as_sarr(a).real


@impl(np.imag)
def _imag(a):
    return a.imag if isinstance(a, (SArr, Sym)) else as_sarr(a).imag


@impl(np.mean)
def _mean(a, axis=None, **k):
    return as_sarr(a).mean(axis=axis)


@impl(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = as_sarr(a)
    m = a.mean(axis=axis) if axis is None else np.expand_dims(a.mean(axis=axis), axis)
    d = a - m
    q = (d * np.conj(d)).real
    n = a.size if axis is None else a.shape[axis]
    return q.sum(axis=axis, keepdims=keepdims) / (n - ddof)


@impl(np.std)
def _std(a, axis=None, **k):
    return np.sqrt(_var(a, axis, **k))


@impl(np.zeros_like)
def _zl(a, dtype=None, order='K', subok=True, shape=None):
    return fill(a.shape if shape is None else shape, 0, dtype or a.dtype)


@impl(np.ones_like)
def _ol(a, dtype=None, order='K', subok=True, shape=None):
    return fill(a.shape if shape is None else shape, 1, dtype or a.dtype)


@impl(np.empty_like)
def _el(a, dtype=None, order='K', subok=True, shape=None):
    return fill(a.shape if shape is None else shape, 0, dtype or a.dtype)


@impl(np.full_like)
def _fl(a, v, dtype=None, order='K', subok=True, shape=None):
    return fill(a.shape if shape is None else shape, v, dtype or a.dtype)


def conc_shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(s.__index__() for s in shape)
    return (shape.__index__(),)


def fill(shape, v, dt):
    dt = np.dtype(dt)
    shape = conc_shape(shape)
    base = np.empty(shape, dtype=object)
    e = cast(v, dt)
    base.reshape(-1)[:] = [e] * base.size
    r = base.view(SArr)
    r._vdt = dt
    return r


# linear algebra ------------------------------------------------------------------------------------
@impl(np.linalg.norm)
def _norm(a, ord=None, axis=None, keepdims=False):
    a = as_sarr(a)
    if ord in (1, np.inf, -np.inf) and (a.ndim == 1 or isinstance(axis, int)) and not keepdims:
        b = abs(a)
        return b.sum(axis=axis) if ord == 1 else (b.max(axis=axis) if ord > 0 else b.min(axis=axis))
    if ord in (1, np.inf) and a.ndim == 2 and axis is None and not keepdims:
        return abs(a).sum(axis=0 if ord == 1 else 1).max()
    if isinstance(axis, int) and ord in (None, 2):
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for q in np.ndindex(*m.shape[:-1]):
            r[q] = _norm(SArr.make((m.shape[-1],), list(m[q]), a._vdt))
        return finish(np.expand_dims(r, axis) if keepdims else (r if r.shape else r[()]), F64)
    if axis is not None or keepdims or not (ord is None or (ord == 'fro' and a.ndim == 2) or (ord == 2 and a.ndim == 1)):
        raise EngineLimit("norm with options")
    t = 0
    for x in flat(a):
        t = P.add(t, P.mul(x.re, x.re))
        if not _z(x.im):
            t = P.add(t, P.mul(x.im, x.im))
    c = ctx()
    if isinstance(t, P.Poly) and P.sign(t) not in ('+', '0+'):
        # a sum of squares by construction
        key = t.key()
        r = c._sqrt_cache.get(key)
        if r is None:
            r = c.new_var('norm', nonneg=True)
            c.stats.atoms += 1
            c.add(c.z(r) * c.z(r) == c.z(t))
            c.sqrt_of[next(iter(r.t))[0][0]] = t
            c._sqrt_cache[key] = r
        return Sym(r)
    return Sym(c.psqrt(t))


def fresh_arr(name, shape, cplx, nonneg=False):
    c = ctx()
    n = int(np.prod(shape)) if shape else 1
    if cplx:
        return SArr.make(shape, [Sym(c.new_var(name), c.new_var(name), C128) for _ in range(n)], C128)
    return SArr.make(shape, [Sym(c.new_var(name, nonneg=nonneg), 0, F64) for _ in range(n)], F64)


def hyp_equal(A, B):
    c = ctx()
    for x, y in zip(flat(A), flat(B)):
        for u, v in ((x.re, y.re), (x.im, y.im)):
            d = P.sub(u, v)
            if isinstance(d, P.Poly):
                c.hyps.append(d)


def hyp_orthonormal_cols(U):
    """U^dagger U = 1"""
    G = U.conj().T @ U
    n = G.shape[0]
    hyp_equal(G, np_eye(n, G._vdt))


def np_eye(n, dt=F64, m=None):
    m = n if m is None else m
    return SArr.make((n, m), [cast(1 if i == j else 0, np.dtype(dt)) for i in range(n) for j in range(m)], dt)


def _rank_one(a):
    m, n = a.shape
    e = [[(a[i, j].re, a[i, j].im) for j in range(n)] for i in range(m)]
    if sum(len(P.terms(x)) + len(P.terms(y)) for row in e for x, y in row) > 200:
        return False

    def cm(x, y):
        return P.sub(P.mul(x[0], y[0]), P.mul(x[1], y[1])), P.add(P.mul(x[0], y[1]), P.mul(x[1], y[0]))
    for i in range(m):
        for i2 in range(i):
            for j in range(n):
                for j2 in range(j):
                    u, v = cm(e[i][j], e[i2][j2]), cm(e[i][j2], e[i2][j])
                    for p, q in zip(u, v):
                        d = P.sub(p, q)
                        if isinstance(d, P.Poly) or d != 0:
                            return False
    return True


@impl(np.linalg.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """contract stub: A = U diag(s) Vh, U/V orthonormal, s sorted, non-negative (s_k = q_k**2)"""
    c = ctx()
    a = as_sarr(a)
    if a.ndim != 2:
        raise EngineLimit("stacked svd")
    c.assumptions.add("numpy.linalg.svd satisfies its contract (A = U S Vh, orthonormal factors, sorted non-negative S)")
    cplx = a._vdt.kind == 'c'
    m, n = a.shape
    k = min(m, n)
    mu, nv = m, n
    key = ('svd', a.shape, tuple((x.re.key() if isinstance(x.re, P.Poly) else x.re,
                                  x.im.key() if isinstance(x.im, P.Poly) else x.im) for x in flat(a)))
    hit = c._quot_cache.get(key)
    if hit is None:
        U = fresh_arr('u', (m, mu), cplx)
        V = fresh_arr('vh', (nv, n), cplx)
        if not cplx:
            for F in (U, V):
                if F.shape == (1, 1):       # u * u = 1
                    c.sqrt_of[next(iter(flat(F)[0].re.t))[0][0]] = 1
        r = 1 if k > 1 and _rank_one(a) else k     # structural rank: every 2x2 minor is the zero polynomial
        qs = [c.new_var('q', nonneg=True) for _ in range(r)]
        c.spectra.extend(qs)
        for i in range(r - 1):
            c.add(c.z(qs[i]) >= c.z(qs[i + 1]))
        qs += [0] * (k - r)
        if c.svd_nonzero and k:
            c.add(c.z(qs[0]) > 1e-3)
        s = SArr.make((k,), [Sym(P.mul(q, q), 0, F64) for q in qs], F64)
        hyp_equal((U[:, :k] * s) @ V[:k], a)
        hyp_orthonormal_cols(U)
        hyp_orthonormal_cols(V.conj().T)
        if mu == m:
            hyp_orthonormal_cols(U.conj().T)
        if nv == n:
            hyp_orthonormal_cols(V)
        c._quot_cache[key] = hit = (U, s, V)
    U, s, V = hit
    if not compute_uv:
        return _copy(s)
    if not full_matrices:
        U, V = U[:, :k], V[:k]
    return _copy(U), _copy(s), _copy(V)


@impl(np.linalg.eigh)
def _eigh(a, UPLO='L'):
    c = ctx()
    a = as_sarr(a)
    c.assumptions.add("numpy.linalg.eigh satisfies its contract (A = V diag(w) V^dagger, orthonormal V, ascending w)")
    cplx = a._vdt.kind == 'c'
    n = a.shape[0]
    key = ('eigh', a.shape, UPLO, tuple((x.re.key() if isinstance(x.re, P.Poly) else x.re,
                                  x.im.key() if isinstance(x.im, P.Poly) else x.im) for x in flat(a)))
    if key in c._quot_cache:
        w, V = c._quot_cache[key]
        return _copy(w), _copy(V)
    V = fresh_arr('ev', (n, n), cplx)
    w = fresh_arr('w', (n,), False)
    l = flat(w)
    for i in range(n - 1):
        c.add(c.z(l[i].re) <= c.z(l[i + 1].re))
    hyp_equal((V * w) @ V.conj().T, a)
    hyp_orthonormal_cols(V)
    hyp_orthonormal_cols(V.conj().T)
    c._quot_cache[key] = (w, V)
    return _copy(w), _copy(V)


@impl(np.linalg.qr)
def _qr(a, mode='reduced'):
    c = ctx()
    a = as_sarr(a)
    if mode not in ('reduced',):
        raise EngineLimit("qr mode")
    c.assumptions.add("numpy.linalg.qr satisfies its contract")
    cplx = a._vdt.kind == 'c'
    m, n = a.shape
    k = min(m, n)
    Q = fresh_arr('q', (m, k), cplx)
    R = fresh_arr('r', (k, n), cplx)
    for i in range(k):
        for j in range(min(i, n)):
            R[i, j] = 0
    hyp_equal(Q @ R, a)
    hyp_orthonormal_cols(Q)
    return Q, R


@impl(np.linalg.det)
def _det(a):
    import itertools
    a = as_sarr(a)
    if a.ndim != 2 or a.shape[0] > 4:
        raise EngineLimit("det of a big matrix or a stack")
    n = a.shape[0]
    v = a.view(np.ndarray)
    t = Sym(0, 0, a._vdt)
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        x = Sym(1 if inv % 2 == 0 else -1, 0, a._vdt)
        for i in range(n):
            x = x * v[i, p[i]]
        t = t + x
    return t


@impl(np.linalg.multi_dot)
def _multi_dot(arrays, out=None):
    r = as_sarr(arrays[0])
    for b in arrays[1:]:
        r = _dot(r, b)
    return r


@impl(np.linalg.matrix_power)
def _matrix_power(a, n):
    a = as_sarr(a)
    if n < 0:
        a, n = _inv(a), -n
    r = np_eye(a.shape[0], a._vdt)
    for _ in range(n):
        r = _dot(r, a)
    return r


@impl(np.linalg.inv)
def _inv(a):
    c = ctx()
    a = as_sarr(a)
    c.assumptions.add("numpy.linalg.inv satisfies its contract on invertible matrices")
    n = a.shape[0]
    X = fresh_arr('inv', (n, n), a._vdt.kind == 'c')
    hyp_equal(X @ a, np_eye(n, a._vdt))
    hyp_equal(a @ X, np_eye(n, a._vdt))
    return X
