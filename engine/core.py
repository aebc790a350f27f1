"""Path exploration: one Ctx per path; forks are decisions; z3 decides feasibility and every assertion."""
import hashlib, math, os, sys, time
from fractions import Fraction
import z3
from . import poly as P

z3.set_param('memory_max_size', 3500)


class EngineLimit(BaseException):
    """The symbolic encoding does not cover this operation."""


class PathPruned(BaseException):
    """The path is infeasible or outside the stated bounds."""


class Violated(BaseException):
    """An assertion fails on this path for the recorded model."""

    def __init__(self, what, model=None):
        BaseException.__init__(self, what)
        self.what = what
        self.model = model


class Skip(BaseException):
    """scenario says: this structural choice is outside the domain"""


class VarInfo:
    __slots__ = ("name", "sort", "nonneg", "pos", "nonzero", "z", "inv", "bv", "lo", "hi", "linked", "lazy")

    def __init__(self, name, sort, nonneg=False, pos=False, nonzero=False):
        self.name = name
        self.sort = sort
        self.nonneg = nonneg or pos
        self.pos = pos
        self.nonzero = nonzero or pos
        self.z = z3.Int(name) if sort == 'int' else z3.Real(name)
        self.inv = None
        self.bv = None          # bounded integers: bit-vector form, used for comparisons among bounded integers
        self.hi = None
        self.lo = None
        self.linked = True
        self.lazy = None        # definition, added to the solver when the variable first occurs in a constraint


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.feas = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.atoms = 0

    def asdict(self):
        return dict(self.__dict__)


def zval(v):
    """z3 model value -> Fraction"""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def sign_regions(co, lo, hi):
    """[(a, b, sign)] covering the integers lo..hi, on each of which the polynomial with integer coefficients co
    (lowest first) has one sign. Uses that a polynomial is monotone where its forward difference has one sign."""
    while co and co[-1] == 0:
        co = co[:-1]

    def val(x):
        r = 0
        for c in reversed(co):
            r = r * x + c
        return r

    def sgn(x):
        v = val(x)
        return (v > 0) - (v < 0)
    if len(co) <= 1:
        return [(lo, hi, sgn(lo))]
    if lo == hi:
        return [(lo, lo, sgn(lo))]
    n = len(co)
    diff = [0] * (n - 1)
    for k in range(1, n):
        b = 1
        for i in range(k):
            # (x+1)^k - x^k = sum of binom(k, i) x^i
            diff[i] += co[k] * b
            b = b * (k - i) // (i + 1)
    out = []

    def put(a, b, s):
        if out and out[-1][2] == s and out[-1][1] == a - 1:
            out[-1] = (out[-1][0], b, s)
        else:
            out.append((a, b, s))
    nxt = lo
    for a, b, _ in sign_regions(diff, lo, hi - 1):
        # monotone on a .. b + 1
        x, end = nxt, b + 1
        while x <= end:
            s = sgn(x)
            y, z = x, end
            if sgn(z) == s:
                y = z
            else:
                while z - y > 1:
                    mid = (y + z) // 2
                    if sgn(mid) == s:
                        y = mid
                    else:
                        z = mid
            put(x, y, s)
            x = y + 1
        nxt = end + 1
    return out


class Ctx:
    symbolic = True

    def __init__(self, prefix=(), stats=None, query_timeout=20000, feas_timeout=4000):
        self.prefix = list(prefix)
        self.decisions = []
        self.alternatives = []
        self._known = {}
        self.picks = []
        self.vars = []
        self.sqrt_of = {}
        self._sqrt_cache = {}
        self._exp_cache = {}
        self._quot_cache = {}
        self._log_cache = {}
        self.const_val = {}      # atoms with a known numerical value
        self.log_of = {}         # atoms standing for logarithms
        self._fresh = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_timeout)
        self.inexact = False     # an irrational square root was taken on this path
        self.svd_nonzero = False # see Common.nonzero_splits
        self.spectra = []        # square roots of the singular values of stubbed factorisations
        self.zero_vars = set()   # variables known to be zero
        self.hyps = []           # polynomial equalities assumed by library contracts (linearised when used)
        self.inputs = {}         # name -> ('real'|'int'|'array'|..., payload)
        self.stats = stats or Stats()
        self.query_timeout = query_timeout
        self.notes = set()
        self.assumptions = set()
        self.reached = False
        self._mono_z = {}
        P.set_ctx(self)

    # ---- variables -------------------------------------------------------------------------------
    def new_var(self, name=None, sort='real', nonneg=False, pos=False, nonzero=False):
        i = len(self.vars)
        v = VarInfo("v%d" % i if name is None else "%s#%d" % (name, i), sort, nonneg, pos, nonzero)
        self.vars.append(v)
        if pos:
            self.add(v.z > 0)
        elif nonneg:
            self.add(v.z >= 0)
        elif nonzero:
            self.add(v.z != 0)
        return P.var(i)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def mono_z(self, m):
        r = self._mono_z.get(m)
        if r is not None:
            return r
        fs = []
        for v, e in m:
            V = self.vars[v]
            if not V.linked:
                V.linked = True
                self.add(V.z == z3.BV2Int(V.bv))
            if V.lazy is not None:
                f, V.lazy = V.lazy, None
                f()
            if e > 0:
                fs += [V.z] * e
            else:
                if V.inv is None:
                    V.inv = z3.Real(V.name + "^-1")
                    self.add(V.inv * V.z == 1)
                    if V.pos:
                        self.add(V.inv > 0)
                fs += [V.inv] * (-e)
        r = fs[0] if len(fs) == 1 else z3.Product(*fs)
        self._mono_z[m] = r
        return r

    def z(self, p):
        if not isinstance(p, P.Poly):
            if isinstance(p, Fraction):
                return z3.RealVal(p)
            return z3.IntVal(p) if isinstance(p, int) else z3.RealVal(p)
        if p._z is None:
            ts = []
            for m, c in p.t.items():
                if m == ():
                    ts.append(z3.RealVal(c) if isinstance(c, Fraction) else z3.IntVal(c))
                elif c == 1:
                    ts.append(self.mono_z(m))
                else:
                    ts.append((z3.RealVal(c) if isinstance(c, Fraction) else z3.IntVal(c)) * self.mono_z(m))
            p._z = ts[0] if len(ts) == 1 else z3.Sum(*ts)
        return p._z

    def bounded_int(self, name, lo, hi):
        """integer variable in lo..hi with a bit-vector encoding"""
        p = self.new_var(name, 'int')
        V = self.vars[-1]
        V.nonneg = True
        V.pos = lo > 0
        V.hi = hi
        V.lo = lo
        V.linked = False
        V.bv = z3.BitVec(V.name + '!bv', max(1, hi.bit_length()))
        self.add(z3.And(z3.UGE(V.bv, lo), z3.ULE(V.bv, hi)))
        return p

    def bv_cmp(self, p, op):
        """p op 0 over bounded integers, as bit-vectors wide enough never to overflow; None if not applicable"""
        vs = self.vars
        ub = pmin = pmax = 0
        for m, c in p.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return None
            h = l = abs(int(c))
            for v, e in m:
                if vs[v].bv is None or e < 0:
                    return None
                h *= vs[v].hi ** e
                l *= vs[v].lo ** e
            ub += h
            pmin += l if c > 0 else -h
            pmax += h if c > 0 else -l
        # decided by the declared bounds alone
        r = {'<': (pmax < 0, pmin >= 0), '<=': (pmax <= 0, pmin > 0), '==': (pmin == pmax == 0, pmin > 0 or pmax < 0), '!=': (pmin > 0 or pmax < 0, pmin == pmax == 0)}[op]
        if r[0] or r[1]:
            return z3.BoolVal(bool(r[0]))
        names = {v for m in p.t for v, e in m}
        if len(names) == 1:
            # one variable: the integers of its range at which the comparison holds, as intervals (exact integer arithmetic)
            V = vs[names.pop()]
            co = {}
            for m, c in p.t.items():
                k = m[0][1] if m else 0
                co[k] = co.get(k, 0) + int(c)
            good = {'<': (-1,), '<=': (-1, 0), '==': (0,), '!=': (-1, 1)}[op]
            ivs = []
            for x, y, sg in sign_regions([co.get(k, 0) for k in range(max(co) + 1)], V.lo, V.hi):
                if sg in good:
                    if ivs and ivs[-1][1] == x - 1:
                        ivs[-1][1] = y
                    else:
                        ivs.append([x, y])
            return z3.Or([z3.And(z3.UGE(V.bv, x), z3.ULE(V.bv, y)) if x != y else V.bv == x for x, y in ivs]) if ivs else z3.BoolVal(False)
        W = ub.bit_length() + 1
        if W > 72:
            return None
        pos, neg = [], []
        for m, c in p.t.items():
            c = int(c)
            t = None
            for v, e in m:
                x = z3.ZeroExt(W - vs[v].bv.size(), vs[v].bv)
                for _ in range(e):
                    t = x if t is None else t * x
            k = z3.BitVecVal(abs(c), W)
            t = k if t is None else (t if abs(c) == 1 else k * t)
            (pos if c > 0 else neg).append(t)

        def tot(l):
            if not l:
                return z3.BitVecVal(0, W)
            r = l[0]
            for x in l[1:]:
                r = r + x
            return r
        a, b = tot(pos), tot(neg)
        return {'<': z3.ULT(a, b), '<=': z3.ULE(a, b), '==': a == b, '!=': a != b}[op]

    # ---- solver ----------------------------------------------------------------------------------
    def feasible(self, c):
        t0 = time.time()
        self.solver.push()
        try:
            self.solver.add(c)
            r = self.solver.check()
        finally:
            self.solver.pop()
        self.stats.solver_s += time.time() - t0
        self.stats.feas += 1
        return r != z3.unsat

    def model_of(self, constraints, timeout=None):
        """(verdict, model) for pc /\\ constraints"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.query_timeout)
        for c in self.pc:
            s.add(c)
        for c in constraints:
            s.add(c)
        r = s.check()
        if r == z3.unknown:
            s2 = z3.Tactic('qfnra-nlsat').solver()
            s2.set('timeout', timeout or self.query_timeout)
            for c in self.pc:
                s2.add(c)
            for c in constraints:
                s2.add(c)
            try:
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                r = z3.unknown
        self.stats.solver_s += time.time() - t0
        m = None
        if r == z3.sat:
            m = s.model()
        return r, m

    # ---- decisions -------------------------------------------------------------------------------
    def _decide(self, kind, options, describe=None):
        """options: list of (payload, constraint or None). Returns the payload chosen."""
        k = len(self.decisions)
        if k < len(self.prefix):
            pk, payload = self.prefix[k]
            if pk != kind:
                raise EngineLimit("non-deterministic replay: expected %s got %s" % (pk, kind))
            if options is None:
                self.decisions.append((kind, payload))
                return payload
            for pl, c in options:
                if pl == payload:
                    if c is not None:
                        self.add(c)
                    self.decisions.append((kind, payload))
                    return payload
            raise EngineLimit("non-deterministic replay: option %r not offered" % (payload,))
        feas = []
        for n, (pl, c) in enumerate(options):
            if c is None:
                feas.append((pl, c))
            elif n == len(options) - 1 and not feas and kind == 'b':
                feas.append((pl, c))
            elif self.feasible(c):
                feas.append((pl, c))
        if not feas:
            raise PathPruned("no feasible option")
        for pl, c in feas[1:]:
            self.alternatives.append(self.decisions + [(kind, pl)])
        pl, c = feas[0]
        if c is not None:
            self.add(c)
        self.decisions.append((kind, pl))
        return pl

    def decide_bool(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = z3.is_not(c)
        a = c.arg(0) if n else c
        k = self._known.get(a.get_id())
        if k is None:
            # decided once per path
            r = self._decide('b', [(1, c), (0, z3.Not(c))]) == 1
            self._known[a.get_id()] = (r != n, a)
            return r
        return k[0] != n

    def choose(self, name, options):
        """A structural input: enumerated through forking; recorded for the concrete replay."""
        options = list(options)
        if not options:
            raise Skip()
        if len(options) == 1:
            self.picks.append(0)
            return options[0]
        i = self._decide('c', [(j, None) for j in range(len(options))])
        self.picks.append(i)
        return options[i]

    def concretise(self, p, limit=200):
        """all feasible integer values of the integer polynomial p, by forking"""
        if not isinstance(p, P.Poly):
            return int(p)
        k = len(self.decisions)
        zt = self.z(p)
        if k < len(self.prefix):
            kind, v = self.prefix[k]
            if kind != 'v':
                raise EngineLimit("non-deterministic replay at concretisation")
            self.add(zt == v)
            self.decisions.append((kind, v))
            return v
        vals = []
        t0 = time.time()
        self.solver.push()
        while True:
            r = self.solver.check()
            if r != z3.sat:
                break
            v = self.solver.model().eval(zt, model_completion=True)
            v = zval(v)
            if v.denominator != 1:
                self.solver.pop()
                raise EngineLimit("concretising a non-integer")
            v = int(v)
            vals.append(v)
            if len(vals) > limit:
                self.solver.pop()
                raise EngineLimit("too many values to concretise")
            self.solver.add(zt != v)
        self.solver.pop()
        self.stats.solver_s += time.time() - t0
        self.stats.feas += len(vals) + 1
        if r == z3.unknown:
            raise EngineLimit("unknown while concretising")
        if not vals:
            raise PathPruned("infeasible")
        vals.sort()
        for v in vals[1:]:
            self.alternatives.append(self.decisions + [('v', v)])
        self.add(zt == vals[0])
        self.decisions.append(('v', vals[0]))
        return vals[0]

    # ---- atoms -----------------------------------------------------------------------------------
    def assume_nonzero(self, p):
        s = P.sign(p)
        if s in ('+', '-'):
            return
        z = self.z(p)
        if self.decide_bool(z == 0):
            raise PathPruned("division by zero")

    def quotient(self, a, b):
        # normalise the denominator's leading coefficient
        m0 = min(b.t)
        c0 = b.t[m0]
        if c0 != 1:
            b = P.Poly({m: P.const_div(c, c0) for m, c in b.t.items()})
            a = P.mul(a, P.const_div(1, c0))
        key = (a.key() if isinstance(a, P.Poly) else a, b.key())
        q = self._quot_cache.get(key)
        if q is None:
            self.assume_nonzero(b)
            sa, sb = P.sign(a), P.sign(b)
            nn = sa in ('+', '0+', '0') and sb == '+'
            q = self.new_var('quot', nonneg=nn, pos=(sa == '+' and sb == '+'))
            self.stats.atoms += 1
            self.add(self.z(q) * self.z(b) == self.z(a))
            self.hyps.append(P.sub(P.mul(q, b), a))
            self._quot_cache[key] = q
        return q

    def psqrt(self, p):
        if not isinstance(p, P.Poly):
            if p < 0:
                raise PathPruned("sqrt of a negative number (nan)")
            f = Fraction(p)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return P.const_div(n, d)
        else:
            if len(p.t) == 1:
                (m, c), = p.t.items()
                f = Fraction(c)
                if f > 0:
                    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                    if n * n == f.numerator and d * d == f.denominator and all(
                            e % 2 == 0 and self.vars[v].nonneg for v, e in m):
                        return P.norm({tuple((v, e // 2) for v, e in m): P.const_div(n, d)})
        if isinstance(p, P.Poly):
            c0 = abs(Fraction(p.t[min(p.t)]))
            if c0 != 1:
                n, d = math.isqrt(c0.numerator), math.isqrt(c0.denominator)
                if n * n == c0.numerator and d * d == c0.denominator:
                    return P.mul(self.psqrt(P.mul(p, P.const_div(1, c0))), P.const_div(n, d))
        key = p.key() if isinstance(p, P.Poly) else p
        r = self._sqrt_cache.get(key)
        if r is None:
            s = P.sign(p)
            if s in ('-',):
                raise PathPruned("sqrt of a negative number (nan)")
            if s not in ('+', '0+', '0'):
                if isinstance(p, P.Poly) and self.decide_bool(self.z(p) < 0):
                    raise PathPruned("sqrt of a negative number (nan)")
            self.inexact = True
            r = self.new_var('sqrt', nonneg=True, pos=(s == '+'))
            self.stats.atoms += 1
            (m, _), = r.t.items()
            zr = self.vars[m[0][0]].z
            self.vars[m[0][0]].lazy = lambda: self.add(zr * zr == self.z(p))
            self.sqrt_of[m[0][0]] = p
            self._sqrt_cache[key] = r
            x = self.value(p)
            if x is not None and x > 0:
                self.known(r, x ** 0.5)
        return r

    EXPG = 8

    def value(self, p):
        """numerical value of a polynomial of constant atoms, or None"""
        t = 0.0
        for m, c in P.terms(p).items():
            x = float(c)
            for v, e in m:
                if v not in self.const_val:
                    return None
                x *= self.const_val[v] ** e
            t += x
        return t

    def known(self, r, x):
        """the atom r is a constant with the value x (up to rounding)"""
        self.const_val[next(iter(r.t))[0][0]] = x
        e = Fraction(abs(x)) / 10 ** 12
        self.add(z3.And(self.z(r) >= self.zq(Fraction(x) - e), self.z(r) <= self.zq(Fraction(x) + e)))

    @staticmethod
    def zq(f):
        return z3.Q(f.numerator, f.denominator)

    def proot(self, p, d):
        """positive d-th root of p >= 0"""
        if not isinstance(p, P.Poly) and p in (0, 1):
            return p
        while d % 2 == 0:
            p = self.psqrt(p)
            d //= 2
        if d == 1:
            return p
        key = ('root', d, p.key() if isinstance(p, P.Poly) else p)
        r = self._quot_cache.get(key)
        if r is None:
            s = P.sign(p)
            if s not in ('+', '0+', '0') and self.decide_bool(self.z(p) < 0):
                raise PathPruned("root of a negative number")
            r = self.new_var('root', nonneg=True, pos=(s == '+'))
            self.stats.atoms += 1
            q = r
            for _ in range(d - 1):
                q = P.mul(q, r)
            self.add(self.z(q) == self.z(p))
            self.hyps.append(P.sub(q, p))
            self._quot_cache[key] = r
        return r

    def plog(self, p):
        if not isinstance(p, P.Poly):
            if p <= 0:
                raise PathPruned("log of a number that is not positive (nan)")
            return 0 if p == 1 else self._log_atom(p)
        if P.sign(p) != '+':
            # domain: numbers that are not positive have no logarithm (nan)
            if p.key() not in self._sqrt_cache:
                self.add(self.z(p) > 0)
            self.assumptions.add("arguments of logarithms are positive")
        r = self._sqrt_cache.get(p.key())
        if r is not None:
            return P.mul(self._log_atom(r), 2)
        # take out what every term shares: log of a product is the sum of the logs
        ms = list(p.t)
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            com = {v: (min(com.get(v, 0), d.get(v, 0)) if com.get(v, 0) * d.get(v, 0) > 0 and com.get(v, 0) > 0
                       else max(com.get(v, 0), d.get(v, 0)) if com.get(v, 0) < 0 and d.get(v, 0) < 0 else 0) for v in com}
        com = {v: e for v, e in com.items() if e and self.vars[v].nonneg}
        c0 = Fraction(abs(p.t[min(p.t)]))
        out = self.plog(P.const_div(c0, 1)) if c0 != 1 else 0
        rest = P.norm({P.mono_mul(m, tuple(sorted((v, -e) for v, e in com.items()))): P.const_div(c, c0) for m, c in p.t.items()})
        for v, e in com.items():
            out = P.add(out, P.mul(self._log_var(v), e))
        if isinstance(rest, P.Poly):
            out = P.add(out, self._log_var(next(iter(rest.t))[0][0]) if len(rest.t) == 1 and len(next(iter(rest.t))) == 1 and next(iter(rest.t))[0][1] == 1
                        else self._log_atom(rest))
        return out

    def _log_var(self, v):
        for (m, g), a in self._exp_cache.items():
            if next(iter(a.t))[0][0] == v:
                return P.norm({m: g if g.denominator != 1 else g.numerator})
        return self._log_atom(P.Poly({((v, 1),): 1}))

    def _log_atom(self, p):
        key = p.key() if isinstance(p, P.Poly) else p
        r = self._log_cache.get(key)
        if r is None:
            r = self.new_var('log')
            self.stats.atoms += 1
            zr, zp = self.z(r), self.z(p)
            self.add(z3.And(z3.Implies(zp > 1, zr > 0), z3.Implies(zp < 1, zr < 0), z3.Implies(zp == 1, zr == 0)))
            self.log_of[next(iter(r.t))[0][0]] = p
            x = self.value(p)
            if x is not None and x > 0:
                self.known(r, math.log(x))
            self._log_cache[key] = r
        return r

    def pexp(self, p):
        r = 1
        for m, c in P.terms(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.log_of and Fraction(c).denominator <= 64:
                c = Fraction(c)
                b, q = self.proot(self.log_of[m[0][0]], c.denominator), 1
                for _ in range(abs(c.numerator)):
                    q = P.mul(q, b)
                r = P.mul(r, q) if c > 0 else P.div(r, q)
                continue
            n = Fraction(c) * self.EXPG
            if n.denominator == 1:
                key, e = (m, Fraction(1, self.EXPG)), int(n)
            else:
                key, e = (m, abs(Fraction(c))), (1 if c > 0 else -1)
            a = self._exp_cache.get(key)
            if a is None:
                a = self.new_var('exp', pos=True)
                self.stats.atoms += 1
                self._exp_cache[key] = a
                # monotonicity facts that later comparisons may need
                if m != ():
                    zm = self.mono_z(m)
                    za = self.z(a)
                    self.add(z3.And(z3.Implies(zm > 0, za > 1), z3.Implies(zm < 0, za < 1), z3.Implies(zm == 0, za == 1)))
                else:
                    self.known(a, math.exp(float(key[1])))
            (ma, _), = a.t.items()
            r = P.mul(r, P.norm({((ma[0][0], e),): 1}))
        return r

    def ite(self, c, a, b):
        """value of If(c, a, b) as an atom"""
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        sort = 'real'
        if self.is_int(a) and self.is_int(b):
            sort = 'int'
        sa, sb = P.sign(a), P.sign(b)
        nn = sa in ('+', '0+', '0') and sb in ('+', '0+', '0')
        v = self.new_var('ite', sort, nonneg=nn)
        self.stats.atoms += 1
        self.add(self.z(v) == z3.If(c, self.z(a), self.z(b)))
        return v

    def is_int(self, p):
        if not isinstance(p, P.Poly):
            return isinstance(p, int)
        for m, c in p.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for v, e in m:
                if e < 0 or self.vars[v].sort != 'int':
                    return False
        return True

    def floor(self, p):
        """integer floor of p"""
        if not isinstance(p, P.Poly):
            return int(Fraction(p).__floor__())
        c = Fraction(p.t.get((), 0))
        k = c.__floor__()
        rest = P.sub(p, c)
        if self.is_int(rest) or self.is_int(self.round_coeffs(rest)):
            return P.add(rest, k)
        q = self.new_var('floor', 'int')
        self.stats.atoms += 1
        zq, zp = self.z(q), self.z(p)
        self.add(z3.And(zq <= zp, zp < zq + 1))
        return q

    def rounded(self, p, f):
        """f = floor(p) of a non-negative float p: where floating point cannot be relied on, the neighbouring results are
        explored too (square roots were taken: one below an exact integer; beyond 2**53: any integer nearby). Such a path
        only counts if its replay on the real code fails."""
        if isinstance(f, P.Poly) and isinstance(p, P.Poly):
            hi = 0
            for m, c in p.t.items():
                t = abs(Fraction(c))
                for v, e in m:
                    V = self.vars[v]
                    if e < 0 or V.sort != 'int':
                        t = 0
                        break
                    t *= Fraction(2 ** 40 if V.hi is None else V.hi) ** e
                hi += t
            if hi > 2 ** 54:
                if self._decide('r', [(0, None), (1, self.z(p) > 2 ** 54)]):
                    v = self.new_var('rounded', 'int', nonneg=True)
                    d = self.z(p) / z3.RealVal(2 ** 52)
                    self.add(z3.And(self.z(v) >= self.z(p) - d, self.z(v) <= self.z(p) + d))
                    return v
            elif self.inexact and f.key() == p.key():
                if self._decide('r', [(0, None), (1, self.z(p) >= 1)]):
                    return P.sub(f, 1)
        return f

    def round_coeffs(self, p):
        return p

    # ---- assertions ------------------------------------------------------------------------------
    def prove_zero(self, diffs, what):
        """Assert that every polynomial in diffs is zero under the path condition (and library contracts)."""
        self.reached = True
        self.stats.asserts += 1
        diffs = [d for d in diffs]
        st = self.stats
        st.queries += 1
        nz = [d for d in diffs if isinstance(d, P.Poly) or d != 0]
        if not nz:
            # identical normal forms: the negated assertion still goes to the solver
            t0 = time.time()
            s = z3.Solver()
            s.add(z3.Or([self.z(d) != 0 for d in diffs]) if diffs else z3.BoolVal(False))
            r = s.check()
            st.solver_s += time.time() - t0
            assert r == z3.unsat
            st.unsat += 1
            return
        if self.hyps:
            r = self._linear_entails(nz)
            if not r:
                e = self._eliminated(nz)
                r = e is not None and self._linear_entails(e[1], e[0])
                if not r and len({v for p in self.hyps for m in P.terms(p) for v, _ in m}) <= 14:
                    r = self._linear_entails(nz, grow=True)
            if r:
                st.unsat += 1
                return
        if any(not isinstance(d, P.Poly) for d in nz):
            r, m = self.model_of([])
            if r == z3.unsat:
                st.unsat += 1
                return
            st.sat += 1
            raise Violated(what, self.extract(m) if m is not None else None)
        # prefer small integer-valued models that replay well in floating point
        neq = z3.Or([self.z(d) != 0 for d in nz])
        self._verdict(neq, what)

    def prove(self, c, what):
        """Assert the z3 boolean (or python bool) c."""
        self.reached = True
        st = self.stats
        st.asserts += 1
        st.queries += 1
        if isinstance(c, bool):
            if c:
                st.unsat += 1
                return
            r, m = self.model_of([])
            if r == z3.unsat:
                st.unsat += 1
                return
            st.sat += 1
            raise Violated(what, self.extract(m) if m is not None else None)
        self._verdict(z3.Not(c), what)

    def _verdict(self, negated, what):
        st = self.stats
        nice = []
        for V in self.vars:
            if V.sort == 'real' and V.name.startswith('in.'):
                nice.append(z3.And(V.z >= -4, V.z <= 4))
        r, m = self.model_of([negated])
        if r == z3.sat and nice:
            r2, m2 = self.model_of([negated] + nice, timeout=3000)
            if r2 == z3.sat:
                m = m2
        if r == z3.unsat:
            st.unsat += 1
            return
        if r == z3.sat:
            st.sat += 1
            raise Violated(what, self.extract(m))
        st.unknown += 1
        raise EngineLimit("solver returned unknown: " + what)

    def _eliminated(self, diffs):
        """contract equalities and diffs with inputs solved for where a contract gives them: a = U S V turns a into U S V everywhere"""
        hyps, diffs = list(self.hyps), list(diffs)
        done = False
        while True:
            best = None
            for h in hyps:
                if not isinstance(h, P.Poly):
                    continue
                for m, c in h.t.items():
                    if len(m) == 1 and m[0][1] == 1 and self.vars[m[0][0]].name.startswith('in.'):
                        v = m[0][0]
                        if sum(1 for n in h.t for w, _ in n if w == v) == 1 and not any(
                                w == v and e < 0 for p in hyps + diffs if isinstance(p, P.Poly) for n in p.t for w, e in n):
                            best = (v, P.mul(P.sub(P.norm({m: c}), h), P.const_div(1, c)))
                            break
                if best:
                    break
            if best is None:
                break
            done = True
            v, e = best
            hyps = [x for x in (self._subst(p, v, e) for p in hyps) if isinstance(x, P.Poly)]
            diffs = [self._subst(p, v, e) for p in diffs]
            if any(isinstance(p, P.Poly) and len(p.t) > 6000 for p in hyps + diffs):
                return None
        if not done:
            return None
        return hyps, [d for d in diffs if isinstance(d, P.Poly) or d != 0]

    @staticmethod
    def _subst(p, v, e):
        if not isinstance(p, P.Poly) or not any(w == v for m in p.t for w, _ in m):
            return p
        pows, keep = {}, {}
        for m, c in p.t.items():
            k = sum(x for w, x in m if w == v)
            pows.setdefault(k, {})[tuple((w, x) for w, x in m if w != v)] = c
        r = 0
        for k in sorted(pows, reverse=True):
            q = P.norm(pows[k])
            for _ in range(k):
                q = P.mul(q, e)
            r = P.add(r, q)
        return r

    def _linear_entails(self, diffs, hyps=None, grow=False):
        """diffs == 0 follows linearly (monomials as atoms) from the contract equalities?"""
        t0 = time.time()
        if not diffs:
            return True
        if any(not isinstance(d, P.Poly) for d in diffs):
            return False
        given = self.hyps if hyps is None else hyps
        zero = self.zero_vars
        if zero:
            def drop(p):
                if not isinstance(p, P.Poly):
                    return p
                return P.norm({m: k for m, k in p.t.items() if not any(v in zero for v, _ in m)})
            diffs = [drop(d) for d in diffs]
            diffs = [d for d in diffs if isinstance(d, P.Poly) or d != 0]
            if not diffs:
                return True
            hyps = [drop(h) for h in given]
        else:
            hyps = given
        hyps = [h for h in hyps if isinstance(h, P.Poly)]
        pool = {h.key(): h for h in hyps}
        targets = set()
        for d in diffs:
            if isinstance(d, P.Poly):
                targets.update(d.t)
        seen_q = set()
        for rnd in range(10 if grow else 6):
            verdict = self._lra(list(pool.values()), diffs)
            if verdict:
                self.stats.solver_s += time.time() - t0
                return True
            new = {}
            for m in list(targets):
                dm = dict(m)
                for hi, h in enumerate(hyps):
                    for hm in h.t:
                        if hm == () and not (grow and len(h.t) == 2):
                            continue
                        if all(dm.get(v, 0) >= e > 0 for v, e in hm):
                            q = tuple(sorted((v, e - dict(hm).get(v, 0)) for v, e in dm.items()
                                             if e - dict(hm).get(v, 0)))
                            if not q or (hi, q) in seen_q:
                                continue
                            seen_q.add((hi, q))
                            hp = P.mul(h, P.Poly({q: 1}))
                            if isinstance(hp, P.Poly):
                                new[hp.key()] = hp
                if len(new) > 4000:
                    break
            if not new:
                break
            for k, h in new.items():
                if k not in pool:
                    pool[k] = h
                    targets.update(h.t)
            if len(pool) > (4000 if grow else 20000):
                break
        self.stats.solver_s += time.time() - t0
        return False

    def _lra(self, hyps, diffs):
        names = {}

        def lin(p):
            ts = []
            for m, c in P.terms(p).items():
                if m == ():
                    ts.append(z3.RealVal(c))
                else:
                    v = names.get(m)
                    if v is None:
                        v = names[m] = z3.Real("m%d" % len(names))
                    ts.append(z3.RealVal(c) * v)
            return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', self.query_timeout)
        for h in hyps:
            s.add(lin(h) == 0)
        s.add(z3.Or([lin(d) != 0 for d in diffs]))
        return s.check() == z3.unsat

    def extract(self, m):
        """values of the registered inputs in model m"""
        out = {}

        def val(p):
            if not isinstance(p, P.Poly):
                return float(p)
            if m is None:
                return 0.5
            return float(zval(m.eval(self.z(p), model_completion=True)))

        def ival(p):
            if isinstance(p, P.Poly) and m is not None:
                (mo, _), = p.t.items()
                V = self.vars[mo[0][0]]
                if V.bv is not None and not V.linked:
                    return m.eval(V.bv, model_completion=True).as_long()
            return int(val(p))
        for name, (kind, payload) in self.inputs.items():
            if kind == 'int':
                out[name] = ival(payload)
            elif kind == 'real':
                out[name] = val(payload)
            elif kind == 'array':
                shape, elems, cplx = payload
                out[name] = {"shape": list(shape), "complex": cplx,
                             "re": [val(r) for r, _ in elems], "im": [val(i) for _, i in elems] if cplx else None}
        return out
