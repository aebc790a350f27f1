"""What scenarios see, in two modes: SymCtx (symbolic, solver-decided) and ConcCtx (replay on the unmodified code)."""
import importlib, itertools, math, random, sys, types
import numpy as np
from . import poly as P


class Failed(BaseException):
    """concrete replay: an assertion failed"""


class Skip(BaseException):
    pass


class Lib:
    """lazy access to CTL names"""
    _where = {
        'Tensor': 'CTL.tensor.tensor', 'TensorLike': 'CTL.tensor.tensor', 'DiagonalTensor': 'CTL.tensor.diagonalTensor',
        'Leg': 'CTL.tensor.leg', 'Bond': 'CTL.tensor.bond', 'makeLink': 'CTL.tensor.contract.link',
        'mergeLink': 'CTL.tensor.contract.link', 'merge': 'CTL.tensor.contract.contract',
        'contractTwoTensors': 'CTL.tensor.contract.contract', 'shareBonds': 'CTL.tensor.contract.contract',
        'FiniteTensorNetwork': 'CTL.tensornetwork.tensornetwork', 'TensorDict': 'CTL.tensornetwork.tensordict',
        'UndirectedGraph': 'CTL.funcs.graph', 'TensorGraph': 'CTL.tensor.contract.tensorGraph',
    }

    def __getattr__(self, n):
        w = self._where.get(n)
        if w is not None:
            v = getattr(importlib.import_module(w), n)
        elif n in ('funcs', 'graphFuncs', 'linalg', 'decompose', 'graph', 'stringSet', 'xplib'):
            v = importlib.import_module('CTL.funcs.' + n)
        elif n in ('optimalContract', 'tensorGraph', 'contract', 'link', 'contractExp'):
            v = importlib.import_module('CTL.tensor.contract.' + n)
        elif n in ('tensorFunc', 'tensorFactory'):
            v = importlib.import_module('CTL.tensor.' + n)
        elif n == 'Ising':
            v = importlib.import_module('CTL.models.Ising')
        elif n in ('MPS', 'Schimdt', 'CTMRG', 'TRG', 'HOTRG', 'impurity', 'TNR'):
            if n == 'TNR' and 'ncon' not in sys.modules:
                # an optional package that is not installed; nothing that is checked calls it
                sys.modules['ncon'] = types.ModuleType('ncon')
                sys.modules['ncon'].ncon = None
            v = importlib.import_module('CTL.examples.' + n)
        else:
            raise AttributeError(n)
        self.__dict__[n] = v
        return v


class Common:
    def perm(self, name, seq, all_=True):
        """a symbolic permutation of seq (one choice per position)"""
        rest = list(seq)
        out = []
        k = 0
        while rest:
            i = self.choose("%s[%d]" % (name, k), list(range(len(rest))))
            out.append(rest.pop(i))
            k += 1
        return out

    def subset(self, name, seq, minsize=0):
        out = [x for i, x in enumerate(seq) if self.choose("%s?%d" % (name, i), [0, 1])]
        if len(out) < minsize:
            raise self.SkipType()
        return out

    def skip(self):
        raise self.SkipType()

    def text(self, name, spec):
        """a text: in spec 'U' is any upper-case letter, 'l' any lower-case letter, 'd' any digit, 'D' any digit but 0, '?' any printable character;
        other characters stand for themselves"""
        R = {'U': (65, 90), 'l': (97, 122), 'd': (48, 57), 'D': (49, 57), '?': (32, 126)}
        codes = [self.int('%s.%d' % (name, i), *R[k]) if k in R else ord(k) for i, k in enumerate(spec)]
        return self.mktext(codes)

    def conj(self, conds):
        """conjunction without forking"""
        r = True
        for x in conds:
            if r is True:
                r = x
            elif x is not True:
                r = r & x
        return r

    def disj(self, conds):
        r = False
        for x in conds:
            if r is False:
                r = x
            elif x is not False:
                r = r | x
        return r

    # ---- observation ------------------------------------------------------------------------
    def idx(self, shape):
        return itertools.product(*[range(s) for s in shape])

    def dense(self, t):
        """dense array of a tensor, axes in leg order, read from the documented attributes"""
        if getattr(t, 'diagonalFlag', False):
            n = len(t.legs)
            a = t.a
            if n == 0:
                return self.arr0(a)
            l = a.shape[0]
            out = self.zeros((l,) * n, self.is_complex(a))
            for i in range(l):
                out[(i,) * n] = a[i]
            return out
        return t.a

    def obs(self, t, labels, what=""):
        """dense array with axes in the order of `labels` (distinct labels)"""
        names = [l.name for l in t.legs]
        self.ok(sorted(map(str, names)) == sorted(map(str, labels)), what + ": labels %s expected, %s found" % (sorted(labels), sorted(names)))
        d = self.dense(t)
        self.ok(tuple(d.shape) == tuple(l.dim for l in t.legs), what + ": leg dimensions differ from the data's shape")
        self.ok(list(t.labels) == names, what + ": labels property differs from legs")
        self.ok(tuple(t.shape) == tuple(d.shape), what + ": shape differs from data")
        return self.transpose(d, [names.index(l) for l in labels])

    def invariant(self, t, what=""):
        """legs, labels, shape and data of one tensor agree"""
        legs = list(t.legs)
        self.ok(len(set(map(id, legs))) == len(legs), what + ": a leg is listed twice")
        self.ok(tuple(t.shape) == tuple(l.dim for l in legs), what + ": shape %s vs leg dims %s" % (t.shape, [l.dim for l in legs]))
        self.ok(list(t.labels) == [l.name for l in legs], what + ": labels vs legs")
        self.ok(t.dim == len(legs), what + ": rank")
        for l in legs:
            self.ok(l.tensor is t, what + ": leg %s does not belong to its tensor" % l.name)
            if l.bond is not None:
                o = l.anotherSide()
                self.ok(o is not None and o is not l and o.bond is l.bond and o.anotherSide() is l, what + ": link of leg %s is not symmetric" % l.name)
                self.ok(o.dim == l.dim, what + ": linked legs of different dimension")
        if t.a is not None:
            if getattr(t, 'diagonalFlag', False):
                self.ok(tuple(t.a.shape) == ((t.shape[0],) if legs else ()), what + ": diagonal data shape")
            else:
                self.ok(tuple(t.a.shape) == tuple(t.shape), what + ": data shape")

    def total(self, ops, out, dims):
        """reference: sum over all index names not in `out` of the product of operand elements.
        ops: [(array, names)], dims: {name: dim}"""
        names = []
        for _, ns in ops:
            for n in ns:
                if n not in names:
                    names.append(n)
        inner = [n for n in names if n not in out]
        cplx = any(self.is_complex(a) for a, _ in ops)
        res = self.zeros(tuple(dims[n] for n in out), cplx)
        for oi in itertools.product(*[range(dims[n]) for n in out]):
            env = dict(zip(out, oi))
            acc = None
            for ii in itertools.product(*[range(dims[n]) for n in inner]):
                env.update(zip(inner, ii))
                p = None
                for a, ns in ops:
                    e = a[tuple(env[n] for n in ns)] if ns else a[()]
                    p = e if p is None else p * e
                acc = p if acc is None else acc + p
            if acc is not None:
                res[oi] = acc
        return res


class ConcCtx(Common):
    symbolic = False
    SkipType = Skip

    def __init__(self, picks, values, rnd=None):
        self._picks = list(picks)
        self._pos = 0
        self.values = values or {}
        self.rnd = rnd or random.Random(1)
        self.lib = Lib()
        self.xp = np
        self.trace = []
        self.reached = False

    def choose(self, name, options):
        options = list(options)
        if not options:
            raise Skip()
        if self._pos < len(self._picks):
            i = self._picks[self._pos]
        else:
            i = self.rnd.randrange(len(options))
        self._pos += 1
        i = min(i, len(options) - 1)
        self.trace.append((name, repr(options[i])))
        return options[i]

    def _rv(self, lo, hi):
        lo = -2.0 if lo is None else float(lo)
        hi = lo + 4.0 if hi is None else float(hi)
        return self.rnd.uniform(lo, hi)

    def array(self, name, shape, cplx=False, lo=None, hi=None):
        shape = tuple(shape)
        v = self.values.get(name)
        n = int(np.prod(shape)) if shape else 1
        if v is not None and tuple(v['shape']) == shape:
            a = np.array(v['re'], dtype=float).reshape(shape)
            if cplx:
                a = a + 1j * np.array(v['im'], dtype=float).reshape(shape)
        else:
            a = np.array([self._rv(lo, hi) for _ in range(n)]).reshape(shape)
            if cplx:
                a = a + 1j * np.array([self._rv(lo, hi) for _ in range(n)]).reshape(shape)
        self.trace.append((name, a.tolist() if not cplx else str(a.tolist())))
        return a

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        v = float(v) if v is not None else self._rv(lo, hi)
        self.trace.append((name, v))
        return v

    def int(self, name, lo, hi):
        v = self.values.get(name)
        v = int(v) if v is not None else self.rnd.randint(lo, hi)
        self.trace.append((name, v))
        return v

    def mktext(self, codes):
        t = ''.join(map(chr, codes))
        self.trace.append(('text', t))
        return t

    def codes(self, t):
        return [ord(x) for x in t]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def zeros(self, shape, cplx=False):
        return np.zeros(shape, dtype=complex if cplx else float)

    def arr0(self, x):
        return np.asarray(x)

    def is_complex(self, a):
        return np.iscomplexobj(a)

    def transpose(self, a, axes):
        return np.transpose(a, axes)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def eq(self, a, b, what="", tol=1e-8):
        self.reached = True
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Failed("%s: shape %s, expected %s" % (what, a.shape, b.shape))
        if a.size == 0:
            return
        if not (np.all(np.isfinite(b))):
            raise Skip()
        scale = max(1.0, float(np.max(np.abs(b))))
        d = np.abs(a - b)
        if not np.all(d <= tol * scale):
            i = np.unravel_index(int(np.argmax(np.nan_to_num(d, nan=np.inf))), a.shape) if a.shape else ()
            raise Failed("%s: element %s is %r, expected %r" % (what, tuple(int(k) for k in i), a[i].item() if a.shape else a.item(), b[i].item() if b.shape else b.item()))

    def ok(self, cond, what=""):
        self.reached = True
        if not bool(cond):
            raise Failed(what)

    def le(self, a, b, what="", tol=1e-9):
        self.reached = True
        if not a <= b + tol * max(1.0, abs(b)):
            raise Failed("%s: %r > %r" % (what, a, b))

    def raises(self, f, what="", exc=Exception):
        self.reached = True
        try:
            f()
        except exc:
            return
        raise Failed(what + ": no error was raised")

    def attempt(self, f):
        try:
            return True, f()
        except Exception as e:
            return False, e

    def guard(self, cond):
        """plain python truth of a condition (forks in symbolic mode)"""
        return bool(cond)

    def generic(self):
        """see SymCtx.generic: random real data have no tiny singular values"""

    def nonzero_splits(self, arr):
        """domain: every matrix factorised from here on is not zero; `arr` is a state that must not vanish for that"""
        import numpy as np
        if not np.max(np.abs(np.asarray(arr)), initial=0) > 1e-4:
            self.skip()


def make_symctx():
    from .core import Ctx, Violated, EngineLimit
    from . import core
    from .sym import Sym, SInt, SBool, SArr, PyFloat, as_sarr, fill, flat, F64, C128, boolify
    from .sxp import XP
    import z3

    class SymCtx(Common, Ctx):
        symbolic = True
        SkipType = core.Skip

        def __init__(self, *a, **k):
            Ctx.__init__(self, *a, **k)
            self.lib = Lib()
            self.xp = XP
            self.rnd = random.Random(1)

        def array(self, name, shape, cplx=False, lo=None, hi=None):
            shape = tuple(shape)
            n = 1
            for s in shape:
                n *= s
            els, reg = [], []
            nn = lo is not None and lo >= 0
            for k in range(n):
                r = self.new_var('in.%s.%d' % (name, k), nonneg=nn)
                if lo is not None and lo != 0:
                    self.add(self.z(r) >= lo)
                if hi is not None:
                    self.add(self.z(r) <= hi)
                i = self.new_var('in.%s.%d.im' % (name, k)) if cplx else 0
                els.append(Sym(r, i, C128 if cplx else F64))
                reg.append((r, i))
            self.inputs[name] = ('array', (shape, reg, cplx))
            return SArr.make(shape, els, C128 if cplx else F64)

        def real(self, name, lo=None, hi=None):
            r = self.new_var('in.' + name, nonneg=(lo is not None and lo >= 0), pos=(lo is not None and lo > 0))
            if lo is not None and lo != 0:
                self.add(self.z(r) >= lo)
            if hi is not None:
                self.add(self.z(r) <= hi)
            self.inputs[name] = ('real', r)
            return PyFloat(r, 0, F64)

        def int(self, name, lo, hi):
            if 0 <= lo and hi <= 4096:
                r = self.bounded_int('in.' + name, lo, hi)
                self.inputs[name] = ('int', r)
                return SInt(r)
            r = self.new_var('in.' + name, 'int', nonneg=lo >= 0, pos=lo > 0)
            self.add(z3.And(self.z(r) >= lo, self.z(r) <= hi))
            self.inputs[name] = ('int', r)
            return SInt(r)

        def mktext(self, codes):
            from .sstr import SStr
            return SStr(codes)

        def codes(self, t):
            return [ord(x) for x in t] if isinstance(t, str) else list(t.cs)

        def assume(self, cond):
            if isinstance(cond, SBool):
                if not self.feasible(cond.c):
                    raise core.Skip()
                self.add(cond.c)
            elif not cond:
                raise core.Skip()

        def zeros(self, shape, cplx=False):
            return fill(shape, 0, C128 if cplx else F64)

        def arr0(self, x):
            return as_sarr(x)

        def is_complex(self, a):
            return as_sarr(a)._vdt.kind == 'c'

        def transpose(self, a, axes):
            return np.transpose(a, axes)

        def exp(self, x):
            return Sym(P.num(x)).exp() if isinstance(x, (int, float)) else (x.exp())

        def log(self, x):
            return Sym(P.num(x)).log() if isinstance(x, (int, float)) else (x.log())

        def sqrt(self, x):
            return Sym(P.num(x)).sqrt() if isinstance(x, (int, float)) else (x.sqrt())

        def eq(self, a, b, what="", tol=None):
            a, b = as_sarr(a), as_sarr(b)
            if a.shape != b.shape:
                self.prove(False, "%s: shape %s, expected %s" % (what, a.shape, b.shape))
                return
            diffs = []
            for x, y in zip(flat(a), flat(b)):
                if isinstance(x, SBool) or isinstance(y, SBool):
                    self.prove(boolify(x).c == boolify(y).c, what)
                    continue
                diffs.append(P.sub(x.re, y.re))
                d = P.sub(x.im, y.im)
                if isinstance(d, P.Poly) or d != 0:
                    diffs.append(d)
            self.prove_zero(diffs, what)

        def ok(self, cond, what=""):
            if isinstance(cond, SBool):
                self.prove(z3.simplify(cond.c), what)
            else:
                self.prove(bool(cond), what)

        def le(self, a, b, what="", tol=None):
            self.ok(a <= b, what)

        def raises(self, f, what="", exc=Exception):
            self.reached = True
            try:
                f()
            except exc:
                self.prove(True, what)
                return
            self.prove(False, what + ": no error was raised")

        def attempt(self, f):
            try:
                return True, f()
            except Exception as e:
                return False, e

        def guard(self, cond):
            return bool(cond)

        def generic(self):
            """from here on: every singular value met so far is either exactly zero or above 1e-6 (nothing was dropped for being tiny)"""
            for q in self.spectra:
                big = self.z(q) * self.z(q) > 1e-6
                if self.feasible(big):
                    self.add(big)
                else:
                    self.add(self.z(q) == 0)
                    (mo, _), = q.t.items()
                    self.zero_vars.add(mo[0][0])
            self.spectra = []

        def nonzero_splits(self, arr):
            self.svd_nonzero = True
            self.assumptions.add("matrices split by the singular value decomposition are not zero (the largest singular value exceeds 1e-6)")

    return SymCtx
