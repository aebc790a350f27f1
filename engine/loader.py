"""Loads CTL from the working tree twice over: symbolically (with shimmed builtins) or plainly (for replay)."""
import ast, builtins, importlib, importlib.abc, importlib.util, os, sys, types
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

COVERED = set()


def _monitor():
    """record which functions of /repo were executed symbolically"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'verif')
    except ValueError:
        return
    root = os.path.join(SRC, 'CTL') + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(root) and not code.co_name.startswith('<'):
            COVERED.add(f[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


# ---------------------------------------------------------------- builtin shims
def make_builtins():
    from .sym import Sym, SInt, SBool, SArr, PyFloat, lift, F64
    from .sxp import XP, MATH
    from . import poly as P

    class _Meta(type):
        def __instancecheck__(cls, x):
            if isinstance(x, cls._base):
                return True
            return cls._inst(x)

        def __subclasscheck__(cls, c):
            return c is cls or issubclass(c, cls._base) if isinstance(c, type) else False

        def __eq__(cls, o):
            return o is cls or o is cls._base

        def __hash__(cls):
            return hash(cls._base)

        def __call__(cls, *a, **k):
            return cls._conv(*a, **k)

        def __repr__(cls):
            return repr(cls._base)

        def __getattr__(cls, n):
            return getattr(cls._base, n)

    class int_(metaclass=_Meta):
        _base = int

        @staticmethod
        def _inst(x):
            return isinstance(x, SInt) or isinstance(x, SBool)

        @staticmethod
        def _conv(*a, **k):
            if a and isinstance(a[0], SInt):
                return a[0]
            if a and isinstance(a[0], SBool):
                return a[0].toint()
            if a and isinstance(a[0], SStr):
                return a[0].toint(*a[1:], **k)
            if a and isinstance(a[0], Sym):
                return a[0].toint()
            if a and isinstance(a[0], SArr):
                return a[0].item().toint()
            return int(*a, **k)
    int_.__name__ = 'int'

    class float_(metaclass=_Meta):
        _base = float

        @staticmethod
        def _inst(x):
            # numpy.float64 is a subclass of float
            return isinstance(x, Sym) and x.vdt == F64

        @staticmethod
        def _conv(*a, **k):
            if a and isinstance(a[0], Sym):
                return PyFloat(a[0].re, 0, F64)
            if a and isinstance(a[0], SInt):
                return PyFloat(a[0].p, 0, F64)
            if a and isinstance(a[0], SArr):
                return PyFloat(a[0].item().re, 0, F64)
            return float(*a, **k)
    float_.__name__ = 'float'

    class complex_(metaclass=_Meta):
        _base = complex

        @staticmethod
        def _inst(x):
            return isinstance(x, Sym) and x.vdt.kind == 'c'

        @staticmethod
        def _conv(*a, **k):
            if a and isinstance(a[0], Sym):
                return Sym(a[0].re, a[0].im, np.dtype('complex128'))
            return complex(*a, **k)
    complex_.__name__ = 'complex'

    from .sstr import SStr

    class str_(metaclass=_Meta):
        _base = str

        @staticmethod
        def _inst(x):
            return isinstance(x, SStr)

        @staticmethod
        def _conv(*a, **k):
            if a and isinstance(a[0], SStr):
                return a[0]
            return str(*a, **k)
    str_.__name__ = 'str'

    def symbolic(x):
        if isinstance(x, SInt):
            return isinstance(x.p, P.Poly)
        return isinstance(x, tuple) and any(symbolic(y) for y in x)

    class SymSet:
        """a set some of whose elements are symbolic integers: membership is decided by comparing"""
        __hash__ = None

        def __init__(self, it=()):
            self.e = []
            for x in it:
                self.add(x)

        def __contains__(self, x):
            return any(bool(x == y) for y in self.e)

        def add(self, x):
            if x not in self:
                self.e.append(x)

        def discard(self, x):
            for i, y in enumerate(self.e):
                if x == y:
                    del self.e[i]
                    return

        def remove(self, x):
            n = len(self.e)
            self.discard(x)
            if len(self.e) == n:
                raise KeyError(x)

        def __len__(self):
            return len(self.e)

        def __iter__(self):
            return iter(list(self.e))

        def pop(self):
            if not self.e:
                raise KeyError('pop from an empty set')
            return self.e.pop(0)

        def clear(self):
            self.e = []

        def copy(self):
            return SymSet(self.e)

        def update(self, *its):
            for it in its:
                for x in it:
                    self.add(x)

        def union(self, *its):
            r = self.copy()
            r.update(*its)
            return r

        def intersection(self, *its):
            return SymSet(x for x in self.e if all(x in SymSet(it) for it in its))

        def difference(self, *its):
            return SymSet(x for x in self.e if not any(x in SymSet(it) for it in its))

        def symmetric_difference(self, o):
            o = SymSet(o)
            return self.difference(o).union(o.difference(self))

        def issubset(self, o):
            o = SymSet(o)
            return all(x in o for x in self.e)

        def issuperset(self, o):
            return SymSet(o).issubset(self)

        def isdisjoint(self, o):
            return not self.intersection(o)

        def _set(o):
            return isinstance(o, (SymSet, set, frozenset))

        def __eq__(self, o):
            if not SymSet._set(o):
                return NotImplemented
            o = SymSet(o)
            return len(o) == len(self) and self.issubset(o)

        def __le__(self, o):
            return self.issubset(o)

        def __ge__(self, o):
            return self.issuperset(o)

        def __lt__(self, o):
            return self.issubset(o) and len(self) < len(o)

        def __gt__(self, o):
            return self.issuperset(o) and len(self) > len(o)

        def __or__(self, o):
            return self.union(o)
        __ror__ = __or__

        def __and__(self, o):
            return self.intersection(o)
        __rand__ = __and__

        def __sub__(self, o):
            return self.difference(o)

        def __rsub__(self, o):
            return SymSet(o).difference(self)

        def __xor__(self, o):
            return self.symmetric_difference(o)
        __rxor__ = __xor__

        def __repr__(self):
            return '{%s}' % ', '.join(map(repr, self.e))

    class set_(metaclass=_Meta):
        _base = set

        @staticmethod
        def _inst(x):
            return isinstance(x, SymSet)

        @staticmethod
        def _conv(*a, **k):
            if len(a) == 1 and not k and not isinstance(a[0], (set, frozenset, str, dict)):
                e = list(a[0])
                return SymSet(e) if any(map(symbolic, e)) else set(e)
            return set(*a, **k)
    set_.__name__ = 'set'

    class frozenset_(set_):
        _base = frozenset

        @staticmethod
        def _conv(*a, **k):
            r = set_._conv(*a, **k)
            return r if isinstance(r, SymSet) else frozenset(r)
    frozenset_.__name__ = 'frozenset'

    def ord_(x):
        return x.ord() if isinstance(x, SStr) else ord(x)

    def type_(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SStr) or type(x) is str:
                return str_
            if isinstance(x, SInt) or type(x) is int:
                return int_
            if isinstance(x, Sym):
                if x.pyfloat:
                    return float_
                return np.complex128 if x.vdt.kind == 'c' else np.float64
            if type(x) is float:
                return float_
            if isinstance(x, SBool):
                return np.bool_
            if isinstance(x, SArr):
                return np.ndarray
            return type(x)
        return type(*a, **k)

    def sum_(it, start=0):
        r = start
        for x in it:
            r = r + x
        return r

    def import_(name, globals=None, locals=None, fromlist=(), level=0):
        m = builtins.__import__(name, globals, locals, fromlist, level)
        if name == 'numpy':
            return XP
        if name == 'math':
            if not fromlist:
                return MATH
            return MATH
        if name.startswith('numpy.'):
            base = XP
            if not fromlist:
                return base
            for part in name.split('.')[1:]:
                base = getattr(base, part)
            return base
        return m

    b = dict(builtins.__dict__)
    b.update({'int': int_, 'float': float_, 'complex': complex_, 'type': type_, 'str': str_, 'ord': ord_, '__import__': import_, 'sum': sum_, 'set': set_, 'frozenset': frozenset_,
              '__verif_set__': set_})
    return b


class _Sets(ast.NodeTransformer):
    """sets written as displays and comprehensions go through the same constructor as set(...)"""

    def _call(self, node, arg):
        return ast.copy_location(ast.Call(ast.Name('__verif_set__', ast.Load()), [arg], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, ast.ListComp(node.elt, node.generators))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, bi):
        self.bi = bi

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'CTL' and not fullname.startswith('CTL.'):
            return None
        rel = os.path.join(SRC, *fullname.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            spec = importlib.util.spec_from_file_location(fullname, os.path.join(rel, '__init__.py'), loader=self,
                                                          submodule_search_locations=[rel])
            return spec
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(fullname, rel + '.py', loader=self)
        if os.path.isdir(rel):
            spec = importlib.util.spec_from_loader(fullname, self, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.bi
        f = module.__spec__.origin
        if not f or not os.path.exists(f):
            return
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        code = compile(ast.fix_missing_locations(_Sets().visit(ast.parse(src, f))), f, 'exec')
        exec(code, module.__dict__)
        if module.__name__ == 'CTL.funcs.xplib':
            from .sxp import XP
            module.xp = XP


def load_symbolic():
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == 'CTL' or k.startswith('CTL.')]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder(make_builtins()))
    import CTL
    import CTL.funcs.xplib
    from .sxp import XP
    CTL.funcs.xplib.xp = XP
    import CTL.tensor.tensor
    return CTL


def load_plain():
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    import CTL
    assert os.path.realpath(CTL.__file__).startswith(os.path.realpath(SRC)), CTL.__file__
    import CTL.tensor.tensor
    return CTL
