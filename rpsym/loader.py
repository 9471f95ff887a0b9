"""Loads /repo/rockphypy from source into a symbolic interpreter environment."""
import ast
import builtins
import importlib
import math
import os
import types
from fractions import Fraction
import numbers
import numpy as _np
from . import sym as S
from .sym import Sym, SymBool, CSym, Unsupported
from . import npx, pltx

REPO = os.environ.get('RPSYM_REPO', '/repo')


class _T(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return _call('__F__', [n], n)
        if isinstance(n.value, complex):
            return _call('__C__', [n], n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return _call('__div__', [n.left, n.right], n)
        if isinstance(n.op, ast.Pow):
            return _call('__pow__', [n.left, n.right], n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            n.value = _call('__S__', [n.value], n.value)
        return n


def _call(f, args, at):
    return ast.copy_location(
        ast.Call(func=ast.copy_location(ast.Name(id=f, ctx=ast.Load()), at),
                 args=args, keywords=[]), at)


def _plain_int(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool)


def _div(a, b):
    if _plain_int(a) and _plain_int(b):
        return Sym.of(int(a)) / Sym.of(int(b))
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iufb':
        a = npx.mk(a)
    if isinstance(b, _np.ndarray) and b.dtype.kind in 'iufb':
        b = npx.mk(b)
    if _plain_int(b) and isinstance(a, _np.ndarray):
        b = Sym.of(int(b))
    return a / b


def _pow(a, b):
    if _plain_int(a) and _plain_int(b):
        if b >= 0:
            return a ** b
        return Sym.of(int(a)) ** int(b)
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iuf' and not (
            a.dtype.kind in 'iu' and _plain_int(b) and b >= 0):
        a = npx.mk(a)
    return a ** b


_FCACHE = {}


def _F(x):
    r = _FCACHE.get(x)
    if r is None:
        r = Sym.of(_folded(x))
        if r.rf.is_const():
            _FCACHE[x] = r
    return r


def _folded(x):
    """a literal with all its digits (1.3333333333333333) stands for the
    fraction, root or multiple of pi it is the float of"""
    if len(repr(x).split('e')[0].replace('.', '').replace('-', '').lstrip('0')) < 15:
        return x
    f = Fraction(x).limit_denominator(5000)
    if f and float(f) == x:
        return f
    f = Fraction(x / math.pi).limit_denominator(1000)
    if f and abs(f.numerator) < 1000 and _near(float(f) * math.pi, x):
        return S.ctx().pi() * f
    f = Fraction(x * x).limit_denominator(100)
    if f and f.numerator < 1000 and _near(math.sqrt(f), abs(x)):
        r = Sym.of(f).sqrt()
        return r if x > 0 else -r
    return x


def _near(a, b):
    return abs(a - b) <= 2e-16 * abs(b)


class SymFloat(float):
    pass


class _FloatType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return x.ravel()[0]
        if isinstance(x, SymBool):
            return x._num()
        return Sym.of(float(x)) if not isinstance(x, str) or x not in ('nan', 'inf', '-inf') \
            else float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatT(metaclass=_FloatType):
    __name__ = 'float'


class _IntType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            r = x.trunc()
            c = r.const()
            return int(c) if c is not None else r
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntT(metaclass=_IntType):
    __name__ = 'int'


class _CplxType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (complex, CSym))

    def __call__(cls, a=0, b=0):
        return CSym.of(a) + CSym.of(b) * CSym.of(1j)


class CplxT(metaclass=_CplxType):
    __name__ = 'complex'


def _isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(k, tuple):
            if _isinstance(o, k):
                return True
            continue
        if isinstance(o, Sym):
            if k in (float, FloatT, npx._F64, _np.float64, _np.floating,
                     numbers.Number, numbers.Real, numbers.Complex, _np.number,
                     _np.generic, _np.inexact, object, Sym):
                return True
            continue
        if isinstance(o, CSym):
            if k in (complex, CplxT, numbers.Number, numbers.Complex, object, CSym):
                return True
            continue
        if isinstance(o, SymBool):
            if k in (bool, _np.bool_, object):
                return True
            continue
        if isinstance(o, k):
            return True
    return False


class _TypeMeta(type):
    def __call__(cls, *a):
        if len(a) == 1:
            o = a[0]
            if isinstance(o, Sym):
                return FloatT
            if isinstance(o, CSym):
                return CplxT
            if isinstance(o, npx.SymArray):
                return _np.ndarray
            if type(o) is float:
                return FloatT
            if type(o) is int:
                return IntT
            return type(o)
        return type(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, type)


class TypeT(metaclass=_TypeMeta):
    pass


def _noprint(*a, **k):
    return None


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return pltx.Any(self.__name__ + '.' + n)


class _Missing:
    def __init__(self, n): self._n = n
    def __call__(self, *a, **k): raise Unsupported(self._n)
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(self._n + '.' + n)


class MissModule(types.ModuleType):
    """module whose functions are contracts supplied by HOOKS, else unsupported"""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        full = self.__name__ + '.' + n

        def f(*a, **k):
            h = npx.HOOKS.get(full) or npx.HOOKS.get(n)
            if h is None:
                raise Unsupported(full)
            return h(*a, **k)
        f.__name__ = n
        return f


_CODE = {}


class Loader:
    """one fresh instance of the package per path run"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.files = {}
        b = {k: getattr(builtins, k) for k in dir(builtins)}
        b['__import__'] = self._import
        b['isinstance'] = _isinstance
        b['float'] = FloatT
        b['int'] = IntT
        b['complex'] = CplxT
        b['type'] = TypeT
        b['print'] = _noprint
        b['__F__'] = _F
        b['__C__'] = CSym.of
        b['__div__'] = _div
        b['__pow__'] = _pow
        b['__S__'] = npx.lift
        self.builtins = b
        self.ext = {}
        self.fp = {}                     # state of the modules when loaded
        self.stubbed = set()
        self.objects = []                # instances made by the cases

    def changed(self):
        """names of what the package keeps that differs from when it was loaded"""
        out = set()
        for full, a in self.fp.items():
            b = module_state(self.mods[full], self.stubbed)
            skip = {c.__name__ + '.' + n for c, n in self.stubbed}
            out |= {'%s.%s' % (full, n) for n in (set(a) | set(b)) - skip if a.get(n) != b.get(n)}
        for o, a in self.objects:
            if state(o, ()) != a:
                out.add('object of ' + type(o).__name__)
        return out

    def external(self, name):
        if name in self.ext:
            return self.ext[name]
        top = name.split('.')[0]
        if name == 'numpy':
            m = npx.NP
        elif name == 'numpy.linalg':
            m = npx.NP.linalg
        elif name == 'math':
            m = npx.MathProxy()
        elif name == 'matplotlib.pyplot':
            m = pltx.Plt()
        elif name == 'matplotlib':
            m = StubModule(name)
            m.pyplot = self.external('matplotlib.pyplot')
        elif top == 'kde_diffusion':
            m = MissModule(name)
        elif top in ('matplotlib', 'seaborn', 'mpl_toolkits', 'mpltern'):
            m = StubModule(name)
        elif top == 'pandas':
            m = importlib.import_module(name)
        elif top in ('scipy',):
            m = MissModule(name)
            if name == 'scipy':
                m.special = self.external('scipy.special')
                m.optimize = self.external('scipy.optimize')
                m.integrate = self.external('scipy.integrate')
                m.interpolate = self.external('scipy.interpolate')
                m.linalg = npx.NP.linalg
        elif name == 'cmath':
            m = MissModule(name)
        else:
            m = importlib.import_module(name)
        self.ext[name] = m
        return m

    def _import(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = (globs or {}).get('__package__') or 'rockphypy'
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            full = '.'.join(parts + ([name] if name else []))
        else:
            full = name
        if full.split('.')[0] == 'rockphypy':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + '.' + f))
                        except FileNotFoundError:
                            raise ImportError(f)
                return m
            return self.load('rockphypy')
        # sibling import written without the package name
        if level == 0 and os.path.exists(os.path.join(self.repo, 'rockphypy', full + '.py')) \
                and '.' not in full:
            return self.load('rockphypy.' + full)
        m = self.external(full)
        if fromlist:
            for f in fromlist:
                if full == 'scipy' and f != '*':
                    setattr(m, f, self.external('scipy.' + f))
            return m
        return self.external(full.split('.')[0])

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        rel = full.split('.')
        base = os.path.join(self.repo, *rel)
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            pkg = full
        else:
            path = base + '.py'
            pkg = '.'.join(rel[:-1])
        m = types.ModuleType(full)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = pkg
        m.__file__ = path
        self.mods[full] = m
        if full == 'rockphypy':
            # the package namespace is filled lazily: attribute access loads
            m.__class__ = _LazyPkg
            m.__dict__['_loader'] = self
            m.__path__ = [base]
            return m
        exec(self.code(path), m.__dict__)
        self.fp[full] = module_state(m, self.stubbed)
        return m

    def code(self, path):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        c = _CODE.get(key)
        if c is None:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(_T().visit(tree))
            c = compile(tree, path, 'exec')
            _CODE[key] = c
        return c


def module_state(m, stubbed):
    r = {}
    for n, v in m.__dict__.items():
        if n.startswith('__') or isinstance(v, types.ModuleType):
            continue
        if isinstance(v, type):
            if v.__module__ == m.__name__:
                for k, w in v.__dict__.items():
                    if not k.startswith('__') and (v, k) not in stubbed:
                        r[n + '.' + k] = state(w, stubbed)
            continue
        if isinstance(v, types.FunctionType) and v.__module__ != m.__name__:
            continue
        r[n] = state(v, stubbed)
    return r


def state(v, stubbed, depth=0):
    """comparable description of a value that may be kept between calls"""
    if depth > 5:
        return id(v)
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if type(v).__name__ == '_lru_cache_wrapper':
        return id(v), tuple(v.cache_info())
    d = depth + 1
    if isinstance(v, types.FunctionType):
        cl = []
        for c in v.__closure__ or ():
            try:
                cl.append(state(c.cell_contents, stubbed, d))
            except ValueError:
                pass
        return (id(v), state(v.__defaults__, stubbed, d), state(v.__kwdefaults__, stubbed, d), tuple(cl),
                state(v.__dict__, stubbed, d))
    if isinstance(v, dict):
        return 'd', tuple((id(a) if not isinstance(a, (str, int)) else a, state(b, stubbed, d)) for a, b in v.items())
    if isinstance(v, (list, tuple, set, frozenset)):
        return type(v).__name__, tuple(state(x, stubbed, d) for x in list(v)[:2000])
    if isinstance(v, _np.ndarray):
        return id(v), v.shape, tuple(id(x) if v.dtype == object else x for x in list(v.ravel())[:2000])
    if isinstance(v, (str, bytes, int, float, bool, type(None))):
        return repr(v)
    if hasattr(v, '__dict__') and not isinstance(v, (type, types.ModuleType)) and type(v).__module__.split('.')[0] == 'rockphypy':
        return id(v), state(v.__dict__, stubbed, d)
    return id(v)


class _LazyPkg(types.ModuleType):
    """`rockphypy` itself: names resolved through its real __init__.py"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        ld = self.__dict__['_loader']
        idx = self.__dict__.get('_index')
        if idx is None:
            idx = {}
            with open(os.path.join(ld.repo, 'rockphypy', '__init__.py'), encoding='utf-8') as fh:
                for st in ast.parse(fh.read()).body:
                    if isinstance(st, ast.ImportFrom) and st.module:
                        mod = ('rockphypy.' + st.module) if st.level else st.module
                        for al in st.names:
                            idx[al.asname or al.name] = (mod, al.name)
            self.__dict__['_index'] = idx
        if n in idx:
            mod, nm = idx[n]
            if mod.startswith('rockphypy'):
                m = ld.load(mod)
                if nm in m.__dict__:
                    v = m.__dict__[nm]
                    self.__dict__[n] = v
                    return v
        if os.path.exists(os.path.join(ld.repo, 'rockphypy', n + '.py')):
            return ld.load('rockphypy.' + n)
        # `from .X import *` or a class living in the module of that name
        for f in sorted(os.listdir(os.path.join(ld.repo, 'rockphypy'))):
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(ld.repo, 'rockphypy', f)
                with open(p, encoding='utf-8') as fh:
                    if ('class ' + n) in fh.read():
                        m = ld.load('rockphypy.' + f[:-3])
                        if n in m.__dict__:
                            self.__dict__[n] = m.__dict__[n]
                            return self.__dict__[n]
        raise AttributeError('rockphypy.' + n)
