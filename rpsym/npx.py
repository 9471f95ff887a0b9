"""numpy / math / scipy stand-ins operating on symbolic values."""
import math as _math
import types
from fractions import Fraction
import numpy as _np
from . import sym as S
from .sym import Sym, SymBool, CSym, Unsupported, poison

_SYMT = (Sym, CSym, SymBool)


class SymArray(_np.ndarray):
    """object ndarray holding Sym elements; intd: array of integer type, which
    cuts off what is stored into it"""
    intd = False

    def __array_finalize__(self, obj):
        if getattr(obj, 'intd', False):
            self.intd = True

    def astype(self, t, *a, **k):
        if not (self.dtype == object and not _isobj(t)):
            return _np.ndarray.astype(self, t, *a, **k)
        r = emap(lambda x: cast(x, t), self)
        if isinstance(r, SymArray) and _dt(t) == 'int':
            r.intd = True
        return r

    @property
    def real(self):
        return emap(lambda x: x.real, self)

    @property
    def imag(self):
        return emap(lambda x: x.imag, self)

    def conj(self): return emap(lambda x: x.conjugate(), self)
    conjugate = conj

    def __getitem__(self, i):
        r = _np.ndarray.__getitem__(self, _idx(i))
        return r

    def __setitem__(self, i, v):
        if isinstance(v, (list, tuple)):
            v = mk(v)
        elif isinstance(v, (float, int)) and not isinstance(v, bool):
            v = Sym.of(v)
        elif isinstance(v, _np.ndarray) and v.dtype != object:
            v = mk(v)
        if self.intd and not (isinstance(v, SymArray) and v.intd):
            v = emap(_trunc, v)
        _np.ndarray.__setitem__(self, _idx(i), v)

    def fill(self, v):
        self[...] = v

    def std(self, *a, **k): return NP.std(self, *a, **k)
    def var(self, *a, **k): return NP.var(self, *a, **k)
    def mean(self, axis=None, **k): return NP.mean(self, axis=axis)
    def clip(self, lo=None, hi=None, **k): return NP.clip(self, lo, hi)
    def round(self, n=0): return emap(lambda x: x.__round__(n), self)

    def __truediv__(self, o):
        return _np.ndarray.__truediv__(self, lift(o))

    def __rtruediv__(self, o):
        return _np.ndarray.__rtruediv__(self, lift(o))

    def __pow__(self, o):
        if self.intd and isinstance(o, int):
            if o < 0:
                raise ValueError('Integers to negative integer powers are not allowed.')
            r = _np.ndarray.__pow__(self, lift(o))
            r.intd = True
            return r
        return _np.ndarray.__pow__(self, lift(o))

    def __rpow__(self, o):
        return _np.ndarray.__rpow__(self, lift(o))

    def __array_ufunc__(self, uf, method, *inp, out=None, **kw):
        # plain object ufuncs on the base class, result re-wrapped
        args = [x.view(_np.ndarray) if isinstance(x, SymArray) else x for x in inp]
        args = [_np_lift(x) for x in args]
        allint = any(getattr(x, 'intd', False) for x in inp) and uf.__name__ in _KEEPINT and all(
            getattr(x, 'intd', False) or isinstance(x, (int, _np.integer)) or isinstance(x, _np.ndarray)
            and x.dtype.kind in 'iu' for x in inp)
        if out is not None and not allint and method == '__call__' and getattr(out[0], 'intd', False) and not all(
                isinstance(x, (int, _np.integer)) for x in inp if x is not out[0]):
            raise TypeError('Cannot cast ufunc output to an array of integers')
        if out is not None:
            kw['out'] = tuple(x.view(_np.ndarray) if isinstance(x, SymArray) else x
                              for x in out)
        kw.pop('dtype', None)
        if method == '__call__' and uf.__name__ in _UFUNC:
            f = _UFUNC[uf.__name__]
            r = f(*args)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        r = getattr(uf, method)(*args, **kw)
        if out is not None:
            return out[0]
        if isinstance(r, _np.ndarray) and r.dtype == object:
            r = r.view(SymArray)
            if allint:
                r.intd = True
            return r
        return r

    def __array_function__(self, func, types_, args, kwargs):
        f = _AF.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return super().__array_function__(func, types_, args, kwargs)


_KEEPINT = {'add', 'subtract', 'multiply', 'negative', 'positive', 'absolute', 'square', 'power', 'maximum', 'minimum'}


def _trunc(x):
    if isinstance(x, float) and x != x:
        return Sym.of(-2 ** 63)
    return x.trunc() if isinstance(x, Sym) else x


def _np_lift(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'f':
        return mk(x).view(_np.ndarray)
    if isinstance(x, float):
        return Sym.of(x)
    return x


def _isobj(t):
    return t is object


def _idx(i):
    if isinstance(i, tuple):
        return tuple(_idx(k) for k in i)
    if isinstance(i, _np.ndarray) and i.dtype == object:
        flat = list(i.ravel())
        if all(isinstance(x, (SymBool, bool, _np.bool_)) for x in flat):
            return _np.array([bool(x) for x in flat], dtype=bool).reshape(i.shape)
        return _np.array([int(x) for x in flat], dtype=int).reshape(i.shape)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, list):
        return [_idx(k) if isinstance(k, (Sym, SymBool)) else k for k in i]
    return i


def lift(o):
    """plain ints in symbolic division/power become exact constants"""
    if isinstance(o, (bool, int, float)):
        return Sym.of(o)
    if isinstance(o, _np.ndarray) and o.dtype.kind in 'iuf':
        return mk(o)
    if isinstance(o, (_np.integer, _np.floating)):
        return Sym.of(o)
    return o


def _conv(x):
    if isinstance(x, _SYMT) or x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return x
    if isinstance(x, complex):
        return CSym.of(x)
    r = Sym.of(x)
    return x if r is NotImplemented else r


def mk(x):
    """object SymArray with Sym elements"""
    if isinstance(x, _np.ndarray):
        a = _np.empty(x.shape, dtype=object)
        if x.ndim == 0:
            a[()] = _conv(x.item() if x.dtype != object else x[()])
        else:
            for i in _np.ndindex(*x.shape):
                a[i] = _conv(x.view(_np.ndarray)[i])
        return a.view(SymArray)
    if isinstance(x, _SYMT):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    a = _np.array(_unwrap(x), dtype=object)
    return mk(a)


def _unwrap(x):
    if isinstance(x, (list, tuple)):
        return [_unwrap(k) for k in x]
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return x[()]
        return [_unwrap(k) for k in x]
    return x


def is_arr(x):
    return isinstance(x, (_np.ndarray, list, tuple))


def emap(f, *args):
    """elementwise with broadcasting; scalar in -> scalar out"""
    if not any(is_arr(a) for a in args):
        return f(*[_conv(a) for a in args])
    arrs = [_np.asarray(mk(a)) if is_arr(a) else a for a in args]
    arrs = [a.view(_np.ndarray) if isinstance(a, _np.ndarray) else mk(a).view(_np.ndarray)
            for a in arrs]
    b = _np.broadcast_arrays(*arrs)
    out = _np.empty(b[0].shape, dtype=object)
    for i in _np.ndindex(*out.shape):
        out[i] = f(*[x[i] for x in b])
    if out.shape == ():
        return out[()]
    return out.view(SymArray)


def _boolarr(x):
    """object array of (Sym)Bools -> real bool array"""
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            o = _np.empty(x.shape, dtype=bool)
            for i in _np.ndindex(*x.shape):
                o[i] = bool(x.view(_np.ndarray)[i])
            return o
        return x
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return _boolarr(mk(x))
    return x


def cast(x, t):
    if isinstance(x, (bool, _np.bool_)):
        x = Sym.of(int(x))
    if isinstance(x, SymBool):
        x = x._num()
    name = t if isinstance(t, str) else getattr(t, '__name__', str(t))
    name = name.lower()
    if 'complex' in name or name.startswith('c'):
        return CSym.of(x)
    if name.startswith('bool') or name == '?':
        return bool(x != 0)
    if 'int' in name or name in ('i', 'i4', 'i8'):
        if isinstance(x, Sym):
            return x.trunc()
        return x
    return x


def _isnan1(x):
    if isinstance(x, CSym):
        return _isnan1(x.re) or _isnan1(x.im)
    if isinstance(x, Sym):
        for c in x.cond:
            if c[0] == 'false':
                return True
        for c in sorted(x.cond, key=repr):
            if not bool(cond_formula(c)):
                return True
        return False
    if isinstance(x, float):
        return x != x
    return False


def cond_formula(c):
    if c[0] == 'false':
        return S.FALSE
    if c[0] == 'nz':
        return S.cmp_rf('!=', S.RF.poly(c[1]))
    if c[0] == 'ge':
        return S.cmp_rf('>=', c[1])
    if c[0] == 'gt':
        return S.cmp_rf('>', c[1])
    if c[0] == 'bool':
        return c[1]
    raise ValueError(c)


def _unary(name):
    def f(x):
        if isinstance(x, (Sym, CSym)):
            return getattr(x, name)()
        return getattr(Sym.of(x), name)()

    def g(x, *a, out=None, where=True, **k):
        if where is not True:
            w = _boolarr(where)
            base = out if out is not None else mk(_np.zeros(_np.shape(x)))
            r = base if out is not None else base
            xm = mk(x) if is_arr(x) else x
            it = _np.broadcast_to(w, _np.shape(xm))
            for i in _np.ndindex(*_np.shape(xm)):
                if it[i]:
                    r[i] = f(xm[i])
            return r
        r = emap(f, x)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    return g


def _maximum(a, b):
    return a if bool(a >= b) else b


def _minimum(a, b):
    return a if bool(a <= b) else b


def _arctan2(y, x):
    # principal branches, forking on signs
    if x > 0:
        return (y / x).arctan()
    if x < 0:
        if y >= 0:
            return (y / x).arctan() + S.ctx().pi()
        return (y / x).arctan() - S.ctx().pi()
    if y > 0:
        return S.ctx().pi() / 2
    if y < 0:
        return -S.ctx().pi() / 2
    return Sym.of(0)


# -- linear algebra ----------------------------------------------------------
def _zero(x):
    return isinstance(x, Sym) and x.rf.is_zero()


def _det(M, rows, cols, memo):
    if not rows:
        return Sym.of(1)
    key = (rows, cols)
    r = memo.get(key)
    if r is not None:
        return r
    # expand along the sparsest row
    best = min(range(len(rows)),
               key=lambda i: sum(0 if _zero(M[rows[i]][c]) else 1 for c in cols))
    i = rows[best]
    rest = rows[:best] + rows[best + 1:]
    tot = Sym.of(0)
    for j, c in enumerate(cols):
        x = M[i][c]
        if _zero(x):
            continue
        t = x * _det(M, rest, cols[:j] + cols[j + 1:], memo)
        tot = tot + t if (best + j) % 2 == 0 else tot - t
    memo[key] = tot
    return tot


def _blocks(M, n):
    """connected components of the row/column incidence graph"""
    par = list(range(2 * n))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for i in range(n):
        for j in range(n):
            if not _zero(M[i][j]):
                par[find(i)] = find(n + j)
    comp = {}
    for i in range(n):
        comp.setdefault(find(i), ([], []))[0].append(i)
        comp.setdefault(find(n + i), ([], []))[1].append(i)
    return list(comp.values())


def inv(A):
    A = mk(A)
    if A.ndim > 2:
        return mk([inv(a) for a in A])
    n = A.shape[0]
    M = [[A[i, j] for j in range(n)] for i in range(n)]
    out = [[Sym.of(0)] * n for _ in range(n)]
    if any(isinstance(x, CSym) for r in M for x in r):
        raise Unsupported('complex inverse')
    for rows, cols in _blocks(M, n):
        if len(rows) != len(cols):
            raise _np.linalg.LinAlgError('Singular matrix')
        rows = tuple(rows)
        cols = tuple(cols)
        memo = {}
        d = _det(M, rows, cols, memo)
        if d.rf.is_zero():
            raise _np.linalg.LinAlgError('Singular matrix')
        for a, i in enumerate(rows):
            for b, j in enumerate(cols):
                m = _det(M, rows[:a] + rows[a + 1:], cols[:b] + cols[b + 1:], memo)
                if (a + b) % 2:
                    m = -m
                out[j][i] = m / d
    return mk(out)


def det(A):
    A = mk(A)
    n = A.shape[0]
    M = [[A[i, j] for j in range(n)] for i in range(n)]
    return _det(M, tuple(range(n)), tuple(range(n)), {})


class _Linalg(types.SimpleNamespace):
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def inv(A): return inv(A)
    pinv = inv

    @staticmethod
    def det(A): return det(A)

    @staticmethod
    def solve(A, b):
        return NP.dot(inv(A), mk(b))

    @staticmethod
    def norm(x, *a, **k):
        ax = k.pop('axis', None)
        if k.pop('ord', a[0] if a else None) not in (None, 2) or k or len(a) > 1:
            raise Unsupported('norm with options')
        x = mk(x)
        if ax is not None:
            return NP.sqrt(NP.sum(x * x, axis=ax))
        t = Sym.of(0)
        for v in mk(x).ravel():
            t = t + v * v
        return t.sqrt()

    @staticmethod
    def matrix_power(A, n):
        A = mk(A)
        if n < 0:
            A, n = inv(A), -n
        R = NP.eye(A.shape[0])
        for _ in range(n):
            R = R @ A
        return R

    def __getattr__(self, n):
        raise Unsupported('np.linalg.' + n)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Sym, cls._real))

    def __call__(cls, x=0):
        if isinstance(x, (Sym, _np.ndarray)):
            return x
        return Sym.of(cls._real(x))

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class _F64(metaclass=_FloatMeta):
    _real = _np.float64


def _dt(dtype):
    """'bool','int','float','complex','object' or None"""
    if dtype is None:
        return 'float'
    if dtype is object:
        return 'object'
    n = dtype if isinstance(dtype, str) else getattr(dtype, '__name__', str(dtype))
    n = n.lower()
    if n in ('float32', 'float16', 'single', 'half', 'f', 'f4', 'f2', 'complex64'):
        raise Unsupported('reduced precision ' + n)
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('int') or n.startswith('uint') or n in ('i', 'i4', 'i8'):
        return 'int'
    if n.startswith('complex') or n.startswith('c'):
        return 'complex'
    return 'float'


def _filled(shape, v, dtype=None):
    if isinstance(shape, Sym):
        shape = int(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    k = _dt(dtype)
    if k in ('bool', 'int'):
        return _np.full(shape, v, dtype=bool if k == 'bool' else int)
    a = _np.empty(shape, dtype=object)
    a[...] = _conv(v)
    return a.view(SymArray)


def _like(x, v, dtype=None):
    if dtype is None and getattr(x, 'intd', False):
        r = _filled(_np.shape(x), v if isinstance(v, int) else _trunc(_conv(v)))
        r.intd = True
        return r
    if dtype is None and isinstance(x, _np.ndarray) and x.dtype.kind in 'biu':
        return _np.full(x.shape, v, dtype=x.dtype)
    return _filled(_np.shape(x), v, dtype)


def _allint(x):
    if isinstance(x, (list, tuple)):
        return all(_allint(k) for k in x)
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in 'iub'
    return isinstance(x, (int, _np.integer, bool, _np.bool_))


class NumpyProxy(types.ModuleType):
    ndarray = _np.ndarray
    newaxis = None
    linalg = _Linalg()
    float64 = _F64
    float_ = _F64
    double = _F64

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, n):
        if n in ('pi', 'e'):
            return S.ctx().pi() if n == 'pi' else Sym.of(1).exp()
        if n in _UNARY:
            return _UNARY[n]
        if n in ('inf', 'Inf', 'nan', 'NaN', 'infty'):
            return getattr(_np, n.lower() if n != 'infty' else 'inf')
        if n in ('random', 'fft', 'ma'):
            raise Unsupported('np.' + n)
        return getattr(_np, n)

    # construction
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        kd = _dt(dtype) if dtype is not None else None
        if kd in ('int', 'bool'):
            if _allint(x):
                return _np.array(x, dtype=int if kd == 'int' else bool)
            r = emap(lambda v: cast(v, kd), mk(x))
            if kd == 'int' and isinstance(r, SymArray):
                r.intd = True
            return r
        if kd is None and _allint(x) and is_arr(x) and _np.size(x):
            r = _np.array(x)
        else:
            r = mk(x)
            if kd == 'complex':
                r = emap(CSym.of, r)
            if kd is None and getattr(x, 'intd', False):
                r.intd = True
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or _dt(dtype) == 'float' and not x.intd):
            return x
        if isinstance(x, _np.ndarray) and dtype is None:
            return x
        return self.array(x, dtype)
    asanyarray = asarray
    ascontiguousarray = asarray
    asfarray = asarray

    def copy(self, x, **k):
        return x.copy() if isinstance(x, _np.ndarray) else self.array(x)

    def atleast_1d(self, *xs):
        r = [x if isinstance(x, _np.ndarray) and x.ndim >= 1 else
             (self.array(x) if is_arr(x) else mk([x])) for x in xs]
        return r[0] if len(r) == 1 else r

    def atleast_2d(self, x):
        x = self.atleast_1d(x)
        return x if x.ndim >= 2 else x[None, :]

    def zeros(self, shape, dtype=None, **k): return _filled(shape, 0, dtype)
    def empty(self, shape, dtype=None, **k): return _filled(shape, 0, dtype)
    def ones(self, shape, dtype=None, **k): return _filled(shape, 1, dtype)

    def full(self, shape, v, dtype=None, **k):
        if isinstance(v, (bool, _np.bool_)) and dtype is None:
            return _np.full(shape, v)
        return _filled(shape, v, dtype)

    def zeros_like(self, x, dtype=None, **k): return _like(x, 0, dtype)
    def empty_like(self, x, dtype=None, **k): return _like(x, 0, dtype)
    def ones_like(self, x, dtype=None, **k): return _like(x, 1, dtype)
    def full_like(self, x, v, dtype=None, **k): return _like(x, v, dtype)

    def eye(self, n, *a, **k):
        return mk(_np.eye(int(n), *a))
    def identity(self, n, **k): return mk(_np.eye(int(n)))

    def diag(self, x, k=0): return mk(_np.diag(mk(x).view(_np.ndarray), k))

    def arange(self, *a, **k):
        if all(isinstance(x, (int, _np.integer)) for x in a):
            return _np.arange(*a)
        a = [Sym.of(x).const() for x in a]
        if any(x is None for x in a):
            raise Unsupported('arange with symbolic bounds')
        if len(a) == 1:
            st, en, d = Fraction(0), a[0], Fraction(1)
        elif len(a) == 2:
            st, en, d = a[0], a[1], Fraction(1)
        else:
            st, en, d = a
        n = max(0, _math.ceil((en - st) / d))
        return mk([st + i * d for i in range(n)])

    def linspace(self, a, b, n=50, endpoint=True, retstep=False, dtype=None, axis=0, num=None):
        if num is not None:
            n = num
        n = int(n)
        a, b = (mk(a) if is_arr(a) else Sym.of(a)), (mk(b) if is_arr(b) else Sym.of(b))
        d = (n - 1) if endpoint else n
        st = (b - a) / d if d > 0 else Sym.of(0)
        hook = HOOKS.get('linspace')
        if hook:
            r = hook(a, b, n)
            if r is not None:
                return r
        r = mk([a + st * i for i in range(n)])
        return (r, st) if retstep else r

    def logspace(self, a, b, n=50, **k):
        return emap(lambda x: S.power(Sym.of(10), x), self.linspace(a, b, n))

    def geomspace(self, a, b, n=50, **k):
        return emap(lambda x: x.exp(), self.linspace(self.log(a), self.log(b), n))

    # elementwise
    def maximum(self, a, b, **k): return emap(_maximum, a, b)
    def minimum(self, a, b, **k): return emap(_minimum, a, b)
    fmax = maximum
    fmin = minimum
    def power(self, a, b, **k): return emap(lambda x, y: x ** y, a, b)
    float_power = power
    def divide(self, a, b, out=None, where=True, **k):
        if where is not True:
            w = _np.broadcast_to(_boolarr(where), _np.broadcast_shapes(_np.shape(a), _np.shape(b)))
            r = out if out is not None else mk(_np.zeros(w.shape))
            A = _np.broadcast_to(mk(a).view(_np.ndarray), w.shape)
            B = _np.broadcast_to(mk(b).view(_np.ndarray), w.shape)
            for i in _np.ndindex(*w.shape):
                if w[i]:
                    r[i] = A[i] / B[i]
            return r
        r = emap(lambda x, y: x / y, a, b)
        if out is not None:
            out[...] = r
            return out
        return r
    true_divide = divide
    def add(self, a, b, **k): return emap(lambda x, y: x + y, a, b)
    def subtract(self, a, b, **k): return emap(lambda x, y: x - y, a, b)
    def multiply(self, a, b, **k): return emap(lambda x, y: x * y, a, b)
    def mod(self, a, b): return emap(lambda x, y: x % y, a, b)
    remainder = mod
    def floor_divide(self, a, b): return emap(lambda x, y: x // y, a, b)
    def negative(self, a): return emap(lambda x: -x, a)
    def arctan2(self, a, b): return emap(_arctan2, a, b)
    def hypot(self, a, b): return emap(lambda x, y: (x * x + y * y).sqrt(), a, b)
    def real(self, a): return emap(lambda x: x.real, a)
    def imag(self, a): return emap(lambda x: x.imag, a)
    def conj(self, a): return emap(lambda x: x.conjugate(), a)
    def clip(self, x, lo=None, hi=None, a_min=None, a_max=None, **k):
        lo = a_min if lo is None else lo
        hi = a_max if hi is None else hi
        if lo is not None:
            x = emap(_maximum, x, lo)
        if hi is not None:
            x = emap(_minimum, x, hi)
        return x
    def round(self, x, n=0, **k): return emap(lambda v: v.__round__(int(n)), x)
    around = round
    round_ = round
    class polynomial(types.SimpleNamespace):
        class polynomial(types.SimpleNamespace):
            @staticmethod
            def polyval(x, c, tensor=True):
                return NP.polyval(list(c)[::-1], x)

    def nan_to_num(self, x, nan=0, **k):
        return emap(lambda v: Sym.of(nan) if _isnan1(v) else v, x)

    # logic
    def isnan(self, x):
        if not is_arr(x):
            return _isnan1(x)
        return _boolarr(emap(_isnan1, x))
    def isfinite(self, x):
        r = self.isnan(x)
        return (not r) if isinstance(r, bool) else ~r
    def isinf(self, x):
        if not is_arr(x):
            return False
        return _np.zeros(_np.shape(x), dtype=bool)
    def isreal(self, x):
        f = lambda v: bool(v.imag == 0) if isinstance(v, CSym) else True
        return f(x) if not is_arr(x) else _boolarr(emap(f, x))
    def iscomplex(self, x):
        r = self.isreal(x)
        return (not r) if isinstance(r, bool) else ~r
    def iscomplexobj(self, x):
        return any(isinstance(v, CSym) for v in _np.ravel(mk(x)))
    def isscalar(self, x): return isinstance(x, (Sym, CSym)) or _np.isscalar(x)
    def where(self, c, *ab):
        if not ab:
            return _np.where(_boolarr(c))
        c = _boolarr(c)
        a, b = ab
        if not is_arr(c) and not is_arr(a) and not is_arr(b):
            return _conv(a) if c else _conv(b)
        return emap(lambda cc, x, y: x if cc else y, _np.asarray(c), a, b)
    def select(self, cl, ch, default=0):
        r = default
        for c, v in reversed(list(zip(cl, ch))):
            r = self.where(c, v, r)
        return r
    def piecewise(self, x, conds, funcs, *a, **k):
        if not is_arr(x):
            return self.piecewise(mk([x]), [mk([c]) if isinstance(c, SymBool) else _np.array([bool(c)]) for c in conds],
                                  funcs, *a, **k)[0]
        x = mk(x)
        conds = [_boolarr(c) for c in conds]
        out = mk(_np.zeros(x.shape))
        rest = _np.ones(x.shape, dtype=bool)
        for c in conds:
            rest &= ~c
        if len(funcs) == len(conds) + 1:
            conds = conds + [rest]
        for c, f in zip(conds, funcs):
            if callable(f):
                if c.any():
                    out[c] = f(x[c])
            else:
                out[c] = f
        return out
    def any(self, x, axis=None, **k):
        return _np.any(_boolarr(x), axis=axis)
    def all(self, x, axis=None, **k):
        return _np.all(_boolarr(x), axis=axis)
    def logical_and(self, a, b): return _np.logical_and(_boolarr(a), _boolarr(b))
    def logical_or(self, a, b): return _np.logical_or(_boolarr(a), _boolarr(b))
    def logical_not(self, a): return _np.logical_not(_boolarr(a))
    def count_nonzero(self, a): return _np.count_nonzero(_boolarr(a))
    def nonzero(self, a): return _np.nonzero(_boolarr(a))
    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(_np.all(self.isclose(a, b, rtol, atol)))
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        f = lambda x, y: bool(abs(x - y) <= Sym.of(atol) + Sym.of(rtol) * abs(y))
        r = emap(f, a, b)
        return _boolarr(r)
    def array_equal(self, a, b, **k):
        if _np.shape(a) != _np.shape(b):
            return False
        return bool(_np.all(_boolarr(emap(lambda x, y: bool(x == y), a, b))))
    def less(self, a, b): return _cmpw(a, b, lambda x, y: x < y)
    def less_equal(self, a, b): return _cmpw(a, b, lambda x, y: x <= y)
    def greater(self, a, b): return _cmpw(a, b, lambda x, y: x > y)
    def greater_equal(self, a, b): return _cmpw(a, b, lambda x, y: x >= y)
    def equal(self, a, b): return _cmpw(a, b, lambda x, y: x == y)
    def not_equal(self, a, b): return _cmpw(a, b, lambda x, y: x != y)

    # reductions
    def sum(self, x, axis=None, **k):
        if not is_arr(x):
            return x
        return _rw(_np.sum(mk(x).view(_np.ndarray), axis=axis, **{a: b for a, b in k.items() if a == 'keepdims'}))
    def nanmean(self, x, axis=None, **k):
        x = mk(x)
        if any(_isnan1(v) for v in x.ravel()):
            raise Unsupported('nanmean with missing values')
        return self.mean(x, axis)

    def fromiter(self, it, dtype=None, count=-1, **k):
        it = list(it)
        return self.array(it if count < 0 else it[:count], dtype)

    def copysign(self, a, b): return emap(lambda x, y: abs(x) if y >= 0 else -abs(x), a, b)

    def heaviside(self, a, b):
        return emap(lambda x, y: Sym.of(1) if x > 0 else (Sym.of(0) if x < 0 else y), a, b)

    def ldexp(self, a, b): return emap(lambda x, y: x * Sym.of(2) ** y, a, b)

    def nansum(self, x, axis=None): return self.sum(self.nan_to_num(x), axis)
    def prod(self, x, axis=None, **k): return _rw(_np.prod(mk(x).view(_np.ndarray), axis=axis))
    def cumsum(self, x, axis=None): return _rw(_np.cumsum(mk(x).view(_np.ndarray), axis=axis))
    def cumprod(self, x, axis=None): return _rw(_np.cumprod(mk(x).view(_np.ndarray), axis=axis))
    def mean(self, x, axis=None, **k):
        x = mk(x)
        n = x.size if axis is None else x.shape[axis]
        return self.sum(x, axis) / n
    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(x, axis)
        w = mk(weights)
        return self.sum(mk(x) * w, axis) / self.sum(w, axis)
    def var(self, x, axis=None, ddof=0, **k):
        if axis is not None:
            raise Unsupported('var axis')
        x = mk(x)
        m = self.mean(x)
        return self.sum((x - m) ** 2) / (x.size - ddof)
    def std(self, x, axis=None, ddof=0, **k): return self.var(x, axis, ddof).sqrt()
    def max(self, x, axis=None, **k):
        if axis is None:
            return _fold(_maximum, x)
        return mk([_fold(_maximum, r) for r in _np.moveaxis(mk(x), axis, -1)])
    def min(self, x, axis=None, **k):
        if axis is None:
            return _fold(_minimum, x)
        return mk([_fold(_minimum, r) for r in _np.moveaxis(mk(x), axis, -1)])
    amax = max
    amin = min
    nanmax = max
    nanmin = min
    def ptp(self, x): return self.max(x) - self.min(x)
    def median(self, x, **k):
        s = sorted(mk(x).ravel())
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    def diff(self, x, *a, **k):
        x = mk(x)
        return x[1:] - x[:-1]
    def trapezoid(self, y, x=None, dx=1, **k):
        y = mk(y)
        d = self.diff(x) if x is not None else Sym.of(dx)
        return self.sum(d * (y[1:] + y[:-1]) / 2)
    trapz = trapezoid
    def dot(self, a, b, **k):
        if not is_arr(a) or not is_arr(b):
            return a * b
        return _rw(_np.dot(mk(a).view(_np.ndarray), mk(b).view(_np.ndarray)))
    def matmul(self, a, b, **k): return _rw(_np.matmul(mk(a).view(_np.ndarray), mk(b).view(_np.ndarray)))
    def outer(self, a, b): return _rw(_np.outer(mk(a).view(_np.ndarray), mk(b).view(_np.ndarray)))
    def cross(self, a, b): return _rw(_np.cross(mk(a).view(_np.ndarray), mk(b).view(_np.ndarray)))
    def trace(self, a): return _rw(_np.trace(mk(a).view(_np.ndarray)))
    def einsum(self, spec, *ops, **k):
        return _einsum(spec, *[mk(o) for o in ops])
    def inner(self, a, b): return _rw(_np.inner(mk(a).view(_np.ndarray), mk(b).view(_np.ndarray)))
    def interp(self, x, xp, fp, left=None, right=None, **k):
        xp, fp = list(mk(xp)), list(mk(fp))

        def f(v):
            if v <= xp[0]:
                return fp[0] if (left is None or bool(v == xp[0])) else Sym.of(left)
            for i in range(1, len(xp)):
                if v <= xp[i]:
                    return fp[i-1] + (fp[i] - fp[i-1]) * (v - xp[i-1]) / (xp[i] - xp[i-1])
            return fp[-1] if right is None else Sym.of(right)
        return emap(f, x)
    def polyval(self, p, x):
        p = list(mk(p))

        def f(v):
            r = Sym.of(0)
            for c in p:
                r = r * v + c
            return r
        return emap(f, x)
    def vectorize(self, f, *a, **k):
        def g(*args):
            if not any(is_arr(x) for x in args):
                return f(*args)
            arrs = _np.broadcast_arrays(*[mk(x).view(_np.ndarray) for x in args])
            sh = arrs[0].shape
            res = [f(*[x[i] for x in arrs]) for i in _np.ndindex(*sh)]
            if res and isinstance(res[0], tuple):
                return tuple(mk([r[j] for r in res]).reshape(sh) for j in range(len(res[0])))
            return mk(res).reshape(sh)
        return g
    def roots(self, p):
        hook = HOOKS.get('roots')
        if hook:
            return hook(p)
        raise Unsupported('np.roots')
    def searchsorted(self, a, v, side='left', **k):
        a = list(mk(a))

        def f(x):
            n = 0
            for y in a:
                if bool(y < x) or (side == 'right' and bool(y <= x)):
                    n += 1
            return n
        if not is_arr(v):
            return f(v)
        return _np.array([f(x) for x in mk(v)])
    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, side='left' if right else 'right')

    # shape
    def concatenate(self, xs, axis=0, **k): return _rw(_np.concatenate([_obj(x) for x in xs], axis=axis))
    def append(self, a, b, axis=None): return _rw(_np.append(_obj(a), _obj(b), axis=axis))
    def hstack(self, xs): return _rw(_np.hstack([_obj(x) for x in xs]))
    def vstack(self, xs): return _rw(_np.vstack([_obj(x) for x in xs]))
    def stack(self, xs, axis=0): return _rw(_np.stack([_obj(x) for x in xs], axis=axis))
    def column_stack(self, xs): return _rw(_np.column_stack([_obj(x) for x in xs]))
    def tile(self, x, r): return _rw(_np.tile(_obj(x), r))
    def repeat(self, x, r, axis=None): return _rw(_np.repeat(_obj(x), r, axis=axis))
    def meshgrid(self, *xs, **k): return [_rw(m) for m in _np.meshgrid(*[_obj(x) for x in xs], **k)]
    def broadcast_arrays(self, *xs): return [_rw(m.copy()) for m in _np.broadcast_arrays(*[_obj(x) for x in xs])]
    def broadcast_to(self, x, s): return _rw(_np.broadcast_to(_obj(x), s))
    def reshape(self, x, s, **k): return _rw(_np.reshape(_obj(x), s))
    def ravel(self, x, **k): return _rw(_np.ravel(_obj(x)))
    def squeeze(self, x, **k): return _rw(_np.squeeze(_obj(x), **k))
    def expand_dims(self, x, a): return _rw(_np.expand_dims(_obj(x), a))
    def transpose(self, x, *a): return _rw(_np.transpose(_obj(x), *a))
    def sort(self, x, **k): return mk(sorted(mk(x).ravel()))
    def flip(self, x, *a): return _rw(_np.flip(_obj(x), *a))
    def size(self, x, axis=None):
        return 1 if isinstance(x, (Sym, CSym)) else _np.size(x, axis)
    def shape(self, x): return () if isinstance(x, (Sym, CSym)) else _np.shape(x)
    def ndim(self, x): return 0 if isinstance(x, (Sym, CSym)) else _np.ndim(x)
    def delete(self, x, i, axis=None): return _rw(_np.delete(_obj(x), _idx(i), axis))
    def insert(self, x, i, v, axis=None): return _rw(_np.insert(_obj(x), i, v, axis))
    def issubdtype(self, a, b):
        if a == object or a is object:
            a = float
        return _np.issubdtype(a, b if not isinstance(b, _FloatMeta) else _np.float64)
    def result_type(self, *a): return _np.dtype(float)
    def may_share_memory(self, a, b): return _np.may_share_memory(a, b)
    def fill_diagonal(self, a, v):
        for i in range(min(a.shape)):
            a[i, i] = v
    def apply_along_axis(self, f, axis, arr, *a, **k):
        arr = mk(arr)
        if arr.ndim == 1:
            return f(arr, *a, **k)
        res = [f(r, *a, **k) for r in _np.moveaxis(arr, axis, -1)]
        return mk(res)
    def copyto(self, a, b): a[...] = b


def _obj(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'biu':
        return x
    if isinstance(x, (list, tuple)) and _allint(x):
        return _np.array(x)
    return mk(x).view(_np.ndarray)


def _rw(r):
    if isinstance(r, _np.ndarray) and r.dtype == object:
        if r.shape == ():
            return r[()]
        return r.view(SymArray)
    if isinstance(r, (int, float)):
        return Sym.of(r)
    return r


def _cmpw(a, b, f):
    if not is_arr(a) and not is_arr(b):
        return f(_conv(a), _conv(b))
    return _boolarr(emap(f, a, b))


def _fold(f, x):
    it = list(mk(x).ravel())
    if not it:
        raise ValueError('zero-size array to reduction operation')
    r = it[0]
    for y in it[1:]:
        r = f(r, y)
    return r


def _einsum(spec, *ops):
    ins, _, out = spec.replace(' ', '').partition('->')
    ins = ins.split(',')
    if '.' in spec:
        big = max(_np.ndim(o) - len(s.replace('...', '')) for s, o in zip(ins, ops))
        ell = 'ABCDEFGH'[:big]
        ins = [s.replace('...', ell[big - (_np.ndim(o) - len(s.replace('...', ''))):]) for s, o in zip(ins, ops)]
        out = out.replace('...', ell)
    if not _:
        from collections import Counter
        cnt = Counter(''.join(ins))
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            dims[ch] = d
    summed = [c for c in dims if c not in out]
    res = _np.empty(tuple(dims[c] for c in out), dtype=object)
    import itertools
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        tot = Sym.of(0)
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = Sym.of(1)
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            tot = tot + t
        res[oi] = tot
    return res[()] if res.shape == () else res.view(SymArray)


_UNARY = {}
for _n in ('sqrt', 'cbrt', 'square', 'reciprocal', 'exp', 'expm1', 'exp2', 'log',
           'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'arcsin', 'arccos',
           'arctan', 'arccosh', 'arcsinh', 'arctanh', 'sinh', 'cosh', 'tanh',
           'deg2rad', 'rad2deg', 'radians', 'degrees', 'sign', 'floor', 'ceil',
           'trunc', 'rint', 'fabs'):
    _UNARY[_n] = _unary(_n)
_UNARY['abs'] = _unary('__abs__')
_UNARY['absolute'] = _unary('__abs__')
_UNARY['asin'] = _UNARY['arcsin']
_UNARY['acos'] = _UNARY['arccos']
_UNARY['atan'] = _UNARY['arctan']
_UNARY['acosh'] = _UNARY['arccosh']

HOOKS = {}
NP = NumpyProxy()


class _Binary:
    """binary ufunc of numpy with its methods"""

    def __init__(self, name):
        self.__name__ = name
        self.f = getattr(NumpyProxy, name)

    def __call__(self, *a, **k): return self.f(NP, *a, **k)

    def reduce(self, x, axis=0, **k):
        x = mk(x)
        if axis is None:
            x, axis = x.ravel(), 0
        x = _np.moveaxis(x.view(_np.ndarray), axis, 0)
        r = _rw(x[0]) if x.ndim > 1 else x[0]
        for y in x[1:]:
            r = self(r, _rw(y) if isinstance(y, _np.ndarray) else y)
        return r

    def accumulate(self, x, axis=0, **k):
        x = mk(x)
        r = [x[0]]
        for y in x[1:]:
            r.append(self(r[-1], y))
        return mk(r)

    def outer(self, a, b):
        a, b = mk(a), mk(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, i, b):
        for k, v in zip(_np.ravel(i), _np.broadcast_to(mk(b), _np.shape(i)).ravel()):
            a[k] = self(a[k], v)


for _n in ('add', 'subtract', 'multiply', 'divide', 'power', 'maximum', 'minimum', 'mod', 'hypot'):
    setattr(NP, _n, _Binary(_n))
NP.true_divide = NP.divide
NP.float_power = NP.power
NP.fmax, NP.fmin = NP.maximum, NP.minimum
_UFUNC = {n: _UNARY[n] for n in _UNARY}
_UFUNC['power'] = NP.power
_UFUNC['isnan'] = NP.isnan
_UFUNC['isfinite'] = NP.isfinite
_AF = {n: getattr(NP, n) for n in (
    'linspace', 'where', 'any', 'all', 'mean', 'std', 'var', 'clip', 'interp',
    'allclose', 'isclose', 'array_equal', 'round', 'max', 'min', 'amax', 'amin',
    'trapezoid', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'nan_to_num',
    'select', 'piecewise', 'real', 'imag', 'sum')}


# -- math ------------------------------------------------------------------------
class MathProxy(types.ModuleType):
    inf = _math.inf
    nan = _math.nan

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        if n == 'pi':
            return S.ctx().pi()
        if n == 'e':
            return Sym.of(1).exp()
        m = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'acosh': 'arccosh',
             'asinh': 'arcsinh', 'atanh': 'arctanh'}.get(n, n)
        if m in _UNARY:
            f = _UNARY[m]
            return f
        if n == 'pow':
            return lambda a, b: Sym.of(a) ** b
        if n == 'hypot':
            return NP.hypot
        if n == 'atan2':
            return NP.arctan2
        if n in ('isnan', 'isfinite', 'isinf', 'isclose'):
            return getattr(NP, n)
        if n in ('comb', 'factorial', 'gcd', 'prod', 'fsum'):
            return getattr(_math, n) if n != 'fsum' else sum
        raise Unsupported('math.' + n)


# -- library functions treated as opaque (congruence only) --------------------
def jv(n, z):
    """Bessel function of the first kind as an opaque complex function"""
    from scipy.special import jv as _jv
    n = int(Sym.of(n).const())

    def f(x):
        x = CSym.of(x)
        re = S.sfun('jv%d_re' % n, [x.re, x.im], ev=lambda a, b: float(_jv(n, complex(a, b)).real))
        im = S.sfun('jv%d_im' % n, [x.re, x.im], ev=lambda a, b: float(_jv(n, complex(a, b)).imag))
        return CSym(re, im)
    return emap(f, z)


DEFAULT_HOOKS = {'jv': jv}
