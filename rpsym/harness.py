"""Harness API.  The same case function runs symbolically (SymH) and on the
real code (ConH, used for replay and for validating the encoding)."""
import json
import math
import os
import random
import re
import sys
import time
from fractions import Fraction
import numpy as np

CASES = {}          # prop -> list of Case


class Case:
    def __init__(self, prop, name, fn, kw, thorough, timeout):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.kw = kw
        self.thorough = thorough
        self.timeout = timeout
        self.units = ()

    def unit(self, name):
        """factor of the ranges of an argument in the units of this case"""
        for pat, k in self.units:
            if re.fullmatch(pat, name):
                return k
        return 1

    def range(self, name, v):
        k = self.unit(name)
        return [x if x is None or k == 1 else Fraction(str(x)) * k for x in v]


def case(prop, name=None, thorough=False, timeout=None, grid=None, si=None):
    """decorator; grid: list of kwargs dicts -> one case each; si: ((names, factor), ...) -> the same case again with
    the ranges of these arguments multiplied"""
    def deco(fn):
        base = name or fn.__name__
        if grid is None:
            CASES.setdefault(prop, []).append(Case(prop, base, fn, {}, thorough, timeout))
        else:
            for g in grid:
                g = dict(g)
                th = g.pop('_thorough', thorough)
                tag = ','.join('%s=%s' % (k, v) for k, v in g.items())
                CASES.setdefault(prop, []).append(
                    Case(prop, '%s[%s]' % (base, tag), fn, g, th, timeout))
        if si:
            for c in [c for c in CASES[prop] if c.fn is fn]:
                n = c.name[:-1] + ',SI]' if c.name.endswith(']') else c.name + '[SI]'
                d = Case(prop, n, fn, c.kw, c.thorough, timeout)
                d.units = si
                CASES[prop].append(d)
        return fn
    return deco


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__('%s: %s' % (label, detail))
        self.label = label
        self.detail = detail


class BadPoint(Exception):
    """concrete inputs do not satisfy the harness assumptions"""


class Stop(BaseException):
    """stop exploring this case (a violation was reproduced)"""


def flat(x):
    """flatten tuples/lists/arrays to (shape description, list)"""
    if isinstance(x, (tuple, list)):
        sh, out = [], []
        for y in x:
            s, o = flat(y)
            sh.append(s)
            out.extend(o)
        return tuple(sh), out
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return 's', [x[()]]
        return x.shape, list(np.asarray(x).ravel())
    return 's', [x]


class Again:
    """a class or object of the package whose functions are called with other
    values of each argument before the call that counts: what a call returns
    must not depend on earlier calls"""

    def __init__(self, o, h):
        self._o = o
        self._h = h

    def __getattr__(self, n):
        v = getattr(self._o, n)
        if not callable(v):
            return v
        if isinstance(v, type):
            return Again(v, self._h)

        def call(*a, **k):
            self._h.rehearse(v, a, k)
            return v(*a, **k)
        return call

    def __call__(self, *a, **k):
        return Again(self._o(*a, **k), self._h)


def others(num, a, k):
    """argument lists with one numeric argument changed"""
    def shift(x):
        if isinstance(x, (list, tuple)):
            y = [shift(z) for z in x]
            return None if any(z is None for z in y) or not y else type(x)(y)
        if isinstance(x, np.ndarray):
            if x.dtype.kind not in 'fOi' or not x.size or getattr(x, 'intd', False) or x.dtype.kind == 'i':
                return None
            return x * num('1.07') + num('0.001')
        if isinstance(x, (bool, int, str, np.bool_, np.integer)) or x is None or callable(x):
            return None
        if isinstance(x, (float, Fraction)) or hasattr(x, 'rf'):
            return x * num('1.07') + num('0.001')
        return None
    z = [shift(x) for x in a]
    if sum(y is not None for y in z) > 1:
        yield tuple(x if y is None else y for x, y in zip(a, z)), k
    for i in range(len(a)):
        y = shift(a[i])
        if y is not None:
            yield a[:i] + (y,) + a[i + 1:], k
    for n in k:
        y = shift(k[n])
        if y is not None:
            yield a, dict(k, **{n: y})


class Base:
    again = False

    def q(self, a, b=1):
        """exact rational constant"""
        return self.num(Fraction(a, b) if not isinstance(a, (float, str)) else Fraction(str(a)) / b)

    def args(self, spec, suffix=''):
        return [self.real(n + suffix, lo, hi, *d) for (n, lo, hi, *d) in spec]

    def elementwise(self, f, spec, vec, n=2, label='elementwise', fixed=None, out=None,
                    again=True, share=True):
        """f over arrays of length n equals f element by element, does not
        modify its arguments and does not depend on earlier calls."""
        fixed = fixed or {}
        sc = {}
        rows = []
        for i in range(n):
            row = []
            for nm, lo, hi, *d in spec:
                if nm in vec:
                    dd = [d[0] + (hi - lo) * i / 29.0] if d else []
                    if dd and dd[0] > hi:
                        dd = [d[0]]
                    row.append(self.real('%s_%d' % (nm, i), lo, hi, *dd))
                else:
                    if nm not in sc:
                        sc[nm] = self.real(nm, lo, hi, *d)
                    row.append(sc[nm])
            rows.append(row)
        args = []
        keep = []
        for j, (nm, lo, hi, *d) in enumerate(spec):
            if nm in vec:
                a = self.arr([rows[i][j] for i in range(n)])
                keep.append((nm, a, [rows[i][j] for i in range(n)]))
                args.append(a)
            else:
                args.append(sc[nm])
        return rows, args, keep

    def vec(self, f, spec, vec, n=2, label=None, cond=None, again=True, tol=None,
            nodef=False, const=()):
        """const: outputs that do not depend on the vector arguments"""
        label = label or 'array call'
        rows, args, keep = self.elementwise(f, spec, vec, n)
        if cond:
            for r in rows:
                cond(self, r)
        res = f(*args)
        multi = isinstance(res, tuple)
        res_t = res if multi else (res,)
        for nm, a, orig in keep:
            self.eq([a[i] for i in range(n)], orig, label + ': argument %s unchanged' % nm)
        for r in res_t:
            pass
        for i in range(n):
            one = f(*rows[i])
            one_t = one if isinstance(one, tuple) else (one,)
            if len(one_t) != len(res_t):
                self.fail(label, 'array call returns %d values, scalar call %d'
                          % (len(res_t), len(one_t)))
            for k, (A, s) in enumerate(zip(res_t, one_t)):
                shp = np.shape(A)
                if shp == () and k in const:
                    self.eq(A, s, '%s: output %d element %d' % (label, k, i), nodef=nodef)
                    continue
                if shp != (n,):
                    self.fail(label, 'output %d has shape %s for %d samples' % (k, shp, n))
                s = s.ravel()[0] if isinstance(s, np.ndarray) else s
                self.eq(A[i], s, '%s: output %d element %d' % (label, k, i), nodef=nodef)
        if again:
            res2 = f(*args)
            self.eq(res2, res, label + ': repeated call', nodef=nodef)
            # input arrays of the first call remain intact after all calls
            for nm, a, orig in keep:
                self.eq([a[i] for i in range(n)], orig, label + ': argument %s unchanged after reuse' % nm)
        # samples laid out as a column
        cols = [a.reshape(-1, 1) if spec[j][0] in vec else a for j, a in enumerate(args)]
        res3 = f(*cols)
        for k, (A, B) in enumerate(zip(res_t, res3 if isinstance(res3, tuple) else (res3,))):
            if np.shape(A) == ():
                continue
            if np.shape(B) != (n, 1):
                self.fail(label, 'output %d has shape %s for a column of %d samples' % (k, np.shape(B), n))
            self.eq([B[i, 0] for i in range(n)], [A[i] for i in range(n)], label + ': column of samples', nodef=nodef)
        # a single sample in an array
        single = f(*[self.arr([rows[0][j]]) if spec[j][0] in vec else a for j, a in enumerate(args)])
        for k, (A, B) in enumerate(zip(res_t, single if isinstance(single, tuple) else (single,))):
            if np.shape(A) == ():
                continue
            if np.shape(B) != (1,):
                self.fail(label, 'output %d has shape %s for an array of one sample' % (k, np.shape(B)))
            self.eq(B[0], A[0], label + ': array of one sample', nodef=nodef)
        self._ints(f, spec, vec, label, cond, nodef)
        return res

    def _ints(self, f, spec, vec, label, cond, nodef):
        """arrays of integer type give what arrays of the same floats give"""
        zs = {}
        row = []
        for nm, lo, hi, *d in spec:
            a, b = math.ceil(lo), math.floor(hi)
            a, b = a + (a == lo), b - (b == hi)
            if nm in vec and b - a >= 1:
                dd = min(max(round(float(d[0]) if d else (a + b) / 2), a), b)
                zs[nm] = self.integer(nm + '_int', a, b, dd)
                row.append(zs[nm])
            else:
                row.append(self.real(nm + '_0' if nm in vec else nm, lo, hi, *d))
        if not zs:
            return
        if cond:
            cond(self, row)
        A = [self.iarr([v]) if spec[j][0] in zs else (self.arr([v]) if spec[j][0] in vec else v)
             for j, v in enumerate(row)]
        B = [self.arr([v]) if spec[j][0] in vec else v for j, v in enumerate(row)]
        res = f(*A)
        for j, v in enumerate(row):
            if spec[j][0] in vec:
                self.eq(A[j][0], v, label + ': integer argument %s unchanged' % spec[j][0])
        ref = f(*B)
        self.eq(res, ref, label + ': array of integer type', nodef=nodef)

    def le(self, a, b, label, **k):
        return self.cmp('<=', a, b, label, **k)

    def lt(self, a, b, label, **k):
        return self.cmp('<', a, b, label, **k)

    def ge(self, a, b, label, **k):
        return self.cmp('<=', b, a, label, **k)

    def gt(self, a, b, label, **k):
        return self.cmp('<', b, a, label, **k)

    def between(self, lo, x, hi, label, **k):
        self.cmp('<=', lo, x, label + ' (lower)', **k)
        self.cmp('<=', x, hi, label + ' (upper)', **k)


# --------------------------------------------------------------------------
_KDE = []


def _kde(f):
    """f in place of the density estimator; maps remember what they were given"""
    import sys
    import kde_diffusion
    import matplotlib.axes
    if not _KDE:
        org = kde_diffusion.kde2d

        def kde2d(*a, **k):
            return _KDE[-1](*a, **k)
        _KDE.append(kde2d)
        mods = [kde_diffusion] + [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'rockphypy']
        for m in mods:
            for n, v in list(vars(m).items()):
                if v is org:
                    setattr(m, n, kde2d)
        for meth, store in (('pcolormesh', '_maps'), ('contour', '_contours')):
            def wrap(self, *a, _o=getattr(matplotlib.axes.Axes, meth), _s=store, **k):
                from .pltx import plain
                self.__dict__.setdefault(_s, []).append(plain(a))
                return _o(self, *a, **k)
            setattr(matplotlib.axes.Axes, meth, wrap)
    _KDE.append(f)


class ConH(Base):
    """concrete execution against the installed rockphypy"""
    symbolic = False

    case = None

    def __init__(self, inputs, tol=1e-6, findings=()):
        self.inputs = dict(inputs)
        self.used = {}
        self.tol = tol
        self.observed = []
        self.np = np
        self.pi = math.pi
        self._rp = None
        self.findings = set(findings)
        self.failures = []
        self.hooks = {}

    @property
    def rp(self):
        if self._rp is None:
            self._rp = real_package()
            if self.again:
                self._rp = Again(self._rp, self)
        return self._rp

    def num(self, x):
        return float(x)

    def rehearse(self, f, a, k):
        for b, c in others(self.q, a, k):
            try:
                f(*b, **c)
            except Exception:
                pass

    def real(self, name, lo=None, hi=None, default=None):
        v = self.inputs.get(name)
        if v is None:
            if self.case is not None:
                lo, hi, default = self.case.range(name, (lo, hi, default))
            v = default if default is not None else _mid(lo, hi)
        v = float(v)
        self.used[name] = v
        return v

    def integer(self, name, lo, hi, default=None):
        v = self.real(name, lo, hi, default)
        self.used[name] = v = float(round(v))
        return v

    def iarr(self, x):
        return np.array([round(v) for v in x], dtype=int)

    def arr(self, x):
        return np.array(x, dtype=float)

    def sqrt(self, x): return np.sqrt(x)
    def cbrt(self, x): return np.cbrt(x)
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def tan(self, x): return np.tan(x)
    def asin(self, x): return np.arcsin(x)
    def acos(self, x): return np.arccos(x)
    def pow(self, x, y): return x ** float(y)
    def contract(self, name, f): pass

    def autolet(self, n, whole=0, roots=False): pass

    def opaque(self, cls, fn, sign=True): pass

    def summary(self, cls, fn, n=2, sgn=1, same={}): pass

    def jv(self, n, z):
        import scipy.special as sp
        return sp.jv(n, z)

    def acosh(self, x): return np.arccosh(x)
    def cosh(self, x): return np.cosh(x)
    def atan(self, x): return np.arctan(x)

    def expect_fsolve(self): pass
    def expect_odeint(self): pass

    def expect_kde(self, density, grid):
        calls = []
        d, g = np.array(density, float), tuple(np.array(z, float) for z in grid)

        def kde2d(x, y, n=256, limits=None):
            calls.append((np.ravel(x).tolist(), np.ravel(y).tolist(), n, limits))
            return d.copy(), tuple(z.copy() for z in g), np.ones(2)
        _kde(kde2d)
        return calls

    def maps(self, fig):
        return fig.axes[0].__dict__.get('_maps', []), fig.axes[0].__dict__.get('_contours', [])

    def fsolve(self, resid, x0, label='root'):
        """the root of resid the library's own solver call stands for"""
        from scipy.optimize import fsolve
        r, _, ier, _ = fsolve(lambda p: [float(v) for v in resid(*p)], [float(v) for v in x0],
                              full_output=True)
        if ier != 1:
            raise BadPoint()
        return [float(v) for v in r]

    def odeint(self, f, y0, t, label='trajectory'):
        from scipy.integrate import odeint
        r, info = odeint(lambda y, s: [float(v) for v in f(*y, s)], [float(v) for v in y0],
                         np.asarray(t, float), full_output=True)
        if info['message'] != 'Integration successful.' or not np.isfinite(r).all():
            raise BadPoint()
        return r

    def fresh(self, name, *a, **k): raise RuntimeError('fresh() is symbolic only')

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not bool(c):
            raise BadPoint()

    def known(self, fid):
        return fid in self.findings

    def fail(self, label, detail):
        self.failures.append((label, detail))
        raise Violation(label, detail)

    def _get(self, x):
        if isinstance(x, Fraction):
            return float(x)
        return x

    def eq(self, a, b, label, tol=None, scale=0.0, finding=None, defect=None, nodef=False):
        tol = tol or self.tol
        sa, la = flat(a)
        sb, lb = flat(b)
        if len(la) != len(lb):
            self.fail(label, 'shape %s vs %s' % (sa, sb))
        ld = None
        if finding and defect is not None and finding in self.findings:
            ld = flat(defect)[1]
        for i, (x, y) in enumerate(zip(la, lb)):
            x, y = self._get(x), self._get(y)
            self.observed.append(_obs(x))
            if nodef and not np.isfinite(y):
                raise BadPoint()
            if not self._close(x, y, tol, scale) and \
                    not (ld is not None and self._close(x, self._get(ld[i]), tol, scale)):
                self.fail(label, 'got %r, expected %r' % (x, y))

    def _close(self, x, y, tol, scale):
        if isinstance(x, np.inexact) and x.dtype.itemsize < 8:
            return False                # values come in double precision
        try:
            if isinstance(x, complex) or isinstance(y, complex):
                return abs(x - y) <= tol * max(abs(x), abs(y), scale) + 1e-300
            x = float(x)
            y = float(y)
            return math.isfinite(x) and \
                abs(x - y) <= tol * max(abs(x), abs(y), scale) + 1e-12 * (1 if not scale else 0)
        except (TypeError, ValueError):
            return False

    def eqz(self, a, scale, label, tol=None, finding=None, defect=None):
        """a == 0, where scale gives the magnitude of the terms"""
        return self.eq(a, 0.0, label, tol=tol, scale=abs(float(scale)),
                       finding=finding, defect=defect)

    def cmp(self, op, a, b, label, tol=None, scale=0.0):
        tol = tol or self.tol
        sa, la = flat(a)
        sb, lb = flat(b)
        if len(lb) == 1 and len(la) > 1:
            lb = lb * len(la)
        if len(la) == 1 and len(lb) > 1:
            la = la * len(lb)
        for x, y in zip(la, lb):
            x = float(self._get(x))
            y = float(self._get(y))
            self.observed.append(_obs(x))
            if not (math.isfinite(x) and math.isfinite(y)
                    and x <= y + tol * max(abs(x), abs(y), scale) + 1e-13):
                self.fail(label, 'not %r %s %r' % (x, op, y))

    def true(self, c, label):
        if not bool(c):
            self.fail(label, 'condition is false')

    def implies(self, p, c, label):
        if bool(p) and not bool(c):
            self.fail(label, 'condition is false')

    def given(self, *xs): pass

    def isnan(self, x):
        return bool(np.isnan(x))

    def finite(self, x, label):
        for v in flat(x)[1]:
            self.observed.append(_obs(v))
            if isinstance(v, complex):
                ok = math.isfinite(v.real) and math.isfinite(v.imag)
            else:
                try:
                    ok = math.isfinite(float(v))
                except TypeError:
                    ok = False
            if not ok:
                self.fail(label, 'value is %r' % (v,))


def _obs(x):
    try:
        if isinstance(x, complex):
            return [x.real, x.imag]
        return float(x)
    except Exception:
        return None


def _mid(lo, hi):
    if lo is None and hi is None:
        return 1.0
    if lo is None:
        return float(hi) - 1.0
    if hi is None:
        return float(lo) + 1.0
    return (float(lo) + float(hi)) / 2 * 0.97 + float(lo) * 0.03


_real = None


def real_package():
    global _real
    if _real is None:
        repo = os.environ.get('RPSYM_REPO', '/repo')
        if repo not in sys.path[:1]:
            sys.path.insert(0, repo)
        import warnings
        warnings.simplefilter('ignore')
        os.environ.setdefault('MPLBACKEND', 'Agg')
        import rockphypy
        assert os.path.realpath(rockphypy.__file__).startswith(os.path.realpath(repo)), rockphypy.__file__
        _real = rockphypy
    return _real


def run_concrete(cs, inputs, tol=1e-6, findings=(), again=False):
    """-> dict(status=ok|violation|badpoint|raised, ...)"""
    np.seterr(all='ignore')
    h = ConH(inputs, tol, findings)
    h.case = cs
    h.again = again
    try:
        cs.fn(h, **cs.kw)
        return {'status': 'ok', 'observed': h.observed, 'used': h.used}
    except Violation as v:
        return {'status': 'violation', 'label': v.label, 'detail': v.detail,
                'used': h.used}
    except BadPoint:
        return {'status': 'badpoint', 'used': h.used}
    except Exception as e:
        return {'status': 'raised', 'label': 'raises %s' % type(e).__name__,
                'detail': repr(e)[:300], 'used': h.used}
