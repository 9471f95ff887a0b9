"""Path exploration, obligation discharge, counterexample search."""
import json
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import sym as S
from . import npx, loader
from .sym import (Sym, SymBool, CSym, RF, Ctx, cmp_rf, Unsupported, PathAbort,
                  TooBig, STATS)
from .harness import Base, Case, Violation, Stop, Again, others, flat, _mid

PY = sys.executable


class Explorer:
    def __init__(self, maxpaths=400):
        self.todo = [[]]
        self.maxpaths = maxpaths
        self.paths = 0
        self.truncated = False

    def start(self, prefix):
        self.prefix = prefix
        self.dec = []

    def decide(self, cx, f):
        if f.cond:
            for c in f.cond:
                cx.branch_conds.add(c)
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.dec.append(v)
            if v < 2:
                cx.assume(f if v else ~f)
            return bool(v & 1)
        rt = cx.check([f], 1500)[0]
        rf = 'sat' if rt == 'unsat' else cx.check([~f], 1500)[0]
        if rt == 'unsat' and rf == 'unsat':
            raise PathAbort()
        if rt == 'unsat':
            v = False
        elif rf == 'unsat':
            v = True
        else:
            v = True
            self.todo.append(self.dec + [False])
        if 'unsat' in (rt, rf) and i >= 40 and f.linear():
            self.dec.append(2 + v)       # nothing the path does not say already
            return v
        self.dec.append(v)
        cx.assume(f if v else ~f)
        return v


class FnTracker:
    """wraps a class of the package to record which functions were driven"""

    def __init__(self, obj, path, seen, objs):
        self._o = obj
        self._p = path
        self._s = seen
        self._l = objs

    def __getattr__(self, n):
        v = getattr(self._o, n)
        if callable(v) and not isinstance(v, type):
            self._s.add(self._p + '.' + n)
        return v

    def __call__(self, *a, **k):
        r = self._o(*a, **k)
        o = r._o if isinstance(r, Again) else r
        self._l.append((o, loader.state(o, ())))
        return FnTracker(r, self._p, self._s, self._l)


class PkgTracker:
    def __init__(self, pkg, seen, objs):
        self._p = pkg
        self._s = seen
        self._l = objs

    def __getattr__(self, n):
        return FnTracker(getattr(self._p, n), n, self._s, self._l)


class SymH(Base):
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.cx = run.cx
        self.np = npx.NP
        self.observed = []
        self.mod = run.loader.load('rockphypy')
        self.again = run.again
        self._fs, self._od = [], []
        self.rp = PkgTracker(Again(self.mod, self) if self.again else self.mod, run.functions, run.loader.objects)
        self.proved_conds = set()
        self.late = {}
        self.hooks = npx.HOOKS
        self.nodef = False

    def rehearse(self, f, a, k):
        n, m = len(self._fs), len(self._od)
        for b, c in others(self.q, a, k):
            try:
                f(*b, **c)
            except Exception:
                pass
        del self._fs[n:], self._od[m:]

    def autolet(self, n, whole=0, roots=False):
        """name every intermediate value with more than n terms (or with more
        than `whole` factors); roots: keep radicands in one piece"""
        self.cx.wholeroot = roots
        self.cx.autolet = n
        self.cx.letwhole = whole

    def opaque(self, cls, fn, sign=True):
        """treat the results of a function of the package as named values whose
        definitions are used only where the plain query does not decide"""
        c = getattr(self.mod, cls)
        f = getattr(c, fn)
        cx = self.cx

        def named(*a, **k):
            return _named(f(*a, **k))

        def _named(r):
            if isinstance(r, tuple):
                return tuple(_named(x) for x in r)
            if isinstance(r, np.ndarray):
                return npx.emap(_named, r)
            return S.opaque(cx, r, sign) if isinstance(r, Sym) else r
        self.run.loader.stubbed.add((c, fn))
        setattr(c, fn, staticmethod(named))

    def summary(self, cls, fn, n=2, sgn=1, same={}):
        """results of an elementwise model function taken as unknown values of
        the given sign that depend on the arguments only (its own properties
        decide what they are); same: output -> argument it is equal to"""
        import inspect
        c = getattr(self.mod, cls)
        f = getattr(c, fn)
        sig = inspect.signature(f)
        run = self.run

        def num(x):
            return isinstance(x, (Sym, int, float, Fraction, np.number)) and not isinstance(x, bool)

        def summ(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            args = list(b.arguments.values())
            if sig.parameters.keys() != b.arguments.keys() or not all(
                    num(x) or npx.is_arr(x) and np.ndim(x) <= 1 and all(num(y) for y in flat(x)[1]) for x in args):
                return f(*a, **k)
            run.summaries.add('%s.%s' % (cls, fn))
            r = []
            for j in range(n):
                def one(*xs, j=j):
                    if j in same:
                        return Sym.of(xs[same[j]])
                    return S.sfun('%s.%s.%d' % (cls, fn, j), xs, sgn=sgn, ev=lambda *v: _native(cls, fn, j, n, v))
                r.append(npx.emap(one, *args))
            return tuple(r) if n > 1 else r[0]
        self.run.loader.stubbed.add((c, fn))
        setattr(c, fn, staticmethod(summ))

    def given(self, *xs):
        """values taken as defined (their own property covers it)"""
        for x in xs:
            self.proved_conds |= set(x.cond)

    def isnan(self, x):
        """surely undefined on this path"""
        return isinstance(x, Sym) and any(c[0] == 'false' for c in x.cond) or isinstance(x, float) and x != x

    def jv(self, n, z):
        return npx.jv(n, z)

    @property
    def pi(self):
        return self.cx.pi()

    def num(self, x):
        return Sym.of(x)

    def real(self, name, lo=None, hi=None, default=None):
        if name in self.cx.byname:
            return Sym(RF.var(self.cx.byname[name].id))
        lo, hi, default = self.run.cs.range(name, (lo, hi, default))
        self.run.domain[name] = [float(x) if isinstance(x, Fraction) else x for x in (lo, hi)]
        return self.cx.input(name, lo, hi, default)

    def integer(self, name, lo, hi, default=None):
        """input with integer values (lo, hi, default integers)"""
        if name in self.cx.byname:
            return Sym(RF.var(self.cx.byname[name].id))
        self.run.domain[name] = [lo, hi]
        return self.cx.integer(name, lo, hi, default)

    def iarr(self, x):
        """array of integer type"""
        r = npx.mk(x)
        r.intd = True
        return r

    def arr(self, x):
        return npx.mk(x)

    def sqrt(self, x): return npx.NP.sqrt(x)
    def cbrt(self, x): return npx.NP.cbrt(x)
    def exp(self, x): return npx.NP.exp(x)
    def log(self, x): return npx.NP.log(x)
    def sin(self, x): return npx.NP.sin(x)
    def cos(self, x): return npx.NP.cos(x)
    def tan(self, x): return npx.NP.tan(x)
    def asin(self, x): return npx.NP.arcsin(x)
    def acos(self, x): return npx.NP.arccos(x)

    def acosh(self, x): return npx.NP.arccosh(x)
    def cosh(self, x): return npx.NP.cosh(x)
    def atan(self, x): return npx.NP.arctan(x)

    # contracts for the iterative solvers: the root / the trajectory is left
    # unconstrained except for the equations the code hands to the solver
    def expect_fsolve(self):
        self._fs.clear()

        def hook(func, x0, args=(), *a, **k):
            x0 = list(npx.mk(x0).ravel())
            roots = [self.fresh('root') for _ in x0]
            arr = npx.mk(roots)
            args = args if isinstance(args, tuple) else (args,)
            obs = list(self.observed)
            res = list(npx.mk(func(arr, *args)).ravel())
            self.observed = obs
            self._fs.append((x0, roots, res))
            if k.get('full_output'):
                return arr, {}, 1, ''
            return arr
        self.contract('fsolve', hook)

    def fsolve(self, resid, x0, label='root'):
        if not self._fs:
            self.run.obligation_failed(self, label, S.TRUE, 'no equation system was handed to the solver')
            raise Unsupported('no call of fsolve')
        xc, roots, res = self._fs.pop(0)
        keep = list(self.observed)
        nd = self.nodef
        self.nodef = True
        if len(xc) != len(x0):
            self.fail(label, 'number of unknowns')
        for i, (a, b) in enumerate(zip(xc, x0)):
            self._eq1(a, b, '%s: start value %d' % (label, i))
        want = list(resid(*roots))
        if len(want) != len(res):
            self.fail(label, 'number of equations')
        same = [self.run.prove_eq(self.cx, Sym.of(a).rf, Sym.of(b).rf) for a, b in zip(res, want)]
        if not all(same):
            # inputs are easier to find before the roots are tied to them
            d = [Sym.of(a) - Sym.of(b) for a, b, k in zip(res, want, same) if not k]
            self.run.probe([cmp_rf('!=', x.rf) for x in d[:1]], label + ': equations')
            for a in res:
                self.cx.assume(Sym.of(a) == 0)
            for i, b in enumerate(want):
                if not same[i]:
                    self._eq1(b, 0, '%s: equation %d' % (label, i))
        else:
            self.run.count('solver equations')
        self.nodef = nd
        self.observed = keep
        return roots

    def expect_odeint(self):
        self._od.clear()

        def hook(func, y0, t, args=(), *a, **k):
            y0 = list(npx.mk(y0).ravel())
            t = list(npx.mk(t).ravel())
            rows = [y0] + [[self.fresh('y') for _ in y0] for _ in t[1:]]
            arr = npx.mk(rows)
            yy = [self.fresh('yv', 0, None) for _ in y0]
            tt = self.fresh('tv', 0, 1)
            args = args if isinstance(args, tuple) else (args,)
            if k.get('tfirst'):
                d = func(tt, npx.mk(yy), *args)
            else:
                d = func(npx.mk(yy), tt, *args)
            self._od.append((y0, t, rows, yy, tt, list(npx.mk(d).ravel())))
            if k.get('full_output'):
                return arr, {}
            return arr
        self.contract('odeint', hook)

    def odeint(self, f, y0, t, label='trajectory'):
        if not self._od:
            self.run.obligation_failed(self, label, S.TRUE, 'no differential equation was handed to the solver')
            raise Unsupported('no call of odeint')
        yc, tc, rows, yy, tt, d = self._od.pop(0)
        keep = list(self.observed)
        nd = self.nodef
        self.nodef = True
        t = list(npx.mk(t).ravel())
        if len(yc) != len(y0) or len(tc) != len(t):
            self.fail(label, 'dimension or grid of the trajectory: %d points, expected %d' % (len(tc), len(t)))
        for i, (a, b) in enumerate(zip(yc, y0)):
            self._eq1(a, b, '%s: initial value %d' % (label, i))
        for i, (a, b) in enumerate(zip(tc, t)):
            self._eq1(a, b, '%s: grid point %d' % (label, i))
        want = list(f(*yy, tt))
        for i, (a, b) in enumerate(zip(d, want)):
            self._eq1(a, b, '%s: derivative %d' % (label, i))
        self.nodef = nd
        self.observed = keep
        return npx.mk(rows)

    # density estimation: the estimator is external, its result is an input
    def expect_kde(self, density, grid):
        calls = []

        def hook(x, y, n=256, limits=None):
            calls.append((list(npx.mk(x).ravel()), list(npx.mk(y).ravel()), n, limits))
            return npx.mk(density), tuple(npx.mk(g) for g in grid), npx.mk([1, 1])
        self.contract('kde2d', hook)
        return calls

    def maps(self, fig):
        return fig.axes[0].maps, fig.axes[0].contours

    def pow(self, x, y):
        return npx.emap(lambda a: a ** (Sym.of(y) if not isinstance(y, Sym) else y), x)

    def contract(self, name, f):
        npx.HOOKS[name] = f
        self.run.contracts.add(name)

    def fresh(self, name, lo=None, hi=None):
        self.cx.fresh_n += 1
        a = self.cx.new('%s_%d' % (name, self.cx.fresh_n), 'fresh', lo=S._fr(lo), hi=S._fr(hi))
        self.cx._bounds(a)
        if lo is not None and lo > 0:
            a.sgn = 1
        elif lo is not None and lo == 0:
            a.sgn = 2
        return Sym(RF.var(a.id))

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        k = c.const()
        if k is True:
            return
        if k is False:
            raise PathAbort()
        self.cx.assume(c)
        self.run.assumed += 1
        if c.n[0] == 'cmp' and c.n[1] in ('<', '>') and len(c.n[2].f) == 1:
            (p, e), = c.n[2].f.items()
            v = list(p.vars())
            if e == 1 and len(p) == 1 and len(v) == 1:
                a = self.cx.atoms[v[0]]
                (m, k), = p.d.items()
                if a.kind == 'let' and p.maxexp(v[0]) == 1 and a.sgn in (0, 2, -2):
                    a.sgn = (1 if k * c.n[2].c > 0 else -1) * (1 if c.n[1] == '>' else -1)

    def known(self, fid):
        return fid in self.run.findings

    # obligations ---------------------------------------------------------
    def fail(self, label, detail):
        """unconditional failure on this path"""
        self.run.obligation_failed(self, label, S.TRUE, detail)

    def defined(self, x, label):
        """every division/root/log feeding x is defined on this path"""
        for c in sorted(x.cond, key=_ckey):
            if c in self.proved_conds:
                continue
            f = npx.cond_formula(c)
            if self.prove(f, budget=2):
                self.proved_conds.add(c)
                self.run.count('definedness')
            elif c not in self.late:
                # decided after all paths: what the values should be is
                # the cheaper question when the code is wrong
                self.late[c] = (f, label, len(self.cx.path))

    def settle(self):
        """the definedness obligations put off by defined()"""
        cx = self.cx
        path = cx.path
        try:
            for c, (f, label, n) in list(self.late.items()):
                del self.late[c]
                cx.path = path[:n]
                if self.prove(f):
                    self.proved_conds.add(c)
                    self.run.count('definedness')
                else:
                    self.run.obligation_failed(self, label + ': well defined', ~f,
                                               'operand can leave the domain (%s)' % c[0])
        finally:
            cx.path = path

    def prove(self, goal, quickneg=False, budget=None):
        """True iff the solver shows goal on this path"""
        k = goal.const()
        if k is not None:
            return k
        return self.run.prove(self.cx, goal, budget)

    def eq(self, a, b, label, tol=None, scale=0.0, finding=None, defect=None, nodef=False):
        sa, la = flat(a)
        sb, lb = flat(b)
        if len(la) != len(lb):
            self.fail(label, 'shape %s vs %s' % (sa, sb))
            return
        self.nodef = nodef
        for i, (x, y) in enumerate(zip(la, lb)):
            lab = label if len(la) == 1 else '%s #%d' % (label, i)
            d = None
            if defect is not None:
                d = flat(defect)[1][i]
            self._eq1(x, y, lab, finding, d)

    def _eq1(self, x, y, label, finding=None, defect=None):
        x0 = x
        if isinstance(x, CSym) or isinstance(y, CSym):
            x, y = CSym.of(x), CSym.of(y)
            self.observed.append(x)
            self._eqr(x.re, y.re, label + ' (re)', finding, defect and CSym.of(defect).re)
            self._eqr(x.im, y.im, label + ' (im)', finding, defect and CSym.of(defect).im)
            return
        x = Sym.of(x) if not isinstance(x, Sym) else x
        y = Sym.of(y) if not isinstance(y, Sym) else y
        if x is NotImplemented or y is NotImplemented:
            if x0 is y:
                return
            self.fail(label, 'not a number: %r' % (x0,))
            return
        self.observed.append(x)
        self._eqr(x, y, label, finding, defect)

    def _eqr(self, x, y, label, finding, defect):
        if not self.nodef:
            self.defined(x, label)
        self.run.count('equality')
        known = finding is not None and defect is not None and finding in self.run.findings
        if known:
            # the recorded behaviour is the likely one: cheap test first
            d = Sym.of(defect)
            if self.run.prove_eq(self.cx, x.rf, y.rf, cheap=True):
                return
            if self.run.prove_eq(self.cx, x.rf, d.rf, cheap=True):
                self.run.hit_finding(finding, label)
                return
        if self.run.prove_eq(self.cx, x.rf, y.rf):
            return
        if finding is not None and defect is not None and finding in self.run.findings:
            d = Sym.of(defect)
            if self.run.prove_eq(self.cx, x.rf, d.rf):
                self.run.hit_finding(finding, label)
                return
            g = cmp_rf('!=', x.rf - d.rf) & cmp_rf('!=', x.rf - y.rf)
            self.run.obligation_failed(self, label, g, 'differs from specification and from the recorded finding')
            return
        self.run.obligation_failed(self, label, cmp_rf('!=', x.rf - y.rf), 'values differ')

    def eqz(self, a, scale, label, tol=None, finding=None, defect=None):
        return self.eq(a, Sym.of(0), label, finding=finding, defect=defect)

    def cmp(self, op, a, b, label, tol=None, scale=0.0):
        la, lb = flat(a)[1], flat(b)[1]
        if len(lb) == 1 and len(la) > 1:
            lb = lb * len(la)
        if len(la) == 1 and len(lb) > 1:
            la = la * len(lb)
        for i, (x, y) in enumerate(zip(la, lb)):
            x, y = Sym.of(x), Sym.of(y)
            self.observed.append(x)
            lab = label if len(la) == 1 else '%s #%d' % (label, i)
            self.defined(x, lab)
            self.defined(y, lab)
            self.run.count('inequality')
            g = cmp_rf(op, x.rf - y.rf)
            if not self.run.prove_sign(self.cx, op, x.rf - y.rf):
                self.run.obligation_failed(self, lab, ~g, 'inequality %s fails' % op)

    def true(self, c, label):
        if isinstance(c, SymBool):
            self.run.count('condition')
            if not self.prove(c):
                self.run.obligation_failed(self, label, ~c, 'condition fails')
        elif not c:
            self.fail(label, 'condition is false')

    def implies(self, p, c, label):
        if not isinstance(p, SymBool):
            if p:
                self.true(c, label)
            return
        c2 = S.as_bool(c)
        self.true((~p) | c2, label)

    def finite(self, x, label):
        for v in flat(x)[1]:
            if isinstance(v, CSym):
                self.observed.append(v)
                self.defined(v.re, label)
                self.defined(v.im, label)
                continue
            if isinstance(v, Sym):
                self.observed.append(v)
                self.defined(v, label)
                self.run.count('finite')
            else:
                s = Sym.of(v)
                if s is NotImplemented:
                    self.fail(label, 'not a number')
                    continue
                self.observed.append(s)


def _ckey(c):
    if c[0] == 'nz':
        return (0, len(c[1]), c[1].key())
    return (1, 0, repr(c[0]) + str(id(c)))


def _native(cls, fn, j, n, v):
    """value the package itself gives"""
    if loader.REPO not in sys.path:
        sys.path.insert(0, loader.REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import rockphypy
        v = [int(x) if x == int(x) and abs(x) < 10 and i == len(v) - 1 else x for i, x in enumerate(v)]
        try:
            r = getattr(getattr(rockphypy, cls), fn)(*v)
            return float(np.ravel(r[j] if n > 1 else r)[0])
        except (ValueError, ZeroDivisionError, OverflowError):
            return float('nan')


def _short(x):
    return x if len(x) < 300 else x[:300]


class CaseRun:
    def __init__(self, prop, cs, findings, budget=30.0, seed=1, tier='quick'):
        self.prop = prop
        self.barren = {}                # path -> failed numeric searches
        self.cs = cs
        self.findings = findings
        self.budget = budget
        self.tier = tier
        self.rnd = random.Random(seed * 7919 + hash_str(cs.name))
        self.functions = set()
        self.contracts = set()
        self.summaries = set()
        self.domain = {}
        self.counts = {}
        self.proved = 0
        self.violations = []
        self.unknown = []
        self.hits = {}
        self.witnesses = []
        self.assumed = 0
        self.notes = []
        self.server = None
        self.again = False              # calls preceded by others
        self.kept = set()               # state of the package a path has changed
        self.t0 = time.time()

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def hit_finding(self, fid, label):
        self.hits.setdefault(fid, []).append(label)

    # ------------------------------------------------------------------
    def execute(self, maxpaths=400, early=None):
        self.paths = self.feasible = 0
        try:
            self.explore(maxpaths)
            if self.kept:
                # results may depend on earlier calls: every call after others
                if early:
                    early()
                self.again = True
                if self.try_replay({}, 'default point of the case', 'calls after other calls'):
                    raise Stop()
                self.notes.append('kept between calls: ' + ', '.join(sorted(self.kept)[:6]))
                self.explore(min(maxpaths, 150))
        except Stop:
            pass
        if not self.feasible and not self.violations and not self.unknown:
            self.unknown.append(('vacuous', 'no path has a witness'))
        if self.server:
            self.server.close()

    def explore(self, maxpaths):
        ex = Explorer(maxpaths)
        done = 0
        feasible = 0
        late = []
        try:
            while ex.todo:
                if done >= ex.maxpaths:
                    self.unknown.append(('paths', 'path budget exhausted'))
                    break
                prefix = ex.todo.pop()
                ex.start(prefix)
                cx = Ctx(ex)
                self.barren = {}
                cx.branch_conds = set()
                S.set_ctx(cx)
                npx.HOOKS.clear()
                npx.HOOKS.update(npx.DEFAULT_HOOKS)
                self.cx = cx
                self.loader = loader.Loader()
                done += 1
                h = None
                try:
                    h = SymH(self)
                    try:
                        self.cs.fn(h, **self.cs.kw)
                    finally:
                        self.kept |= self.loader.changed()
                except PathAbort:
                    if h is not None and h.late:
                        late.append(h)
                    continue
                except Stop:
                    raise
                except Violation:
                    pass
                except (Unsupported, TooBig) as e:
                    self.path_problem(h, 'unsupported: %s' % e)
                    continue
                except RecursionError as e:
                    self.path_problem(h, 'recursion')
                    continue
                except Exception as e:
                    tb = traceback.format_exc(limit=-4)
                    self.exception(h, e, tb)
                    continue
                if h.late:
                    late.append(h)
                # definedness of branched-on values
                t1 = time.time()
                for c in sorted(cx.branch_conds - h.proved_conds, key=_ckey):
                    if time.time() - t1 > 3:
                        break
                    if not self.prove(cx, npx.cond_formula(c)):
                        self.notes.append('branch on a value not shown to be defined')
                        break
                feasible += self.path_witness(h)
            for h in late:
                self.cx = h.cx
                S.set_ctx(h.cx)
                h.settle()
        finally:
            self.paths += done
            self.feasible += feasible

    # ------------------------------------------------------------------
    def exception(self, h, e, tb):
        label = 'raises %s' % type(e).__name__
        if h is None:
            self.unknown.append((label, tb[-500:]))
            return
        cands = self.candidates(self.cx, [], 4)
        if not cands:
            r = self.cx.check(list(self.cx.path), 5000)[0]
            if r == 'unsat':
                return
        for inp in cands:
            if self.try_replay(inp, label, '%r' % (e,)):
                raise Stop()
        self.unknown.append((label, tb[-700:]))

    def path_problem(self, h, msg):
        """the encoder cannot follow this path"""
        if self.cx.check(list(self.cx.path), 3000)[0] == 'unsat':
            return
        # still try solver models of the path on the real code
        for inp in self.candidates(self.cx, [], 4):
            if self.try_replay(inp, 'unmodelled path', msg):
                raise Stop()
        self.unknown.append(('path', msg))

    def path_witness(self, h):
        cx = self.cx
        w = self.witness_of(cx, [], pins=True)
        if w is None:
            r = cx.check(list(cx.path), 5000)[0]
            if r == 'unsat':
                return 0
            self.notes.append('no witness for a path (%s)' % r)
            return 0
        env = S.Env()
        for a in cx.inputs:
            env[a.id] = float(w[a.name])
        obs = []
        for x in h.observed:
            try:
                if isinstance(x, CSym):
                    obs.append([S.evrf(x.re.rf, env), S.evrf(x.im.rf, env)])
                else:
                    obs.append(S.evrf(x.rf, env))
            except Exception:
                obs.append(None)
        self.witnesses.append({'inputs': {k: float(v) for k, v in w.items()},
                               'obs': obs, 'again': self.again})
        return 1

    # ------------------------------------------------------------------
    def model_inputs(self, cx, m):
        out = {}
        for a in cx.inputs:
            v = m.eval(a.zv, model_completion=False)
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[a.name] = _deflt(a)
                continue
            out[a.name] = _zval(v)
        return out

    def witness_of(self, cx, fs, pins=False, timeout=4000, rand=False, keep=None):
        w = self._witness_of(cx, fs, pins, timeout, rand)
        if w is None or not cx.ints:
            return w
        w = {k: Fraction(round(v)) if cx.byname[k].id in cx.ints else v for k, v in w.items()}
        nv = self.holds(cx, list(cx.path) + list(fs), w)
        return w if nv is None or nv >= 0 else None

    def _witness_of(self, cx, fs, pins=False, timeout=4000, rand=False):
        """inputs satisfying path /\\ fs; with pins: prefer default/random values"""
        base = list(cx.path) + list(fs)
        extra = []
        if pins or rand:
            # all pins at once, then greedily
            vals = {}
            for a in cx.inputs:
                v = _randv(a, self.rnd) if rand else S._fr(_deflt(a))
                vals[a.name] = v
            if not base:
                return {k: v for k, v in vals.items()}
            nv = self.holds(cx, base, vals)
            if nv is None or nv == 0:
                allp = [a.zv == S.zq(vals[a.name]) for a in cx.inputs]
                r, m = cx.check(base, 1500, 2, extra=allp, want_model=True)
                if r == 'sat':
                    return vals
            elif nv > 0:
                return vals
            order = list(cx.inputs)
            if rand:
                self.rnd.shuffle(order)
            got = []
            for a in order:
                e = a.zv == S.zq(vals[a.name])
                r, m = cx.check(base, 600, 2, extra=got + [e])
                if r == 'sat':
                    got.append(e)
            extra = got
        r, m = cx.check(base, timeout, 2, extra=extra, want_model=True)
        if r != 'sat' and extra:
            r, m = cx.check(base, timeout, 2, want_model=True)
        if r != 'sat':
            r, m = cx.check(base, timeout, 2, tactic='qfnra-nlsat', want_model=True)
        w = self.model_inputs(cx, m) if r == 'sat' else None
        if w is not None:
            nv = self.holds(cx, base, w)
            if nv is None or nv >= 0:
                return w
        # the model gives some function value the real function does not have:
        # look for inputs near the model that meet the formulas numerically
        key = len(cx.path)
        if self.barren.get(key, 0) >= 2:
            return None
        w = self.search(cx, base, w)
        if w is None and not fs:
            self.barren[key] = self.barren.get(key, 0) + 1
        return w

    def holds(self, cx, base, vals):
        """margin with which the formulas hold at the given inputs; None: not
        computable"""
        env = S.Env()
        for a in cx.inputs:
            env[a.id] = float(vals[a.name])
        r = 1e9
        try:
            for f in base:
                r = min(r, S.evb(f, env))
                if r != r:
                    return -1e9
        except (KeyError, TypeError):
            return None
        except (ValueError, ZeroDivisionError, OverflowError):
            return -1e9
        return r

    def search(self, cx, base, start=None, budget=4.0):
        """inputs at which all formulas hold, by sampling and coordinate moves
        (only to propose candidates for replay, never to decide)"""
        t0 = time.time()
        best, bv = None, None

        def score(vals):
            env = S.Env()
            for a in cx.inputs:
                env[a.id] = float(vals[a.name])
            bad = 0.0
            for f in base:
                try:
                    m = S.evb(f, env)
                except (KeyError, TypeError):
                    raise
                except (ValueError, ZeroDivisionError, OverflowError):
                    m = -1e9
                if not m >= 0:
                    bad += 1.0 + min(-m, 1e6) if m == m else 1e7
            return bad
        try:
            pts = [start] if start else []
            pts.append({a.name: S._fr(_deflt(a)) for a in cx.inputs})
            k = 0
            while time.time() - t0 < budget and k < 400:
                v = pts[k] if k < len(pts) else {a.name: _randv(a, self.rnd) for a in cx.inputs}
                k += 1
                sc = score(v)
                if bv is None or sc < bv:
                    best, bv = dict(v), sc
                if bv == 0:
                    return best
            while time.time() - t0 < 2 * budget:
                v = dict(best)
                a = self.rnd.choice(cx.inputs)
                t = _randv(a, self.rnd)
                c = S._fr(v[a.name])
                v[a.name] = S._fr(float('%.6g' % float(c + (t - c) * Fraction(1, self.rnd.choice((1, 2, 8, 64))))))
                if a.lo is not None and v[a.name] < a.lo or a.hi is not None and v[a.name] > a.hi:
                    continue
                sc = score(v)
                if sc <= bv:
                    best, bv = v, sc
                if bv == 0:
                    return best
        except (KeyError, TypeError):
            return start
        return None

    def climb(self, cx, fs, starts, budget=3.0):
        """inputs on the path with a large margin of the formulas, by coordinate
        moves from the given inputs (only to propose candidates for replay)"""
        path = list(cx.path)
        free = [a for a in cx.inputs if a.id not in cx.ints]
        if not fs or not free:
            return None

        def score(v):
            m = self.holds(cx, path, v) if path else 1.0
            if m is None or m < 0:
                return None
            return self.holds(cx, fs, v)
        best, bv = None, None
        for v in starts:
            m = score(v)
            if m is not None and m > -1e8 and (bv is None or m > bv):
                best, bv = dict(v), m
        if best is None:
            return None
        t0 = time.time()
        while time.time() - t0 < budget:
            v = dict(best)
            for a in self.rnd.sample(free, self.rnd.choice((1, 1, 2, len(free))) if len(free) > 1 else 1):
                c = S._fr(v[a.name])
                k = self.rnd.random()
                if k < 0.25 and a.lo is not None:
                    t = a.lo
                elif k < 0.5 and a.hi is not None:
                    t = a.hi
                else:
                    t = _randv(a, self.rnd)
                x = S._fr(float('%.6g' % float(c + (t - c) * Fraction(1, self.rnd.choice((1, 1, 2, 8, 64))))))
                if a.lo is not None:
                    x = max(x, S._fr(a.lo))
                if a.hi is not None:
                    x = min(x, S._fr(a.hi))
                v[a.name] = x
            m = score(v)
            if m is not None and m > bv:
                best, bv = v, m
        return best

    def candidates(self, cx, fs, n):
        out = []
        w = self.witness_of(cx, fs, pins=True)
        if w is not None:
            out.append(w)
            for i in range(n):
                w = self.witness_of(cx, fs, rand=True, timeout=2500)
                if w is not None and w not in out:
                    out.append(w)
        return out

    def obligation_failed(self, h, label, neg, detail):
        """neg: formula whose satisfiability means a violation"""
        cx = self.cx
        fs = [neg] if neg.const() is None else ([] if neg.const() else None)
        if fs is None:
            return
        tried = 0
        for w in self.cand_iter(cx, fs):
            tried += 1
            if self.try_replay(w, label, detail):
                raise Stop()
            if time.time() - self.t0 > 240 and tried > 4:
                break
        if tried == 0:
            r = cx.check(list(cx.path) + fs, 8000)[0]
            if r == 'unsat':
                self.count('late')
                return
        self.unknown.append((label, detail + ' (counterexamples tried: %d)' % tried))
        if len(self.unknown) > 6:
            raise Stop()

    def probe(self, fs, label):
        cx = self.cx
        for w in [self.witness_of(cx, [], pins=True, timeout=2000)] + \
                 [self.witness_of(cx, f, rand=True, timeout=2000) for f in ([], [], fs, fs)]:
            if w is not None and self.try_replay(w, label, 'equations differ'):
                raise Stop()

    def cand_iter(self, cx, fs):
        seen = []

        def new(w):
            if w is not None and w not in seen:
                seen.append(w)
                return True
        # models of the path alone: cheap, and enough when the obligation fails
        # almost everywhere
        w = self.witness_of(cx, [], pins=True, timeout=2000)
        if new(w):
            yield w
        if w is None and self.barren.get(len(cx.path), 0) >= 2:
            # nobody gets here: most likely a path the solver could not refute
            w = self.witness_of(cx, fs, timeout=6000)
            if new(w):
                yield w
            return
        for i in range(3):
            w = self.witness_of(cx, [], rand=True, timeout=2000)
            if new(w):
                yield w
        # models of path and negated obligation
        w = self.witness_of(cx, fs, pins=True)
        if new(w):
            yield w
        w = self.witness_of(cx, fs, timeout=6000)
        if new(w):
            yield w
        # the failure may be small at all of these: move to where it is large
        w = self.climb(cx, fs, seen)
        if new(w):
            yield w
        for i in range(8):
            w = self.witness_of(cx, fs, rand=True, timeout=3000)
            if new(w):
                yield w

    def try_replay(self, inputs, label, detail):
        if self.server is None:
            self.server = ReplayServer(self.prop)
        inp = {k: float(v) for k, v in inputs.items()}
        res = self.server.ask(self.cs.name, inp, self.again)
        if res and res.get('status') in ('violation', 'raised'):
            before = self.server.asked[:-1]
            if before:
                # does it take what ran before?
                self.server.close()
                self.server = ReplayServer(self.prop)
                r2 = self.server.ask(self.cs.name, inp, self.again)
                if r2 and r2.get('status') in ('violation', 'raised'):
                    res, before = r2, []
            self.violations.append({'case': self.cs.name, 'label': res.get('label'),
                                    'detail': res.get('detail'), 'obligation': label,
                                    'why': detail, 'inputs': inp or res.get('used', {}), 'again': self.again,
                                    'before': before[-40:]})
            return True
        return False

    # ------------------------------------------------------------------
    def prove(self, cx, goal, budget=None):
        k = goal.const()
        if k is not None:
            return k
        neg = ~goal
        for lev, to, tac in ((1, 1000, None), (2, 2000, None), (1, 4000, 'qfnra-nlsat'),
                             (2, 8000, None), (2, 15000, 'qfnra-nlsat'),
                             (3, 4000, None), (3, 8000, 'qfnra-nlsat'))[:budget]:
            if lev == 3 and not any(a.full for a in cx.atoms):
                return False
            r = cx.check([neg], to, lev, tactic=tac)[0]
            if r == 'unsat':
                self.proved += 1
                return True
            if r == 'sat' and lev == 2 and not any(a.full for a in cx.atoms):
                return False
        return False

    def prove_eq(self, cx, a, b, cheap=False):
        d = a - b
        if d.is_zero():
            # normal forms agree: let the solver confirm the identity
            r = self.identity(cx, a, b)
            if r:
                self.proved += 1
                return True
        if cx.lets and not d.is_zero():
            try:
                d = S.unlet(cx, d)
                if d.is_zero():
                    b2 = S.unlet(cx, b)
                    if self.identity(cx, S.unlet(cx, a), b2):
                        self.proved += 1
                        return True
            except TooBig:
                d = a - b
        if cheap or (d.is_const() and not d.is_zero()):
            # constant difference
            return False
        g = cmp_rf('==', d)
        return self.prove(cx, g)

    def identity(self, cx, a, b):
        """SMT query  a != b  as cross-multiplied polynomials"""
        num = {p: e for p, e in a.f.items() if e > 0}
        num2 = {p: e for p, e in b.f.items() if e > 0}
        for p, e in a.f.items():
            if e < 0:
                num2[p] = num2.get(p, 0) - e
        for p, e in b.f.items():
            if e < 0:
                num[p] = num.get(p, 0) - e
        for p in list(num):
            if p in num2:
                m = min(num[p], num2[p])
                for t in (num, num2):
                    t[p] -= m
                    if not t[p]:
                        del t[p]
        if a.c == 0 and b.c == 0:
            num, num2 = {}, {}
        P, Q = S.expand(num), S.expand(num2)
        z1 = cx.zpoly(P) * S.zq(a.c)
        z2 = cx.zpoly(Q) * S.zq(b.c)
        r = S.solve([z1 != z2], 20000)[0]
        return r == 'unsat'

    def prove_sign(self, cx, op, rf):
        """rf op 0 for op in <=, <"""
        if rf.is_const():
            ok = S._OPS[op](rf.c)
            if ok:
                self.proved += 1
            return ok
        g = cx.rf_sign(rf)
        if g == -1 or (g == -2 and op == '<='):
            self.proved += 1
            return True
        goal = cmp_rf(op, rf)
        neg = ~goal
        r = None
        for lev, to, tac in ((1, 1500, None), (2, 3000, None), (1, 5000, 'qfnra-nlsat')):
            r = cx.check([neg], to, lev, tactic=tac)[0]
            if r == 'unsat':
                self.proved += 1
                return True
            if r == 'sat' and lev == 2:
                return False
        # refine by factoring, then factor signs
        rf2 = S.try_factor(rf)
        if rf2 != rf:
            g = cx.rf_sign(rf2)
            if g == -1 or (g == -2 and op == '<='):
                self.proved += 1
                return True
            goal = cmp_rf(op, rf2)
            neg = ~goal
        for lev, to, tac in ((1, 8000, None), (2, 10000, None), (2, 15000, 'qfnra-nlsat'),):
            r = cx.check([neg], to, lev, tactic=tac)[0]
            if r == 'unsat':
                self.proved += 1
                return True
            if r == 'sat' and lev == 2:
                return False
        if cvc5_check(cx, [neg], 20):
            self.proved += 1
            return True
        return False


def cvc5_check(cx, fs, tlim):
    """unsat verdict from cvc5 on the same formulas"""
    try:
        vs = set()
        for f in fs:
            vs |= f.vars()
        for f in cx.path:
            vs |= f.vars()
        cone = cx.cone(vs)
        s = z3.Solver()
        for v in sorted(cone):
            for k in cx.atoms[v].cons:
                s.add(k())
        for f in cx.path:
            s.add(f.z(cx))
        for f in fs:
            s.add(f.z(cx))
        txt = '(set-logic QF_NRA)\n' + s.to_smt2()
        STATS['queries'] += 1
        t0 = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % (tlim * 1000), '--nl-cov', '-'], input=txt,
                           capture_output=True, text=True, timeout=tlim + 5)
        STATS['solver_s'] += time.time() - t0
        out = p.stdout.strip().splitlines()
        if out and out[-1] == 'unsat' and '(error' not in p.stdout:
            STATS['unsat'] += 1
            return True
    except Exception:
        pass
    return False


def _hasfun(cx, f):
    return any(cx.atoms[v].kind == 'fun' for v in f.vars())


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def _deflt(a):
    if a.default is not None:
        return a.default
    return _mid(a.lo, a.hi)


def _randv(a, rnd):
    lo, hi = a.lo, a.hi
    if lo is None:
        lo = (hi - 10) if hi is not None else Fraction(-10)
    if hi is None:
        hi = lo + 10
    t = Fraction(rnd.randrange(1, 1000), 1000)
    v = lo + (hi - lo) * t
    if 0 < lo and hi > 1000 * lo and rnd.random() < 0.4:
        # any order of magnitude
        return min(max(Fraction(repr(float('%.4g' % (float(lo) * float(hi / lo) ** float(t))))), lo), hi)
    d = a.default
    if d is not None and rnd.random() < 0.5:
        # near the default
        d = S._fr(d)
        v = d + (v - d) * Fraction(rnd.randrange(1, 300), 1000)
    # a short decimal
    f = float('%.4g' % float(v))
    r = Fraction(repr(f))
    return min(max(r, lo), hi)


def _zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    raise ValueError(str(v))


class ReplayServer:
    """clean interpreter running the case against the real package"""

    def __init__(self, prop):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ)
        env['MPLBACKEND'] = 'Agg'
        self.asked = []
        self.p = subprocess.Popen([PY, os.path.join(here, 'check.py'), prop, '--serve'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd='/')

    def ask(self, casename, inputs, again=False, timeout=60):
        import select
        self.asked.append([casename, inputs, again])
        try:
            self.p.stdin.write(json.dumps({'case': casename, 'inputs': inputs, 'again': again}) + '\n')
            self.p.stdin.flush()
            t0 = time.time()
            while True:
                r, _, _ = select.select([self.p.stdout], [], [], max(0.1, timeout - (time.time() - t0)))
                if not r:
                    return None
                line = self.p.stdout.readline()
                if not line:
                    return None
                if line.startswith('@@'):
                    return json.loads(line[2:])
        except (BrokenPipeError, OSError, ValueError):
            return None

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
