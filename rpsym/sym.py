"""Symbolic real values: rational functions in factored form over inputs and
algebraic / transcendental atoms, plus symbolic booleans and complex pairs."""
import math
import os
from fractions import Fraction
from math import gcd
import z3
from .poly import Poly, ONE, ZERO, mono, mono_items, W, FM

STATS = {'queries': 0, 'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}


class Unsupported(Exception):
    """the source uses something the encoder does not model"""


class PathAbort(BaseException):
    """current path is infeasible / out of budget (steering)"""


class TooBig(Unsupported):
    pass


MAXTERMS = int(os.environ.get('RPSYM_MAXTERMS', '60000'))


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'name', 'kind', 'data', 'lo', 'hi', 'sgn', 'red',
                 'zv', 'cons', 'ev', 'deps', 'default', 'full')

    def __init__(self, id, name, kind, data=None, lo=None, hi=None, sgn=0):
        self.id = id
        self.name = name
        self.kind = kind
        self.data = data
        self.lo = lo
        self.hi = hi
        self.sgn = sgn        # 1: >0, 2: >=0, -1: <0, -2: <=0, 0 unknown
        self.red = None       # (k, Poly): v^k -> Poly
        self.zv = None
        self.cons = []        # list of callables -> z3 BoolRef
        self.full = None      # (deps, cons) of a value the solver may treat as opaque
        self.ev = None        # env -> float
        self.deps = frozenset()   # vars mentioned in cons
        self.default = None


class Ctx:
    """All per-path symbolic state."""

    def __init__(self, explorer=None):
        self.atoms = []
        self.byname = {}
        self.table = {}
        self.path = []            # list of SymBool formulas assumed
        self.explorer = explorer
        self.signcache = {}
        self.zcache = {}
        self.redvars = {}
        self.trigpairs = {}       # cos var -> sin var
        self.anglebase = {}
        self.notes = []
        self.ivcache = {}
        self.fresh_n = 0
        self.inputs = []
        self.ints = set()         # inputs with integer values
        self.autolet = 0
        self.letwhole = 0
        self.wholeroot = False
        self.nosign = {}
        self.lets = []            # (probe value, rf, atom)
        self.letdepth = {}
        self.probe = None

    # -- atoms
    def new(self, name, kind, **kw):
        a = Atom(len(self.atoms), name, kind, **kw)
        a.zv = z3.Real('v%d_%s' % (a.id, _clean(name)))
        self.atoms.append(a)
        return a

    def input(self, name, lo=None, hi=None, default=None):
        if name in self.byname:
            raise ValueError('duplicate input ' + name)
        lo = _fr(lo)
        hi = _fr(hi)
        sgn = 0
        if lo is not None:
            sgn = 1 if lo > 0 else (2 if lo == 0 else 0)
        if hi is not None and sgn == 0:
            sgn = -1 if hi < 0 else (-2 if hi == 0 else 0)
        a = self.new(name, 'input', lo=lo, hi=hi, sgn=sgn)
        a.default = default
        self._bounds(a)
        self.byname[name] = a
        self.inputs.append(a)
        return Sym(RF.var(a.id))

    def integer(self, name, lo, hi, default=None):
        """input with integer values"""
        x = self.input(name, lo, hi, default)
        self.ints.add(self.byname[name].id)
        return x

    def _bounds(self, a):
        if a.lo is not None:
            a.cons.append(lambda: a.zv >= zq(a.lo))
        if a.hi is not None:
            a.cons.append(lambda: a.zv <= zq(a.hi))

    def pi(self):
        a = self.table.get('PI')
        if a is None:
            a = self.new('PI', 'pi', lo=Fraction(314159265358979, 10**14),
                         hi=Fraction(314159265358980, 10**14), sgn=1)
            self._bounds(a)
            a.ev = lambda env: math.pi
            self.table['PI'] = a
        return Sym(RF.var(a.id))

    # -- z3 lowering
    def zpoly(self, p):
        z = self.zcache.get(p)
        if z is None:
            terms = []
            for m, c in p.d.items():
                fs = []
                for v, e in mono_items(m):
                    zv = self.atoms[v].zv
                    if e <= 4:
                        fs.extend([zv] * e)
                    else:
                        fs.append(zv ** e)
                if c != 1 or not fs:
                    fs.insert(0, z3.RealVal(c))
                terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            z = z3.RealVal(0) if not terms else (
                terms[0] if len(terms) == 1 else z3.Sum(*terms))
            self.zcache[p] = z
        return z

    def cone(self, vs, full=False):
        seen = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            a = self.atoms[v]
            todo.extend((a.full[0] if full and a.full else a.deps) - seen)
        return seen

    def check(self, formulas, timeout=3000, level=2, extra=(), tactic=None,
              want_model=False):
        """sat-check of  formulas /\\ atom definitions /\\ path condition.
        level 1: path conditions over the same values only; 2: all connected
        ones; 3: also the definitions of opaque values"""
        full = level == 3
        level = min(level, 2)
        vs = set()
        for f in formulas:
            vs |= f.vars()
        if level == 0:
            cone = self.cone(vs, full)
            used = []
        else:
            cone = self.cone(vs, full)
            pend = list(self.path)
            used = []
            if level == 1:
                used = [f for f in pend if f.vars() <= cone]
            else:
                changed = True
                while changed:
                    changed = False
                    rest = []
                    for f in pend:
                        fv = f.vars()
                        if (fv & cone) or not fv:
                            used.append(f)
                            n = self.cone(fv, full)
                            if not n <= cone:
                                cone |= n
                                changed = True
                        else:
                            rest.append(f)
                    pend = rest
        cons = []
        for v in sorted(cone):
            at = self.atoms[v]
            for k in (at.full[1] if full and at.full else at.cons):
                cons.append(k())
        for f in used:
            cons.append(f.z(self))
        for f in formulas:
            cons.append(f.z(self))
        cons.extend(extra)
        if level == 2:
            cons.extend(self.congruence(cone))
        return solve(cons, timeout, tactic, want_model)

    def congruence(self, cone):
        """monotonicity/Ackermann facts between atoms of the same function"""
        out = []
        groups = {}
        for v in cone:
            a = self.atoms[v]
            if a.kind == 'fun':
                groups.setdefault(a.data[0], []).append(a)
        for fn, al in groups.items():
            if len(al) < 2 or len(al) > 12:
                continue
            for i in range(len(al)):
                for j in range(i):
                    x, y = al[i], al[j]
                    gx, gy = x.data[1], y.data[1]
                    if len(gx) != len(gy):
                        continue
                    try:
                        eqs = [cmp_rf('==', a - b).z(self)
                               for a, b in zip(gx, gy)]
                    except TooBig:
                        continue
                    out.append(z3.Implies(z3.And(*eqs), x.zv == y.zv))
                    if len(gx) == 1 and fn in MONO:
                        lt = cmp_rf('<', gx[0] - gy[0]).z(self)
                        gt = cmp_rf('>', gx[0] - gy[0]).z(self)
                        if MONO[fn] > 0:
                            out.append(z3.Implies(lt, x.zv < y.zv))
                            out.append(z3.Implies(gt, x.zv > y.zv))
                        else:
                            out.append(z3.Implies(lt, x.zv > y.zv))
                            out.append(z3.Implies(gt, x.zv < y.zv))
        return out

    # -- signs
    def quick_sign(self, p):
        """1 >0, 2 >=0, -1 <0, -2 <=0, 0 unknown (syntactic)"""
        s = 0
        strict = False
        for m, c in p.d.items():
            t = 1 if c > 0 else -1
            st = True
            for v, e in mono_items(m):
                g = self.atoms[v].sgn
                if e % 2 == 0:
                    if abs(g) != 1:
                        st = False
                    continue
                if g == 0:
                    return 0
                if g < 0:
                    t = -t
                if abs(g) != 1:
                    st = False
            if s == 0:
                s = t
            elif s != t:
                return 0
            strict = strict or st
        return s if strict else 2 * s

    def interval(self, p):
        """interval enclosure from atom bounds, or None"""
        lo = hi = Fraction(0)
        for m, c in p.d.items():
            tl = th = Fraction(c)
            for v, e in mono_items(m):
                a = self.atoms[v]
                if a.lo is None or a.hi is None:
                    return None
                l, h = a.lo, a.hi
                if e > 1:
                    if l >= 0:
                        l, h = l ** e, h ** e
                    elif h <= 0:
                        l, h = sorted((l ** e, h ** e))
                    elif e % 2:
                        l, h = l ** e, h ** e
                    else:
                        l, h = Fraction(0), max(l ** e, h ** e)
                c4 = (tl * l, tl * h, th * l, th * h)
                tl, th = min(c4), max(c4)
            lo += tl
            hi += th
        return lo, hi

    def sign(self, p, timeout=1500):
        """as quick_sign, but with intervals then the solver under the path"""
        q = self.quick_sign(p)
        if q in (1, -1):
            return q
        r = self.signcache.get(p)
        if r:
            return r
        r = q
        iv = self.interval(p) if len(p) <= 40 else None
        if iv:
            if iv[0] > 0:
                r = 1
            elif iv[1] < 0:
                r = -1
            elif iv[0] == 0 and not r:
                r = 2
            elif iv[1] == 0 and not r:
                r = -2
        heavy = self.autolet and len(self.cone(p.vars())) > 14
        if self.autolet:
            timeout = min(timeout, 150)
        if (r not in (1, -1) and len(p) < 400 and not heavy
                and self.nosign.get(p) != len(self.path)):
            rf = RF.poly(p)
            for lev in (1, 2):
                if self.check([cmp_rf('<=', rf)], timeout, lev)[0] == 'unsat':
                    r = 1
                    break
                if self.check([cmp_rf('>=', rf)], timeout, lev)[0] == 'unsat':
                    r = -1
                    break
                if not r:
                    if self.check([cmp_rf('<', rf)], timeout, lev)[0] == 'unsat':
                        r = 2
                        break
                    if self.check([cmp_rf('>', rf)], timeout, lev)[0] == 'unsat':
                        r = -2
                        break
                if not self.path:
                    break
        # unknown results are not cached: the path condition only grows
        if r:
            self.signcache[p] = r
        if r not in (1, -1):
            self.nosign[p] = len(self.path)
        return r

    def rf_sign(self, rf):
        if rf.c == 0:
            return 3                  # zero
        s = 1 if rf.c > 0 else -1
        weak = False
        for f, e in rf.f.items():
            if e % 2 == 0:
                g = self.sign(f)
                if e > 0 and abs(g) != 1:
                    weak = True
                continue
            g = self.sign(f)
            if g == 0:
                return 0
            if g < 0:
                s = -s
            if abs(g) == 2 and e > 0:
                weak = True
        return 2 * s if weak else s

    # -- reduction
    def reduce(self, p):
        rv = self.redvars
        if not rv:
            return p
        guardn = 0
        while True:
            hit = None
            for v in p.vars():
                r = rv.get(v)
                if r and p.maxexp(v) >= r[0]:
                    if hit is None or v > hit:
                        hit = v
            if hit is None:
                return p
            k, q = rv[hit]
            parts = p.split_var(hit)
            acc = ZERO
            qp = {0: ONE}
            for e, c in parts.items():
                n, m = divmod(e, k)
                if n not in qp:
                    qp[n] = q.pow(n)
                t = c * qp[n] if n else c
                if m:
                    t = t.mulmono(mono(hit, m))
                acc = acc + t
            p = acc
            if len(p) > MAXTERMS:
                raise TooBig('reduction')
            guardn += 1
            if guardn > 200:
                return p

    # -- decisions
    def decide(self, formula):
        if self.explorer is None:
            raise Unsupported('symbolic branch outside exploration')
        return self.explorer.decide(self, formula)

    def assume(self, formula):
        self.path.append(formula)


def _clean(s):
    return ''.join(ch if ch.isalnum() else '_' for ch in s)[:24]


def _fr(x):
    if x is None or isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def zq(x):
    x = Fraction(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


MONO = {'exp': 1, 'log': 1, 'acos': -1, 'acosh': 1, 'atan': 1, 'asin': 1}


def solve(cons, timeout, tactic=None, want_model=False):
    import time
    t0 = time.time()
    STATS['queries'] += 1
    try:
        if tactic:
            s = z3.Tactic(tactic).solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(*cons)
        r = str(s.check())
        m = s.model() if (r == 'sat' and want_model) else None
    except z3.Z3Exception:
        r, m = 'unknown', None
    STATS['solver_s'] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    return r, m


CUR = None         # current context


def ctx():
    if CUR is None:
        raise RuntimeError('no symbolic context')
    return CUR


def set_ctx(c):
    global CUR
    CUR = c


# --------------------------------------------------------------------------
class RF:
    """c * prod f^e ; f primitive integer polynomials (positive leading coeff)"""
    __slots__ = ('c', 'f', '_h', '_v')

    def __init__(self, c, f):
        self.c = c
        self.f = f
        self._h = None
        self._v = None

    @staticmethod
    def const(c):
        return RF(Fraction(c), {})

    @staticmethod
    def var(v):
        return RF(Fraction(1), {Poly.var(v): 1})

    @staticmethod
    def poly(p, c=Fraction(1)):
        """c * p, p arbitrary integer Poly (already reduced)"""
        if p.is_zero():
            return RF(Fraction(0), {})
        k, q = p.primitive()
        f = {}
        if not q.is_one():
            mc = q.mono_content()
            if mc:
                for v, e in mono_items(mc):
                    f[Poly.var(v)] = e
                q = q.div_mono(mc)
            if not q.is_one():
                _addfac(f, q, 1)
        return RF(Fraction(c) * k, f)

    def key(self):
        return (self.c, frozenset(self.f.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, RF) and self.c == o.c and self.f == o.f

    def is_const(self):
        return not self.f

    def is_zero(self):
        return self.c == 0

    def vars(self):
        if self._v is None:
            s = set()
            for f in self.f:
                s |= f.vars()
            self._v = frozenset(s)
        return self._v

    def __neg__(self):
        return RF(-self.c, self.f)

    def scale(self, k):
        if k == 0:
            return RF(Fraction(0), {})
        return RF(self.c * k, self.f)

    def __mul__(self, o):
        if self.c == 0 or o.c == 0:
            return RF(Fraction(0), {})
        a, b = self.f, o.f
        if not a:
            return RF(self.c * o.c, b)
        if not b:
            return RF(self.c * o.c, a)
        if len(a) < len(b):
            a, b = b, a
        f = dict(a)
        c = self.c * o.c
        for p, e in b.items():
            n = f.get(p, 0) + e
            if n:
                f[p] = n
            else:
                del f[p]
        return _fixroots(c, f)

    def inv(self):
        if self.c == 0:
            raise ZeroDivisionError('symbolic division by zero')
        return _fixroots(1 / self.c, {p: -e for p, e in self.f.items()})

    def powi(self, n):
        if n == 0:
            return RF(Fraction(1), {})
        if self.c == 0:
            if n < 0:
                raise ZeroDivisionError('0**negative')
            return self
        return _fixroots(self.c ** n, {p: e * n for p, e in self.f.items()})

    def __add__(self, o):
        if self.c == 0:
            return o
        if o.c == 0:
            return self
        if self.f == o.f:
            c = self.c + o.c
            return RF(c, self.f) if c else RF(Fraction(0), {})
        g = {}
        A = {}
        B = {}
        for p, e in self.f.items():
            e2 = o.f.get(p, 0)
            m = min(e, e2)
            if m:
                g[p] = m
            if e > m:
                A[p] = e - m
            if e2 > m:
                B[p] = e2 - m
        for p, e2 in o.f.items():
            if p not in self.f:
                m = min(0, e2)
                if m:
                    g[p] = m
                    A[p] = -m
                else:
                    B[p] = e2
        den = self.c.denominator * o.c.denominator // gcd(
            self.c.denominator, o.c.denominator)
        ca = self.c.numerator * (den // self.c.denominator)
        cb = o.c.numerator * (den // o.c.denominator)
        s = expand(A).scale(ca) + expand(B).scale(cb)
        if s.is_zero():
            return RF(Fraction(0), {})
        k, s = s.primitive()
        # cancel against denominators
        f = dict(g)
        mc = s.mono_content()
        if mc:
            for v, e in mono_items(mc):
                p = Poly.var(v)
                n = f.get(p, 0) + e
                if n:
                    f[p] = n
                else:
                    f.pop(p, None)
            s = s.div_mono(mc)
        for p, e in list(f.items()):
            while e < 0 and not s.is_const():
                q = s.divexact(p)
                if q is None:
                    break
                s = q
                e += 1
                if e:
                    f[p] = e
                else:
                    del f[p]
        if not s.is_one():
            k2, s = s.primitive()
            k *= k2
            if not s.is_one():
                _addfac(f, s, 1)
        return _fixroots(Fraction(k, den), f)

    def __sub__(self, o):
        return self + (-o)

    def numden(self):
        """(c, num Poly, den Poly) expanded"""
        return (self.c, expand({p: e for p, e in self.f.items() if e > 0}),
                expand({p: -e for p, e in self.f.items() if e < 0}))

    def polyval(self):
        """(c, Poly) if no denominator, else None"""
        if any(e < 0 for e in self.f.values()):
            return None
        return self.c, expand(self.f)


def _addfac(f, p, e):
    """f[p]+=e with trig rule 1-c^2 -> s^2"""
    c = CUR
    if c is not None and c.trigpairs and len(p) == 2 and 0 in p.d:
        vs = p.vars()
        if len(vs) == 1:
            v, = vs
            s = c.trigpairs.get(v)
            if s is not None and p.d.get(0) == -1 and p.d.get(mono(v, 2)) == 1:
                # c^2-1 = -(s^2): sign handled by caller through marker
                q = Poly.var(s)
                n = f.get(q, 0) + 2 * e
                if n:
                    f[q] = n
                else:
                    f.pop(q, None)
                f['neg'] = f.get('neg', 0) + e
                return
    n = f.get(p, 0) + e
    if n:
        f[p] = n
    else:
        f.pop(p, None)


def _fixroots(c, f):
    """normalise exponents of root atoms into [0,k)"""
    n = f.pop('neg', 0) if 'neg' in f else 0
    if n % 2:
        c = -c
    cx = CUR
    if cx is None or not cx.redvars:
        return RF(c, f)
    rv = cx.redvars
    for _ in range(50):
        todo = None
        for p, e in f.items():
            if len(p.d) == 1 and e != 1:
                m, = p.d
                if m and not (m & (m - 1)):   # single variable, exponent 1
                    v = (m.bit_length() - 1) // W
                    if m != (1 << (W * v)):
                        continue
                    r = rv.get(v)
                    if r and cx.atoms[v].kind == 'root' and not 0 <= e < r[0]:
                        todo = (p, e, r)
                        break
        if todo is None:
            return RF(c, f)
        p, e, (k, q) = todo
        n, m = divmod(e, k)
        f = dict(f)
        if m:
            f[p] = m
        else:
            del f[p]
        t = RF.poly(q).powi(n)
        c = c * t.c
        for pp, ee in t.f.items():
            x = f.get(pp, 0) + ee
            if x:
                f[pp] = x
            else:
                f.pop(pp, None)
    return RF(c, f)


_RFpoly_orig = RF.poly


def _rf_poly(p, c=Fraction(1)):
    r = _RFpoly_orig(p, c)
    if 'neg' in r.f:
        return _fixroots(r.c, r.f)
    return r


RF.poly = staticmethod(_rf_poly)


def expand(fd):
    r = ONE
    cx = CUR
    for p, e in sorted(fd.items(), key=lambda t: len(t[0].d)):
        q = p
        for _ in range(e):
            if len(r) * len(q) > 40 * MAXTERMS:
                raise TooBig('expand')
            r = r * q
            if cx is not None and cx.redvars and len(q) > 0:
                r = cx.reduce(r)
            if len(r) > MAXTERMS:
                raise TooBig('expand')
    return r


# --------------------------------------------------------------------------
class SymBool:
    """formula: ('c',bool) ('cmp',op,rf) ('and',..) ('or',..) ('not',x)"""
    __slots__ = ('n', 'cond', '_v', '_z')

    def __init__(self, n, cond=frozenset()):
        self.n = n
        self.cond = cond
        self._v = None
        self._z = None

    def vars(self):
        if self._v is None:
            n = self.n
            if n[0] == 'c':
                self._v = frozenset()
            elif n[0] == 'cmp':
                self._v = n[2].vars()
            else:
                s = frozenset()
                for x in n[1:]:
                    s |= x.vars()
                self._v = s
        return self._v

    def z(self, cx):
        if self._z is None or self._z[0] is not cx:
            self._z = (cx, self._mkz(cx))
        return self._z[1]

    def linear(self):
        """one comparison of a polynomial of degree one"""
        n = self.n
        return n[0] == 'cmp' and len(n[2].f) == 1 and all(
            e == 1 and all(sum(x for _, x in mono_items(m)) <= 1 for m in p.d)
            for p, e in n[2].f.items())

    def _mkz(self, cx):
        n = self.n
        if n[0] == 'c':
            return z3.BoolVal(n[1])
        if n[0] == 'cmp':
            return _zcmp(cx, n[1], n[2])
        if n[0] == 'and':
            return z3.And(*[x.z(cx) for x in n[1:]])
        if n[0] == 'or':
            return z3.Or(*[x.z(cx) for x in n[1:]])
        return z3.Not(n[1].z(cx))

    def const(self):
        return self.n[1] if self.n[0] == 'c' else None

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c
        return ctx().decide(self)

    def __and__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        a, b = self.const(), o.const()
        if a is False or b is False:
            return SymBool(('c', False))
        if a is True:
            return o
        if b is True:
            return self
        return SymBool(('and', self, o), self.cond | o.cond)
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        a, b = self.const(), o.const()
        if a is True or b is True:
            return SymBool(('c', True))
        if a is False:
            return o
        if b is False:
            return self
        return SymBool(('or', self, o), self.cond | o.cond)
    __ror__ = __or__

    def __invert__(self):
        a = self.const()
        if a is not None:
            return SymBool(('c', not a))
        if self.n[0] == 'not':
            return self.n[1]
        return SymBool(('not', self), self.cond)

    def logical_not(self):
        return ~self

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == (bool(o) if isinstance(o, SymBool) else o)

    def __hash__(self):
        return hash(bool(self))

    def _num(self):
        return Sym.of(1 if bool(self) else 0)

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))

    def any(self, *a, **k): return self
    def all(self, *a, **k): return self

    def __repr__(self):
        return 'SymBool(%s)' % (self.n[0],)


TRUE = SymBool(('c', True))
FALSE = SymBool(('c', False))


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, int)) or type(x).__name__ in ('bool_', 'bool'):
        return TRUE if x else FALSE
    return NotImplemented


_OPS = {'<': lambda a: a < 0, '<=': lambda a: a <= 0, '==': lambda a: a == 0,
        '!=': lambda a: a != 0, '>': lambda a: a > 0, '>=': lambda a: a >= 0}


def cmp_rf(op, rf, cond=frozenset()):
    if rf.is_const():
        return SymBool(('c', _OPS[op](rf.c)))
    return SymBool(('cmp', op, rf), cond)


def _zcmp(cx, op, rf):
    """z3 formula of  rf op 0, denominators assumed nonzero"""
    if rf.is_const():
        return z3.BoolVal(_OPS[op](rf.c))
    nums = [p for p, e in rf.f.items() if e > 0]
    if op == '==':
        return z3.Or(*[cx.zpoly(p) == 0 for p in nums]) if nums \
            else z3.BoolVal(False)
    if op == '!=':
        return z3.And(*[cx.zpoly(p) != 0 for p in nums]) if nums \
            else z3.BoolVal(True)
    s = 1 if rf.c > 0 else -1
    odd = []
    nz = []
    for p, e in rf.f.items():
        q = cx.quick_sign(p)
        if abs(q) == 1:
            if e % 2 and q < 0:
                s = -s
            continue
        if abs(q) == 2 and e < 0:       # denominator: nonzero
            if e % 2 and q < 0:
                s = -s
            continue
        if e % 2:
            odd.append(p)
        elif e > 0:
            nz.append(p)
    if s < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
    # now sign(prod odd)*[prod nz^2] op 0
    if not odd:
        base = {'<': False, '<=': False, '>': True, '>=': True}[op]
        if op == '>=':
            return z3.BoolVal(True)
        if op == '>':
            return z3.And(*[cx.zpoly(p) != 0 for p in nz]) if nz else z3.BoolVal(True)
        if op == '<':
            return z3.BoolVal(False)
        return z3.Or(*[cx.zpoly(p) == 0 for p in nz]) if nz else z3.BoolVal(False)
    zo = [cx.zpoly(p) for p in odd]
    if len(zo) <= 4:
        def par(neg):
            out = []
            import itertools
            for bits in itertools.product((0, 1), repeat=len(zo)):
                if sum(bits) % 2 == neg:
                    out.append(z3.And(*[(z < 0) if b else (z > 0)
                                        for z, b in zip(zo, bits)]))
            return out[0] if len(out) == 1 else z3.Or(*out)
        if op in ('<', '>'):
            r = par(1 if op == '<' else 0)
            if nz:
                r = z3.And(r, *[cx.zpoly(p) != 0 for p in nz])
            return r
        r = par(0 if op == '<=' else 1)
        if nz:
            r = z3.And(r, *[cx.zpoly(p) != 0 for p in nz])
        return z3.Not(r)
    pr = z3.Product(*zo)
    if op in ('<', '>'):
        r = pr < 0 if op == '<' else pr > 0
        if nz:
            r = z3.And(r, *[cx.zpoly(p) != 0 for p in nz])
        return r
    r = pr <= 0 if op == '<=' else pr >= 0
    if nz:
        r = z3.Or(r, *[cx.zpoly(p) == 0 for p in nz])
    return r


# --------------------------------------------------------------------------
PI_FLOAT = math.pi


def from_number(x):
    """RF of a plain number"""
    if isinstance(x, bool):
        return RF.const(int(x))
    if isinstance(x, int):
        return RF.const(x)
    if isinstance(x, Fraction):
        return RF.const(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        if x == math.pi:
            return ctx().pi().rf
        q = x / math.pi
        if abs(x) > 1e-3 and q == round(q * 720) / 720 and x == q * math.pi \
                and round(q * 720) != 0:
            return ctx().pi().rf.scale(Fraction(round(q * 720), 720))
        return RF.const(Fraction(repr(float(x))))
    import numpy as np
    if isinstance(x, np.integer):
        return RF.const(int(x))
    if isinstance(x, np.bool_):
        return RF.const(int(x))
    if isinstance(x, np.floating):
        return from_number(float(x))
    return NotImplemented


class Sym:
    __slots__ = ('rf', 'cond')

    def __init__(self, rf, cond=frozenset()):
        self.rf = rf
        self.cond = cond

    # conversions ---------------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num()
        r = from_number(x)
        if r is NotImplemented:
            return NotImplemented
        if r is None:
            return poison()
        return Sym(r)

    def is_const(self):
        return self.rf.is_const() and not self.cond

    def const(self):
        return self.rf.c if self.rf.is_const() else None

    def __hash__(self):
        return 7          # equality decides (possibly forking)

    # arithmetic ----------------------------------------------------------
    def _bin(self, o):
        if isinstance(o, (Sym, int, float, Fraction, SymBool)):
            return Sym.of(o)
        if isinstance(o, (complex,)):
            return NotImplemented
        return Sym.of(o) if _isnum(o) else NotImplemented

    def __add__(self, o):
        if isinstance(o, complex):
            return CSym.of(self) + CSym.of(o)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _mks(self.rf + o.rf, self.cond | o.cond)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, complex):
            return CSym.of(self) - CSym.of(o)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _mks(self.rf - o.rf, self.cond | o.cond)

    def __rsub__(self, o):
        if isinstance(o, complex):
            return CSym.of(o) - CSym.of(self)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _mks(o.rf - self.rf, self.cond | o.cond)

    def __mul__(self, o):
        if isinstance(o, complex):
            return CSym.of(self) * CSym.of(o)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _mks(self.rf * o.rf, self.cond | o.cond)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, complex):
            return CSym.of(self) / CSym.of(o)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return CSym.of(o) / CSym.of(self)
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return _div(o, self)

    def __neg__(self):
        return Sym(-self.rf, self.cond)

    def __pos__(self):
        return self

    def __abs__(self):
        g = ctx().rf_sign(self.rf)
        if g in (1, 2, 3):
            return self
        if g in (-1, -2):
            return -self
        return self if (self >= 0) else -self

    def __pow__(self, o, mod=None):
        o2 = self._bin(o)
        if o2 is NotImplemented:
            if isinstance(o, CSym):
                raise Unsupported('complex power')
            return o2
        return power(self, o2)

    def __rpow__(self, o):
        o2 = self._bin(o)
        if o2 is NotImplemented:
            return o2
        return power(o2, self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (Sym.of(o) / self).floor()

    def __mod__(self, o):
        o = Sym.of(o)
        return self - (self // o) * o

    def __rmod__(self, o):
        return Sym.of(o) % self

    # comparisons ---------------------------------------------------------
    def _cmp(self, op, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return NotImplemented
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return cmp_rf(op, self.rf - o.rf, self.cond | o.cond)

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __eq__(self, o): return self._cmp('==', o)
    def __ne__(self, o): return self._cmp('!=', o)

    def __bool__(self):
        return bool(self != 0)

    # numpy object-method protocol -----------------------------------------
    def sqrt(self): return power(self, Sym.of(Fraction(1, 2)))
    def cbrt(self): return cbrt(self)
    def square(self): return self * self
    def reciprocal(self): return 1 / self
    def exp(self): return sexp(self)
    def log(self): return slog(self)
    def log10(self): return slog(self) / slog(Sym.of(10))
    def log2(self): return slog(self) / slog(Sym.of(2))
    def log1p(self): return slog(self + 1)
    def expm1(self): return sexp(self) - 1
    def exp2(self): return power(Sym.of(2), self)
    def sin(self): return strig(self)[0]
    def cos(self): return strig(self)[1]
    def tan(self):
        s, c = strig(self)
        return s / c
    def arcsin(self): return sasin(self)
    def arccos(self): return ctx().pi() / 2 - sasin(self) if False else sacos(self)
    def arctan(self): return satan(self)
    def arccosh(self): return sfun('acosh', [self], cond=[(self >= 1)], sgn=2,
                                   ev=math.acosh)
    def arcsinh(self): return sfun('asinh', [self], ev=math.asinh)
    def arctanh(self): return (slog(1 + self) - slog(1 - self)) / 2
    def sinh(self): return (sexp(self) - sexp(-self)) / 2
    def cosh(self): return (sexp(self) + sexp(-self)) / 2
    def tanh(self):
        return 1 - 2 / (sexp(2 * self) + 1)
    def conjugate(self): return self
    def conj(self): return self
    def fabs(self): return abs(self)
    def absolute(self): return abs(self)
    def deg2rad(self): return self * ctx().pi() / 180
    def rad2deg(self): return self * 180 / ctx().pi()
    def radians(self): return self.deg2rad()
    def degrees(self): return self.rad2deg()
    def sign(self):
        if self > 0:
            return Sym.of(1)
        if self < 0:
            return Sym.of(-1)
        return Sym.of(0)

    def floor(self):
        c = self.const()
        if c is not None:
            return Sym.of(c.numerator // c.denominator)
        return sfloor(self)

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self >= 0:
            return self.floor()
        return self.ceil()

    def rint(self):
        c = self.const()
        if c is not None:
            return Sym.of(round(c))
        return (self + Fraction(1, 2)).floor()

    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()
    def __trunc__(self): return self.trunc()

    def __round__(self, n=None):
        k = 10 ** (n or 0)
        return (self * k).rint() / k

    def round(self, n=0):
        return self.__round__(n)

    # scalars behave like numpy scalars -----------------------------------
    @property
    def real(self): return self
    @property
    def imag(self): return Sym.of(0)
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def T(self): return self
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def __getitem__(self, i):
        if isinstance(i, tuple) and all(x is None or x is Ellipsis for x in i) or i is None or i is Ellipsis:
            from . import npx
            n = sum(x is None for x in (i if isinstance(i, tuple) else (i,)))
            return npx.mk([self]).reshape((1,) * n) if n else self
        raise TypeError("'float' object is not subscriptable")

    def item(self): return self
    def copy(self): return self
    def astype(self, t=None, *a, **k):
        from .npx import cast
        return cast(self, t)
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def all(self, *a, **k): return self != 0
    def any(self, *a, **k): return self != 0
    def clip(self, lo=None, hi=None):
        x = self
        if lo is not None and x < lo:
            x = Sym.of(lo)
        if hi is not None and x > hi:
            x = Sym.of(hi)
        return x

    def flatten(self):
        from . import npx
        return npx.mk([self])
    ravel = flatten

    def reshape(self, *s):
        from . import npx
        return npx.mk([self]).reshape(*s)

    def tolist(self): return self

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise TypeError('symbolic value used as an index')

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported('int() of a symbolic value')

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __format__(self, spec):
        c = self.const()
        if c is not None:
            return format(float(c), spec)
        return '<sym>'

    def __repr__(self):
        c = self.const()
        if c is not None:
            return str(float(c)) if c.denominator != 1 else str(c)
        try:
            return 'Sym(%s)' % show(self.rf)[:160]
        except Exception:
            return 'Sym(?)'


def _isnum(o):
    import numpy as np
    return isinstance(o, (np.integer, np.floating, np.bool_))


def show(rf):
    cx = ctx()
    nm = lambda v: cx.atoms[v].name
    return '%s * %s' % (rf.c, ' * '.join('(%s)^%d' % (p.show(nm), e)
                                         for p, e in rf.f.items()))


def poison():
    a = ctx().new('undef', 'undef')
    return Sym(RF.var(a.id), frozenset([('false', a.id)]))


def _div(a, b):
    if b.rf.is_zero():
        p = poison()
        return Sym(p.rf, p.cond | a.cond | b.cond)
    cond = a.cond | b.cond
    cx = ctx()
    need = []
    for p, e in b.rf.f.items():
        if e > 0 and abs(cx.quick_sign(p)) != 1:
            need.append(('nz', p))
    if need:
        cond = cond | frozenset(need)
    return _mks(a.rf * b.rf.inv(), cond)


# -- powers -----------------------------------------------------------------
def power(b, e):
    ec = e.const()
    if ec is not None:
        if ec.denominator == 1:
            n = int(ec)
            if n < 0:
                return _div(Sym.of(1), power(b, Sym.of(-n)))
            return _mks(b.rf.powi(n), b.cond | e.cond)
        cx = ctx()
        key = ('ratpow', b.rf.key(), ec)
        r = cx.table.get(key)
        if r is None:
            # one form per base: signs learned later must not give a second one
            r = cx.table[key] = ratpow(b, ec)
        return r if r.cond >= b.cond else Sym(r.rf, r.cond | b.cond)
    # symbolic exponent: split integer constant part
    pv = e.rf.polyval()
    if pv is not None:
        c, p = pv
        k = c * p.d.get(0, 0)
        ki = math.floor(k)
        if ki:
            return power(b, Sym.of(ki)) * power(b, Sym(e.rf - RF.const(ki), e.cond))
        # linear split over terms a1*m1 + a2*m2: keep joint
    bc = b.const()
    if bc is not None and bc == 1:
        return Sym.of(1)
    if bc is not None and bc == 0 and ctx().rf_sign(e.rf) == 1:
        return Sym(RF.const(0), b.cond | e.cond)
    if bc is not None and bc == 0:
        return sfun('pow', [b, e], cond=[e > 0], sgn=2, ev=lambda x, y: x ** y)
    # positive factor splitting
    return sfun('pow', [b, e], cond=[b >= 0] if not (bc is not None and bc > 0) else [],
                sgn=1 if ctx().rf_sign(b.rf) == 1 else 2, ev=lambda x, y: x ** y)


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        r = math.isqrt(n)
        if r * r == n:
            for q, k in _primes(r).items():
                out[q] = out.get(q, 0) + 2 * k
        else:
            out[n] = out.get(n, 0) + 1
    return out


def _root_atom(p, q):
    """atom r = p^(1/q), p a primitive Poly known >=0 (var or poly or const)"""
    cx = ctx()
    key = ('root', p, q)
    a = cx.table.get(key)
    if a is None:
        nm = p.show(lambda v: cx.atoms[v].name)
        s = cx.sign(p)
        a = cx.new('rt%d(%s)' % (q, nm[:30]), 'root', data=(p, q),
                   sgn=1 if s == 1 else 2)
        if p.is_const():
            c = p.const_value()
            f = float(c) ** (1.0 / q)
            a.lo = Fraction(repr(f)) * Fraction(999999999999, 10**12)
            a.hi = Fraction(repr(f)) * Fraction(1000000000001, 10**12)
        else:
            iv = cx.interval(p) if len(p) <= 60 else None
            if iv and iv[0] >= 0 and iv[1] > 0:
                lo = float(iv[0]) ** (1.0 / q) * (1 - 1e-9)
                hi = float(iv[1]) ** (1.0 / q) * (1 + 1e-9)
                if hi < 1e300:
                    a.lo = Fraction(repr(lo))
                    a.hi = Fraction(repr(hi))
        a.deps = p.vars()
        if q <= 4:
            a.cons.append(lambda: cx.zpoly(p) == _zpow(a.zv, q))
        else:
            # x>1 <=> r>1
            a.cons.append(lambda: z3.And(
                (cx.zpoly(p) > 1) == (a.zv > 1),
                (cx.zpoly(p) < 1) == (a.zv < 1)))
        a.cons.append(lambda: (a.zv > 0) if a.sgn == 1 else (a.zv >= 0))
        a.red = (q, p)
        a.ev = lambda env: max(evp(p, env), 0.0) ** (1.0 / q)
        cx.table[key] = a
        cx.redvars[a.id] = (q, p)
    return a


def _zpow(z, k):
    r = z
    for _ in range(k - 1):
        r = r * z
    return r


def _split_signed(rf):
    """(c>0?, pos factors {p:e}, other RF) so that rf = c*prod(pos)*other"""
    cx = ctx()
    c = rf.c
    pos = {}
    oth = {}
    for p, e in rf.f.items():
        g = cx.sign(p)
        if g in (1, 2):
            pos[p] = e
        elif g in (-1, -2):
            q = -p
            pos[q] = e
            if e % 2:
                c = -c
        else:
            oth[p] = e
    return c, pos, oth


def try_factor(rf):
    """refine factors with sympy for small polynomials (pure canonicalisation)"""
    out = RF(rf.c, {})
    for p, e in rf.f.items():
        fl = factor_poly(p)
        if fl is None or (len(fl[1]) == 1 and fl[1][0][1] == 1):
            out = out * RF(Fraction(1), {p: e})
        else:
            k, lst = fl
            out = out * RF(Fraction(k) ** e, {})
            for q, m in lst:
                out = out * RF.poly(q).powi(m * e)
    return out


_FC = {}


def factor_poly(p, maxterms=60, maxvars=8):
    if len(p) < 2 or len(p) > maxterms or len(p.vars()) > maxvars:
        return None
    k = p.key()
    if k in _FC:
        return _FC[k]
    r = None
    try:
        from sympy.polys.rings import ring
        from sympy import ZZ
        vs = sorted(p.vars())
        idx = {v: i for i, v in enumerate(vs)}
        R = ring(['x%d' % v for v in vs], ZZ)[0]
        d = {}
        for m, c in p.d.items():
            t = [0] * len(vs)
            for v, e in mono_items(m):
                t[idx[v]] = e
            d[tuple(t)] = c
        import signal

        def onalrm(*_):
            raise TimeoutError()
        old = None
        try:
            old = signal.signal(signal.SIGALRM, onalrm)
            signal.setitimer(signal.ITIMER_REAL, 4)
        except ValueError:
            old = None
        try:
            cc, lst = R.from_dict(d).factor_list()
        finally:
            if old is not None:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        out = []
        for q, e in lst:
            dd = {}
            for t, c in q.terms():
                m = 0
                for i, ee in enumerate(t):
                    if ee:
                        m += mono(vs[i], ee)
                dd[m] = int(c)
            out.append((Poly(dd), e))
        r = (int(cc), out)
    except Exception:
        r = None
    _FC[k] = r
    return r


def ratpow(b, e):
    """b ** e, e non-integer rational"""
    cx = ctx()
    q = e.denominator
    if b.rf.is_zero():
        return Sym.of(0) if e > 0 else poison()
    if b.rf.is_const() and b.rf.c < 0:
        p = poison()
        return p
    rf = try_factor(b.rf)
    c, pos, oth = _split_signed(rf)
    cond = set(b.cond)
    # negative base powers with e<0: base must be nonzero
    if e < 0:
        for p, k in rf.f.items():
            if k > 0 and abs(cx.quick_sign(p)) != 1:
                cond.add(('nz', p))
    out = RF.const(1)
    if oth:
        # even powers of sign-indefinite factors could be |f|; fork on sign if
        # that is all there is, otherwise keep a joint radicand
        if all(k % 2 == 0 for k in oth.values()):
            for p, k in oth.items():
                s = cmp_rf('>=', RF.poly(p))
                if bool(s):
                    pos[p] = k
                else:
                    pos[-p] = k
            oth = {}
    if oth:
        orf = RF(Fraction(1) if c > 0 else Fraction(-1), oth)
        cond.add(('ge', orf))
        c = abs(c)
        # clear denominators: N/D -> N*D / D^2 (D sign indefinite: keep D^2 root)
        num = {}
        scal = RF.const(1)
        joint = orf
        key = ('jroot', joint, q)
        a = cx.table.get(key)
        if a is None:
            g = cx.rf_sign(joint)
            n = RF(joint.c, {p: k for p, k in joint.f.items() if k > 0})
            d = RF(Fraction(1), {p: -k for p, k in joint.f.items() if k < 0})
            a = cx.new('jrt%d_%d' % (q, len(cx.atoms)), 'root',
                       data=(joint, q), sgn=2)
            a.deps = joint.vars()
            nc, np_ = n.polyval()
            dc, dp = d.polyval()
            if q <= 4:
                def mk(a=a, nc=nc, np_=np_, dc=dc, dp=dp):
                    return (_zpow(a.zv, q) * cx.zpoly(dp) * zq(dc)
                            == cx.zpoly(np_) * zq(nc))
                a.cons.append(mk)
            a.cons.append(lambda a=a: a.zv >= 0)
            a.ev = lambda env: max(evrf(joint, env), 0.0) ** (1.0 / q)
            cx.table[key] = a
            if not any(k < 0 for k in joint.f.values()) and nc.denominator == 1:
                cx.redvars[a.id] = (q, np_.scale(int(nc)))
        out = out * _apow(a, e, q)
    if c < 0:
        p = poison()
        return Sym(p.rf, p.cond | frozenset(cond))
    # constant
    if c != 1:
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in _primes(n).items():
                out = out * _fpow(Poly.const(pr), k * e * sg)
    if cx.wholeroot and sum(1 for k in pos.values() if (k * e).denominator != 1) > 1 \
            and all(cx.sign(p) in (1, 2) for p in pos):
        # one root of the whole radicand, named
        L = let(cx, RF(Fraction(1), pos))
        if L.c == 1 and len(L.f) == 1:
            return Sym(out * _fpow(next(iter(L.f)), e), frozenset(cond))
    for p, k in pos.items():
        out = out * _fpow(p, k * e)
    return Sym(out, frozenset(cond))


def _apow(a, e, q):
    n = e.numerator           # e = n/q
    return RF.var(a.id).powi(n)


def _fpow(p, e):
    """RF of p^e, p nonneg Poly, e rational"""
    e = Fraction(e)
    if e.denominator == 1:
        r = RF.poly(p) if not p.is_const() else RF.const(p.const_value())
        return r.powi(int(e))
    n = math.floor(e)
    fr = e - n
    q = fr.denominator
    base = (RF.poly(p) if not p.is_const() else RF.const(p.const_value()))
    out = base.powi(n)
    if q <= 64:
        a = _root_atom(p, q)
        return out * RF.var(a.id).powi(fr.numerator)
    s = sfun('pow', [Sym(base), Sym.of(fr)], sgn=1 if ctx().sign(p) == 1 else 2,
             ev=lambda x, y: x ** y)
    return out * s.rf


def cbrt(x):
    g = ctx().rf_sign(x.rf)
    if g in (-1, -2):
        return -power(-x, Sym.of(Fraction(1, 3)))
    if g in (1, 2, 3):
        return power(x, Sym.of(Fraction(1, 3)))
    if x >= 0:
        return power(x, Sym.of(Fraction(1, 3)))
    return -power(-x, Sym.of(Fraction(1, 3)))


# -- generic function atoms ---------------------------------------------------
def sfun(name, args, cond=(), sgn=0, ev=None, lo=None, hi=None):
    cx = ctx()
    args = [Sym.of(a) for a in args]
    cs = set()
    for a in args:
        cs |= a.cond
    for c in cond:
        if c.const() is True:
            continue
        cs.add(('bool', c))
    key = ('fun', name, tuple(a.rf for a in args))
    a = cx.table.get(key)
    if a is None:
        a = cx.new('%s_%d' % (name, len(cx.atoms)), 'fun',
                   data=(name, [x.rf for x in args]), sgn=sgn,
                   lo=_fr(lo), hi=_fr(hi))
        d = frozenset()
        for x in args:
            d |= x.rf.vars()
        a.deps = d
        if lo is not None:
            a.cons.append(lambda: a.zv >= zq(a.lo))
        if hi is not None:
            a.cons.append(lambda: a.zv <= zq(a.hi))
        if sgn == 1:
            a.cons.append(lambda: a.zv > 0)
        elif sgn == 2:
            a.cons.append(lambda: a.zv >= 0)
        rfs = [x.rf for x in args]
        if ev is not None:
            a.ev = lambda env: ev(*[evrf(r, env) for r in rfs])
        cx.table[key] = a
    return Sym(RF.var(a.id), frozenset(cs))


def integral(x):
    """surely an integer: integer polynomial of integer inputs"""
    cx = ctx()
    if not isinstance(x, Sym):
        return isinstance(x, int)
    c = x.const()
    if c is not None:
        return c.denominator == 1
    if any(v not in cx.ints and cx.atoms[v].kind != 'floor' for v in x.rf.vars()):
        return False
    if any(e < 0 for e in x.rf.f.values()):
        return False
    return all((k * x.rf.c).denominator == 1 for k in expand(x.rf.f).d.values())


def sfloor(x):
    cx = ctx()
    if integral(x):
        return x
    key = ('floor', x.rf)
    a = cx.table.get(key)
    if a is None:
        a = cx.new('floor_%d' % len(cx.atoms), 'floor', data=x.rf)
        a.deps = x.rf.vars()
        iv = z3.Int('i_%d' % a.id)

        def mk():
            lo = (cmp_rf('>=', x.rf - RF.var(a.id))).z(cx)
            hi = (cmp_rf('<', x.rf - RF.var(a.id) - RF.const(1))).z(cx)
            return z3.And(a.zv == z3.ToReal(iv), lo, hi)
        a.cons.append(mk)
        a.ev = lambda env: float(math.floor(evrf(x.rf, env)))
        cx.table[key] = a
    return Sym(RF.var(a.id), x.cond)


def _terms(rf):
    """list of (coef, RF with c=1) summands"""
    num = {p: e for p, e in rf.f.items() if e > 0}
    den = {p: e for p, e in rf.f.items() if e < 0}
    P = expand(num)
    out = []
    for m, c in P.d.items():
        f = dict(den)
        k = RF(Fraction(1), f)
        for v, e in mono_items(m):
            k = k * RF.var(v).powi(e)
        out.append((rf.c * c * k.c, RF(Fraction(1), k.f)))
    return out


def sexp(x):
    c0 = x.const()
    if c0 is not None and c0 == 0:
        return Sym.of(1)
    if len(x.rf.f) and len(x.rf.numden()[1]) > 12:
        return _exp1(x.rf, x.cond)
    out = Sym(RF.const(1), x.cond)
    for c, k in _terms(x.rf):
        # exp(c*log f) = f^c
        if len(k.f) == 1:
            (p, e), = k.f.items()
            if e == 1 and len(p.d) == 1:
                (m, cc), = p.d.items()
                its = mono_items(m)
                if len(its) == 1 and its[0][1] == 1:
                    a = ctx().atoms[its[0][0]]
                    if a.kind == 'fun' and a.data[0] == 'log':
                        out = out * power(Sym(a.data[1][0]), Sym.of(c))
                        continue
        out = out * _exp1(k.scale(c), frozenset())
    return out


def _exp1(rf, cond):
    if rf.is_zero():
        return Sym(RF.const(1), cond)
    neg = rf.c < 0
    if neg:
        rf = -rf
    n = 1
    if rf.c.denominator == 1 and 1 < rf.c <= 8 and not rf.is_const():
        n = int(rf.c)
        rf = rf.scale(Fraction(1, n))
    a = sfun('exp', [Sym(rf)], sgn=1, ev=_safeexp)
    at = ctx().atoms[next(iter(a.rf.vars()))]
    if len(at.cons) == 1:
        cx = ctx()
        at.cons.append(lambda: z3.And(
            _zcmp(cx, '>', rf) == (at.zv > 1),
            _zcmp(cx, '<', rf) == (at.zv < 1)))
        if rf.is_const():
            f = _safeexp(float(rf.c))
            at.lo = Fraction(repr(f)) * Fraction(999999999, 10**9)
            at.hi = Fraction(repr(f)) * Fraction(1000000001, 10**9)
            at.cons.append(lambda: z3.And(at.zv > zq(at.lo), at.zv < zq(at.hi)))
    r = Sym(a.rf.powi(-n if neg else n), cond)
    return r


def _safeexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return float('inf')


def slog(x):
    cx = ctx()
    if x.rf.is_zero():
        return poison()
    c0 = x.const()
    if c0 is not None:
        if c0 < 0:
            return poison()
        out = Sym(RF.const(0), x.cond)
        for n, sg in ((c0.numerator, 1), (c0.denominator, -1)):
            for pr, k in _primes(n).items():
                out = out + _log1(RF.const(pr), True) * (k * sg)
        return out
    rf = try_factor(x.rf)
    c, pos, oth = _split_signed(rf)
    cond = set(x.cond)
    out = Sym(RF.const(0))
    if oth:
        orf = RF(Fraction(1) if c > 0 else Fraction(-1), oth)
        out = out + _log1(orf, False)
        cond.add(('gt', orf))
        c = abs(c)
    if c < 0:
        return poison()
    for p, k in pos.items():
        r = RF.poly(p)
        if abs(cx.quick_sign(p)) != 1:
            cond.add(('nz', p if p.d[max(p.d)] > 0 else -p))
        # exp atoms: log(exp u)=u
        vs = list(r.f.items())
        done = False
        if len(vs) == 1 and vs[0][1] == 1 and r.c == 1:
            its = mono_items(next(iter(vs[0][0].d))) if len(vs[0][0].d) == 1 else []
            if len(its) == 1 and its[0][1] == 1:
                a = cx.atoms[its[0][0]]
                if a.kind == 'fun' and a.data[0] == 'exp':
                    out = out + Sym(a.data[1][0]) * k
                    done = True
                elif a.kind == 'root' and isinstance(a.data[0], Poly):
                    out = out + slog(Sym(RF.poly(a.data[0]))) * Fraction(k, a.data[1])
                    done = True
        if not done:
            out = out + _log1(r, False) * k
    if c != 1:
        out = out + slog(Sym(RF.const(c)))
    return Sym(out.rf, out.cond | frozenset(cond))


def _log1(rf, const):
    a = sfun('log', [Sym(rf)], ev=lambda v: math.log(v) if v > 0 else float('nan'))
    at = ctx().atoms[next(iter(a.rf.vars()))]
    if not at.cons:
        cx = ctx()
        if const:
            f = math.log(float(rf.c))
            at.lo = Fraction(repr(f)) * Fraction(999999999, 10**9)
            at.hi = Fraction(repr(f)) * Fraction(1000000001, 10**9)
            at.sgn = 1
            at.cons.append(lambda: z3.And(at.zv > zq(at.lo), at.zv < zq(at.hi)))
        else:
            at.cons.append(lambda: z3.And(
                _zcmp(cx, '>', rf - RF.const(1)) == (at.zv > 0),
                _zcmp(cx, '<', rf - RF.const(1)) == (at.zv < 0)))
    return a


# -- trigonometry -------------------------------------------------------------
_EXACT = {Fraction(0): (0, None, 1, None)}


def _const_angle(q):
    """(sin, cos) of q*pi exactly for multiples of pi/12, else None"""
    q = q % 2
    t = q * 12
    if t.denominator != 1:
        return None
    t = int(t)
    half = Sym.of(Fraction(1, 2))
    r2 = lambda: power(Sym.of(2), half)
    r3 = lambda: power(Sym.of(3), half)
    base = {0: (0, 1), 1: None, 2: (Fraction(1, 2), 'r3/2'), 3: ('r2/2', 'r2/2'),
            4: ('r3/2', Fraction(1, 2)), 5: None, 6: (1, 0)}

    def val(z):
        if z == 'r3/2':
            return r3() / 2
        if z == 'r2/2':
            return r2() / 2
        return Sym.of(z)
    quad, r = divmod(t, 6)
    b = base[r]
    if r in (1, 5):
        # sin 15 = (r3-1)/(2 r2)
        s15 = (r3() * r2() - r2()) / 4
        c15 = (r3() * r2() + r2()) / 4
        s, c = (s15, c15) if r == 1 else (c15, s15)
    else:
        s, c = val(b[0]), val(b[1])
    for _ in range(quad):
        s, c = c, -s
    return s, c


def _trig_atoms(key, rf, nm):
    """base angle with value rf"""
    cx = ctx()
    t = cx.table.get(('trig', key))
    if t is None:
        s = cx.new('sin_' + nm, 'trig', data=('sin', rf), lo=Fraction(-1), hi=Fraction(1))
        c = cx.new('cos_' + nm, 'trig', data=('cos', rf), lo=Fraction(-1), hi=Fraction(1))
        s.cons.append(lambda: s.zv * s.zv + c.zv * c.zv == 1)
        s.cons.append(lambda: z3.And(s.zv <= 1, s.zv >= -1))
        c.cons.append(lambda: z3.And(c.zv <= 1, c.zv >= -1))
        s.deps = frozenset([c.id]) | rf.vars()
        c.deps = frozenset([s.id]) | rf.vars()
        s.ev = lambda env: math.sin(evrf(rf, env))
        c.ev = lambda env: math.cos(evrf(rf, env))
        # coarse sign information from the range of the angle
        fv = RF.const
        pi = cx.pi().rf

        def holds(op, r):
            return cx.check([~cmp_rf(op, r)], 500, 1)[0] == 'unsat'
        try:
            if holds('>=', rf) and holds('<=', rf - pi):
                s.sgn = 2
                s.lo = Fraction(0)
                s.cons.append(lambda: s.zv >= 0)
                if holds('>', rf) and holds('<', rf - pi):
                    s.sgn = 1
                    s.cons.append(lambda: s.zv > 0)
            if holds('<=', rf.scale(2) - pi) and holds('>=', rf.scale(2) + pi):
                c.sgn = 2
                c.lo = Fraction(0)
                c.cons.append(lambda: c.zv >= 0)
                if holds('<', rf.scale(2) - pi) and holds('>', rf.scale(2) + pi):
                    c.sgn = 1
                    c.cons.append(lambda: c.zv > 0)
            # link: the angle is zero iff sine is zero on [0, pi)
            if s.sgn == 2 and c.sgn in (1, 2):
                s.cons.append(lambda: _zcmp(cx, '==', rf) == (s.zv == 0))
        except TooBig:
            pass
        cx.redvars[s.id] = (2, ONE - Poly.var(c.id, 2))
        cx.trigpairs[c.id] = s.id
        t = (s, c)
        cx.table[('trig', key)] = t
    return Sym(RF.var(t[0].id)), Sym(RF.var(t[1].id))


def _multi(s, c, n):
    if n < 0:
        a, b = _multi(s, c, -n)
        return -a, b
    S, C = Sym.of(0), Sym.of(1)
    for _ in range(n):
        S, C = S * c + C * s, C * c - S * s
    return S, C


def strig(x):
    """(sin x, cos x)"""
    cx = ctx()
    if x.rf.is_zero():
        return Sym(RF.const(0), x.cond), Sym(RF.const(1), x.cond)
    big = False
    try:
        terms = _terms(x.rf)
        big = len(terms) > 4
    except TooBig:
        big = True
    S, C = Sym.of(0), Sym.of(1)
    if big:
        terms = [(Fraction(1), x.rf)]
    for coef, k in terms:
        s, c = _trig_term(coef, k)
        S, C = S * c + C * s, C * c - S * s
    return Sym(S.rf, S.cond | x.cond), Sym(C.rf, C.cond | x.cond)


def _trig_term(coef, k):
    cx = ctx()
    pi = cx.pi().rf
    if k == pi:
        r = _const_angle(coef)
        if r:
            return r
        q = coef % 2
        return _trig_atoms(('pi', q), pi.scale(q), 'pi%s' % q)
    # angle atoms
    if len(k.f) == 1:
        (p, e), = k.f.items()
        if e == 1 and len(p.d) == 1:
            its = mono_items(next(iter(p.d)))
            if len(its) == 1 and its[0][1] == 1:
                a = cx.atoms[its[0][0]]
                if a.kind == 'angle' and coef.denominator == 1 and abs(coef) <= 8:
                    s, c = a.data
                    return _multi(s, c, int(coef))
    base = cx.anglebase.get(k)
    if base is None:
        u = abs(coef)
        for cand in (Fraction(1, 180), Fraction(1)):
            r = u / cand
            if r.denominator == 1 and r <= 12:
                u = cand
                break
        cx.anglebase[k] = base = u
    r = coef / base
    if r.denominator == 1 and abs(r) <= 12:
        s, c = _trig_atoms((k, base), k.scale(base), 'a%d' % len(cx.atoms))
        return _multi(s, c, int(r))
    # finer angle: new base plus a link to the old one
    u = abs(coef)
    s, c = _trig_atoms((k, u), k.scale(u), 'a%d' % len(cx.atoms))
    rr = base / u
    if rr.denominator == 1 and rr <= 12:
        os_, oc = _trig_atoms((k, base), k.scale(base), 'a%d' % len(cx.atoms))
        ns, nc = _multi(s, c, int(rr))
        at = cx.atoms[next(iter(s.rf.vars()))]
        at.deps = at.deps | os_.rf.vars() | oc.rf.vars()
        at.cons.append(lambda: z3.And(_zcmp(cx, '==', ns.rf - os_.rf),
                                      _zcmp(cx, '==', nc.rf - oc.rf)))
    return (s, c) if coef > 0 else (-s, c)


def _angle_atom(fn, x, s, c, lo, hi, ev, cond):
    cx = ctx()
    key = ('angle', fn, x.rf)
    a = cx.table.get(key)
    if a is None:
        a = cx.new('%s_%d' % (fn, len(cx.atoms)), 'angle', data=(s, c))
        a.deps = x.rf.vars() | s.rf.vars() | c.rf.vars() | cx.pi().rf.vars()
        pz = cx.pi().rf
        v = RF.var(a.id)
        a.cons.append(lambda: z3.And(
            _zcmp(cx, '>=', v - pz.scale(lo)), _zcmp(cx, '<=', v - pz.scale(hi))))
        a.lo = Fraction(lo) * Fraction(31416, 10000) if lo < 0 else Fraction(lo) * 3
        a.hi = Fraction(hi) * Fraction(31416, 10000)
        # sign: angle has the sign of its sine on [-pi/2, pi/2] / [0, pi]
        if fn in ('asin', 'atan'):
            a.cons.append(lambda: z3.And(
                _zcmp(cx, '>', x.rf) == (a.zv > 0),
                _zcmp(cx, '<', x.rf) == (a.zv < 0)))
            g = cx.rf_sign(x.rf)
            if g in (1, 2, -1, -2):
                a.sgn = g
                if g > 0:
                    a.lo = Fraction(0)
        else:
            # acos: > 0 unless x == 1
            a.sgn = 2
            a.cons.append(lambda: z3.And(
                a.zv >= 0, (_zcmp(cx, '<', x.rf - RF.const(1))) == (a.zv > 0)))
            g = cx.rf_sign(RF.const(1) - x.rf)
            if g == 1:
                a.sgn = 1
        a.ev = lambda env: ev(evrf(x.rf, env))
        cx.table[key] = a
    return Sym(RF.var(a.id), x.cond | frozenset(cond))


def sasin(x):
    c0 = x.const()
    if c0 == 0:
        return Sym.of(0)
    if c0 == 1:
        return ctx().pi() / 2
    if c0 == -1:
        return -ctx().pi() / 2
    # asin(sin(angle)) with the angle known in range
    inv = _inverse_trig(x, 'sin')
    if inv is not None:
        return inv
    c = (1 - x * x).sqrt()
    cond = [('ge', (1 - x * x).rf)]
    return _angle_atom('asin', x, x, c, Fraction(-1, 2), Fraction(1, 2),
                       lambda v: math.asin(max(-1.0, min(1.0, v))), cond)


def _inverse_trig(x, which):
    """arcsin(sin a) = a if a provably in [-pi/2, pi/2]; arccos(cos a) = a on [0, pi]"""
    cx = ctx()
    rf = x.rf
    if rf.c != 1 or len(rf.f) != 1:
        return None
    (p, e), = rf.f.items()
    if e != 1 or len(p.d) != 1:
        return None
    its = mono_items(next(iter(p.d)))
    if len(its) != 1 or its[0][1] != 1:
        return None
    a = cx.atoms[its[0][0]]
    if a.kind != 'trig' or a.data[0] != which:
        return None
    ang = a.data[1]
    pi = cx.pi().rf

    def holds(op, r):
        return cx.check([~cmp_rf(op, r)], 500, 1)[0] == 'unsat'
    if which == 'sin' and holds('<=', ang.scale(2) - pi) and holds('>=', ang.scale(2) + pi):
        return Sym(ang, x.cond)
    if which == 'cos' and holds('<=', ang - pi) and holds('>=', ang):
        return Sym(ang, x.cond)
    return None


def sacos(x):
    c0 = x.const()
    if c0 == 1:
        return Sym.of(0)
    if c0 == 0:
        return ctx().pi() / 2
    if c0 == -1:
        return ctx().pi()
    inv = _inverse_trig(x, 'cos')
    if inv is not None:
        return inv
    s = (1 - x * x).sqrt()
    cond = [('ge', (1 - x * x).rf)]
    return _angle_atom('acos', x, s, x, Fraction(0), Fraction(1),
                       lambda v: math.acos(max(-1.0, min(1.0, v))), cond)


def satan(x):
    if x.const() == 0:
        return Sym.of(0)
    h = (1 + x * x).sqrt()
    return _angle_atom('atan', x, x / h, 1 / h, Fraction(-1, 2), Fraction(1, 2),
                       math.atan, [])


# -- numeric evaluation ---------------------------------------------------------
class Env(dict):
    """var id -> float, atoms evaluated on demand"""

    def __missing__(self, v):
        a = CUR.atoms[v]
        if a.ev is None:
            raise KeyError(a.name)
        r = a.ev(self)
        self[v] = r
        return r


def evp(p, env):
    return p.eval(env)


def evrf(rf, env):
    r = float(rf.c)
    for p, e in rf.f.items():
        r = r * float(evp(p, env)) ** e
    return r


def evb(f, env):
    """float evaluation of a formula: signed margin, > 0 where it clearly
    holds, < 0 where it clearly fails, 0 where that is not clear"""
    n = f.n
    if n[0] == 'c':
        return 1.0 if n[1] else -1.0
    if n[0] == 'cmp':
        op = n[1]
        v = evrf(n[2], env)
        if v != v:
            return -1e9
        if op == '==':
            return -abs(v) if abs(v) > 1e-9 else 0.0
        if op == '!=':
            return abs(v) if abs(v) > 1e-9 else 0.0
        if v == 0.0:
            return 1e-12 if op in ('<=', '>=') else -1e-12
        return v if op in ('>', '>=') else -v
    if n[0] == 'and':
        return min(evb(x, env) for x in n[1:])
    if n[0] == 'or':
        return max(evb(x, env) for x in n[1:])
    return -evb(n[1], env)


def opaque(cx, s, sign=True):
    """name the value of s by an atom whose definition the solver only sees
    when the plain query is not enough"""
    if s.rf.is_const():
        return s
    if len(s.rf.f) == 1:
        p, e = next(iter(s.rf.f.items()))
        if e == 1 and len(p) == 1 and list(p.d.values()) == [1]:
            m = mono_items(next(iter(p.d)))
            if len(m) == 1 and m[0][1] == 1 and cx.atoms[m[0][0]].kind in ('let', 'input'):
                return s
    r = let(cx, s.rf)
    p = next(iter(r.f))
    a = cx.atoms[next(iter(p.vars()))]
    if a.kind == 'let' and not a.full:
        if a.sgn == 0 and sign and all(len(q) <= 40 for q in a.data.f):
            g = cx.rf_sign(a.data)
            if g in (1, 2, -1, -2):
                a.sgn = g
        a.full = (a.deps, a.cons)
        a.deps = frozenset()
        a.cons = [lambda: z3.BoolVal(True) if not a.sgn else
                  {1: a.zv > 0, 2: a.zv >= 0, -1: a.zv < 0, -2: a.zv <= 0}[a.sgn]]
    return Sym(r, s.cond)


# -- complex ---------------------------------------------------------------------
# -- named intermediate values -------------------------------------------------
def _mks(rf, cond):
    cx = CUR
    n = cx.autolet
    if n and rf.f:
        for p in rf.f:
            if len(p.d) > n:
                rf = _letfac(cx, rf, n)
                break
        if cx.letwhole and len(rf.f) > 1:
            k = 0
            for e in rf.f.values():
                k += e if e > 0 else -e
            if k > cx.letwhole:
                rf = let(cx, rf)
    return Sym(rf, cond)


def _letfac(cx, rf, n):
    out = RF(rf.c, {p: e for p, e in rf.f.items() if len(p.d) <= n})
    for p, e in rf.f.items():
        if len(p.d) > n:
            out = out * let(cx, RF(Fraction(1), {p: 1})).powi(e)
    return out


def probe_env(cx):
    if cx.probe is None:
        import random
        cx.probe = Env()
        cx.probe.rnd = random.Random(12345)
    rnd = cx.probe.rnd
    for a in cx.atoms:
        if a.ev is None and a.id not in cx.probe:
            lo = a.lo if a.lo is not None else (a.hi - 3 if a.hi is not None else Fraction(1))
            hi = a.hi if a.hi is not None else lo + 3
            d = a.default
            t = float(lo) + float(hi - lo) * rnd.uniform(0.3, 0.7)
            if d is not None:
                t = float(d) + (t - float(d)) * 0.2
            cx.probe[a.id] = t
    return cx.probe


def let(cx, rf):
    """atom standing for rf (up to a rational factor); equal values share it"""
    base = RF(Fraction(1), rf.f)
    key = ('let', base)
    a = cx.table.get(key)
    if a is None:
        try:
            val = evrf(base, probe_env(cx))
        except Exception:
            val = None
        if val is not None:
            # values of long iterations come close to each other
            dep = 1 + max([cx.letdepth.get(v, 0) for v in base.vars()], default=0)
            steps = 40 if dep <= 12 else 3
            for v2, r2, a2 in cx.lets:
                if abs(v2 - val) <= 1e-9 * abs(val) or abs(v2 + val) <= 1e-9 * abs(val):
                    sg = 1 if v2 * val > 0 else -1
                    try:
                        if unlet(cx, base - r2.scale(sg), steps).is_zero():
                            cx.table[key] = (a2, sg)
                            return RF.var(a2.id).scale(rf.c * sg)
                    except TooBig:
                        pass
        a = cx.new('let_%d' % len(cx.atoms), 'let', data=base)
        a.deps = base.vars()
        cx.letdepth[a.id] = 1 + max([cx.letdepth.get(v, 0) for v in a.deps], default=0)
        g = 1
        for p, e in base.f.items():
            t = cx.quick_sign(p)
            if t == 0 and len(p) <= 40:
                iv = cx.interval(p)
                if iv and iv[0] > 0:
                    t = 1
                elif iv and iv[1] < 0:
                    t = -1
            if e % 2 == 0:
                t = abs(t)
            if t == 0 or g == 0:
                g = 0
                break
            k = 2 if (abs(t) == 2 and e > 0) or abs(g) == 2 else 1
            g = k * (1 if t * g > 0 else -1)
        a.sgn = g
        a.cons.append(lambda: _zlet(cx, a, base))
        a.ev = lambda env: evrf(base, env)
        if val is not None:
            cx.lets.append((val, base, a))
        cx.table[key] = (a, 1)
        return RF.var(a.id).scale(rf.c)
    a, sg = a
    return RF.var(a.id).scale(rf.c * sg)


def _zlet(cx, a, base):
    n = z3.RealVal(1)
    d = z3.RealVal(1)
    for p, e in base.f.items():
        t = cx.zpoly(p)
        for _ in range(abs(e)):
            if e > 0:
                n = n * t
            else:
                d = d * t
    r = a.zv * d == n
    if a.sgn:
        r = z3.And(r, {1: a.zv > 0, 2: a.zv >= 0, -1: a.zv < 0, -2: a.zv <= 0}[a.sgn])
    return r


def unlet(cx, rf, maxsteps=40):
    """substitute named values, latest first, until none is left"""
    keep, cx.autolet = cx.autolet, 0
    try:
        for _ in range(maxsteps):
            vs = [v for v in rf.vars() if cx.atoms[v].kind == 'let']
            if not vs:
                return rf
            v = max(vs)
            rf = subst(rf, v, cx.atoms[v].data)
            if rf.is_zero():
                return rf
        return rf
    finally:
        cx.autolet = keep


def subst(rf, v, d):
    out = RF.const(rf.c)
    for p, e in rf.f.items():
        if v in p.vars():
            t = RF.const(0)
            for k, c in p.split_var(v).items():
                t = t + RF.poly(c) * d.powi(k)
            if t.is_zero():
                if e < 0:
                    raise ZeroDivisionError
                return RF.const(0)
            out = out * t.powi(e)
        else:
            out = out * RF(Fraction(1), {p: e})
    return out


def _csqrt_atoms(z):
    """principal square root as a pair of atoms (u, v): u^2-v^2=re, 2uv=im, u>=0"""
    cx = ctx()
    key = ('csqrt', z.re.rf, z.im.rf)
    t = cx.table.get(key)
    if t is None:
        u = cx.new('csre_%d' % len(cx.atoms), 'csqrt', sgn=2)
        v = cx.new('csim_%d' % len(cx.atoms), 'csqrt')
        re, im = z.re.rf, z.im.rf
        import cmath
        u.ev = lambda env: cmath.sqrt(complex(evrf(re, env), evrf(im, env))).real
        v.ev = lambda env: cmath.sqrt(complex(evrf(re, env), evrf(im, env))).imag
        u.deps = re.vars() | im.vars() | {v.id}
        v.deps = frozenset({u.id})
        U, V = RF.var(u.id), RF.var(v.id)
        u.cons.append(lambda: z3.And(u.zv >= 0, _zcmp(cx, '==', U * U - V * V - re),
                                     _zcmp(cx, '==', (U * V).scale(2) - im)))
        t = (u, v)
        cx.table[key] = t
    u, v = t
    cond = z.re.cond | z.im.cond
    return CSym(Sym(RF.var(u.id), cond), Sym(RF.var(v.id), cond))


class CSym:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, CSym):
            return x
        if isinstance(x, complex):
            return CSym(Sym.of(x.real), Sym.of(x.imag))
        import numpy as np
        if isinstance(x, np.complexfloating):
            return CSym(Sym.of(float(x.real)), Sym.of(float(x.imag)))
        s = Sym.of(x)
        if s is NotImplemented:
            return s
        return CSym(s, Sym.of(0))

    def __hash__(self):
        return 7

    def __add__(self, o):
        o = CSym.of(o)
        if o is NotImplemented:
            return o
        return CSym(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = CSym.of(o)
        if o is NotImplemented:
            return o
        return CSym(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return CSym.of(o) - self

    def __mul__(self, o):
        o = CSym.of(o)
        if o is NotImplemented:
            return o
        return CSym(self.re * o.re - self.im * o.im,
                    self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = CSym.of(o)
        if o is NotImplemented:
            return o
        if o.im.const() == 0:
            return CSym(self.re / o.re, self.im / o.re)
        m = o.re * o.re + o.im * o.im
        return CSym((self.re * o.re + self.im * o.im) / m,
                    (self.im * o.re - self.re * o.im) / m)

    def __rtruediv__(self, o):
        return CSym.of(o) / self

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        n2 = Sym.of(n) if not isinstance(n, CSym) else None
        c = n2.const() if n2 is not None else None
        if c is None:
            raise Unsupported('complex power')
        if c == Fraction(1, 2):
            return self.sqrt()
        if c == Fraction(-1, 2):
            return 1 / self.sqrt()
        if c.denominator != 1:
            raise Unsupported('complex fractional power')
        k = int(c)
        if k < 0:
            return 1 / (self ** (-k))
        r = CSym.of(1)
        for _ in range(k):
            r = r * self
        return r

    def __eq__(self, o):
        o = CSym.of(o)
        if o is NotImplemented:
            return False
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        return ~(self == o)

    def __abs__(self):
        if self.im.const() == 0:
            return abs(self.re)
        return (self.re * self.re + self.im * self.im).sqrt()
    absolute = __abs__

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    def conjugate(self): return CSym(self.re, -self.im)
    conj = conjugate
    def square(self): return self * self
    def reciprocal(self): return 1 / self
    def copy(self): return self
    def item(self): return self

    def sqrt(self):
        if self.im.const() == 0:
            g = ctx().rf_sign(self.re.rf)
            if g in (1, 2, 3):
                return CSym(self.re.sqrt(), Sym.of(0))
            if g in (-1, -2):
                return CSym(Sym.of(0), (-self.re).sqrt())
            if self.re >= 0:
                return CSym(self.re.sqrt(), Sym.of(0))
            return CSym(Sym.of(0), (-self.re).sqrt())
        if ctx().autolet:
            return _csqrt_atoms(self)
        u = ((abs(self) + self.re) / 2).sqrt()
        return CSym(u, self.im / (2 * u))

    def exp(self):
        s, c = strig(self.im)
        e = self.re.exp()
        return CSym(e * c, e * s)

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def tanh(self):
        a, b = self.exp(), (-self).exp()
        return (a - b) / (a + b)

    def astype(self, *a, **k): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return 'CSym(%r, %r)' % (self.re, self.im)
