"""Sparse multivariate integer polynomials with packed monomials.

A monomial is a Python int holding one 16-bit field per variable (top bit of
the field is a guard, so exponents < 32768).  A polynomial is a dict
monomial -> nonzero int, wrapped in the immutable class Poly.
"""
import random
from math import gcd

W = 16
FM = (1 << W) - 1
EXPMAX = (1 << (W - 1)) - 1


def mono(v, e=1):
    return e << (W * v)


def mono_items(m):
    """[(var, exp)] of a packed monomial"""
    out = []
    v = 0
    while m:
        low = m & -m
        sh = (low.bit_length() - 1) // W
        v += sh
        m >>= W * sh
        out.append((v, m & FM))
        m >>= W
        v += 1
    return out


_guard_cache = {}


def guard(n):
    g = _guard_cache.get(n)
    if g is None:
        g = 0
        for i in range(n):
            g |= 1 << (W * i + W - 1)
        _guard_cache[n] = g
    return g


def mono_div(a, b):
    """a/b or None"""
    if b == 0:
        return a
    if a < b:
        return None
    n = a.bit_length() // W + 1
    g = guard(n)
    d = (a | g) - b
    if d < 0 or (d & g) != g:
        return None
    return d & ~g


def mono_gcd(a, b):
    if a == 0 or b == 0:
        return 0
    r = 0
    ia = dict(mono_items(a))
    for v, e in mono_items(b):
        f = ia.get(v)
        if f:
            r |= min(e, f) << (W * v)
    return r


class Poly:
    __slots__ = ('d', '_h', '_vars', '_key')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._vars = None
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        return Poly({0: c}) if c else Poly({})

    @staticmethod
    def var(v, e=1):
        return Poly({mono(v, e): 1})

    # -- identity
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __len__(self):
        return len(self.d)

    def is_zero(self):
        return not self.d

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and 0 in d)

    def is_one(self):
        return len(self.d) == 1 and self.d.get(0) == 1

    def const_value(self):
        return self.d.get(0, 0)

    def vars(self):
        if self._vars is None:
            acc = 0
            for m in self.d:
                acc |= m
            self._vars = frozenset(v for v, _ in mono_items(acc))
        return self._vars

    def degree(self):
        best = 0
        for m in self.d:
            s = sum(e for _, e in mono_items(m))
            if s > best:
                best = s
        return best

    # -- arithmetic
    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __add__(self, o):
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x += c
                if x:
                    r[m] = x
                else:
                    del r[m]
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return Poly({})
        return Poly({m: c * k for m, c in self.d.items()})

    def mulmono(self, mm, k=1):
        return Poly({m + mm: c * k for m, c in self.d.items()})

    def __mul__(self, o):
        a, b = self.d, o.d
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return Poly({})
        if len(a) == 1:
            (m, c), = a.items()
            return Poly({m2 + m: c2 * c for m2, c2 in b.items()})
        r = {}
        get = r.get
        bi = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        return Poly({m: c for m, c in r.items() if c})

    def pow(self, n):
        r = Poly({0: 1})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def content(self):
        g = 0
        for c in self.d.values():
            g = gcd(g, c)
            if g == 1:
                break
        return g

    def lead(self):
        return max(self.d)

    def primitive(self):
        """(signed content k, primitive poly with positive leading coeff)"""
        if not self.d:
            return 0, self
        g = self.content()
        if self.d[max(self.d)] < 0:
            g = -g
        if g == 1:
            return 1, self
        return g, Poly({m: c // g for m, c in self.d.items()})

    def mono_content(self):
        it = iter(self.d)
        g = next(it)
        for m in it:
            if g == 0:
                return 0
            g = mono_gcd(g, m)
        return g

    def div_mono(self, mm):
        return Poly({m - mm: c for m, c in self.d.items()})

    def divexact(self, f):
        """self / f if exact (over Z, f primitive), else None"""
        if not self.d:
            return self
        fd = f.d
        if len(fd) == 1:
            (fm, fc), = fd.items()
            r = {}
            for m, c in self.d.items():
                q = mono_div(m, fm)
                if q is None or c % fc:
                    return None
                r[q] = c // fc
            return Poly(r)
        if not f.vars() <= self.vars():
            return None
        if not _maybe_divisible(self, f):
            return None
        fl = max(fd)
        flc = fd[fl]
        frest = [(m, c) for m, c in fd.items() if m != fl]
        import heapq
        rem = dict(self.d)
        heap = [-m for m in rem]
        heapq.heapify(heap)
        q = {}
        while heap:
            m = -heapq.heappop(heap)
            c = rem.pop(m, 0)
            if not c:
                continue
            qm = mono_div(m, fl)
            if qm is None or c % flc:
                return None
            qc = c // flc
            q[qm] = qc
            for fm, fc in frest:
                mm = fm + qm
                x = rem.get(mm)
                if x is None:
                    rem[mm] = -qc * fc
                    heapq.heappush(heap, -mm)
                else:
                    rem[mm] = x - qc * fc
            # zero entries are skipped on pop
        return Poly(q)

    def eval(self, env):
        """env: var -> number"""
        s = 0
        for m, c in self.d.items():
            t = c
            for v, e in mono_items(m):
                t = t * env[v] ** e
            s = s + t
        return s

    def split_var(self, v):
        """{exp: Poly} in variable v"""
        sh = W * v
        out = {}
        for m, c in self.d.items():
            e = (m >> sh) & FM
            out.setdefault(e, {})[m - (e << sh)] = c
        return {e: Poly(d) for e, d in out.items()}

    def maxexp(self, v):
        sh = W * v
        b = 0
        for m in self.d:
            e = (m >> sh) & FM
            if e > b:
                b = e
        return b

    def show(self, name):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), reverse=True):
            t = '*'.join(name(v) + ('^%d' % e if e > 1 else '')
                         for v, e in mono_items(m))
            out.append(('%d*%s' % (c, t)) if t else str(c))
        return ' + '.join(out)


_PR = (1 << 61) - 1
_rnd = random.Random(12345)
_pt = {}


def _ptv(v):
    x = _pt.get(v)
    if x is None:
        x = _pt[v] = _rnd.randrange(1, _PR)
    return x


def _maybe_divisible(a, f):
    """necessary test: univariate images modulo a prime"""
    x = max(f.vars())

    def image(p):
        sh = W * x
        u = {}
        for m, c in p.d.items():
            e = (m >> sh) & FM
            t = c % _PR
            for v, k in mono_items(m - (e << sh)):
                t = t * pow(_ptv(v), k, _PR) % _PR
            u[e] = (u.get(e, 0) + t) % _PR
        n = max(u)
        return [u.get(i, 0) for i in range(n, -1, -1)]
    A = image(a)
    F = image(f)
    while F and F[0] == 0:
        F.pop(0)
    if not F:
        return True
    inv = pow(F[0], _PR - 2, _PR)
    n = len(F)
    i = 0
    while len(A) - i >= n:
        q = A[i] * inv % _PR
        if q:
            for j in range(n):
                A[i + j] = (A[i + j] - q * F[j]) % _PR
        i += 1
    return not any(A[i:])


ONE = Poly({0: 1})
ZERO = Poly({})
