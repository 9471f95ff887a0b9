"""empirical relations"""
from rpsym.harness import case
from _lib import *

Z = ('Z', 0, 5299, 2300)
QV = {'Scherbaum': lambda h, z: 2325 + h.q('0.51') * z,
      'Storvoll': lambda h, z: 2600 + z / h.q('1.76'),
      'Hillis': lambda h, z: 304800 / (h.q('135.9') - h.q('0.02022') * z),
      'hjelstuen': lambda h, z: 1870 + h.q('0.55') * z}


def yu_ref(h, z):
    return h.q('1707.998') + h.q('0.66') * z if h.decide(z <= 2630) else h.q('1200.84') + h.q('0.853') * z


def japsen_ref(h, z):
    if h.decide(z < 1393):
        return 1550 + h.q('0.6') * z
    if h.decide(z < 2000):
        return 2 * z - 400
    if h.decide(z < 3500):
        return 2600 + z / 2
    return 3475 + z / 4


QV['yu_segment_trend'] = yu_ref
QV['Japsen'] = japsen_ref
NV = [{'fn': n} for n in QV]


# ---- M01 velocity trends ------------------------------------------------------------------
def deepest(fn):
    return 5299 if fn == 'Japsen' else 6700


def run(h, fn, z):
    """value at one depth, asked as a number and as an array"""
    f = getattr(h.rp.Empirical, fn)
    a = f(h.arr([z]))
    h.true(h.np.shape(a) == (1,), 'one value per depth')
    return a[0]


@case('M01', grid=NV)
def velocity_trend(h, fn):
    z, = h.args([('Z', 0, deepest(fn), 2300)])
    h.eq(run(h, fn, z), QV[fn](h, z), fn)
    h.eq(getattr(h.rp.Empirical, fn)(z), QV[fn](h, z), fn + ' of one depth')


@case('M01', grid=NV)
def velocity_array(h, fn):
    """any order of the depths"""
    z = [h.real('z_%d' % i, 0, deepest(fn), 3000 - 900 * i) for i in range(3 if fn != 'Japsen' else 2)]
    A = h.arr(z)
    f = getattr(h.rp.Empirical, fn)
    r = f(A)
    h.true(h.np.shape(r) == (len(z),), 'one value per depth')
    for i in range(len(z)):
        h.eq(r[i], QV[fn](h, z[i]), '%s depth %d' % (fn, i))
    h.eq([A[i] for i in range(len(z))], z, 'depths are not modified')


@case('M01', grid=NV)
def velocity_grows(h, fn):
    a, b = h.args([('a', 0, deepest(fn), 2300), ('b', 0, deepest(fn), 2900)])
    h.assume(b > a)
    h.gt(run(h, fn, b), run(h, fn, a), fn + ' grows with depth')


@case('M01')
def japsen_range(h):
    """no value from 5300 m; other depths of the array keep theirs"""
    z = h.real('Z', 0, 5299, 2300)
    d = h.real('deep', 5300, 9000, 5300)
    J = h.rp.Empirical.Japsen
    h.true(h.isnan(J(d)), 'no velocity from 5300 m')
    for order in ([z, d], [d, z]):
        r = J(h.arr(order))
        h.true(h.np.shape(r) == (2,), 'one value per depth')
        for x, v in zip(order, r):
            if x is d:
                h.true(h.isnan(v), 'no velocity from 5300 m in an array')
            else:
                h.eq(v, japsen_ref(h, z), 'velocity beside a deeper sample')


# ---- M02 porosity trends --------------------------------------------------------------------
@case('M02')
def porosity_trends(h):
    z, = h.args([Z])
    q = h.q
    E = h.rp.Empirical
    h.eq(E.ehrenberg(z), q('0.4802422') - q('0.000092200747') * z, 'Ehrenberg', scale=1)
    h.eq(E.ramm_porosity(z), q('0.464') - q('0.000085') * z, 'Ramm, Haltenbanken by default', scale=1)
    h.eq(E.ramm_porosity(z, HB=True), q('0.464') - q('0.000085') * z, 'Ramm, Haltenbanken', scale=1)
    h.eq(E.ramm_porosity(z, HB=False), q('0.427') - q('0.000069') * z, 'Ramm, all data', scale=1)


def seg(h, z):
    a, b = 45 * h.exp(-h.q('0.00025') * z), 25 - h.q('0.013') * (z - 2500)
    return a if h.decide(a <= b) else b


@case('M02')
def ramm_segment(h):
    z = [h.real('z_%d' % i, 0, 5299, 3000 - 900 * i) for i in range(2)]
    A = h.arr(z)
    r = h.rp.Empirical.ramm_porosity_segment(A)
    h.true(h.np.shape(r) == (2,), 'one value per depth')
    for i in range(2):
        h.eq(r[i], seg(h, z[i]), 'lower of the compaction curves at depth %d' % i, scale=1)
    h.eq([A[i] for i in range(2)], z, 'depths are not modified')
    h.eq(h.rp.Empirical.ramm_porosity_segment(z[0]), seg(h, z[0]), 'single depth', scale=1)


@case('M02')
def sclater(h):
    phi, = h.args([('phi', 0.001, 0.95, 0.2)])
    z = h.rp.Empirical.Sclater(phi)
    h.eq(h.exp(z / h.q('3.7')) * phi, h.q('0.49'), 'depth where the exponential curve has this porosity')
    h.eq(h.rp.Empirical.Sclater(h.q('0.49')), 0, 'sea floor porosity', scale=1)


@case('M02')
def sclater_grows(h):
    a, b = h.args([('a', 0.001, 0.95, 0.2), ('b', 0.001, 0.95, 0.3)])
    h.assume(a < b)
    h.gt(h.rp.Empirical.Sclater(a), h.rp.Empirical.Sclater(b), 'lower porosity is deeper')


@case('M02', grid=[{'fn': 'ehrenberg'}, {'fn': 'ramm_porosity'}, {'fn': 'Sclater'}])
def porosity_arrays(h, fn):
    f = getattr(h.rp.Empirical, fn)
    sp = [('phi', 0.001, 0.95, 0.2)] if fn == 'Sclater' else [Z]
    h.vec(f, sp, (sp[0][0],), 3, fn)
    if fn == 'ramm_porosity':
        h.vec(lambda z: f(z, False), [('Zx', 0, 5299, 2300)], ('Zx',), 2, fn + ' of all data')


# ---- M03 rock correlations --------------------------------------------------------------------
@case('M03')
def krief(h):
    phi, K, G = h.args([('phi', 0, 0.9, 0.2), ('Kg', 1, 250, 37), ('Gg', 0.5, 200, 44)])
    lam, g, k = h.rp.Empirical.krief(phi, K, G)
    m = h.pow(1 - phi, 3 / (1 - phi))
    h.eq(k, K * m, 'bulk modulus')
    h.eq(g, G * m, 'shear modulus')
    h.eq(lam, k - h.q(2, 3) * g, 'Lame constant', scale=1)
    h.eq(k * G, g * K, 'same ratio as the mineral')
    h.eq(h.rp.Empirical.krief(h.q(0), K, G), [K - h.q(2, 3) * G, G, K], 'mineral without pores', scale=1)
    h.ge(k, 0, 'not negative')


@case('M03')
def shear_velocity(h):
    Vp, v = h.args([('Vp', 1300, 7000, 3000), ('vsh', 0, 1, 0.3)])
    q = h.q
    f = h.rp.Empirical.esti_VS
    a, b = q('0.80416') * Vp - q('855.88'), q('0.76969') * Vp - q('867.35')
    Vs = f(Vp, v)
    h.eq(2 * Vs, (1 - v) * a + v * b + 1 / ((1 - v) / a + v / b), 'mean of arithmetic and harmonic averages')
    h.eq(f(Vp, q(0)), a, 'sand')
    h.eq(f(Vp, q(1)), b, 'shale')
    h.between(b, Vs, a, 'between shale and sand')


@case('M03')
def han(h):
    phi, C = h.args([('phi', 0, 0.4, 0.2), ('C', 0, 0.6, 0.2)])
    q = h.q
    vp, vs = h.rp.Empirical.han(phi, C)
    h.eq(vp, 5590 - 6930 * phi - 2810 * C, 'P velocity', scale=1000)
    h.eq(vs, 3520 - 4910 * phi - 1890 * C, 'S velocity', scale=1000)


@case('M03', grid=[{'s': 1}, {'s': 2}])
def stpeter(h, s):
    p, = h.args([('Pe', 0, 2, 0.3)])
    q = h.q
    vp, vs = h.rp.Empirical.empirical_StPeter(p, s)
    if s == 1:
        a = 4210 + 187 * p - 746 * h.exp(-24 * p)
        b = 2580 + 160 * p - 781 * h.exp(-20 * p)
        h.eq(h.rp.Empirical.empirical_StPeter(p), [a, b], 'sample 1 by default')
    else:
        a = 4550 + 298 * p - 800 * h.exp(-19 * p)
        b = 2830 + 195 * p - 741 * h.exp(-16 * p)
    h.eq(vp, a, 'P velocity')
    h.eq(vs, b, 'S velocity')


@case('M03')
def coordination(h):
    phi, psi = h.args([('phi', 0, 1, 0.36), ('psi', 0, 1, 0.4)])
    f = h.rp.Empirical.Cp
    h.eq(f(phi), 20 - 34 * phi + 14 * phi ** 2, 'coordination number', scale=1)
    h.assume(psi > phi)
    h.gt(f(phi), f(psi), 'falls with porosity')


@case('M03', grid=[{'fn': 'krief'}, {'fn': 'esti_VS'}, {'fn': 'han'}, {'fn': 'Cp'}, {'fn': 'empirical_StPeter'}])
def correlation_arrays(h, fn):
    f = getattr(h.rp.Empirical, fn)
    sp = {'krief': [('phi', 0.001, 0.9, 0.2), ('Kg', 1, 250, 37), ('Gg', 0.5, 200, 44)],
          'esti_VS': [('Vp', 1300, 7000, 3000), ('vsh', 0, 1, 0.3)], 'han': [('phi', 0, 0.4, 0.2), ('C', 0, 0.6, 0.2)],
          'Cp': [('phi', 0, 1, 0.36)], 'empirical_StPeter': [('Pe', 0, 2, 0.3)]}[fn]
    v = {'krief': ('phi',)}.get(fn, [a for a, *r in sp])
    h.vec(f, sp, v, 3, fn)
    if len(v) > 1:
        h.vec(f, [(a + 'x', *r) for a, *r in sp], (v[0] + 'x',), 2, fn + ' over ' + v[0])
    if fn == 'empirical_StPeter':
        h.vec(lambda p: f(p, 2), [('Pe2', 0, 2, 0.3)], ('Pe2',), 2, 'sample 2')
