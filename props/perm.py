"""permeability models"""
from rpsym.harness import case
from _lib import *

PHI = ('phi', 0, 0.6, 0.2)
D = ('d', 1e-6, 1000, 100)


def arrays(h, f, sp, names, label, const={}):
    h.vec(f, sp, names, 3, label)
    for i, n in enumerate(names):
        if len(names) > 1:
            s = 'xyzuvw'[i]
            h.vec(f, [(a + s, *r) for a, *r in sp], (n + s,), 2, label + ' over ' + n, const=const.get(n, ()))


# ---- P01 grain and pore geometry --------------------------------------------------------
@case('P01')
def kozeny(h):
    phi, d = h.args([PHI, D])
    k = h.rp.Permeability.Kozeny_Carman(phi, d)
    h.eq(180 * k * (1 - phi) ** 2, d ** 2 * phi ** 3, 'Kozeny-Carman')
    h.eq(h.rp.Permeability.Kozeny_Carman(phi, 10 * d), 100 * k, 'square of the grain size')
    h.ge(k, 0, 'not negative')


@case('P01')
def percolation(h):
    phi, d, pc, B = h.args([PHI, D, ('phic', 0, 0.3, 0.03), ('B', 0.001, 50, 5)])
    h.assume(phi >= pc)
    f = h.rp.Permeability.Kozeny_Carman_Percolation
    k = f(phi, pc, d, B)
    e = phi - pc
    h.eq(k * (1 - e) ** 2, B * d ** 2 * e ** 3, 'porosity beyond the threshold')
    h.ge(k, 0, 'not negative')
    h.eq(f(pc, pc, d, B), 0, 'no flow at the threshold', scale=1)
    h.eq(f(phi, h.q(0), d, h.q(1, 180)), h.rp.Permeability.Kozeny_Carman(phi, d), 'no threshold')


@case('P01')
def panda_lake(h):
    phi, d, C, S, tau = h.args([PHI, D, ('C', 0, 2, 0.3), ('S', -3, 5, 0.8), ('tau', 1, 5, 2)])
    f = h.rp.Permeability.Panda_Lake
    k = f(d, C, S, tau, phi)
    h.eq(k * 72 * tau * (1 - phi) ** 2 * (1 + C ** 2) ** 2, d ** 2 * phi ** 3 * (S * C ** 3 + 3 * C ** 2 + 1) ** 2, 'Panda-Lake')
    h.eq(f(d, h.q(0), S, h.q(5, 2), phi), h.rp.Permeability.Kozeny_Carman(phi, d), 'equal grains: Kozeny-Carman')
    h.ge(k, 0, 'not negative')
    h.eq(h.rp.Permeability.Panda_Lake_cem(phi, d) * (1 - phi) ** 2, h.q('3.34') * d ** 2 * phi ** 3, 'with cement')


@case('P01')
def revil(h):
    phi, d = h.args([PHI, D])
    k = h.rp.Permeability.Revil(phi, d)
    h.eq(k * 24, 1000 * d ** 2 * phi ** 4 * h.sqrt(phi), 'Revil')


@case('P01')
def fredrich(h):
    phi, d, b = h.args([('phi', 0.001, 0.6, 0.2), D, ('b', 2, 3, 2)])
    k = h.rp.Permeability.Fredrich(phi, d, b)
    Sv = 6 * (1 - phi) / d
    h.eq(k * b * h.q('2.5') * Sv ** 2, phi ** 3, 'hydraulic radius')
    h.eq(h.rp.Permeability.Fredrich(phi, 10 * d, b), 100 * k, 'square of the grain size')


@case('P01')
def bernabe(h):
    phi, c, w, r = h.args([PHI, ('crf', 0, 1, 0.1), ('w', 0.01, 100, 1), ('r', 0.01, 100, 10)])
    f = h.rp.Permeability.Bernabe
    k = f(phi, c, w, r)
    h.eq(k, phi * (c * w ** 2 / 30 + (1 - c) * r ** 2 / 20), 'cracks and tubes')
    h.ge(k, 0, 'not negative')


@case('P01', grid=[{'fn': 'Kozeny_Carman'}, {'fn': 'Kozeny_Carman_Percolation'}, {'fn': 'Panda_Lake'}, {'fn': 'Panda_Lake_cem'},
                   {'fn': 'Revil'}, {'fn': 'Fredrich'}, {'fn': 'Bernabe'}])
def grain_arrays(h, fn):
    P = ('phi', 0.001, 0.6, 0.2)
    sp = {'Kozeny_Carman': [P, D], 'Kozeny_Carman_Percolation': [P, ('phic', 0, 0.3, 0.03), D, ('B', 0.001, 50, 5)],
          'Panda_Lake': [D, ('C', 0, 2, 0.3), ('S', -3, 5, 0.8), ('tau', 1, 5, 2), P], 'Panda_Lake_cem': [P, D],
          'Revil': [P, D], 'Fredrich': [P, D, ('b', 2, 3, 2)], 'Bernabe': [P, ('crf', 0, 1, 0.1), ('w', 0.01, 100, 1), ('r', 0.01, 100, 10)]}[fn]
    arrays(h, getattr(h.rp.Permeability, fn), sp, ('phi', 'd') if fn != 'Bernabe' else ('phi',), fn)


def up(h, f, sp, label):
    """k does not fall with porosity, for any two porosities"""
    a, *rest = h.args(sp)
    b = h.real('more', 0, 0.6, 0.3)
    h.assume(b >= a)
    h.le(f(a, *rest), f(b, *rest), label + ' grows with porosity')


@case('P01', grid=[{'fn': 'Kozeny_Carman'}, {'fn': 'Panda_Lake_cem'}, {'fn': 'Revil'}, {'fn': 'Bernabe'}, {'fn': 'Fredrich'}])
def grows(h, fn):
    f = getattr(h.rp.Permeability, fn)
    if fn == 'Bernabe':
        up(h, f, [PHI, ('crf', 0, 1, 0.1), ('w', 0.01, 100, 1), ('r', 0.01, 100, 10)], fn)
    elif fn == 'Fredrich':
        up(h, f, [('phi', 0.01, 0.6, 0.1), D, ('b', 2, 3, 2)], fn)
    else:
        up(h, f, [PHI, D], fn)


# ---- P02 correlations -----------------------------------------------------------------
PS = [('phi', 0.01, 0.5, 0.2), ('Swi', 0.01, 1, 0.3)]


@case('P02')
def owolabi(h):
    phi, s = h.args(PS)
    o, g = h.rp.Permeability.Owolabi(phi, s)
    h.eq(o, 307 + 26552 * phi ** 2 - 34540 * phi ** 2 * s ** 2, 'oil sand', scale=300)
    h.eq(g, h.q('30.7') + 2655 * phi ** 2 - 3454 * phi ** 2 * s ** 2, 'gas sand', scale=30)


@case('P02')
def logs(h):
    phi, s = h.args(PS)
    t, m, c, d = h.rp.Permeability.Perm_logs(phi, s)
    h.eq(h.sqrt(t) * s, 250 * phi ** 3, 'Tixier')
    h.eq(m * s ** 2, 10000 * phi ** 4 * h.sqrt(phi), 'Timur')
    h.eq(h.sqrt(c) * s, 100 * phi ** 2 * (1 - s), 'Coates', scale=1)
    h.eq(d * s ** 4, 352 * phi ** 4, 'Coates-Dumanoir')
    for x in (t, m, c, d):
        h.ge(x, 0, 'not negative')


@case('P02')
def bloch(h):
    S, C, g = h.args([('S', 1, 5, 1.3), ('C', 0, 100, 80), ('D', 0.01, 3, 0.3)])
    phi, k = h.rp.Permeability.Bloch(S, C, g)
    q = h.q
    h.eq(phi, q('9.8') / S + q('0.17') * C - q('6.1'), 'porosity', scale=1)
    h.eq(k, h.pow(10, q('1.34') * g + q('4.08') / S + q('0.0342') * C - q('4.67')), 'permeability')


@case('P02', grid=[{'fn': 'Owolabi'}, {'fn': 'Perm_logs'}, {'fn': 'Bloch'}])
def correlation_arrays(h, fn):
    if fn == 'Bloch':
        sp = [('S', 1, 5, 1.3), ('C', 0, 100, 80), ('D', 0.01, 3, 0.3)]
        arrays(h, h.rp.Permeability.Bloch, sp, ('S', 'C', 'D'), fn, {'D': (0,)})
    else:
        arrays(h, getattr(h.rp.Permeability, fn), PS, ('phi', 'Swi'), fn)
