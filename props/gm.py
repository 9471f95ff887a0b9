"""granular media models"""
from rpsym.harness import case
from _lib import *
from em import hs_ref

KG = [('K0', 5, 250, 37), ('G0', 2, 200, 44)]
PACK = [('phic', 0.01, 0.95, 0.4), ('Cn', 1, 20, 8.6)]
SIG = [('sigma', 1e-4, 500, 20)]
FF = [('f', 0, 1, 0.5)]
CEM = [('Kc', 5, 250, 60), ('Gc', 2, 200, 35)]


def nu_of(K, G):
    return (3 * K - 2 * G) / (6 * K + 2 * G)


# ---- G01 contact theories ---------------------------------------------------
@case('G01')
def hertz_mindlin(h):
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    K, G = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    nu = nu_of(K0, G0)
    h.eq(K ** 3 * (18 * h.pi ** 2 * (1 - nu) ** 2), s / 1000 * (Cn * (1 - phic) * G0) ** 2, 'bulk modulus of the pack')
    h.eq(G, K * (2 + 3 * f - nu * (1 + 3 * f)) * 3 / (5 * (2 - nu)), 'shear modulus with partial slip')
    h.gt(K, 0, 'bulk modulus positive')
    h.gt(G, 0, 'shear modulus positive')


@case('G01')
def hertz_friction(h):
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    K, G = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    nu = nu_of(K0, G0)
    K1, G1 = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, 1)
    K2, G2 = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, 0)
    h.eq([K1, K2], [K, K], 'bulk modulus does not depend on friction')
    h.eq(G1, 3 * K * (5 - 4 * nu) / (5 * (2 - nu)), 'infinite friction')
    h.eq(G2, 3 * K / 5, 'no friction')
    h.eq(G, f * G1 + (1 - f) * G2, 'linear in the fraction of bonded contacts')
    h.le(G2, G1, 'friction stiffens')


@case('G01')
def hertz_stress(h):
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    a = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    b = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, 8 * s, f)
    h.eq(b, [2 * a[0], 2 * a[1]], 'moduli grow with the cube root of stress')
    h.eq(h.rp.GM.hertzmindlin(K0, G0, phic, Cn, 0 * s, f), [0, 0], 'no stress, no stiffness', scale=1)
    s2 = h.real('s2', 1e-4, 500, 30)
    h.assume(s2 >= s)
    c = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s2, f)
    h.le(a[0] ** 3, c[0] ** 3, 'stiffer under more stress')


@case('G01')
def walton(h):
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    K, G = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    Kw, Gw = h.rp.GM.Walton(K0, G0, phic, Cn, s, f)
    h.eq(Kw, K, 'same bulk modulus as Hertz-Mindlin')
    h.eq(Gw * K, G * Kw, 'same shear modulus for every friction')
    h.eq(Gw, G, 'same shear modulus')
    h.eq(h.rp.GM.Walton(K0, G0, phic, Cn, 0 * s, f), [0, 0], 'no stress, no stiffness', scale=1)


@case('G01', grid=[{'fn': 'hertzmindlin'}, {'fn': 'Walton'}])
def contact_arrays(h, fn):
    f = getattr(h.rp.GM, fn)
    h.vec(f, KG + PACK + SIG + FF, ('sigma',), 3, 'over stress')
    h.vec(f, [(a + 'x', *r) for a, *r in KG + PACK + SIG + FF],
          ('K0x', 'G0x', 'phicx', 'Cnx', 'sigmax', 'fx'), 2, 'over everything')


# ---- G02 soft and stiff sand ---------------------------------------------------
def hs_mod(h, x, Ka, Ga, Kb, Gb, Km, Gm):
    """modified Hashin-Shtrikman: fraction x of a, 1-x of b"""
    return hs_ref(h, x, Ka, Kb, Ga, Gb, Km, Gm)


@case('G02')
def sand_forms(h):
    h.opaque('GM', 'hertzmindlin')
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    t = h.real('t', 0, 1, 0.5)
    phi = t * phic
    Kh, Gh = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    h.assume(Kh > 0)
    h.assume(Gh > 0)
    h.eq(h.rp.GM.softsand(K0, G0, phi, phic, Cn, s, f), hs_ref(h, t, Kh, K0, Gh, G0, Kh, Gh), 'soft sand')
    h.eq(h.rp.GM.stiffsand(K0, G0, phi, phic, Cn, s, f), hs_ref(h, t, Kh, K0, Gh, G0, K0, G0), 'stiff sand')


@case('G02', grid=[{'fn': 'softsand'}, {'fn': 'stiffsand'}])
def sand_ends(h, fn):
    h.opaque('GM', 'hertzmindlin')
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    m = getattr(h.rp.GM, fn)
    h.eq(m(K0, G0, 0 * phic, phic, Cn, s, f), [K0, G0], 'no pores: mineral')
    h.eq(m(K0, G0, phic, phic, Cn, s, f), h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f), 'critical porosity: the loose pack')


@case('G02')
def sand_order(h):
    """soft never above stiff where the pack is softer than the mineral"""
    h.opaque('GM', 'hertzmindlin')
    K0, G0, phic, Cn, s, f = h.args(KG + PACK + SIG + FF)
    t = h.real('t', 0, 1, 0.5)
    Kh, Gh = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f)
    h.assume(Kh > 0)
    h.assume(Gh > 0)
    h.assume(Kh <= K0)
    h.assume(Gh <= G0)
    a = h.rp.GM.softsand(K0, G0, t * phic, phic, Cn, s, f)
    b = h.rp.GM.stiffsand(K0, G0, t * phic, phic, Cn, s, f)
    for i, nm in enumerate('KG'):
        h.le(a[i], b[i], nm + ': soft below stiff')
        h.le(b[i], (K0, G0)[i], nm + ': not above the mineral')
        h.ge(a[i], (Kh, Gh)[i], nm + ': not below the pack')


@case('G02', grid=[{'fn': 'softsand'}, {'fn': 'stiffsand'}])
def sand_arrays(h, fn):
    h.opaque('GM', 'hertzmindlin')
    f = getattr(h.rp.GM, fn)
    sp = KG + [('phi', 0, 0.01, 0.005)] + PACK + SIG + FF
    h.vec(f, sp, ('phi',), 3, 'over porosity')
    sp = [(a + 's', *r) for a, *r in sp]
    h.vec(f, sp, ('sigmas',), 2, 'over stress')
    sp = [(a + 's', *r) for a, *r in sp]
    h.vec(f, sp, tuple(a[0] for a in sp), 2, 'over everything')


# ---- G03 contact cement ---------------------------------------------------------
def cem_ref(h, K0, G0, Kc, Gc, alpha, phic, Cn):
    P = h.pow
    n0, nc = nu_of(K0, G0), nu_of(Kc, Gc)
    L = 2 * Gc / (h.pi * G0) * (1 - n0) * (1 - nc) / (1 - 2 * nc)
    T = Gc / (h.pi * G0)
    q = h.q
    Sn = q('-0.024153') * P(L, q('-1.3646')) * alpha ** 2 + q('0.20405') * P(L, q('-0.89008')) * alpha \
        + q('0.00024649') * P(L, q('-1.9864'))
    e = lambda a, b, c: q(a) * n0 ** 2 + q(b) * n0 + q(c)
    St = -e('0.0226', '0.0207', '0.023') * P(T, e('0.079', '0.1754', '-1.342')) * alpha ** 2 \
        + e('0.0573', '0.0937', '0.202') * P(T, e('0.0274', '0.0529', '-0.8765')) * alpha \
        + e('0.0009654', '0.0004945', '0.00031') * P(T, e('0.01867', '0.4011', '-1.8186'))
    K = Cn * (1 - phic) / 6 * (Kc + q(4, 3) * Gc) * Sn
    G = q(3, 5) * K + q(3, 20) * Cn * (1 - phic) * Gc * St
    return [K, G]


def cem_alpha(h, phi, phic, Cn, scheme):
    if scheme == 1:
        return 2 * h.pow((phic - phi) / (3 * Cn * (1 - phic)), h.q(1, 4))
    return h.sqrt(2 * (phic - phi) / (3 * (1 - phic)))


@case('G03', grid=[{'scheme': 1}, {'scheme': 2}])
def cement_form(h, scheme):
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    t = h.real('t', 0, 1, 0.1)
    phi = phic * (1 - t)
    r = h.rp.GM.contactcement(K0, G0, Kc, Gc, phi, phic, Cn, scheme)
    h.eq(r, cem_ref(h, K0, G0, Kc, Gc, cem_alpha(h, phi, phic, Cn, scheme), phic, Cn), 'Dvorkin-Nur cement')


@case('G03')
def cement_zero(h):
    """without cement both schemes agree on the residual of the statistical fit"""
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    a = h.rp.GM.contactcement(K0, G0, Kc, Gc, phic, phic, Cn, 1)
    b = h.rp.GM.contactcement(K0, G0, Kc, Gc, phic, phic, Cn, 2)
    h.eq(a, b, 'no cement: the schemes agree')
    h.eq(a, cem_ref(h, K0, G0, Kc, Gc, h.q(0), phic, Cn), 'no cement')


@case('G03', grid=[{'scheme': 1}, {'scheme': 2}])
def cement_scaling(h, scheme):
    """dimensionless in moduli: scaling all moduli scales the result"""
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    t = h.real('t', 0, 1, 0.1)
    c = h.real('c', 0.1, 10, 2)
    a = h.rp.GM.contactcement(K0, G0, Kc, Gc, phic * (1 - t), phic, Cn, scheme)
    b = h.rp.GM.contactcement(c * K0, c * G0, c * Kc, c * Gc, phic * (1 - t), phic, Cn, scheme)
    h.eq(b, [c * a[0], c * a[1]], 'unit of the moduli')


@case('G03', grid=[{'scheme': 1}, {'scheme': 2}])
def cement_arrays(h, scheme):
    sp = KG + CEM + [('phi', 0, 0.01, 0.005)] + PACK
    f = lambda *a: h.rp.GM.contactcement(*a, scheme)
    h.vec(f, sp, ('phi',), 3, 'over porosity')
    sp = [(a + 's', *r) for a, *r in sp]
    h.vec(f, sp, tuple(a[0] for a in sp), 2, 'over everything')


# ---- G04 constant cement and MUHS ---------------------------------------------------
@case('G04', grid=[{'scheme': 1}, {'scheme': 2}])
def cement_bounds(h, scheme):
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    t = h.real('t', 0, 1, 0.4)
    b = h.real('b', 0.01, 1, 0.9)
    pb = b * phic
    phi = t * pb
    h.opaque('GM', 'contactcement')
    Kb, Gb = h.rp.GM.contactcement(K0, G0, Kc, Gc, pb, phic, Cn, scheme)
    h.assume(Kb > 0)
    h.assume(Gb > 0)
    h.eq(h.rp.GM.constantcement(pb, K0, G0, Kc, Gc, phi, phic, Cn, scheme),
         hs_ref(h, t, Kb, K0, Gb, G0, Kb, Gb), 'constant cement: modified lower bound')
    h.eq(h.rp.GM.MUHS(K0, G0, Kc, Gc, phi, pb, phic, Cn, scheme),
         hs_ref(h, t, Kb, K0, Gb, G0, K0, G0), 'MUHS: modified upper bound')


@case('G04', grid=[{'scheme': 1}, {'scheme': 2}])
def cement_ends(h, scheme):
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    b = h.real('b', 0.01, 1, 0.9)
    pb = b * phic
    h.opaque('GM', 'contactcement')
    Kb, Gb = h.rp.GM.contactcement(K0, G0, Kc, Gc, pb, phic, Cn, scheme)
    h.assume(Kb > 0)
    h.assume(Gb > 0)
    cc = lambda p: h.rp.GM.constantcement(pb, K0, G0, Kc, Gc, p, phic, Cn, scheme)
    mu = lambda p: h.rp.GM.MUHS(K0, G0, Kc, Gc, p, pb, phic, Cn, scheme)
    for nm, m in (('constant cement', cc), ('MUHS', mu)):
        h.eq(m(pb), [Kb, Gb], nm + ': contact cement end point')
        h.eq(m(0 * pb), [K0, G0], nm + ': mineral end point')


@case('G04')
def cement_order(h):
    K0, G0, Kc, Gc, phic, Cn = h.args(KG + CEM + PACK)
    t = h.real('t', 0, 1, 0.4)
    b = h.real('b', 0.01, 1, 0.9)
    pb = b * phic
    h.opaque('GM', 'contactcement')
    Kb, Gb = h.rp.GM.contactcement(K0, G0, Kc, Gc, pb, phic, Cn, 2)
    h.assume(Kb > 0)
    h.assume(Gb > 0)
    h.assume(Kb <= K0)
    h.assume(Gb <= G0)
    lo = h.rp.GM.constantcement(pb, K0, G0, Kc, Gc, t * pb, phic, Cn, 2)
    hi = h.rp.GM.MUHS(K0, G0, Kc, Gc, t * pb, pb, phic, Cn, 2)
    h.le(lo[0], hi[0], 'K: lower below upper')
    h.le(lo[1], hi[1], 'G: lower below upper')


@case('G04', grid=[{'fn': 'constantcement'}, {'fn': 'MUHS'}])
def cement_bound_arrays(h, fn):
    h.opaque('GM', 'contactcement')
    if fn == 'MUHS':
        f = lambda K0, G0, Kc, Gc, phi, pb, phic, Cn: h.rp.GM.MUHS(K0, G0, Kc, Gc, phi, pb, phic, Cn, 2)
    else:
        f = lambda K0, G0, Kc, Gc, phi, pb, phic, Cn: h.rp.GM.constantcement(pb, K0, G0, Kc, Gc, phi, phic, Cn, 2)
    sp = KG + CEM + [('phi', 0, 0.3, 0.1), ('pb', 0.3, 0.35, 0.32), ('phic', 0.36, 0.9, 0.4), ('Cn', 1, 20, 8.6)]
    h.vec(f, sp, ('phi',), 3, 'over porosity', nodef=True)


# ---- G05 patchy cement -----------------------------------------------------------
def patchy(h, f, Kc, Gc, Ku, Gu, mode):
    """effective moduli of a fraction f of cemented rock with uncemented rock"""
    if mode == 'stiff':
        Km, Gm = Kc, Gc
    else:
        Km, Gm = Ku, Gu
    return hs_ref(h, f, Kc, Ku, Gc, Gu, Km, Gm)


PC = KG + CEM + [('phic', 0.3, 0.9, 0.4), ('Cn', 1, 20, 8.6), ('sigma', 1e-4, 500, 20), ('f_', 0, 1, 0.5),
                 ('f', 0, 1, 0.6), ('t', 0, 1, 0.5)]


def pcm_parts(h, big, scheme):
    h.opaque('GM', 'contactcement')
    h.opaque('GM', 'hertzmindlin')
    h.opaque('GM', 'MUHS')
    K0, G0, Kc, Gc, phic, Cn, s, f_, f, t = h.args(PC)
    vci = h.real('v_ci', 0.001, 0.1, 0.05)
    v = h.real('v_cem', 0.0005, 0.2, 0.08 if big else 0.03)
    h.assume(v > vci) if big else h.assume(v <= vci)
    Ku, Gu = h.rp.GM.hertzmindlin(K0, G0, phic, Cn, s, f_)
    if big:
        Km, Gm = h.rp.GM.MUHS(K0, G0, Kc, Gc, phic - v, phic - vci, phic, Cn, scheme)
    else:
        Km, Gm = h.rp.GM.contactcement(K0, G0, Kc, Gc, phic - v, phic, Cn, scheme)
    h.assume(Km > Ku)
    h.assume(Gm > Gu)
    rest = (s, K0, G0, t * phic, phic, v, vci, Kc, Gc, Cn)
    return (Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest)


@case('G05', grid=[{'big': b, 'mode': m, 'scheme': s} for b in (False, True) for m in ('stiff', 'soft') for s in (1, 2)])
def pcm_end_member(h, big, mode, scheme):
    """at critical porosity: mixture of cemented and uncemented rock"""
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, scheme)
    s, _, _, _, phic, *more = rest
    r = h.rp.GM.pcm(f, s, K0, G0, phic, phic, *more, mode, scheme, f_)
    h.eq(r, patchy(h, f, Km, Gm, Ku, Gu, mode), 'patchy cement, %s background' % mode, nodef=True)


@case('G05', grid=[{'big': b, 'mode': m} for b in (False, True) for m in ('stiff', 'soft')])
def pcm_porosity(h, big, mode):
    """other porosities: modified lower bound between that mixture and mineral"""
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, 2)
    h.autolet(4)
    s, _, _, _, phic, *more = rest
    Kp, Gp = h.rp.GM.pcm(f, s, K0, G0, phic, phic, *more, mode, 2, f_)
    r = h.rp.GM.pcm(f, *rest, mode, 2, f_)
    h.eq(r, hs_ref(h, t, Kp, K0, Gp, G0, Kp, Gp), 'porosity dependence', nodef=True)


@case('G05', grid=[{'big': b, 'mode': m} for b in (False, True) for m in ('stiff', 'soft')])
def pcm_ends(h, big, mode):
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, 2)
    h.eq(h.rp.GM.pcm(h.q(0), *rest, mode, 2, f_), hs_ref(h, t, Ku, K0, Gu, G0, Ku, Gu), 'no cemented patches: soft sand', nodef=big)
    h.eq(h.rp.GM.pcm(h.q(1), *rest, mode, 2, f_), hs_ref(h, t, Km, K0, Gm, G0, Km, Gm), 'fully cemented', nodef=big)
    h.eq(h.rp.GM.pcm(f, *(rest[:3] + (0 * t,) + rest[4:]), mode, 2, f_), [K0, G0], 'no pores: mineral', nodef=True)


@case('G05', grid=[{'big': b, 'scheme': s} for b in (False, True) for s in (1, 2)])
def vpcm_end_member(h, big, scheme):
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, scheme)
    a = h.real('alpha', 0, 1, 0.3)
    s, _, _, _, phic, *more = rest
    K1, G1 = patchy(h, f, Km, Gm, Ku, Gu, 'stiff')
    K2, G2 = patchy(h, f, Km, Gm, Ku, Gu, 'soft')
    r = h.rp.GM.vpcm(a, f, s, K0, G0, phic, phic, *more, scheme, f_)
    h.eq(r, [K1 * (1 - a) + K2 * a, G1 * (1 - a) + G2 * a], 'interpolated connectivity', nodef=True)


@case('G05', grid=[{'big': False}, {'big': True}])
def vpcm_porosity(h, big):
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, 2)
    h.autolet(4)
    a = h.real('alpha', 0, 1, 0.3)
    s, _, _, _, phic, *more = rest
    Kp, Gp = h.rp.GM.vpcm(a, f, s, K0, G0, phic, phic, *more, 2, f_)
    r = h.rp.GM.vpcm(a, f, *rest, 2, f_)
    h.eq(r, hs_ref(h, t, Kp, K0, Gp, G0, Kp, Gp), 'porosity dependence', nodef=True)


@case('G05', grid=[{'big': False}, {'big': True}])
def vpcm_limits(h, big):
    Km, Gm, Ku, Gu, K0, G0, t, f, f_, rest = pcm_parts(h, big, 2)
    h.autolet(4)
    h.eq(h.rp.GM.vpcm(h.q(0), f, *rest, 2, f_), h.rp.GM.pcm(f, *rest, 'stiff', 2, f_), 'alpha 0: cement fully connected', nodef=True)
    h.eq(h.rp.GM.vpcm(h.q(1), f, *rest, 2, f_), h.rp.GM.pcm(f, *rest, 'soft', 2, f_), 'alpha 1: patches disconnected', nodef=True)


@case('G05', grid=[{'m': '1'}, {'m': '2'}, {'m': '0.5'}, {'m': '1.5'}])
def diluting(h, m):
    k, s0 = h.args([('k', 0, 3, 0.9), ('s0', 0.1, 200, 20)])
    t = [h.real('t_%d' % i, 0, 1, d) for i, d in enumerate((0, 0.4, 1))]
    m = h.q(m)
    s = h.arr([x * s0 for x in t])
    r = h.rp.GM.diluting(k, s0, s, m)
    h.true(h.np.shape(r) == (3,), 'one value per stress')
    for i in range(3):
        h.eq(r[i], k * h.pow(1 - t[i], m), 'power law', scale=1)
        h.between(0, r[i], k, 'within bounds')
    h.eq(s, h.arr([x * s0 for x in t]), 'stresses unchanged')


@case('G05')
def diluting_beyond(h):
    """above the reference stress the law has no real value: no dilution left"""
    k, s0, s1, s2 = h.args([('k', 0, 3, 0.9), ('s0', 0.1, 200, 20), ('s1', 0, 500, 30), ('s2', 0, 500, 3)])
    h.assume(s1 > s0)
    h.assume(s2 <= s0)
    r = h.rp.GM.diluting(k, s0, h.arr([s1, s2]), h.q('0.5'))
    h.eq(r[0], 0, 'beyond the reference stress', scale=1)
    h.eq(r[1], k * h.sqrt(1 - s2 / s0), 'the others are kept', scale=1)


@case('G05')
def pcm_arrays(h):
    h.opaque('GM', 'contactcement')
    h.opaque('GM', 'hertzmindlin')
    h.opaque('GM', 'MUHS')
    h.autolet(4)
    sp = KG + CEM + [('phi', 0, 0.3, 0.1), ('phic', 0.36, 0.9, 0.4), ('Cn', 1, 20, 8.6), ('sigma', 1e-4, 500, 20),
                     ('f_', 0, 1, 0.5), ('f', 0, 1, 0.6), ('v', 0.01, 0.02, 0.015), ('vci', 0.03, 0.04, 0.035)]
    for md in ('stiff', 'soft'):
        g = lambda K0, G0, Kc, Gc, phi, phic, Cn, s, f_, f, v, vci: \
            h.rp.GM.pcm(f, s, K0, G0, phi, phic, v, vci, Kc, Gc, Cn, md, 2, f_)
        h.vec(g, [(a + md, *r) for a, *r in sp], ('phi' + md,), 3, md + ' over porosity', nodef=True)
    g = lambda K0, G0, Kc, Gc, phi, phic, Cn, s, f_, f, v, vci, al: \
        h.rp.GM.vpcm(al, f, s, K0, G0, phi, phic, v, vci, Kc, Gc, Cn, 2, f_)
    h.vec(g, [(a + 'v', *r) for a, *r in sp + [('al', 0, 1, 0.4)]], ('phiv', 'sigmav', 'alv'), 2, 'vpcm', nodef=True)


# ---- G06 sand-shale mixtures ---------------------------------------------------------
@case('G06')
def thomas_stieber(h):
    ps, ph, v = h.args([('phi_sand', 0.01, 0.6, 0.3), ('phi_sh', 0, 0.6, 0.2), ('vsh', 0, 1, 0.2)])
    abc, ac = h.rp.GM.ThomasStieber(ps, ph, v)
    d = ps - (1 - ph) * v
    m = ph * v
    h.ge(abc, d, 'not below the dispersed line')
    h.ge(abc, m, 'not below the shale line')
    h.eq((abc - d) * (abc - m), 0, 'on one of the two lines', scale=1)
    h.eq(ac, ps * (1 - v) + ph * v, 'laminated line')
    h.le(abc, ac, 'dispersed shale reduces porosity most')


@case('G06')
def thomas_stieber_ends(h):
    ps, ph = h.args([('phi_sand', 0.01, 0.6, 0.3), ('phi_sh', 0, 0.6, 0.2)])
    h.eq(h.rp.GM.ThomasStieber(ps, ph, h.q(0)), [ps, ps], 'clean sand')
    h.eq(h.rp.GM.ThomasStieber(ps, ph, h.q(1)), [ph, ph], 'pure shale')
    h.eq(h.rp.GM.ThomasStieber(ps, ph, ps)[0], ph * ps, 'pores full of shale: porosity of the shale')


@case('G06')
def thomas_stieber_arrays(h):
    sp = [('phi_sand', 0.01, 0.6, 0.3), ('phi_sh', 0, 0.6, 0.2), ('vsh', 0, 1, 0.2)]
    h.vec(h.rp.GM.ThomasStieber, sp, ('vsh',), 3, 'over shale content')
    h.vec(h.rp.GM.ThomasStieber, [(a + 'x', *r) for a, *r in sp], ('phi_sandx', 'phi_shx', 'vshx'), 2, 'over everything')


SS = [('Ka', 1, 250, 37), ('Ga', 0.5, 200, 44), ('Kb', 0.5, 250, 20), ('Gb', 0.5, 200, 8)]


@case('G06', si=(('(K|G).*', 10**9),))
def silty_shale(h):
    K1, G1, K2, G2 = h.args(SS)
    C = h.real('C', 0, 1, 0.7)
    r = h.rp.GM.silty_shale(C, K1, G1, K2, G2)
    h.eq(r, hs_ref(h, C, K2, K1, G2, G1, K2, G2), 'lower bound of quartz in shale')
    h.eq(r, h.rp.EM.HS(C, K2, K1, G2, G1, 'upper'), 'same as the bound with shale as host')
    h.eq(h.rp.GM.silty_shale(h.q(0), K1, G1, K2, G2), [K1, G1], 'no shale: quartz')
    h.eq(h.rp.GM.silty_shale(h.q(1), K1, G1, K2, G2), [K2, G2], 'only shale')


@case('G06', si=(('(K|G).*', 10**9),))
def shaly_sand(h):
    K1, G1, K2, G2 = h.args(SS)
    ps = h.real('phis', 0.01, 0.6, 0.3)
    t = h.real('t', 0, 1, 0.4)
    r = h.rp.GM.shaly_sand(ps, t * ps, K1, G1, K2, G2)
    h.eq(r, hs_ref(h, t, K2, K1, G2, G1, K1, G1), 'bound with the sand as host')
    h.eq(h.rp.GM.shaly_sand(ps, 0 * ps, K1, G1, K2, G2), [K1, G1], 'clean sand')
    h.eq(h.rp.GM.shaly_sand(ps, ps, K1, G1, K2, G2), [K2, G2], 'pores filled with shale')


@case('G06')
def mixtures_between(h):
    K1, G1, K2, G2 = h.args(SS)
    C = h.real('C', 0, 1, 0.7)
    ps = h.real('phis', 0.01, 0.6, 0.3)
    h.assume(K1 >= K2)
    h.assume(G1 >= G2)
    for nm, r in (('silty shale', h.rp.GM.silty_shale(C, K1, G1, K2, G2)),
                  ('shaly sand', h.rp.GM.shaly_sand(ps, C * ps, K1, G1, K2, G2))):
        h.between(K2, r[0], K1, nm + ': bulk')
        h.between(G2, r[1], G1, nm + ': shear')


@case('G06')
def mixture_arrays(h):
    h.vec(h.rp.GM.silty_shale, [('C', 0, 1, 0.7)] + SS, ('C',), 3, 'silty shale')
    sp = [('phis', 0.3, 0.6, 0.4), ('Cx', 0, 0.3, 0.1)] + [(a + 'x', *r) for a, *r in SS]
    h.vec(h.rp.GM.shaly_sand, sp, ('Cx',), 3, 'shaly sand')
    sp = [(a + 'y', *r) for a, *r in sp]
    h.vec(h.rp.GM.shaly_sand, sp, tuple(a[0] for a in sp), 2, 'shaly sand over everything')


# ---- G07 Digby ------------------------------------------------------------------------
DG = KG + [('phi', 0, 0.95, 0.36), ('Cn', 1, 20, 9), ('sigma', 0.01, 500, 20), ('a_R', 1e-5, 0.9, 0.2)]


def one(x):
    return x.ravel()[0] if hasattr(x, 'ravel') else x


@case('G07')
def digby_form(h):
    K0, G0, phi, Cn, s, a = h.args(DG)
    c = h.real('c', 1e-12, 1e-2, 1e-4)
    nu = nu_of(K0, G0)
    s = c * 1000 * 2 * Cn * (1 - phi) * G0 / (3 * h.pi * (1 - nu))      # any stress
    K, G = h.rp.GM.Digby(K0, G0, phi, Cn, s, a)
    h.true(h.np.size(K) == 1 and h.np.size(G) == 1, 'one value for one stress')
    K, G = one(K), one(G)
    b = K * 12 * h.pi * (1 - nu) / (Cn * (1 - phi) * 4 * G0)      # radius of the contact
    h.ge(b ** 2, a ** 2, 'contact does not shrink')
    d = h.sqrt(b ** 2 - a ** 2)
    h.eq(d ** 3 + h.q(3, 2) * a ** 2 * d, c, 'cubic equation of the contact radius', tol=1e-3)
    h.eq(G, h.q(3, 5) * K + Cn * (1 - phi) * h.q(3, 40) * 8 * G0 * a / (2 - nu) / h.pi, 'shear modulus')


@case('G07')
def digby_unbonded(h):
    K0, G0, phi, Cn, s, a = h.args(DG)
    K, G = h.rp.GM.Digby(K0, G0, phi, Cn, s, 0 * a)
    Kh, Gh = h.rp.GM.hertzmindlin(K0, G0, phi, Cn, s, h.q(0))
    h.eq([one(K), one(G)], [Kh, Gh], 'no bonding: frictionless Hertz contact')


@case('G07')
def digby_unstressed(h):
    K0, G0, phi, Cn, s, a = h.args(DG)
    nu = nu_of(K0, G0)
    K, G = h.rp.GM.Digby(K0, G0, phi, Cn, 0 * s, a)
    h.true(h.np.size(K) == 1, 'one value at zero stress')
    Sn, St = 4 * G0 * a / (1 - nu), 8 * G0 * a / (2 - nu)
    h.eq(one(K), Cn * (1 - phi) * Sn / (12 * h.pi), 'bulk modulus of the bonded pack')
    h.eq(one(G), Cn * (1 - phi) * (Sn + h.q(3, 2) * St) / (20 * h.pi), 'shear modulus of the bonded pack')


@case('G07')
def digby_arrays(h):
    h.autolet(6)
    h.vec(h.rp.GM.Digby, DG, ('sigma',), 3, 'over stress', nodef=True)


# ---- G08 stress-induced anisotropy of sphere packs -----------------------------------------
def johnson_ref(h, K0, G0, n, phi, e, e3, path, defect):
    nu = nu_of(K0, G0)
    Cn, Ct = 4 * G0 / (1 - nu), 8 * G0 / (2 - nu)
    B, C = 2 / (h.pi * Cn), 4 / h.pi * (1 / Ct - 1 / Cn)
    al = h.sqrt(e / e3)
    a2 = al ** 2
    r = h.sqrt(1 + a2)
    # I_n = integral of x^n sqrt(alpha^2 + x^2) over 0..1
    I0 = (r + a2 * h.log(1 + r / al if defect else (1 + r) / al)) / 2
    I2 = ((1 + a2) * r - a2 * I0) / 4
    I4 = ((1 + a2) * r - 3 * a2 * I2) / 6
    g = h.q(3, 32) * Cn * Ct * n * (1 - phi) * h.sqrt(-e) / al
    C66 = g * (B * (I0 - I2) + C / 4 * (I0 - 2 * I2 + I4))
    C11 = g * (2 * B * (I0 - I2) + h.q(3, 4) * C * (I0 - 2 * I2 + I4))
    if defect:
        C11 = g * (4 * B / 3 + 2 * C / 5 + e / e3 * (2 * B / 15 + C / 35))
    C33 = g * (4 * B * I2 + 2 * C * I4)
    C13 = g * C * (I2 - I4)
    C44 = g * (B / 2 * (I0 + I2) + C * (I2 - I4))
    T = -(-e) * h.sqrt(-e) * (1 - phi) * n / (4 * h.pi * al ** 3)
    lat = a2 * I0 + (1 - a2) * I2 - I4
    tan = {'together': I2 - I4, 'uni_iso': h.q(1, 12), 'iso_uni': lat - 2 * al ** 3 / 3}[path]
    return [C11, C33, C13, C44, C66], 2 * T * (Ct * tan + Cn * (a2 * I2 + I4)), T * (-Ct * tan + Cn * lat)


JO = KG + [('n', 1, 20, 6), ('phi', 0, 0.95, 0.36), ('e', -0.2, -0.0001, -0.03), ('e3', -0.2, -0.0001, -0.05)]


@case('G08', grid=[{'path': 'together'}, {'path': 'uni_iso'}, {'path': 'iso_uni'}])
def johnson_form(h, path):
    K0, G0, n, phi, e, e3 = h.args(JO)
    h.autolet(6)
    C, s33, s11 = h.rp.GM.johnson(K0, G0, n, phi, e, e3, path)
    c, t33, t11 = johnson_ref(h, K0, G0, n, phi, e, e3, path, False)
    d, d33, d11 = johnson_ref(h, K0, G0, n, phi, e, e3, path, True)
    fd = 'johnson-integral'
    for nm, i, j, k in (('C11', 0, 0, 0), ('C33', 2, 2, 1), ('C13', 0, 2, 2), ('C44', 3, 3, 3), ('C66', 5, 5, 4)):
        h.eq(C[i][j], c[k], nm, finding='johnson-c11' if nm == 'C11' else fd, defect=d[k])
    h.eq(s33, t33, 'axial stress', finding=fd, defect=d33)
    h.eq(s11, t11, 'lateral stress', finding=fd, defect=d11)


@case('G08')
def johnson_matrix(h):
    K0, G0, n, phi, e, e3 = h.args(JO)
    h.autolet(6)
    C, s33, s11 = h.rp.GM.johnson(K0, G0, n, phi, e, e3)
    D = h.rp.GM.johnson(K0, G0, n, phi, e, e3, path='together')
    h.eq([s33, s11], D[1:], 'strains together by default')
    h.true(h.np.shape(C) == (6, 6), 'a 6x6 matrix')
    for i in range(6):
        for j in range(6):
            if j < i:
                h.eq(C[i][j], C[j][i], 'symmetric', scale=1)
            if i != j and max(i, j) > 2:
                h.eq(C[i][j], 0, 'no coupling of normal and shear', scale=1)
    h.eq([C[1][1], C[4][4], C[1][2]], [C[0][0], C[3][3], C[0][2]], 'symmetry axis 3')
    h.eq(C[0][1], C[0][0] - 2 * C[5][5], 'transverse isotropy', scale=10)


@case('G08')
def johnson_scaling(h):
    """strains scaled by 4: moduli double, stresses grow eightfold"""
    K0, G0, n, phi, e, e3 = h.args(JO)
    a = h.rp.GM.johnson(K0, G0, n, phi, e, e3)
    b = h.rp.GM.johnson(K0, G0, n, phi, 4 * e, 4 * e3)
    for i, j in ((0, 0), (2, 2), (0, 2), (3, 3), (5, 5)):
        h.eq(b[0][i][j], 2 * a[0][i][j], 'stiffness %d%d' % (i + 1, j + 1))
    h.eq(b[1:], [8 * a[1], 8 * a[2]], 'stresses')
