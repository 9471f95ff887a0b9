"""moduli/velocity conversions, stiffness matrices, anisotropy"""
from rpsym.harness import case
from _lib import *


# ---- U01 -----------------------------------------------------------------
KG = [('K', 0.5, 120, 20), ('G', 0.2, 110, 13)]


@case('U01')
def from_moduli(h):
    K, G = h.args(KG)
    rho = h.real('rho', 0.5, 6, 2.3)
    Vp, Vs = h.rp.utils.V(K, G, rho)
    # m/s from GPa and g/cm3
    h.eq(rho * Vp ** 2 / 10 ** 6, K + h.q(4, 3) * G, 'P-wave modulus')
    h.eq(rho * Vs ** 2 / 10 ** 6, G, 'S-wave modulus')
    h.lt(Vs, Vp, 'P faster than S')
    h.ge(Vs, 0, 'S velocity is the nonnegative root')
    K2, G2 = h.rp.utils.M_from_V(rho, Vp, Vs)
    h.eq(K2, K, 'bulk modulus recovered')
    h.eq(G2, G, 'shear modulus recovered')


@case('U01')
def from_velocities(h):
    vp, vs, rho = h.args([('vp', 300, 9000, 3000), ('vs', 50, 6000, 1600), ('rho', 0.5, 6, 2.3)])
    K, G = h.rp.utils.M_from_V(rho, vp, vs)
    h.eq(G, rho * vs ** 2 / 10 ** 6, 'shear modulus')
    h.eq(K, rho * (vp ** 2 - h.q(4, 3) * vs ** 2) / 10 ** 6, 'bulk modulus', scale=1)
    h.assume(3 * vp ** 2 > 4 * vs ** 2)
    a, b = h.rp.utils.V(K, G, rho)
    h.eq(a, vp, 'vp recovered')
    h.eq(b, vs, 'vs recovered')


@case('U01', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def elastic_constants(h):
    K, G = h.args(KG)
    nu = h.rp.utils.poi(K, G)
    lam = h.rp.utils.lame(K, G)
    h.eq(lam, K - h.q(2, 3) * G, 'lambda', scale=1)
    h.eq(2 * nu * (lam + G), lam, 'Poisson ratio', scale=1)
    h.gt(nu, -1, 'nu > -1')
    h.lt(nu, h.q(1, 2), 'nu < 1/2')


@case('U01', grid=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 5}])
def arrays(h, n):
    h.vec(h.rp.utils.V, KG + [('rho', 0.5, 6, 2.3)], ('K', 'G', 'rho'), n, 'V')
    h.vec(h.rp.utils.poi, KG, ('K', 'G'), n, 'poi')
    h.vec(h.rp.utils.lame, KG, ('K', 'G'), n, 'lame')
    h.vec(h.rp.utils.M_from_V, [('rho', 0.5, 6, 2.3), ('vp', 300, 9000, 3000), ('vs', 50, 6000, 1600)],
          ('rho', 'vp', 'vs'), n, 'M_from_V')


@case('U01')
def mixed_arrays(h):
    h.vec(h.rp.utils.V, KG + [('rho', 0.5, 6, 2.3)], ('K', 'G'), 2, 'V, scalar density')
    h.vec(h.rp.utils.V, KG + [('rho', 0.5, 6, 2.3)], ('rho',), 2, 'V, array density')
    h.vec(h.rp.utils.M_from_V, [('rho', 0.5, 6, 2.3), ('vp', 300, 9000, 3000), ('vs', 50, 6000, 1600)],
          ('vp', 'vs'), 2, 'M_from_V, scalar density')


# ---- U02 stiffness and compliance matrices ---------------------------------
def zeros_ok(h, C, pat, label):
    """pat: dict (i,j)->value for i<=j; all other entries zero, C symmetric"""
    h.true(h.np.shape(C) == (6, 6), label + ': 6x6')
    for i in range(6):
        for j in range(6):
            v = pat.get((min(i, j), max(i, j)), 0)
            h.eq(C[i, j], v, '%s C%d%d' % (label, i + 1, j + 1), scale=1)


def vti(C11, C33, C13, C44, C66):
    return {(0, 0): C11, (1, 1): C11, (2, 2): C33, (0, 1): C11 - 2 * C66, (0, 2): C13, (1, 2): C13,
            (3, 3): C44, (4, 4): C44, (5, 5): C66}


C5 = [('C11', 1, 150, 40), ('C33', 1, 150, 33), ('C13', -20, 90, 11), ('C44', 0.5, 60, 10), ('C66', 0.5, 60, 13)]


@case('U02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def vti_matrix(h):
    c = h.args(C5)
    zeros_ok(h, h.rp.utils.write_VTI_matrix(*c), vti(*c), 'VTI')


@case('U02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hti_matrix(h):
    C11, C33, C13, C44, C55 = h.args([('C11', 1, 150, 40), ('C33', 1, 150, 33), ('C13', -20, 90, 11),
                                      ('C44', 0.5, 60, 10), ('C55', 0.5, 60, 13)])
    C = h.rp.utils.write_HTI_matrix(C11, C33, C13, C44, C55)
    zeros_ok(h, C, {(0, 0): C11, (1, 1): C33, (2, 2): C33, (0, 1): C13, (0, 2): C13, (1, 2): C33 - 2 * C44,
                    (3, 3): C44, (4, 4): C55, (5, 5): C55}, 'HTI')
    # the same medium as VTI with axes 1 and 3 exchanged
    V = h.rp.utils.write_VTI_matrix(C33, C11, C13, C55, C44)
    perm = [2, 1, 0, 5, 4, 3]
    h.eq([[C[i, j] for j in range(6)] for i in range(6)],
         [[V[perm[i], perm[j]] for j in range(6)] for i in range(6)], 'HTI = VTI with axes exchanged', scale=1)


@case('U02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def general_matrix(h):
    names = ['C11', 'C22', 'C33', 'C12', 'C13', 'C23', 'C44', 'C55', 'C66']
    c = h.args([(n, -50, 150, 10 + 3 * i) for i, n in enumerate(names)])
    C = h.rp.utils.write_matrix(*c)
    d = dict(zip(names, c))
    zeros_ok(h, C, {(int(n[1]) - 1, int(n[2]) - 1): v for n, v in d.items()}, 'orthotropic')


@case('U02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def iso_matrix(h):
    K, G = h.args(KG)
    C = h.rp.utils.write_iso(K, G)
    lam = K - h.q(2, 3) * G
    M = lam + 2 * G
    zeros_ok(h, C, {(0, 0): M, (1, 1): M, (2, 2): M, (0, 1): lam, (0, 2): lam, (1, 2): lam,
                    (3, 3): G, (4, 4): G, (5, 5): G}, 'isotropic')
    h.eq(C, h.rp.utils.write_VTI_matrix(M, M, lam, G, G), 'VTI builder agrees', scale=1)
    h.eq(C, h.rp.utils.write_HTI_matrix(M, M, lam, G, G), 'HTI builder agrees', scale=1)
    h.eq(C, h.rp.utils.write_matrix(M, M, M, lam, lam, lam, G, G, G), 'general builder agrees', scale=1)


@case('U02')
def vti_compliance(h):
    C11, C33, C13, C44, C66 = h.args(C5)
    D = (C11 - C66) * C33 - C13 ** 2
    h.assume(C11 > 2 * C66)
    h.assume(D > 1)
    # closed-form inverse of the VTI stiffness
    S11 = (C11 * C33 - C13 ** 2) / (4 * C66 * D)
    S12 = (C13 ** 2 - (C11 - 2 * C66) * C33) / (4 * C66 * D)
    S13 = -C13 / (2 * D)
    S33 = (C11 - C66) / D
    S = h.rp.utils.write_VTI_compliance(S11, S12, S13, S33, 1 / C44)
    zeros_ok(h, S, {(0, 0): S11, (1, 1): S11, (2, 2): S33, (0, 1): S12, (0, 2): S13, (1, 2): S13,
                    (3, 3): 1 / C44, (4, 4): 1 / C44, (5, 5): 2 * (S11 - S12)}, 'compliance')
    C = h.rp.utils.write_VTI_matrix(C11, C33, C13, C44, C66)
    h.eq(h.np.dot(S, C), h.np.eye(6), 'compliance times stiffness is the identity', scale=1)


@case('U02')
def crack_porosity(h):
    e, a = h.args([('crd', 0, 0.5, 0.05), ('alpha', 0.0001, 1, 0.01)])
    h.eq(h.rp.utils.crack_por(e, a), h.q(4, 3) * h.pi * a * e, 'crack porosity')
    h.vec(h.rp.utils.crack_por, [('crd', 0, 0.5, 0.05), ('alpha', 0.0001, 1, 0.01)], ('crd', 'alpha'), 2, 'crack_por')


# ---- A01 Christoffel, VTI ---------------------------------------------------
CV = [('C11', 5, 150, 40), ('C33', 5, 150, 33), ('C13', -25, 90, 11), ('C44', 0.5, 60, 10), ('C66', 0.5, 60, 13)]


def stable_vti(h, C11, C33, C13, C44, C66):
    h.assume(C11 > C44)
    h.assume(C33 > C44)
    h.assume(C11 > C66)
    h.assume((C11 - C66) * C33 > C13 ** 2)


@case('A01', si=(('(K|G|M|C|lam|mu).*', 10**9), ('(rho|den|D).*', 1000)))
def christoffel_vti(h):
    C11, C33, C13, C44, C66 = h.args(CV)
    rho, th = h.real('rho', 1, 4, 2.4), h.real('theta', -180, 360, 25)
    stable_vti(h, C11, C33, C13, C44, C66)
    C = h.rp.utils.write_VTI_matrix(C11, C33, C13, C44, C66)
    VP, VSH, VSV = h.rp.Anisotropy.vel_azi_VTI(C, rho, th)
    s, c = h.sin(th * h.pi / 180), h.cos(th * h.pi / 180)
    g11 = C11 * s ** 2 + C44 * c ** 2
    g33 = C44 * s ** 2 + C33 * c ** 2
    g13 = (C13 + C44) * s * c
    h.eq(rho * VSH ** 2, C66 * s ** 2 + C44 * c ** 2, 'SH eigenvalue')
    h.eq(rho * (VP ** 2 + VSV ** 2), g11 + g33, 'P-SV trace')
    h.eq(rho ** 2 * VP ** 2 * VSV ** 2, g11 * g33 - g13 ** 2, 'P-SV determinant')
    h.le(VSV, VP, 'P is the faster root')
    h.ge(VSV, 0, 'SV nonnegative')
    h.ge(VSH, 0, 'SH nonnegative')


@case('A01', si=(('(K|G|M|C|lam|mu).*', 10**9), ('(rho|den|D).*', 1000)))
def christoffel_hti(h):
    C33, C11, C13, C55, C44 = h.args([('C33', 5, 150, 40), ('C11', 5, 150, 33), ('C13', -25, 90, 11),
                                      ('C55', 0.5, 60, 10), ('C44', 0.5, 60, 13)])
    rho, th = h.real('rho', 1, 4, 2.4), h.real('azimuth', -180, 360, 25)
    stable_vti(h, C33, C11, C13, C55, C44)
    C = h.rp.utils.write_HTI_matrix(C11, C33, C13, C44, C55)
    VP, VSH, VSV = h.rp.Anisotropy.vel_azi_HTI(C, rho, th)
    s, c = h.sin(th * h.pi / 180), h.cos(th * h.pi / 180)
    g11 = C11 * c ** 2 + C55 * s ** 2
    g22 = C55 * c ** 2 + C33 * s ** 2
    g12 = (C13 + C55) * s * c
    h.eq(rho * VSV ** 2, C44 * s ** 2 + C55 * c ** 2, 'vertically polarised shear')
    h.eq(rho * (VP ** 2 + VSH ** 2), g11 + g22, 'in-plane trace')
    h.eq(rho ** 2 * VP ** 2 * VSH ** 2, g11 * g22 - g12 ** 2, 'in-plane determinant')
    h.le(VSH, VP, 'P is the faster root')
    # HTI along azimuth = VTI at the same angle from its symmetry axis
    V = h.rp.utils.write_VTI_matrix(C33, C11, C13, C55, C44)
    a, b, d = h.rp.Anisotropy.vel_azi_VTI(V, rho, th)
    h.eq([VP, VSV, VSH], [a, b, d], 'same as the VTI medium with exchanged axes')


@case('A01', grid=[{'n': 2}, {'n': 3}])
def velocity_angle_arrays(h, n):
    C = h.rp.utils.write_VTI_matrix(*[h.q(x) for x in (40, 33, 11, 10, 13)])
    H = h.rp.utils.write_HTI_matrix(*[h.q(x) for x in (33, 40, 11, 13, 10)])
    rho = h.real('rho', 1, 4, 2.4)
    h.vec(lambda t: h.rp.Anisotropy.vel_azi_VTI(C, rho, t), [('theta', 0, 90, 25)], ('theta',), n, 'VTI angles')
    h.vec(lambda t: h.rp.Anisotropy.vel_azi_HTI(H, rho, t), [('theta', 0, 90, 25)], ('theta',), n, 'HTI angles')


@case('A01')
def measured_velocities_to_stiffness(h):
    """stiffness from velocities at 0/45/90 degrees inverts the forward model"""
    C11, C33, C13, C44, C66 = h.args(CV)
    rho = h.real('rho', 1, 4, 2.4)
    stable_vti(h, C11, C33, C13, C44, C66)
    h.assume(C13 + C44 >= 0)
    C = h.rp.utils.write_VTI_matrix(C11, C33, C13, C44, C66)
    f = h.rp.Anisotropy.vel_azi_VTI
    v0, v45, v90 = f(C, rho, 0), f(C, rho, 45), f(C, rho, 90)
    C2 = h.rp.utils.v_to_c_VTI(v0[0], v45[0], v90[0], v0[2], v90[1], rho)
    h.eq(v0[1], v0[2], 'shear velocities coincide on the axis')
    h.eq(C2, C, 'stiffness recovered', scale=1)


# ---- A02 Thomsen and Tsvankin ------------------------------------------------
@case('A02', si=(('(K|G|M|C|lam|mu).*', 10**9), ('(rho|den|D).*', 1000)))
def thomsen(h):
    C11, C33, C13, C44, C66 = h.args(CV)
    rho, th = h.real('rho', 1, 4, 2.4), h.real('theta', -180, 360, 25)
    h.assume(C33 > C44)
    VP, VSV, VSH, eps, gam, dlt = h.rp.Anisotropy.Thomsen(C11, C33, C13, C44, C66, rho, th)
    s, c = h.sin(th * h.pi / 180), h.cos(th * h.pi / 180)
    h.eq(2 * C33 * eps, C11 - C33, 'epsilon', scale=1)
    h.eq(2 * C44 * gam, C66 - C44, 'gamma', scale=1)
    h.eq(2 * C33 * (C33 - C44) * dlt, (C13 + C44) ** 2 - (C33 - C44) ** 2, 'delta', scale=1)
    a, b = h.sqrt(C33 / rho) * 1000, h.sqrt(C44 / rho) * 1000
    h.eq(VP, a * (1 + dlt * s ** 2 * c ** 2 + eps * s ** 4), 'P velocity')
    h.eq(VSV, b * (1 + C33 / C44 * (eps - dlt) * s ** 2 * c ** 2), 'SV velocity')
    h.eq(VSH, b * (1 + gam * s ** 2), 'SH velocity')


@case('A02')
def thomsen_axis_and_isotropic(h):
    C11, C33, C13, C44, C66 = h.args(CV)
    rho = h.real('rho', 1, 4, 2.4)
    h.assume(C33 > C44)
    f = h.rp.Anisotropy.Thomsen
    VP, VSV, VSH, eps, gam, dlt = f(C11, C33, C13, C44, C66, rho, 0)
    h.eq(rho * VP ** 2, C33 * 10 ** 6, 'P on the axis')
    h.eq(rho * VSV ** 2, C44 * 10 ** 6, 'SV on the axis')
    h.eq(rho * VSH ** 2, C44 * 10 ** 6, 'SH on the axis')
    VP, VSV, VSH, eps, gam, dlt = f(C11, C33, C13, C44, C66, rho, 90)
    h.eq(VP, h.sqrt(C33 / rho) * 1000 * (1 + eps), 'P across the axis')
    h.eq(VSV, h.sqrt(C44 / rho) * 1000, 'SV across the axis')
    h.eq(VSH, h.sqrt(C44 / rho) * 1000 * (1 + gam), 'SH across the axis')
    K, G, th = h.real('K', 5, 80, 20), h.real('G', 1, 60, 12), h.real('theta', 0, 90, 30)
    lam = K - h.q(2, 3) * G
    M = lam + 2 * G
    VP, VSV, VSH, eps, gam, dlt = f(M, M, lam, G, G, rho, th)
    h.eq([eps, gam, dlt], [0, 0, 0], 'isotropic medium has no anisotropy', scale=1)
    vp, vs = h.rp.utils.V(K, G, rho)
    h.eq([VP, VSV, VSH], [vp, vs, vs], 'isotropic velocities for every angle')


@case('A02', si=(('(K|G|M|C|lam|mu).*', 10**9), ('(rho|den|D).*', 1000)))
def tsvankin(h):
    C11, C22, C33, C12, C13, C23, C44, C55, C66 = h.args(
        [('C11', 12, 150, 40), ('C22', 12, 150, 38), ('C33', 12, 150, 33), ('C12', -5, 60, 9), ('C13', -5, 60, 11),
         ('C23', -5, 60, 10), ('C44', 0.5, 60, 10), ('C55', 0.5, 60, 11), ('C66', 0.5, 60, 13)])
    h.assume(C33 > C44)
    h.assume(C33 > C55)
    h.assume(C11 > C66)
    f = h.rp.Anisotropy.Thomsen_Tsvankin
    e1, d1, g1, e2, d2, g2, d3 = f(C11, C22, C33, C12, C13, C23, C44, C55, C66)
    h.eq(2 * C33 * e1, C22 - C33, 'epsilon(1)', scale=1)
    h.eq(2 * C33 * e2, C11 - C33, 'epsilon(2)', scale=1)
    h.eq(2 * C33 * (C33 - C44) * d1, (C23 + C44) ** 2 - (C33 - C44) ** 2, 'delta(1)', scale=1)
    h.eq(2 * C33 * (C33 - C55) * d2, (C13 + C55) ** 2 - (C33 - C55) ** 2, 'delta(2)', scale=1)
    h.eq(2 * C11 * (C11 - C66) * d3, (C12 + C66) ** 2 - (C11 - C66) ** 2, 'delta(3)', scale=1)
    h.eq(2 * C55 * g1, C66 - C55, 'gamma(1)', scale=1)
    h.eq(2 * C44 * g2, C66 - C44, 'gamma(2)', scale=1)
    # exchanging axes 1 and 2 exchanges the two sets
    r = f(C22, C11, C33, C12, C23, C13, C55, C44, C66)
    h.eq([r[0], r[1], r[2], r[3], r[4], r[5]], [e2, d2, g2, e1, d1, g1], 'axis exchange', scale=1)


@case('A02')
def tsvankin_reduces_to_thomsen(h):
    C11, C33, C13, C44, C66 = h.args(CV)
    h.assume(C33 > C44)
    h.assume(C11 > C66)
    r = h.rp.Anisotropy.Thomsen_Tsvankin(C11, C11, C33, C11 - 2 * C66, C13, C13, C44, C44, C66)
    t = h.rp.Anisotropy.Thomsen(C11, C33, C13, C44, C66, 2, 30)
    eps, gam, dlt = t[3], t[4], t[5]
    h.eq(list(r), [eps, dlt, gam, eps, dlt, gam, 0], 'VTI limit', scale=1)


@case('A02', grid=[{'n': 2}, {'n': 3}])
def thomsen_arrays(h, n):
    h.vec(h.rp.Anisotropy.Thomsen, CV + [('rho', 1, 4, 2.4), ('theta', 0, 90, 25)], ('theta',), n, 'angles', const=(3, 4, 5),
          cond=lambda h, r: h.assume(r[1] > r[3]))
    h.vec(h.rp.Anisotropy.Thomsen, [(a + 'x',) + tuple(b) for a, *b in CV] + [('rho', 1, 4, 2.4), ('thetax', 0, 90, 25)],
          ('C11x', 'C33x', 'C13x', 'C44x', 'C66x'), 2, 'moduli', cond=lambda h, r: h.assume(r[1] > r[3]))


# ---- A03 Backus -----------------------------------------------------------------
def layers(h, n, pre=''):
    f = [h.real('%sf%d' % (pre, i), 0.01, 5, 0.3 + 0.2 * i) for i in range(n)]
    lam = [h.real('%slam%d' % (pre, i), -39, 80, 8 + 3 * i) for i in range(n)]
    G = [h.real('%sG%d' % (pre, i), 0.5, 60, 6 + 4 * i) for i in range(n)]
    for a, b in zip(lam, G):                # positive bulk modulus
        h.assume(20 * a > -13 * b)
    return f, lam, G


@case('A03', grid=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4}, {'n': 6}, {'n': 5, '_thorough': True}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def backus_formula(h, n):
    f, lam, G = layers(h, n)
    tot = sum(f)
    w = [x / tot for x in f]
    C11, C33, C13, C44, C66 = h.rp.Anisotropy.Backus(f, lam, G)
    av = lambda v: sum(a * b for a, b in zip(w, v))
    M = [l + 2 * g for l, g in zip(lam, G)]
    h.eq(1 / C33, av([1 / m for m in M]), 'C33: harmonic average')
    h.eq(1 / C44, av([1 / g for g in G]), 'C44: harmonic average')
    h.eq(C66, av(G), 'C66: arithmetic average')
    r = av([l / m for l, m in zip(lam, M)])
    h.eq(C13, C33 * r, 'C13')
    h.eq(C11, av([4 * g * (l + g) / m for l, g, m in zip(lam, G, M)]) + C33 * r ** 2, 'C11')
    if n < 4:
        h.le(C44, C66, 'Backus ordering C44 <= C66')


@case('A03')
def backus_invariances(h):
    f, lam, G = layers(h, 2)
    B = h.rp.Anisotropy.Backus
    r = B(f, lam, G)
    k = h.real('k', 0.1, 10, 2)
    h.eq(B([x * k for x in f], lam, G), r, 'only relative thickness matters')
    h.eq(B(f[::-1], lam[::-1], G[::-1]), r, 'layer order is irrelevant')
    h.eq(B(h.arr(f), h.arr(lam), h.arr(G)), r, 'lists and arrays agree')
    g1 = h.real('g1', 0.1, 3, 1)
    h.eq(B([f[0], f[1] / 3, f[1] * 2 / 3], [lam[0], lam[1], lam[1]], [G[0], G[1], G[1]]), r,
         'splitting a layer changes nothing')
    one = B([f[0], f[1]], [lam[0], lam[0]], [G[0], G[0]])
    M = lam[0] + 2 * G[0]
    h.eq(one, [M, M, lam[0], G[0], G[0]], 'identical layers give the isotropic layer')


@case('A03')
def backus_same_shear(h):
    """all layers with the same shear modulus: isotropic whatever lambda"""
    f, lam, G = layers(h, 3)
    for a in lam[1:]:
        h.assume(20 * a > -13 * G[0])
    C11, C33, C13, C44, C66 = h.rp.Anisotropy.Backus(f, lam, [G[0]] * 3)
    h.eq([C11, C44, C66], [C33, G[0], G[0]], 'constant shear modulus gives an isotropic medium')
    h.eq(C13, C33 - 2 * G[0], 'constant shear modulus: C13', scale=1)


@case('A03', grid=[{'n': 2}, {'n': 3, '_thorough': True}])
def backus_arguments(h, n):
    f, lam, G = layers(h, n)
    a, b, c = h.arr(f), h.arr(lam), h.arr(G)
    r = h.rp.Anisotropy.Backus(a, b, c)
    h.eq([list(a), list(b), list(c)], [f, lam, G], 'inputs are not modified')
    h.eq(h.rp.Anisotropy.Backus(a, b, c), r, 'repeated call')


@case('A03', grid=[{'n': 2, 'down': 1}, {'n': 2, 'down': -1}, {'n': 3, 'down': 1}, {'n': 5, 'down': 1}, {'n': 4, 'down': -1, '_thorough': True}], si=(('(vp|vs|den).*', 1000),))
def backus_from_logs(h, n, down):
    vp = [h.real('vp%d' % i, 1.5, 6, 3 + 0.4 * i) for i in range(n)]
    vs = [h.real('vs%d' % i, 0.3, 4, 1.5 + 0.3 * i) for i in range(n)]
    den = [h.real('den%d' % i, 1, 4, 2.2 + 0.1 * i) for i in range(n)]
    top = h.real('top', -5000, 5000, 1000)
    th = [h.real('th%d' % i, 0.1, 50, 1 + i) for i in range(n)]
    for i in range(n):
        h.assume(3 * vp[i] ** 2 > 4.05 * vs[i] ** 2)
    depth = [top]
    for t in th:
        depth.append(depth[-1] + down * t)
    r = h.rp.Anisotropy.Backus_log(vp, vs, den, depth)
    lam = [d * (p ** 2 - 2 * s ** 2) for d, p, s in zip(den, vp, vs)]
    G = [d * s ** 2 for d, s in zip(den, vs)]
    h.eq(list(r[:5]), list(h.rp.Anisotropy.Backus(th, lam, G)), 'stiffness averages of the log', tol=1e-5)
    h.eq(r[5] * sum(th), sum(t * d for t, d in zip(th, den)), 'mass balance', tol=1e-5)


# ---- A04 rotation -----------------------------------------------------------------
def bond(h, th, axis, two):
    s, c = h.sin(th * h.pi / 180), h.cos(th * h.pi / 180)
    if axis == 3:
        b = [[c, s, 0], [-s, c, 0], [0, 0, 1]]
    else:
        b = [[1, 0, 0], [0, c, -s], [0, s, c]]
    pr = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    M = []
    for (i, j) in pr:
        row = []
        for (k, l) in pr:
            if k == l:
                row.append(b[i][k] * b[j][k])
            elif i == j:
                row.append(two * b[i][k] * b[j][l])
            else:
                row.append(b[i][k] * b[j][l] + b[i][l] * b[j][k])
        M.append(row)
    return h.arr(M)


FB = 'bond-offdiagonal-factor'


@case('A04', grid=[{'axis': 3}, {'axis': 1}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def rotation_tensor_rule(h, axis):
    """M C M^T with Bond's matrix, for a TI medium"""
    c = h.args(CV)
    th = h.real('theta', -180, 360, 20)
    C = h.rp.utils.write_VTI_matrix(*c)
    R = h.rp.Anisotropy.Bond_trans(C, th, axis)
    M, W = bond(h, th, axis, 2), bond(h, th, axis, 1)
    h.eq(R, M @ C @ M.T, 'rotated stiffness', scale=1, finding=FB, defect=W @ C @ W.T)
    h.eq(R, R.T, 'symmetric', scale=1)


@case('A04', grid=[{'axis': a, 'deg': d} for a in (1, 3) for d in (0, 90, 180, 270, -90)])
def quarter_turns(h, axis, deg):
    names = ['C11', 'C22', 'C33', 'C12', 'C13', 'C23', 'C44', 'C55', 'C66']
    c = h.args([(n, -50, 150, 10 + 3 * i) for i, n in enumerate(names)])
    C = h.rp.utils.write_matrix(*c)
    R = h.rp.Anisotropy.Bond_trans(C, deg, axis)
    C11, C22, C33, C12, C13, C23, C44, C55, C66 = c
    if deg % 180 == 0:
        E = C
    elif axis == 3:
        E = h.rp.utils.write_matrix(C22, C11, C33, C12, C23, C13, C55, C44, C66)
    else:
        E = h.rp.utils.write_matrix(C11, C33, C22, C13, C12, C23, C44, C66, C55)
    h.eq(R, E, 'quarter turn permutes the axes', scale=1)
    h.eq(C, h.rp.utils.write_matrix(*c), 'input matrix is not modified', scale=1)


@case('A04')
def default_axis(h):
    c = h.args(CV)
    th = h.real('theta', 0, 90, 20)
    C = h.rp.utils.write_VTI_matrix(*c)
    h.eq(h.rp.Anisotropy.Bond_trans(C, th), h.rp.Anisotropy.Bond_trans(C, th, 3), 'rotation is about axis 3 by default', scale=1)


@case('A04', grid=[{'axis': a, 'deg': d} for a in (1, 3) for d in (0, 90, 180, 270, 360, -90, -180)])
def quarter_turns_of_any_medium(h, axis, deg):
    """21 constants: the turned medium has the signs and places of the turned axes"""
    X = {}
    for i in range(6):
        for j in range(i, 6):
            X[i, j] = X[j, i] = h.real('C%d%d' % (i + 1, j + 1), -50, 150, 10 + 3 * i + 7 * j)
    C = h.arr([[X[i, j] for j in range(6)] for i in range(6)])
    R = h.rp.Anisotropy.Bond_trans(C, deg, axis)
    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][deg // 90 % 4]
    b = [[c, s, 0], [-s, c, 0], [0, 0, 1]] if axis == 3 else [[1, 0, 0], [0, c, -s], [0, s, c]]
    pr = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    of = {p: n for n, p in enumerate(pr)}
    of.update({(q, p): n for (p, q), n in list(of.items())})
    E = []
    for i, j in pr:
        row = []
        for k, l in pr:
            t = 0
            for m in range(3):
                for n in range(3):
                    for p in range(3):
                        for q in range(3):
                            w = b[i][m] * b[j][n] * b[k][p] * b[l][q]
                            if w:
                                t = t + w * X[of[m, n], of[p, q]]
            row.append(t)
        E.append(row)
    h.eq(R, h.arr(E), 'fourth-rank tensor rule', scale=1)
    h.eq(C, h.arr([[X[i, j] for j in range(6)] for i in range(6)]), 'input matrix is not modified', scale=1)
