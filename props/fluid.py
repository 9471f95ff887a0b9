"""fluid effects: Gassmann, substitution, Brown-Korringa, Biot, squirt, patchy"""
from rpsym.harness import case
from _lib import *

GS = [('Kd', 0, 150, 12), ('G', 0, 120, 10), ('K0', 1, 250, 37), ('Kf', 1e-5, 12, 2.2), ('phi', 1e-3, 1, 0.2)]
GS0 = GS[:3] + [('Kf', 1e-5, 200, 2.2), ('phi', 0, 1, 0.2)]


def gass_dom(h, Kd, K0, Kf, phi):
    h.assume(Kd < K0)
    h.assume(Kd <= K0 * (1 - phi))
    h.assume(Kf < K0)


def gassmann_spec(h, Kd, K0, Kf, phi):
    b = 1 - Kd / K0
    return Kd + b ** 2 / (phi / Kf + (b - phi) / K0)


# ---- F01 ---------------------------------------------------------------------
@case('F01', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def relation(h):
    Kd, G, K0, Kf, phi = h.args(GS)
    gass_dom(h, Kd, K0, Kf, phi)
    Ks, Gs = h.rp.Fluid.Gassmann(Kd, G, K0, Kf, phi)
    h.eq(Gs, G, 'shear modulus is unchanged')
    h.eq(Ks, gassmann_spec(h, Kd, K0, Kf, phi), 'saturated bulk modulus')
    h.le(Kd, Ks, 'a fluid never softens the rock')
    h.le(Ks, K0, 'never stiffer than the mineral')


@case('F01')
def unsorted_stiffness(h):
    """the closed form also holds outside the frame bound"""
    Kd, G, K0, Kf, phi = h.args(GS0)
    B = phi / Kf + (1 - phi) / K0 - Kd / K0 ** 2
    h.assume(B > 1e-9)
    Ks, Gs = h.rp.Fluid.Gassmann(Kd, G, K0, Kf, phi)
    h.eq([Ks, Gs], [Kd + (1 - Kd / K0) ** 2 / B, G], 'closed form')


@case('F01')
def fluid_monotone(h):
    Kd, G, K0, Kf, phi = h.args(GS)
    gass_dom(h, Kd, K0, Kf, phi)
    d = h.real('dKf', 0, 5, 0.5)
    h.assume(Kf + d < K0)
    a = h.rp.Fluid.Gassmann(Kd, G, K0, Kf, phi)[0]
    b = h.rp.Fluid.Gassmann(Kd, G, K0, Kf + d, phi)[0]
    h.le(a, b, 'stiffer fluid, stiffer rock')


@case('F01', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def limits(h):
    Kd, G, K0, Kf, phi = h.args(GS)
    h.assume(Kd < K0 * (1 - phi))
    h.assume(Kf < K0)
    F = h.rp.Fluid.Gassmann
    h.eq(F(K0, G, K0, Kf, phi / 2)[0], K0, 'no pores in the frame: mineral')
    h.eq(F(Kd, G, K0, K0, phi)[0], K0, 'pores filled with mineral: mineral')


@case('F01')
def velocities(h):
    Kd, G, K0, Kf, phi = h.args(GS)
    gass_dom(h, Kd, K0, Kf, phi)
    D0, Df = h.real('D0', 0.5, 6, 2.65), h.real('Df', 1e-3, 2, 1)
    Vp, Vs, rho = h.rp.Fluid.vels(Kd, G, K0, D0, Kf, Df, phi)
    h.eq(rho, (1 - phi) * D0 + phi * Df, 'bulk density is the mass balance')
    K, g = gassmann_spec(h, Kd, K0, Kf, phi), G
    h.eq(rho * Vp ** 2, (K + h.q(4, 3) * G) * 10 ** 6, 'P velocity')
    h.eq(rho * Vs ** 2, G * 10 ** 6, 'S velocity')
    h.ge(Vp, 0, 'Vp sign')
    h.ge(Vs, 0, 'Vs sign')


@case('F01', grid=[{'n': 1}, {'n': 2}, {'n': 3}])
def arrays(h, n):
    c = lambda h, r: gass_dom(h, r[0], r[2], r[3], r[4])
    h.vec(h.rp.Fluid.Gassmann, GS, ('Kd', 'G', 'K0', 'Kf', 'phi'), n, 'Gassmann', cond=c)
    sp = [(a + 'x', *b) for a, *b in GS]
    h.vec(h.rp.Fluid.Gassmann, sp, ('Kdx', 'Gx', 'phix'), n, 'Gassmann frame arrays', cond=c)
    sp = [(a + 'y', *b) for a, *b in GS]
    h.vec(h.rp.Fluid.Gassmann, sp, ('Kfy',), n, 'Gassmann fluid array', cond=c, const=(1,))


@case('F01', grid=[{'n': 2}])
def arrays_vels(h, n):
    sp = GS[:3] + [('D0', 0.5, 6, 2.65), GS[3], ('Df', 1e-3, 2, 1), GS[4]]
    h.vec(h.rp.Fluid.vels, sp, ('Kd', 'G', 'phi'), n, 'vels',
          cond=lambda h, r: gass_dom(h, r[0], r[2], r[4], r[6]))
    sp = [(a + 'x', *b) for a, *b in sp]
    h.vec(h.rp.Fluid.vels, sp, ('Kfx', 'Dfx'), n, 'vels fluid arrays',
          cond=lambda h, r: gass_dom(h, r[0], r[2], r[4], r[6]))


# ---- F02 fluid substitution ------------------------------------------------------
def two_fluids(h):
    Kd, G, K0, K1, phi = h.args(GS)
    K2 = h.real('Kf2', 1e-5, 12, 0.5)
    gass_dom(h, Kd, K0, K1, phi)
    h.assume(K2 < K0)
    # keep the state away from the removable singularities of the intermediate form
    h.assume(Kd < K0 * (1 - phi))
    return Kd, G, K0, K1, K2, phi


@case('F02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def agrees_with_gassmann(h):
    Kd, G, K0, K1, K2, phi = two_fluids(h)
    F = h.rp.Fluid.Gassmann
    s1, s2 = F(Kd, G, K0, K1, phi)[0], F(Kd, G, K0, K2, phi)[0]
    h.eq(h.rp.Fluid.Gassmann_sub(phi, K0, s1, K1, K2), s2, 'substitution reaches the state of the dry route')
    h.eq(h.rp.Fluid.Gassmann_sub(phi, K0, s1, K1, K1), s1, 'same fluid: nothing changes')
    h.eq(h.rp.Fluid.Gassmann_sub(phi, K0, s2, K2, K1), s1, 'substitution back restores the rock')


@case('F02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def path_independent(h):
    Kd, G, K0, K1, K2, phi = two_fluids(h)
    K3 = h.real('Kf3', 1e-5, 12, 3)
    h.assume(K3 < K0)
    S = h.rp.Fluid.Gassmann_sub
    Ks = h.rp.Fluid.Gassmann(Kd, G, K0, K1, phi)[0]
    h.eq(S(phi, K0, S(phi, K0, Ks, K1, K2), K2, K3), S(phi, K0, Ks, K1, K3), 'history of fluids is irrelevant')


@case('F02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def any_starting_modulus(h):
    """closed form for every measured modulus, physical or not"""
    phi, K0, Ks, K1, K2 = h.args([('phi', 1e-3, 1, 0.2), ('K0', 1, 250, 37), ('Ks', 0.1, 240, 20), ('Kf', 1e-5, 12, 2.2),
                                  ('Kf2', 1e-5, 12, 0.5)])
    h.assume(Ks < K0)
    h.assume(K1 < K0)
    h.assume(K2 < K0)
    a = Ks / (K0 - Ks) + (K2 / (K0 - K2) - K1 / (K0 - K1)) / phi
    h.assume(a > -1)
    h.assume((a + 1) > 1e-6)
    r = h.rp.Fluid.Gassmann_sub(phi, K0, Ks, K1, K2)
    h.eq(r, K0 * a / (1 + a), 'closed form', scale=1)
    h.eq(h.rp.Fluid.Gassmann_approx(Ks, K0, K1, phi, K2), r, 'P-modulus form is the same map')
    h.implies(K2 >= K1, r >= Ks, 'a stiffer fluid does not soften the rock')


@case('F02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def approx_roundtrip(h):
    M1, M0, m1, phi, m2 = h.args([('Ms', 1, 200, 35), ('M0', 10, 300, 65), ('Mf1', 1e-4, 8, 4), ('phi', 1e-2, 1, 0.2),
                                  ('Mf2', 1e-4, 8, 3)])
    h.assume(M1 < M0)
    a = M1 / (M0 - M1) + (m2 / (M0 - m2) - m1 / (M0 - m1)) / phi
    h.assume(a > 0)
    f = h.rp.Fluid.Gassmann_approx
    h.eq(f(M1, M0, m1, phi, m2), M0 * a / (1 + a), 'closed form')
    h.eq(f(M1, M0, m1, phi, m1), M1, 'same fluid')
    h.eq(f(f(M1, M0, m1, phi, m2), M0, m2, phi, m1), M1, 'round trip')


@case('F02')
def velocity_form(h):
    Kd, G, K0, K1, K2, phi = two_fluids(h)
    D0, d1, d2 = h.args([('D0', 0.5, 6, 2.65), ('Df', 1e-3, 2, 1), ('Df2', 1e-3, 2, 0.7)])
    h.assume(G > 0.01)
    f = h.rp.Fluid
    # velocities in km/s with GPa and g/cm3
    p1, q1, r1 = f.vels(Kd, G, K0, D0, K1, d1, phi)
    p2, q2, r2 = f.vels(Kd, G, K0, D0, K2, d2, phi)
    a, b = f.Gassmann_vels(p1 / 1000, q1 / 1000, r1, d1, K1, d2, K2, K0, phi)
    h.eq([a * 1000, b * 1000], [p2, q2], 'velocity substitution reaches the velocities of the second state')
    h.eq(list(f.Gassmann_vels(p1 / 1000, q1 / 1000, r1, d1, K1, d1, K1, K0, phi)), [p1 / 1000, q1 / 1000],
         'same fluid: velocities unchanged')


@case('F02', grid=[{'n': 2}, {'n': 3}])
def arrays_sub(h, n):
    def c(h, r):
        phi, K0, Ks, K1, K2 = r
        h.assume(Ks < K0)
        h.assume(K1 < K0)
        h.assume(K2 < K0)
        h.assume(Ks / (K0 - Ks) + (K2 / (K0 - K2) - K1 / (K0 - K1)) / phi > 0)
    sp = [('phi', 1e-2, 1, 0.2), ('K0', 1, 250, 37), ('Ks', 0.1, 240, 20), ('Kf', 1e-3, 12, 2.2), ('Kf2', 1e-3, 12, 0.5)]
    h.vec(h.rp.Fluid.Gassmann_sub, sp, ('phi', 'Ks'), n, 'Gassmann_sub', cond=c)
    h.vec(h.rp.Fluid.Gassmann_sub, [(a + 'x', *b) for a, *b in sp], ('Kf2x',), n, 'Gassmann_sub fluids', cond=c)
    sp2 = [(a + 'y', *b) for a, *b in [sp[2], sp[1], sp[3], sp[0], sp[4]]]
    h.vec(h.rp.Fluid.Gassmann_approx, sp2, ('Ksy', 'phiy'), n, 'Gassmann_approx',
          cond=lambda h, r: c(h, [r[3], r[1], r[0], r[2], r[4]]))


@case('F02')
def arrays_vel_sub(h):
    sp = [('Vp', 1.5, 6, 3.5), ('Vs', 0.3, 3.5, 1.9), ('rho', 1.2, 3.5, 2.3), ('Df', 0.1, 1.5, 1), ('Kf', 0.01, 5, 2.2),
          ('Df2', 0.1, 1.5, 0.7), ('Kf2', 0.01, 5, 0.5), ('K0', 30, 120, 60), ('phi', 0.02, 0.5, 0.2)]

    def c(h, r):
        Vp, Vs, rho, d1, K1, d2, K2, K0, phi = r
        Ks = rho * Vp ** 2 - h.q(4, 3) * rho * Vs ** 2
        h.assume(Ks < K0)
        h.assume(Ks > 0.5)
        h.assume(Ks / (K0 - Ks) + (K2 / (K0 - K2) - K1 / (K0 - K1)) / phi > 0)
    h.vec(h.rp.Fluid.Gassmann_vels, sp, ('Vp', 'Vs', 'rho', 'phi'), 2, 'Gassmann_vels', cond=c)


# ---- F03 fluid mixing ---------------------------------------------------------------
BR = [('Kw', 0.5, 5, 2.3), ('Kg', 1e-4, 3, 0.1), ('Sw', 0, 1, 0.6), ('e', 0.1, 60, 3)]


@case('F03', grid=[{'e': 1}, {'e': 2}, {'e': 3}, {'e': 10}, {'e': 40}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def brie_integer(h, e):
    Kw, Kg, S = h.args(BR[:3])
    r = h.rp.Fluid.Brie(Kw, Kg, S, e)
    h.eq(r, Kg + (Kw - Kg) * S ** e, 'Brie mixture')


@case('F03', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def brie(h):
    Kw, Kg, S, e = h.args(BR)
    f = h.rp.Fluid.Brie
    h.assume(S > 0)
    r = f(Kw, Kg, S, e)
    h.eq(r, Kg + (Kw - Kg) * h.pow(S, e), 'Brie mixture')
    h.eq(f(Kw, Kg, 0, e), Kg, 'no water: gas modulus')
    h.eq(f(Kw, Kg, 1, e), Kw, 'all water: water modulus')
    h.eq(f(Kw, Kg, S, 1), S * Kw + (1 - S) * Kg, 'e = 1: volume average')
    h.eq(f(Kw, Kw, S, e), Kw, 'equal fluids')


@case('F03')
def brie_bounds(h):
    Kw, Kg, S = h.args(BR[:3])
    h.assume(Kg <= Kw)
    for e in (1, 2, 3, 5):
        r = h.rp.Fluid.Brie(Kw, Kg, S, e)
        h.between(Kg, r, S * Kw + (1 - S) * Kg, 'between gas and the uniform average')
    d = h.real('dS', 0, 1, 0.1)
    h.assume(S + d <= 1)
    h.le(h.rp.Fluid.Brie(Kw, Kg, S, 3), h.rp.Fluid.Brie(Kw, Kg, S + d, 3), 'grows with water saturation')


@case('F03', grid=[{'n': 1}, {'n': 2}, {'n': 4}])
def brie_arrays(h, n):
    h.vec(lambda a, b, s: h.rp.Fluid.Brie(a, b, s, 3), BR[:3], ('Sw',), n, 'saturation array')
    h.vec(lambda a, b, s: h.rp.Fluid.Brie(a, b, s, 2), [(a + 'x', *b) for a, *b in BR[:3]], ('Kwx', 'Kgx', 'Swx'), n, 'all arrays')


# ---- F04 Brown and Korringa ------------------------------------------------------------
BK = [('C11', 5, 150, 60), ('C33', 5, 150, 45), ('C13', -10, 80, 15), ('C44', 0.5, 60, 14), ('C66', 0.5, 60, 18)]
BKF = [('K0', 10, 200, 60), ('G0', 5, 150, 45), ('Kf', 0.001, 8, 2.2), ('phi', 0.01, 0.8, 0.2)]


def vti_S(h, S11, S12, S13, S33, S44):
    return h.arr([[S11, S12, S13, 0, 0, 0], [S12, S11, S13, 0, 0, 0], [S13, S13, S33, 0, 0, 0],
                  [0, 0, 0, S44, 0, 0], [0, 0, 0, 0, S44, 0], [0, 0, 0, 0, 0, 2 * (S11 - S12)]])


SD = [('S11', 0.003, 0.3, 0.02), ('S12', -0.05, 0.02, -0.004), ('S13', -0.05, 0.02, -0.003), ('S33', 0.003, 0.3, 0.03),
      ('S44', 0.01, 0.5, 0.07)]


def bk_spec(h, S, K0, Kf, phi):
    """S_ij^sat, with mineral row sums 1/(3 K0) for i<=3 and 0 otherwise"""
    b = sum(S[i, j] for i in range(3) for j in range(3))
    a = [sum(S[i, j] for j in range(3)) - (1 / (3 * K0) if i < 3 else 0) for i in range(6)]
    D = (1 / Kf - 1 / K0) * phi + (b - 1 / K0)
    return [[S[i, j] - a[i] * a[j] / D for j in range(6)] for i in range(6)], b


@case('F04')
def saturation_formula(h):
    s = h.args(SD)
    K0, G0, Kf, phi = h.args(BKF)
    S = vti_S(h, *s)
    h.assume(Kf < K0)
    E, b = bk_spec(h, S, K0, Kf, phi)
    h.assume(b * K0 > 1)
    R = h.rp.Fluid.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    h.eq(R, E, 'saturated compliance', scale=0.01)
    h.eq(R, R.T, 'symmetric', scale=0.01)
    h.eq(S, vti_S(h, *s), 'input compliance is not modified', scale=0.01)
    h.le(sum(R[i, j] for i in range(3) for j in range(3)), b, 'saturation stiffens')


@case('F04')
def any_symmetry(h):
    """normal stresses that shear the rock: all 21 compliances; stiff pore fill"""
    s = {}
    for i in range(6):
        for j in range(i, 6):
            lo, hi, d = (0.003, 0.5, 0.02 + 0.004 * i) if i == j else (-0.05, 0.02, -0.002 - 0.0003 * (i + j)) if j < 3 \
                else (-0.05, 0.05, 0.001 * (i - j) + 0.0004)
            s[i, j] = s[j, i] = h.real('S%d%d' % (i + 1, j + 1), lo, hi, d)
    K0, G0, Kf, phi = h.args(BKF[:2] + [('Kf', 0.001, 250, 2.2), BKF[3]])
    S = h.arr([[s[i, j] for j in range(6)] for i in range(6)])
    E, b = bk_spec(h, S, K0, Kf, phi)
    D = (1 / Kf - 1 / K0) * phi + (b - 1 / K0)
    h.assume(D > h.q(1, 1000))
    F = h.rp.Fluid
    R = F.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    h.eq(R, E, 'saturated compliance', scale=0.01)
    D2 = (1 / Kf - 1 / K0) * phi - (b - 1 / K0)
    h.assume(abs(D2) > h.q(1, 1000))
    a = [sum(S[i, j] for j in range(3)) - (1 / (3 * K0) if i < 3 else 0) for i in range(6)]
    h.eq(F.Brown_Korringa_sat2dry(S, K0, G0, Kf, phi), [[S[i, j] + a[i] * a[j] / D2 for j in range(6)] for i in range(6)],
         'dry compliance', scale=0.01)


@case('F04')
def orthorhombic(h):
    n9 = ['S11', 'S22', 'S33', 'S12', 'S13', 'S23', 'S44', 'S55', 'S66']
    s = h.args([(n, 0.003 if n[1] == n[2] else -0.05, 0.3 if n[1] == n[2] else 0.02,
                 0.02 + 0.003 * i if n[1] == n[2] else -0.002 - 0.0003 * i) for i, n in enumerate(n9)])
    K0, G0, Kf, phi = h.args(BKF)
    h.assume(Kf < K0)
    S = h.rp.utils.write_matrix(*s)
    E, b = bk_spec(h, S, K0, Kf, phi)
    h.assume(b * K0 > 1)
    h.eq(h.rp.Fluid.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi), E, 'saturated compliance', scale=0.01)


@case('F04')
def drying_inverts_saturation(h):
    s = h.args(SD)
    K0, G0, Kf, phi = h.args(BKF)
    S = vti_S(h, *s)
    h.assume(Kf < K0)
    b = sum(S[i, j] for i in range(3) for j in range(3))
    h.assume(b * K0 > 1)
    f = h.rp.Fluid
    R = f.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    h.eq(f.Brown_Korringa_sat2dry(R, K0, G0, Kf, phi), S, 'drying undoes saturating', scale=0.01)


@case('F04')
def isotropic_limit(h):
    """isotropic frame: Brown-Korringa is Gassmann"""
    Kd, G = h.real('Kd', 0.5, 100, 12), h.real('G', 0.5, 90, 10)
    K0, G0, Kf, phi = h.args(BKF)
    h.assume(Kf < K0)
    h.assume(Kd < K0 * (1 - phi))
    S = h.np.linalg.inv(h.rp.utils.write_iso(Kd, G))
    R = h.rp.Fluid.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    Ks = h.rp.Fluid.Gassmann(Kd, G, K0, Kf, phi)[0]
    h.eq(h.np.dot(R, h.rp.utils.write_iso(Ks, G)), h.np.eye(6), 'isotropic rock follows Gassmann', scale=1)


@case('F04')
def substitution_isotropic(h):
    Kd, G = h.real('Kd', 0.5, 100, 12), h.real('G', 0.5, 90, 10)
    K0, G0, Kf, phi = h.args(BKF)
    K2 = h.real('Kf2', 0.001, 8, 0.6)
    h.assume(Kf < K0)
    h.assume(K2 < K0)
    h.assume(Kd < K0 * (1 - phi))
    F = h.rp.Fluid
    s1, s2 = F.Gassmann(Kd, G, K0, Kf, phi)[0], F.Gassmann(Kd, G, K0, K2, phi)[0]
    C1 = h.rp.utils.write_iso(s1, G)
    C2, S2 = F.Brown_Korringa_sub(C1, K0, G0, Kf, K2, phi)
    h.eq(C2, h.rp.utils.write_iso(s2, G), 'isotropic substitution follows Gassmann', scale=1)
    h.eq(h.np.dot(C2, S2), h.np.eye(6), 'returned stiffness and compliance are inverse', scale=1)


@case('F04')
def substitution(h):
    """stiffness route: invert, dry, saturate, invert"""
    K0, G0, Kf, phi = h.args(BKF)
    K2 = h.real('Kf2', 0.001, 8, 0.6)
    h.assume(Kf < K0)
    h.assume(K2 < K0)
    S = vti_S(h, *[h.q(x) for x in ('0.02', '-0.004', '-0.003', '0.03', '0.07')])
    b = sum(S[i, j] for i in range(3) for j in range(3))
    h.assume(b * K0 > 1)
    # positive definite after saturation
    a = h.arr([sum(S[i, j] for j in range(3)) - 1 / (3 * K0) for i in range(3)])
    Ci = h.np.linalg.inv(S[0:3, 0:3])
    aCa = a.dot(Ci).dot(a)
    for k in (Kf, K2):
        h.assume((1 / k - 1 / K0) * phi + (b - 1 / K0) > aCa * h.q(101, 100))
    f = h.rp.Fluid
    R1 = f.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    R2 = f.Brown_Korringa_dry2sat(S, K0, G0, K2, phi)
    C2, S2 = f.Brown_Korringa_sub(h.np.linalg.inv(R1), K0, G0, Kf, K2, phi)
    h.eq(S2, R2, 'substituted compliance equals direct saturation', scale=0.01)
    h.eq(h.np.dot(C2, R2), h.np.eye(6), 'substituted stiffness is its inverse', scale=1)


@case('F04')
def substitution_monoclinic(h):
    """stiffness route in a rock sheared by normal stress"""
    K0, G0, Kf, phi = h.args(BKF)
    K2 = h.real('Kf2', 0.001, 8, 0.6)
    D = lambda k: (1 / k - 1 / K0) * phi + (b - 1 / K0)
    q = h.q
    z = q(0)
    S = h.arr([[q(x) if x else z for x in row] for row in (
        ('0.02', '-0.004', '-0.003', 0, 0, '0.002'), ('-0.004', '0.024', '-0.005', 0, 0, '-0.003'),
        ('-0.003', '-0.005', '0.03', 0, 0, '0.004'), (0, 0, 0, '0.07', '0.01', 0), (0, 0, 0, '0.01', '0.06', 0),
        ('0.002', '-0.003', '0.004', 0, 0, '0.05'))])
    b = sum(S[i, j] for i in range(3) for j in range(3))
    h.assume(b * K0 > 1)
    h.assume(Kf < K0)
    h.assume(K2 < K0)
    a = h.arr([sum(S[i, j] for j in range(3)) - (1 / (3 * K0) if i < 3 else 0) for i in (0, 1, 2, 5)])
    ix = (0, 1, 2, 5)
    Ci = h.np.linalg.inv(h.arr([[S[i, j] for j in ix] for i in ix]))
    aCa = a.dot(Ci).dot(a)
    for k in (Kf, K2):
        h.assume(D(k) > aCa * q(101, 100))
    f = h.rp.Fluid
    R1 = f.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi)
    R2 = f.Brown_Korringa_dry2sat(S, K0, G0, K2, phi)
    C2, S2 = f.Brown_Korringa_sub(h.np.linalg.inv(R1), K0, G0, Kf, K2, phi)
    h.eq(S2, R2, 'substituted compliance equals direct saturation', scale=0.01)
    h.eq(h.np.dot(C2, R2), h.np.eye(6), 'substituted stiffness is its inverse', scale=1)


# ---- F05 high-frequency limits --------------------------------------------------------
BH = [('Kd', 1, 60, 12), ('G', 0.5, 60, 10), ('K0', 10, 120, 37), ('Kf', 0.01, 5, 2.2), ('rho0', 1.5, 4, 2.65),
      ('rhof', 0.05, 1.4, 1), ('phi', 0.02, 0.6, 0.2), ('alpha', 1, 5, 2)]


def biot_dom(h, r):
    Kd, G, K0, Kf, rho0, rhof, phi, al = r
    h.assume(Kd < K0 * (1 - phi))
    h.assume(Kf < K0)


@case('F05')
def biot_high_frequency(h):
    r = h.args(BH)
    biot_dom(h, r)
    Kd, G, K0, Kf, rho0, rhof, phi, al = r
    V1, V2, Vs = h.rp.Fluid.Biot_HF(*r)
    # Biot coefficients through the (H, C, M) form
    b = 1 - Kd / K0
    M = 1 / ((b - phi) / K0 + phi / Kf)
    H = Kd + h.q(4, 3) * G + b ** 2 * M
    C = b * M
    rho = (1 - phi) * rho0 + phi * rhof
    q = al * rhof / phi
    # det [[H - rho v2, C - rhof v2], [C - rhof v2, M - q v2]] = 0
    t3 = rho * q - rhof ** 2
    h.eq((V1 ** 2 + V2 ** 2) * t3, H * q + M * rho - 2 * C * rhof, 'sum of squared P velocities')
    h.eq(V1 ** 2 * V2 ** 2 * t3, H * M - C ** 2, 'product of squared P velocities')
    h.le(V2 ** 2, V1 ** 2, 'first output is the fast wave')
    h.ge(V1, 0, 'fast wave root')
    h.ge(V2, 0, 'slow wave root')
    h.eq(Vs ** 2 * (rho - phi * rhof / al), G, 'shear velocity')


@case('F05')
def geertsma_smit(h):
    r = h.args(BH)
    biot_dom(h, r)
    Kd, G, K0, Kf, rho0, rhof, phi, al = r
    Vp, Vs = h.rp.Fluid.Geertsma_Smit_HF(*r)
    b = 1 - Kd / K0
    M = 1 / ((b - phi) / K0 + phi / Kf)
    rho = (1 - phi) * rho0 + phi * rhof
    rb = rho - phi * rhof / al
    h.eq(rb * Vp ** 2, Kd + h.q(4, 3) * G + M * (phi * rho / (rhof * al) + b * (b - 2 * phi / al)), 'P velocity')
    h.eq(rb * Vs ** 2, G, 'S velocity')
    V1, V2, Vs2 = h.rp.Fluid.Biot_HF(*r)
    h.eq(Vs, Vs2, 'same shear velocity as the exact limit')
    # the approximation is the sum of both squared P velocities
    h.eq(Vp ** 2, V1 ** 2 + V2 ** 2, 'squared velocity is the trace of the exact limit')
    h.ge(Vp ** 2, V1 ** 2, 'the approximation overestimates the exact limit')


@case('F05')
def geertsma_smit_dispersion(h):
    V0, Vi, f, phi, rf, k, eta = h.args([('V0', 0.5, 6, 2.5), ('Vinf', 0.5, 7, 3), ('freq', 1e-3, 1000, 4), ('phi', 0.01, 0.6, 0.2),
                                         ('rhof', 0.05, 1.5, 1), ('kapa', 1e-4, 1, 0.01), ('eta', 1e-3, 2, 0.1)])
    h.assume(V0 <= Vi)
    V = h.rp.Fluid.Geertsma_Smit_LF(V0, Vi, f, phi, rf, k, eta)
    fc = phi * eta / (2 * h.pi * rf * k)
    h.eq(V ** 2 * (Vi ** 2 * f ** 2 + V0 ** 2 * fc ** 2), Vi ** 4 * f ** 2 + V0 ** 4 * fc ** 2, 'dispersion relation')
    h.between(V0, V, Vi, 'between the low and the high frequency limit')
    h.eq(h.rp.Fluid.Geertsma_Smit_LF(V0, V0, f, phi, rf, k, eta), V0, 'no dispersion when the limits agree')
    d = h.real('df', 0, 100, 1)
    h.le(V, h.rp.Fluid.Geertsma_Smit_LF(V0, Vi, f + d, phi, rf, k, eta), 'velocity grows with frequency')


@case('F05', grid=[{'n': 2}])
def arrays_hf(h, n):
    h.vec(h.rp.Fluid.Biot_HF, BH, ('Kd', 'G', 'phi'), n, 'Biot_HF', cond=biot_dom)
    h.vec(h.rp.Fluid.Geertsma_Smit_HF, BH, ('Kd', 'G', 'phi'), n, 'Geertsma_Smit_HF')
    h.vec(h.rp.Fluid.Geertsma_Smit_LF, [('V0', 0.5, 6, 2.5), ('Vinf', 0.5, 7, 3), ('freq', 1e-3, 1000, 4), ('phi', 0.01, 0.6, 0.2),
          ('rhof', 0.05, 1.5, 1), ('kapa', 1e-4, 1, 0.01), ('eta', 1e-3, 2, 0.1)], ('freq',), 3, 'Geertsma_Smit_LF')


# ---- F06 Biot dispersion -----------------------------------------------------------------
BD = [('Kd', 1, 60, 12), ('G', 0.5, 60, 10), ('K0', 10, 120, 37), ('Kf', 0.01, 5, 2.2), ('rho0', 1.5, 4, 2.65), ('rhof', 0.05, 1.4, 1),
      ('eta', 1e-4, 1, 0.1), ('phi', 0.02, 0.6, 0.2), ('kapa', 1e-5, 1, 0.001), ('a', 1e-4, 1, 0.02), ('alpha', 1, 5, 2)]


def biot_spec(h, r, f):
    Kd, G, K0, Kf, rho0, rhof, eta, phi, kapa, a, al = r
    w = 2 * h.pi * f
    rho = (1 - phi) * rho0 + phi * rhof
    b = 1 - Kd / K0
    M = 1 / ((b - phi) / K0 + phi / Kf)
    C = b * M
    H = Kd + h.q(4, 3) * G + b ** 2 * M
    z = h.sqrt(w * a ** 2 * rhof / eta)
    if h.decide(z < h.q(1, 10)):
        F = 1
    else:
        if h.decide(z <= 1000):
            e = h.np.exp(-1j * h.pi / 4)
            T = h.np.exp(1j * 3 * h.pi / 4) * h.jv(1, z * e) / h.jv(0, z * e)
        else:
            T = (1 + 1j) / h.sqrt(2)
        F = h.q(1, 4) * z * T / (1 + 2 * 1j * T / z)
    q = al * rhof / phi - 1j * eta * F / (w * kapa)
    # det [[H s - rho, C s - rhof], [C s - rhof, M s - q]] = 0 in the squared slowness s
    A = C ** 2 - M * H
    B = H * q + M * rho - 2 * C * rhof
    D = rhof ** 2 - rho * q
    disc = h.np.sqrt(B ** 2 - 4 * A * D)
    s1, s2 = (-B + disc) / (2 * A), (-B - disc) / (2 * A)
    s3 = (rho * q - rhof ** 2) / (G * q)
    V = [1 / h.np.sqrt(s).real for s in (s1, s2, s3)]
    Q = [-s.imag / s.real for s in (s1, s2, s3)]
    return V + Q


@case('F06', timeout=300)
def biot_dispersion(h):
    h.autolet(4)
    r = h.args(BD)
    biot_dom(h, r[:6] + [r[7], r[10]])
    f = h.real('freq', 1e-3, 1e6, 10)
    out = h.rp.Fluid.Biot(*r, h.arr([f]))
    E = biot_spec(h, r, f)
    h.eq([o[0] for o in out], E, 'velocities and attenuation of the Biot modes', nodef=True, tol=1e-5)


@case('F06', timeout=300)
def biot_frequency_arrays(h):
    """every frequency of an array is treated as if it were alone"""
    h.autolet(4)
    r = [h.q(x) for x in ('12', '10', '37', '2.2', '2.65', '1', '0.1', '0.2', '0.001', '0.2', '2')]
    f1, f2 = h.real('f1', 1e-3, 1e6, 3), h.real('f2', 1e-3, 1e6, 300)
    fr = h.arr([f1, f2])
    out = h.rp.Fluid.Biot(*r, fr)
    a, b = h.rp.Fluid.Biot(*r, h.arr([f1])), h.rp.Fluid.Biot(*r, h.arr([f2]))
    h.eq([[o[0], o[1]] for o in out], [[x[0], y[0]] for x, y in zip(a, b)], 'independent of the other frequencies', nodef=True)
    h.eq(fr, h.arr([f1, f2]), 'frequencies not modified')


# ---- F07 squirt ---------------------------------------------------------------------
MJ = [('Vph', 2, 7, 5), ('Vsh', 0.5, 4.5, 3), ('Vpd', 1.5, 7, 4), ('Vsd', 0.5, 4.5, 2.5), ('K0', 10, 120, 60), ('rhod', 1.2, 3.5, 2.2),
      ('rhof', 0.01, 1.5, 1), ('Kf', 0.001, 5, 2.2), ('phi', 0.005, 0.5, 0.1)]


def mj_dom(h, r):
    Vph, Vsh, Vpd, Vsd, K0, rd, rf, Kf, phi = r
    Kh = rd * (Vph ** 2 - h.q(4, 3) * Vsh ** 2)
    Kd = rd * (Vpd ** 2 - h.q(4, 3) * Vsd ** 2)
    h.assume(Kd > h.q(1, 2))
    h.assume(Kd <= Kh)
    h.assume(Kh < K0 * (1 - phi))
    h.assume(1 / (rd * Vsd ** 2) - h.q(4, 15) * (1 / Kd - 1 / Kh) > h.q(1, 1000))
    return Kh, Kd


@case('F07')
def mavko_jizba(h):
    r = h.args(MJ)
    Vph, Vsh, Vpd, Vsd, K0, rd, rf, Kf, phi = r
    Kh, Kd = mj_dom(h, r)
    # velocities in m/s
    K, G, Vp, Vs = h.rp.Fluid.Mavko_Jizba(Vph * 1000, Vsh * 1000, Vpd * 1000, Vsd * 1000, K0, rd, rf, Kf, phi)
    Gd = rd * Vsd ** 2
    h.eq(K, gassmann_spec(h, Kh, K0, Kf, phi), 'bulk modulus: high-pressure frame saturated by Gassmann')
    h.eq(1 / G, 1 / Gd - h.q(4, 15) * (1 / Kd - 1 / Kh), 'shear compliance lowered by 4/15 of the bulk change')
    rho = rd + phi * rf
    h.eq(rho * Vp ** 2, (K + h.q(4, 3) * G) * 10 ** 6, 'P velocity')
    h.eq(rho * Vs ** 2, G * 10 ** 6, 'S velocity')
    h.ge(G, Gd, 'unrelaxed rock is not softer in shear')


@case('F07')
def mavko_jizba_arrays(h):
    sp = [(a, *(x * 1000 for x in b)) if a[0] == 'V' else (a, *b) for a, *b in MJ]
    h.vec(h.rp.Fluid.Mavko_Jizba, sp, ('Vpd', 'Vsd'), 2, 'Mavko_Jizba', nodef=True, const=(0,),
          cond=lambda h, r: mj_dom(h, [x / 1000 for x in r[:4]] + list(r[4:])))


S5 = [('S11', 0.008, 0.2, 0.03), ('S12', -0.02, -0.001, -0.005), ('S13', -0.02, -0.001, -0.006), ('S33', 0.008, 0.2, 0.05),
      ('S44', 0.02, 0.4, 0.11)]


@case('F07')
def squirt_closed_form(h):
    s = h.args(S5)
    d = h.args([('d11', 0.001, 0.05, 0.01), ('d12', -0.004, 0.004, -0.0005), ('d13', -0.004, 0.004, -0.001), ('d33', 0.001, 0.08, 0.02),
                ('d44', 0.002, 0.1, 0.02)])
    hp = [a - b for a, b in zip(s, d)]
    W = h.rp.Fluid.Squirt_anisotropic(s, hp)
    tot = 2 * d[0] + 2 * d[1] + 4 * d[2] + d[3]
    h.assume(tot > h.q(1, 1000))
    e = [x / tot for x in d]
    al = (2 * e[0] + e[3] + 4 * e[4] + 4 * (e[0] - e[1]) - 1) / 4
    T = 1 - 4 * al
    h.assume(abs(T) > h.q(1, 100))
    G = [e[0] - 4 * al * (e[1] + e[2]) / T, e[1] / T, e[2] / T, e[3] - 8 * al * e[2] / T]
    G.append(e[4] / T - (e[0] + e[2]) / (4 * T) + (G[0] + G[3]) / 4)
    h.eq(list(W), [a - tot * g for a, g in zip(s, G)], 'wet compliance', scale=0.01)
    beta = lambda S: 2 * S[0] + 2 * S[1] + 4 * S[2] + S[3]
    h.eq(beta(W), beta(hp), 'unrelaxed bulk compressibility is the crack-free one', scale=0.01)
    h.eq(list(h.rp.Fluid.Squirt_anisotropic(h.arr(s), h.arr(hp))), list(W), 'lists and arrays agree', scale=0.01)


# ---- F08 patchy saturation ------------------------------------------------------------------
WD = [('Kd', 2, 30, 10), ('G', 1, 30, 8), ('K0', 25, 90, 37), ('phi', 0.05, 0.4, 0.2), ('rho0', 2, 3, 2.65), ('rf1', 0.05, 1.2, 0.2),
      ('rf2', 0.05, 1.2, 1), ('Kf1', 0.01, 3, 0.05), ('Kf2', 0.01, 3, 2.2), ('eta1', 1e-5, 5e-3, 1e-4), ('eta2', 1e-5, 5e-3, 1e-3),
      ('kapa', 0.1, 10, 1), ('a', 0.005, 0.05, 0.02), ('sg', 0.002, 0.998, 0.2), ('freq', 1, 1000, 50)]
# GPa -> Pa, g/cc -> kg/m3, darcy-like -> m2
WU = [10 ** 9, 10 ** 9, 10 ** 9, 1, 1000, 1000, 1000, 10 ** 9, 10 ** 9, 1, 1, None, 1, 1, 1]


def wdo_args(h, pick=None, suffix=''):
    r = []
    for i in (pick or range(15)):
        n, lo, hi, d = WD[i]
        v = h.real(n + suffix, lo, hi, d)
        r.append(v * h.q(1, 10 ** 12) if WU[i] is None else v * WU[i])
    return r


def wdo_spec(h, r):
    Kd, G, K0, phi, rho0, rf1, rf2, Kf1, Kf2, e1, e2, kapa, a, sg, f = r
    w = 2 * h.pi * f
    b = a / h.pow(sg, h.q(1, 3) if h.symbolic else 1 / 3)
    c = 1 - Kd / K0
    K1, K2 = gassmann_spec(h, Kd, K0, Kf1, phi), gassmann_spec(h, Kd, K0, Kf2, phi)
    den = K2 * (3 * K1 + 4 * G) + 4 * G * (K1 - K2) * sg
    R1 = (K1 - Kd) / c * (3 * K2 + 4 * G) / den
    R2 = (K2 - Kd) / c * (3 * K1 + 4 * G) / den
    KA = [1 / (phi / k + (c - phi) / K0) for k in (Kf1, Kf2)]
    KE = [(1 - k * (1 - K / K0) * c / (phi * K * (1 - k / K0))) * A for k, K, A in ((Kf1, K1, KA[0]), (Kf2, K2, KA[1]))]
    q1 = h.np.sqrt(1j * w * e1 / (kapa * KE[0]))
    q2 = h.np.sqrt(1j * w * e2 / (kapa * KE[1]))
    ex = h.np.exp
    Z1 = e1 * a / kapa * (1 - ex(-2 * q1 * a)) / (q1 * a - 1 + (q1 * a + 1) * ex(-2 * q1 * a))
    X = ex(2 * q2 * (b - a))
    Z2 = -e2 * a / kapa * (q2 * b + 1 + (q2 * b - 1) * X) / ((q2 * b + 1) * (q2 * a - 1) - (q2 * b - 1) * (q2 * a + 1) * X)
    Q = [c * A / K for A, K in zip(KA, (K1, K2))]
    W = 3 * a ** 2 * (R1 - R2) * (Q[1] - Q[0]) / (b ** 3 * 1j * w * (Z1 + Z2))
    Kinf = den / (3 * K1 + 4 * G - 3 * (K1 - K2) * sg)
    return Kinf / (1 - Kinf * W), Kinf


def wdo_dom(h, r):
    Kd, G, K0, phi = r[:4]
    h.assume(Kd < K0 * (1 - phi) * h.q(9, 10))


@case('F08', timeout=300)
def complex_modulus(h):
    h.autolet(4)
    r = wdo_args(h)
    wdo_dom(h, r)
    Vp, at, K = h.rp.Fluid.White_Dutta_Ode(*r)
    E, Kinf = wdo_spec(h, r)
    h.eq(K, E, 'complex bulk modulus', nodef=True, tol=1e-5)
    Kd, G, K0, phi, rho0, rf1, rf2 = r[:7]
    sg, w = r[13], 2 * h.pi * r[14]
    rho = (1 - phi) * rho0 + phi * (sg * rf1 + (1 - sg) * rf2)
    M = K + h.q(4, 3) * G
    th = h.np.arctan(M.imag / M.real)
    V = h.sqrt(h.np.abs(M) / rho) / h.cos(th / 2)
    h.eq(Vp, V, 'phase velocity', nodef=True, tol=1e-5)
    h.eq(at, w / V * h.tan(th / 2), 'attenuation', nodef=True, tol=1e-5, scale=1e-9)


@case('F08', timeout=300)
def identical_fluids(h):
    """patches of the same fluid: Gassmann, no loss, whatever geometry and frequency"""
    h.autolet(4)
    Kd, G, K0, phi, rho0, rf, Kf, a, sg, f = wdo_args(h, (0, 1, 2, 3, 4, 6, 8, 12, 13, 14))
    e1, e2, k = wdo_args(h, (9, 10, 11))
    h.assume(Kd < K0 * (1 - phi) * h.q(9, 10))
    Vp, at, K = h.rp.Fluid.White_Dutta_Ode(Kd, G, K0, phi, rho0, rf, rf, Kf, Kf, e1, e2, k, a, sg, f)
    Ks = gassmann_spec(h, Kd, K0, Kf, phi)
    h.eq(K.real, Ks, 'bulk modulus is Gassmann', nodef=True)
    h.eq(K.imag, 0, 'no attenuation in the modulus', scale=1, nodef=True)
    rho = (1 - phi) * rho0 + phi * rf
    h.eq(rho * Vp ** 2, Ks + h.q(4, 3) * G, 'velocity is the Gassmann velocity', nodef=True)
    h.eq(at, 0, 'no attenuation', scale=1, nodef=True)


@case('F08', timeout=300)
def frequency_arrays(h):
    h.autolet(4)
    r = [h.q(x) for x in ('10e9', '8e9', '37e9', '0.2', '2650', '200', '1000', '0.05e9', '2.2e9', '0.0001', '0.001')] + \
        [h.q(1, 10 ** 12), h.q(1, 50), h.q(1, 8)]
    f1, f2 = h.real('f1', 1, 100, 20), h.real('f2', 1, 100, 70)
    out = h.rp.Fluid.White_Dutta_Ode(*r, h.arr([f1, f2]))
    for i, f in enumerate((f1, f2)):
        one = h.rp.Fluid.White_Dutta_Ode(*r, f)
        h.eq([o[i] for o in out], list(one), 'independent of the other frequencies', nodef=True)
