"""reflectivity of interfaces"""
from rpsym.harness import case
from fractions import Fraction
from _lib import *


def rad(h, x):
    return x * h.pi / 180


LAY = [('vp1', 500, 8000, 2500), ('vp2', 500, 8000, 3100), ('vs1', 100, 5000, 1200), ('vs2', 100, 5000, 1700),
       ('d1', 500, 5000, 2200), ('d2', 500, 5000, 2400)]


def in_units(h, spec, factors, suffix=''):
    """arguments in other units: every range times its factor"""
    return h.args([(a + suffix, *(Fraction(str(x)) * k for x in r)) for (a, *r), k in zip(spec, factors)])


KM = [{'km': False}, {'km': True}]


def layers(h, suffix='', km=False):
    vp1, vp2, vs1, vs2, d1, d2 = v = in_units(h, LAY, [Fraction(1, 1000) if km else 1] * 6, suffix)
    h.assume(vp1 > vs1)
    h.assume(vp2 > vs2)
    return v


def aki(h, theta, vp1, vp2, vs1, vs2, d1, d2):
    t = rad(h, theta)
    s, c = h.sin(t), h.cos(t)
    rp = 2 * (vp2 - vp1) / (vp2 + vp1)
    rs = 2 * (vs2 - vs1) / (vs2 + vs1)
    rd = 2 * (d2 - d1) / (d2 + d1)
    k = ((vs1 + vs2) / (vp1 + vp2)) ** 2
    M = -4 * k * rs - 2 * k * rd
    R0, G = (rp + rd) / 2, M + rp / 2
    Rpp = R0 + M * s ** 2 + rp / 2 * s ** 2 / c ** 2
    b = (vs1 + vs2) / 2
    a = (vp1 + vp2) / 2
    p = s / vp1
    cj = h.sqrt(1 - (s * vs1 / vp1) ** 2)
    q = 2 * b * c * cj / a
    Rps = -p * a / (2 * cj) * ((1 - 2 * b ** 2 * p ** 2 + q) * rd - (4 * b ** 2 * p ** 2 - 2 * q) * rs)
    return Rpp, Rps, R0, G


# ---- V01 Aki-Richards -----------------------------------------------------------------
@case('V01', grid=KM)
def aki_formula(h, km):
    v = layers(h, km=km)
    th = h.real('theta', 0, 80, 25)
    Rpp, Rps, R0, G = h.rp.AVO.Aki_Richards(th, *v)
    w = aki(h, th, *v)
    h.eq(R0, w[2], 'normal-incidence reflectivity', scale=1)
    h.eq(G, w[3], 'gradient', scale=1)
    h.eq(Rpp, w[0], 'PP reflectivity', scale=1)
    h.eq(Rps, w[1], 'PS reflectivity', scale=1)


@case('V01')
def aki_normal(h):
    v = layers(h)
    vp1, vp2, vs1, vs2, d1, d2 = v
    Rpp, Rps, R0, G = h.rp.AVO.Aki_Richards(h.q(0), *v)
    h.eq(Rpp, R0, 'PP at normal incidence')
    h.eq(Rps, 0, 'no conversion at normal incidence', scale=1)
    # doubles as statement about the sign: positive for an increase of velocity and density
    h.eq(R0, (vp2 - vp1) / (vp2 + vp1) + (d2 - d1) / (d2 + d1), 'impedance contrast', scale=1)


@case('V01')
def aki_no_contrast(h):
    vp, vs, d = h.args([('vp', 500, 8000, 2500), ('vs', 100, 5000, 1200), ('d', 500, 5000, 2200)])
    th = h.real('theta', 0, 80, 25)
    h.assume(vp > vs)
    h.eq(h.rp.AVO.Aki_Richards(th, vp, vp, vs, vs, d, d), [0, 0, 0, 0], 'no reflection without contrast', scale=1)


@case('V01')
def aki_reversal(h):
    v = layers(h)
    vp1, vp2, vs1, vs2, d1, d2 = v
    th = h.real('theta', 0, 80, 25)
    a = h.rp.AVO.Aki_Richards(th, *v)
    b = h.rp.AVO.Aki_Richards(th, vp2, vp1, vs2, vs1, d2, d1)
    for k, n in ((0, 'PP reflectivity'), (2, 'intercept'), (3, 'gradient')):
        h.eq(b[k], -a[k], n + ' changes sign when the layers are exchanged', scale=1)


@case('V01')
def aki_sign_of_the_angle(h):
    """a ray from the other side: the same reflection, the converted wave with the opposite sign"""
    v = layers(h)
    th = h.real('theta', 0, 80, 25)
    a, b = h.rp.AVO.Aki_Richards(th, *v), h.rp.AVO.Aki_Richards(-th, *v)
    h.eq([b[0], b[2], b[3]], [a[0], a[2], a[3]], 'PP reflectivity is even in the angle', scale=1)
    h.eq(b[1], -a[1], 'PS reflectivity is odd in the angle', scale=1)


@case('V01')
def aki_angles(h):
    v = layers(h)
    f = lambda th: h.rp.AVO.Aki_Richards(th, *v)
    h.vec(f, [('theta', 0, 80, 25)], ('theta',), 3, 'over angles', const=(2, 3))


@case('V01', grid=[{'n': 1, 'm': 2}, {'n': 2, 'm': 2}, {'n': 2, 'm': 1}, {'n': 3, 'm': 2, '_thorough': True}])
def aki_table(h, n, m):
    """n interfaces x m angles"""
    rows = [layers(h, '_%d' % i) for i in range(n)]
    th = [h.real('theta_%d' % j, 0, 80, 15 + 9 * j) for j in range(m)]
    cols = [h.arr([r[k] for r in rows]) for k in range(6)]
    A = h.arr(th)
    res = h.rp.AVO.Aki_Richards(A, *cols)
    h.true(h.np.shape(res[0]) == (n, m) and h.np.shape(res[1]) == (n, m), 'one row per interface, one column per angle')
    h.true(h.np.shape(res[2]) == (n, 1) and h.np.shape(res[3]) == (n, 1), 'one intercept and gradient per interface')
    for i in range(n):
        for j in range(m):
            w = aki(h, th[j], *rows[i])
            h.eq(res[0][i, j], w[0], 'PP %d %d' % (i, j), scale=1)
            h.eq(res[1][i, j], w[1], 'PS %d %d' % (i, j), scale=1)
        h.eq(res[2][i, 0], w[2], 'intercept %d' % i, scale=1)
        h.eq(res[3][i, 0], w[3], 'gradient %d' % i, scale=1)
    for k in range(6):
        h.eq([cols[k][i] for i in range(n)], [r[k] for r in rows], 'layer arrays are not modified')
    h.eq([A[j] for j in range(m)], th, 'angles are not modified')


# ---- V02 AVO attributes ---------------------------------------------------------------
def abe_ref(h, vp1, vs1, d1, vp2, vs2, d2):
    q = h.q
    rp = 2 * (vp2 - vp1) / (vp2 + vp1)
    rs = 2 * (vs2 - vs1) / (vs2 + vs1)
    rd = 2 * (d2 - d1) / (d2 + d1)
    g = (vs1 + vs2) / (vp1 + vp2)
    nu = lambda a, b: (a ** 2 - 2 * b ** 2) / (2 * (a ** 2 - b ** 2))
    n1, n2 = nu(vp1, vs1), nu(vp2, vs2)
    n = (n1 + n2) / 2
    A = (rp + rd) / 2
    # Shuey: A0 R0 + dnu/(1-nu)^2, A0 R0 = rp/2 - 2 (R0 + rp/2)(1-2nu)/(1-nu)
    B1 = rp / 2 - 2 * (A + rp / 2) * (1 - 2 * n) / (1 - n) + (n2 - n1) / (1 - n) ** 2
    B2 = rp / 2 - 4 * g ** 2 * rs - 2 * g ** 2 * rd
    E1 = -rd / 2 - g * (rd + 2 * rs) + g ** 3 * (rd / 2 + rs)
    E2 = -2 * vs1 / vp1 * (rd * (q(1, 2) + q(1, 4) / g) + rs)
    return A, B1, B2, E1, E2


@case('V02', grid=KM)
def attributes(h, km):
    vp1, vp2, vs1, vs2, d1, d2 = layers(h, km=km)
    r = h.rp.AVO.AVO_abe(vp1, vs1, d1, vp2, vs2, d2)
    w = abe_ref(h, vp1, vs1, d1, vp2, vs2, d2)
    for a, b, n in zip(r, w, ('intercept', 'Shuey gradient', 'Castagna gradient', 'PS cubic term', 'PS gradient')):
        h.eq(a, b, n, scale=1)


@case('V02')
def attributes_and_aki(h):
    vp1, vp2, vs1, vs2, d1, d2 = layers(h)
    r = h.rp.AVO.AVO_abe(vp1, vs1, d1, vp2, vs2, d2)
    _, _, R0, G = h.rp.AVO.Aki_Richards(h.q(10), vp1, vp2, vs1, vs2, d1, d2)
    h.eq(r[0], R0, 'intercept is that of Aki-Richards', scale=1)
    h.eq(r[2], G, 'gradient is that of Aki-Richards', scale=1)


@case('V02')
def attributes_no_contrast(h):
    vp, vs, d = h.args([('vp', 500, 8000, 2500), ('vs', 100, 5000, 1200), ('d', 500, 5000, 2200)])
    h.assume(vp > vs)
    h.eq(h.rp.AVO.AVO_abe(vp, vs, d, vp, vs, d), [0] * 5, 'all attributes vanish without contrast', scale=1)


@case('V02')
def attributes_arrays(h):
    sp = [('vp1', 2000, 8000, 2500), ('vs1', 100, 1900, 1200), ('d1', 500, 5000, 2200),
          ('vp2', 2000, 8000, 3100), ('vs2', 100, 1900, 1700), ('d2', 500, 5000, 2400)]
    h.vec(h.rp.AVO.AVO_abe, sp, [a for a, *r in sp], 2, 'over interfaces', nodef=True)
    h.vec(h.rp.AVO.AVO_abe, [(a + 'x', *r) for a, *r in sp], ('vp2x', 'vs2x', 'd2x'), 2, 'one cap rock', nodef=True)


# ---- V03 HTI ----------------------------------------------------------------------------
HT = [('C11', 5, 120, 25), ('C33', 5, 120, 32), ('C13', 1, 40, 9), ('C44', 1, 40, 9), ('C55', 1, 40, 7), ('C66', 1, 40, 7.5), ('D', 1, 4, 2.3)]


def medium(h, s, si=False):
    C11, C33, C13, C44, C55, C66, D = v = in_units(h, HT, [(1000 if a == 'D' else 10 ** 9) if si else 1 for a, *_ in HT], s)
    h.assume(C33 > C55)
    M = h.np.zeros((6, 6)) if not h.symbolic else None
    z = h.q(0)
    C = [[z] * 6 for _ in range(6)]
    C[0][0], C[1][1], C[2][2], C[0][2], C[2][0], C[3][3], C[4][4], C[5][5] = C11, C33, C33, C13, C13, C44, C55, C66
    return h.arr(C), v


def hti_ref(h, a, b, t, az):
    def par(C11, C33, C13, C44, C55, C66, D):
        al, be = h.sqrt(C33 / D), h.sqrt(C44 / D)
        return (al, be, D * al, C44, (C44 - C66) / (2 * C66), (C11 - C33) / (2 * C33),
                ((C13 + C55) ** 2 - (C33 - C55) ** 2) / (2 * C33 * (C33 - C55)))
    A, B = par(*a), par(*b)
    d = [y - x for x, y in zip(A, B)]
    m = [(x + y) / 2 for x, y in zip(A, B)]
    t, az = rad(h, t), rad(h, az)
    s2, c2 = h.sin(t) ** 2, h.cos(t) ** 2
    ca, sa = h.cos(az) ** 2, h.sin(az) ** 2
    k = 4 * (m[1] / m[0]) ** 2
    G = d[0] / m[0] - k * d[3] / m[3] + (d[6] + 2 * k * d[4]) * ca
    F = d[0] / m[0] + d[5] * ca ** 2 + d[6] * sa * ca
    return (d[2] / m[2] + G * s2 + F * s2 * s2 / c2) / 2


def flat(x, h):
    h.true(h.np.shape(x) == (1, 1), 'one value for one angle and one azimuth')
    return x[0, 0]


@case('V03', grid=[{'si': False}, {'si': True}])
def hti_formula(h, si):
    C1, a = medium(h, '_1', si)
    C2, b = medium(h, '_2', si)
    t, az = h.real('theta', 0, 80, 25), h.real('azimuth', -180, 360, 40)
    r = flat(h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, t, az), h)
    h.eq(r, hti_ref(h, a, b, t, az), 'Ruger reflectivity', scale=1)


@case('V03', grid=[{'n': 2, 'm': 2}, {'n': 1, 'm': 3}, {'n': 3, 'm': 1}])
def hti_table(h, n, m):
    C1, a = medium(h, '_1')
    C2, b = medium(h, '_2')
    t = [h.real('theta_%d' % i, 0, 80, 10 + 12 * i) for i in range(n)]
    az = [h.real('azimuth_%d' % i, -180, 360, 30 + 40 * i) for i in range(m)]
    T, A = h.arr(t), h.arr(az)
    keep = [[C1[i, j] for j in range(6)] for i in range(6)]
    r = h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, T, A)
    h.true(h.np.shape(r) == (m, n), 'one row per azimuth, one column per angle')
    for i in range(m):
        for j in range(n):
            h.eq(r[i, j], hti_ref(h, a, b, t[j], az[i]), 'azimuth %d angle %d' % (i, j), scale=1)
    h.eq([T[i] for i in range(n)], t, 'angles are not modified')
    h.eq([A[i] for i in range(m)], az, 'azimuths are not modified')
    h.eq([[C1[i, j] for j in range(6)] for i in range(6)], keep, 'stiffness is not modified')


@case('V03')
def hti_normal(h):
    C1, a = medium(h, '_1')
    C2, b = medium(h, '_2')
    az = h.real('azimuth', -180, 360, 40)
    r = flat(h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, h.q(0), az), h)
    Z1, Z2 = h.sqrt(a[1] * a[-1]), h.sqrt(b[1] * b[-1])
    h.eq(r * (Z2 + Z1), Z2 - Z1, 'impedance contrast at normal incidence for every azimuth', scale=1)


@case('V03')
def hti_reversal(h):
    C1, a = medium(h, '_1')
    C2, b = medium(h, '_2')
    t, az = h.real('theta', 0, 80, 25), h.real('azimuth', -180, 360, 40)
    r = flat(h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, t, az), h)
    s = flat(h.rp.AVO.AVO_HTI(b[-1], a[-1], C2, C1, t, az), h)
    h.eq(s, -r, 'sign changes when the media are exchanged', scale=1)
    h.eq(h.rp.AVO.AVO_HTI(a[-1], a[-1], C1, C1, t, az)[0, 0], 0, 'no reflection without contrast', scale=1)


# ---- V04 orthorhombic and isotropic limits ---------------------------------------------
OR = [('a', 0.5, 8, 3), ('b', 0.1, 5, 1.5), ('e1', -0.4, 0.6, 0.1), ('d1', -0.4, 0.6, 0.05), ('e2', -0.4, 0.6, 0.12),
      ('d2', -0.4, 0.6, 0.07), ('g', -0.4, 0.6, 0.08), ('rho', 1, 4, 2.3)]


def omed(h, s, km=True):
    return in_units(h, OR, [1000 if a in ('a', 'b', 'rho') and not km else 1 for a, *_ in OR], s)


def ortho_ref(h, p, q, th):
    a1, b1, e11, d11, e12, d12, g1, r1 = p
    a2, b2, e21, d21, e22, d22, g2, r2 = q
    t = rad(h, th)
    s2, t2 = h.sin(t) ** 2, h.sin(t) ** 2 / h.cos(t) ** 2
    R0 = (r2 * a2 - r1 * a1) / (r2 * a2 + r1 * a1)
    k = 4 * ((b1 + b2) / (a1 + a2)) ** 2
    ra = 2 * (a2 - a1) / (a2 + a1)
    rg = 2 * (r2 * b2 ** 2 - r1 * b1 ** 2) / (r2 * b2 ** 2 + r1 * b1 ** 2)
    xz = R0 + (ra - k * rg + 2 * k * (g2 - g1) + d22 - d12) * s2 / 2 + (ra + e22 - e12) * s2 * t2 / 2
    yz = R0 + (ra - k * rg + d21 - d11) * s2 / 2 + (ra + e21 - e11) * s2 * t2 / 2
    return xz, yz


@case('V04', grid=KM)
def ortho_formula(h, km):
    p, q = omed(h, '_1', km), omed(h, '_2', km)
    th = h.real('theta', 0, 80, 25)
    r = h.rp.AVO.AVO_ortho(*p, *q, th)
    w = ortho_ref(h, p, q, th)
    h.eq(r[0], w[0], 'reflectivity in the xz plane', scale=1)
    h.eq(r[1], w[1], 'reflectivity in the yz plane', scale=1)


@case('V04')
def ortho_limits(h):
    p, q = omed(h, '_1'), omed(h, '_2')
    th = h.real('theta', 0, 80, 25)
    r = h.rp.AVO.AVO_ortho(*p, *q, th)
    s = h.rp.AVO.AVO_ortho(*q, *p, th)
    h.eq(s, [-r[0], -r[1]], 'sign changes when the media are exchanged', scale=1)
    h.eq(h.rp.AVO.AVO_ortho(*p, *p, th), [0, 0], 'no reflection without contrast', scale=1)
    n = h.rp.AVO.AVO_ortho(*p, *q, h.q(0))
    h.eq(n[0], n[1], 'planes agree at normal incidence', scale=1)
    h.eq(n[0] * (p[7] * p[0] + q[7] * q[0]), q[7] * q[0] - p[7] * p[0], 'impedance contrast at normal incidence', scale=1)


@case('V04')
def isotropic_media(h):
    """isotropic media: both planes and every azimuth of the anisotropic formulas agree"""
    a1, b1, r1 = h.args([('a_1', 2, 8, 3), ('b_1', 0.1, 1.9, 1.2), ('rho_1', 1, 4, 2.3)])
    a2, b2, r2 = h.args([('a_2', 2, 8, 4), ('b_2', 0.1, 1.9, 1.5), ('rho_2', 1, 4, 2.5)])
    th, az = h.real('theta', 0, 80, 25), h.real('azimuth', -180, 360, 40)
    z = h.q(0)
    x, y = h.rp.AVO.AVO_ortho(a1, b1, z, z, z, z, z, r1, a2, b2, z, z, z, z, z, r2, th)
    h.eq(x, y, 'planes of an isotropic medium', scale=1)
    C = lambda a, b, r: h.arr(iso_tensor(h, r * (a ** 2 - 2 * b ** 2), r * b ** 2))
    R = h.rp.AVO.AVO_HTI(r1, r2, C(a1, b1, r1), C(a2, b2, r2), th, az)[0, 0]
    h.eq(R, x, 'isotropic limit of the HTI formula at every azimuth', scale=1)


@case('V04')
def hti_symmetry_plane(h):
    """an HTI medium seen in its symmetry planes is the orthorhombic result"""
    C1, a = medium(h, '_1')
    C2, b = medium(h, '_2')
    th = h.real('theta', 0, 80, 25)

    def par(C11, C33, C13, C44, C55, C66, D):
        return [h.sqrt(C33 / D), h.sqrt(C44 / D), h.q(0), h.q(0), (C11 - C33) / (2 * C33),
                ((C13 + C55) ** 2 - (C33 - C55) ** 2) / (2 * C33 * (C33 - C55)), (C44 - C66) / (2 * C66), D]
    x, y = h.rp.AVO.AVO_ortho(*par(*a), *par(*b), th)
    h.eq(h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, th, h.q(0))[0, 0], x, 'symmetry-axis plane', scale=1)
    h.eq(h.rp.AVO.AVO_HTI(a[-1], b[-1], C1, C2, th, h.q(90))[0, 0], y, 'isotropy plane', scale=1)


@case('V04')
def ortho_arrays(h):
    p, q = omed(h, '_1'), omed(h, '_2')
    h.vec(lambda t: h.rp.AVO.AVO_ortho(*p, *q, t), [('theta', 0, 80, 25)], ('theta',), 3, 'over angles')
    h.vec(lambda a, t: h.rp.AVO.AVO_ortho(*p, a, *q[1:], t), [('am', 0.5, 8, 3), ('thm', 0, 80, 25)], ('am', 'thm'), 2, 'over media')


# ---- V05 Zoeppritz ------------------------------------------------------------------------
def zoep(h, vp1, vs1, r1, vp2, vs2, r2, c1, p, wrong):
    """Aki and Richards (2002), 5.40; c1 = cos(theta1), p = ray parameter"""
    cos = lambda v: h.sqrt(1 - (p * v) ** 2)
    i1, i2, j1, j2 = c1 / vp1, cos(vp2) / vp2, cos(vs1) / vs1, cos(vs2) / vs2
    m1, m2 = (vs1 * p) ** 2, (vs2 * p) ** 2
    a = r2 * (1 - 2 * m2) - r1 * (1 - 2 * m1)
    b = r2 * (1 - 2 * m2) + 2 * r1 * m1
    c = r1 * (1 - 2 * m1) + 2 * r2 * m2
    d = 2 * (r2 * vs2 ** 2 - r1 * vs1 ** 2)
    E = b * i1 + c * i2
    F = b * j1 + c * j2
    G = a - d * i1 * j2
    H = a - d * i2 * (j2 if wrong else j1)
    D = E * F + G * H * p ** 2
    Rpp = ((b * i1 - c * i2) * F - (a + d * i1 * j2) * H * p ** 2) / D
    Rps = -2 * i1 * (a * b + c * d * i2 * j2) * p * vp1 / (vs1 * D)
    return Rpp, Rps


ZL = [('vp1', 500, 8000, 2500), ('vs1', 100, 5000, 1200), ('d1', 500, 5000, 2200),
      ('vp2', 500, 8000, 2100), ('vs2', 100, 5000, 1000), ('d2', 500, 5000, 2400)]


def zlay(h, km=False):
    v = in_units(h, ZL, [Fraction(1, 1000) if km else 1] * 6)
    h.assume(v[0] > v[1])
    h.assume(v[3] > v[4])
    return v


@case('V05', grid=KM)
def zoeppritz_formula(h, km):
    v = zlay(h, km)
    th = h.real('theta', 0, 89, 20)
    t = rad(h, th)
    for s in (h.sin(th), h.sin(t)):
        for x in (v[1], v[3], v[4]):
            h.assume(-v[0] < s * x)
            h.assume(s * x < v[0])
    h.autolet(6)
    w = zoep(h, *v, h.cos(t), h.sin(t) / v[0], False)
    d = zoep(h, *v, h.cos(t), h.sin(th) / v[0], True)
    r = h.rp.AVO.zoeppritz(*v, th)
    h.eq(r[0], w[0], 'PP reflectivity', finding='zoeppritz-angle', defect=d[0], nodef=True, scale=1)
    h.eq(r[1], w[1], 'PS reflectivity', finding='zoeppritz-angle', defect=d[1], nodef=True, scale=1)


@case('V05', grid=KM)
def zoeppritz_normal(h, km):
    v = zlay(h, km)
    vp1, vs1, r1, vp2, vs2, r2 = v
    Rpp, Rps = h.rp.AVO.zoeppritz(*v, h.q(0))
    h.eq(Rpp * (r2 * vp2 + r1 * vp1), r2 * vp2 - r1 * vp1, 'impedance contrast at normal incidence', scale=1)
    h.eq(Rps, 0, 'no conversion at normal incidence', scale=1)


@case('V05')
def zoeppritz_arrays(h):
    v = zlay(h)
    h.assume(v[0] > v[3])
    h.autolet(6)
    h.vec(lambda t: h.rp.AVO.zoeppritz(*v, t), [('theta', 0, 89, 20)], ('theta',), 3, 'over angles', nodef=True)


@case('V05')
def zoeppritz_media(h):
    th = h.real('theta', 0, 89, 20)
    h.autolet(6)
    sp = [('vp1', 1000, 8000, 5500), ('vs1', 100, 4900, 1200), ('d1', 500, 5000, 2200),
          ('vp2', 500, 8000, 3100), ('vs2', 100, 4900, 1700), ('d2', 500, 5000, 2400)]
    t = rad(h, th)

    def below_critical(h, v):
        for s in (h.sin(th), h.sin(t)):
            for x in (v[1], v[3], v[4]):
                h.assume(-v[0] < s * x)
                h.assume(s * x < v[0])
    h.vec(lambda *a: h.rp.AVO.zoeppritz(*a, th), sp, [a for a, *r in sp], 2, 'over interfaces', nodef=True, cond=below_critical)


# ---- V06 elastic impedance ------------------------------------------------------------------
def ei_ref(h, vp, vs, rho, th, SP, nvp, nvs, nr, norm):
    """nvp, nvs, nr: means used for normalisation"""
    t = rad(h, th)
    s, c = h.sin(t), h.cos(t)
    ss = s / vp * vs                       # sine of the shear angle, before normalisation
    cs = h.sqrt(1 - ss ** 2)
    if norm:
        Ip, Is = nvp * nr, nvs * nr
        vp, vs, rho = vp / nvp, vs / nvs, rho / nr
    else:
        Ip = Is = 1
    P = h.pow
    k = h.sqrt(1 - (SP * s) ** 2)
    pp = Ip * P(vp, 1 + (s / c) ** 2) * P(vs, -8 * (SP * s) ** 2) * P(rho, 1 - 4 * (SP * s) ** 2)
    psv = Ip * P(vs, s / k * (4 * (SP * s) ** 2 - 4 * SP * c * k)) * P(rho, -s / k * (1 - 2 * (SP * s) ** 2 + 2 * SP * c * k))
    m = h.sqrt(1 - ss ** 2 / SP ** 2)
    svp = Is * P(vs, ss / m * (4 * ss ** 2 - 4 * SP * cs * m)) * P(rho, -ss / m * (1 - 2 * ss ** 2 + 2 * SP * cs * m))
    svsv = Is * P(vs, -1 / cs ** 2 + 8 * ss ** 2) * P(rho, 4 * ss ** 2 - 1)
    shsh = Is * P(vs, ss ** 2 / cs ** 2 - 1) / rho
    return pp, psv, svp, svsv, shsh


NM = ('PP', 'PSV', 'SVP', 'SVSV', 'SHSH')


def elast(h, s='', km=False):
    v = in_units(h, [('Vp', 500, 8000, 2500), ('Vs', 100, 5000, 1200), ('rho', 0.5, 5, 2.2)], (Fraction(1, 1000), Fraction(1, 1000), 1) if km else (1, 1, 1), s)
    h.assume(v[0] > v[1])
    return v


def small(h, vp, vs, th, SP):
    """shear conversion below the critical angle"""
    h.assume(h.sin(rad(h, th)) * vs < SP * vp)


@case('V06', grid=[{'norm': n, 'km': k} for n in (True, False) for k in (False, True)])
def ei_formula(h, norm, km):
    vp, vs, rho = elast(h, km=km)
    th, SP = h.real('theta', 0, 80, 20), h.real('SP', 0.1, 0.9, 0.5)
    small(h, vp, vs, th, SP)
    r = h.rp.AVO.EI_ref(vp, vs, rho, th, SP, norm)
    w = ei_ref(h, vp, vs, rho, th, SP, vp, vs, rho, norm)
    for a, b, n in zip(r, w, NM):
        h.eq(a, b, n + ' impedance', nodef=True)


@case('V06')
def ei_normal(h):
    vp, vs, rho = elast(h)
    SP = h.real('SP', 0.1, 0.9, 0.5)
    r = h.rp.AVO.EI_ref(vp, vs, rho, h.q(0), SP, norm=False)
    h.eq(r[0], vp * rho, 'PP impedance is the acoustic impedance at normal incidence')
    h.eq([r[1], r[2]], [1, 1], 'converted impedances do not vary at normal incidence')
    h.eq([r[3] * vs * rho, r[4] * vs * rho], [1, 1], 'shear impedances at normal incidence')


@case('V06', grid=[{'n': 2, 'm': 2, 'norm': True}, {'n': 2, 'm': 1, 'norm': False}, {'n': 1, 'm': 2, 'norm': True},
                   {'n': 3, 'm': 2, 'norm': True, '_thorough': True}])
def ei_table(h, n, m, norm):
    rows = [elast(h, '_%d' % i) for i in range(n)]
    th = [h.real('theta_%d' % j, 0, 80, 10 + 9 * j) for j in range(m)]
    SP = h.real('SP', 0.1, 0.9, 0.5)
    for r in rows:
        for t in th:
            small(h, r[0], r[1], t, SP)
    cols = [h.arr([r[k] for r in rows]) for k in range(3)]
    A = h.arr(th)
    if norm:
        res = h.rp.AVO.EI_ref(*cols, A, SP)          # normalisation is the default
    else:
        res = h.rp.AVO.EI_ref(*cols, A, SP, norm=False)
    mean = [sum(r[k] for r in rows) / n for k in range(3)]
    for a, nm in zip(res, NM):
        h.true(h.np.shape(a) == (n, m), nm + ': one row per sample, one column per angle')
    for i in range(n):
        for j in range(m):
            w = ei_ref(h, *rows[i], th[j], SP, *mean, norm)
            for a, b, nm in zip(res, w, NM):
                h.eq(a[i, j], b, '%s sample %d angle %d' % (nm, i, j), nodef=True)
    for k in range(3):
        h.eq([cols[k][i] for i in range(n)], [r[k] for r in rows], 'logs are not modified')
    h.eq([A[j] for j in range(m)], th, 'angles are not modified')
