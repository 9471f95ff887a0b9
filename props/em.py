"""effective media: bounds, inclusion and crack models"""
from rpsym.harness import case
from _lib import *

KM = [('K0', 1, 250, 37), ('G0', 0.5, 200, 44)]


# ---- E01 averages ------------------------------------------------------------
def fracs(h, n):
    """n nonnegative fractions of sum one, n positive moduli"""
    f = [h.real('f_%d' % i, 0, 1, 0.9 / n) for i in range(n - 1)]
    last = 1 - sum(f)
    h.assume(last >= 0)
    M = [h.real('M_%d' % i, 1e-5, 300, 10 + 7 * i) for i in range(n)]
    return f + [last], M


@case('E01', grid=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4}, {'n': 5, '_thorough': True}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def averages(h, n):
    f, M = fracs(h, n)
    V, R, H = h.rp.EM.VRH(h.arr(f), h.arr(M))
    v = sum(a * b for a, b in zip(f, M))
    c = sum(a / b for a, b in zip(f, M))
    h.eq(V, v, 'Voigt')
    h.eq(R * c, 1, 'Reuss')
    h.eq(2 * H, v + 1 / c, 'Hill')
    h.gt(R, 0, 'positive')
    # Reuss <= Hill <= Voigt: the gap is a sum of nonnegative terms
    t = [f[i] * f[j] * (M[i] - M[j]) ** 2 / (M[i] * M[j]) for i in range(n) for j in range(i)]
    h.eq(V - R, R * sum(t) + h.q(0), 'gap between the bounds', scale=1)
    for x in t:
        h.ge(x, 0, 'gap term')
    h.eq(V - H, H - R, 'Hill is the midpoint', scale=1)


@case('E01', grid=[{'n': 2}, {'n': 3}])
def within_range(h, n):
    f, M = fracs(h, n)
    V, R, H = h.rp.EM.VRH(h.arr(f), h.arr(M))
    for i in range(1, n):
        h.assume(M[i] >= M[0])
    h.le(M[0], R, 'not softer than the softest phase')
    h.le(M[0], V, 'Voigt not softer than the softest phase')


@case('E01', grid=[{'n': 2}, {'n': 3}])
def within_range_top(h, n):
    f, M = fracs(h, n)
    V, R, H = h.rp.EM.VRH(h.arr(f), h.arr(M))
    for i in range(1, n):
        h.assume(M[i] <= M[0])
    h.le(V, M[0], 'not stiffer than the stiffest phase')


@case('E01', grid=[{'n': 2}, {'n': 3}])
def order_and_identity(h, n):
    f, M = fracs(h, n)
    A = h.rp.EM.VRH(h.arr(f), h.arr(M))
    B = h.rp.EM.VRH(h.arr(f[::-1]), h.arr(M[::-1]))
    h.eq(B, A, 'order of the phases is irrelevant')
    m = h.real('m', 1e-3, 300, 20)
    h.eq(h.rp.EM.VRH(h.arr(f), h.arr([m] * n)), [m, m, m], 'identical phases')
    # lists are as good as arrays and nothing is modified
    fl, Ml = list(f), list(M)
    h.eq(h.rp.EM.VRH(fl, Ml), A, 'lists')
    fa, Ma = h.arr(f), h.arr(M)
    h.eq(h.rp.EM.VRH(fa, Ma), A, 'first call')
    h.eq(h.rp.EM.VRH(fa, Ma), A, 'second call')
    h.eq([fa, Ma], [h.arr(f), h.arr(M)], 'arguments unchanged')


@case('E01')
def many_samples(h):
    """one row of fractions per sample"""
    f = [[h.real('f_%d%d' % (i, j), 0, 1, 0.2 + 0.1 * i + 0.05 * j) for j in range(3)] for i in range(2)]
    M = [h.real('M_%d' % i, 1e-3, 300, 10 + 7 * i) for i in range(3)]
    for r in f:
        h.assume(sum(r) > 0)
    V, R, H = h.rp.EM.VRH(h.arr(f), h.arr(M))
    for i in range(2):
        v, c = sum(a * b for a, b in zip(f[i], M)), sum(a / b for a, b in zip(f[i], M))
        h.eq(V[i], v, 'Voigt of sample %d' % i)
        h.eq(R[i], 1 / c, 'Reuss of sample %d' % i)
        h.eq(2 * H[i], v + 1 / c, 'Hill of sample %d' % i)


@case('E01', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def critical_porosity(h):
    K0, G0 = h.args(KM)
    phi, phic = h.real('phi', 0, 1, 0.2), h.real('phic', 0.01, 1, 0.4)
    K, G = h.rp.EM.cripor(K0, G0, phi, phic)
    h.eq([K, G], [K0 * (1 - phi / phic), G0 * (1 - phi / phic)], 'linear trend', scale=1)
    h.eq(h.rp.EM.cripor(K0, G0, 0 * phi, phic), [K0, G0], 'no pores: mineral')
    h.eq(h.rp.EM.cripor(K0, G0, phic, phic), [h.q(0), h.q(0)], 'critical porosity: no frame', scale=1)


@case('E01')
def critical_porosity_arrays(h):
    h.vec(h.rp.EM.cripor, KM + [('phi', 0, 1, 0.2), ('phic', 0.01, 1, 0.4)], ('phi',), 3, 'cripor over porosity')
    h.vec(h.rp.EM.cripor, [(a + 'x', *b) for a, *b in KM + [('phi', 0, 1, 0.2), ('phic', 0.01, 1, 0.4)]],
          ('K0x', 'G0x', 'phix', 'phicx'), 2, 'cripor')


@case('E01', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def critical_suspension(h):
    M0, Mf, phic = h.args([('M0', 1, 300, 37), ('Mf', 1e-3, 10, 2.25), ('phic', 0, 1, 0.4)])
    r = h.rp.EM.cripor_reuss(M0, Mf, phic)
    h.eq(r, [1 / ((1 - phic) / M0 + phic / Mf)], 'isostress average')
    h.eq(h.rp.EM.cripor_reuss(M0, Mf, phic, den=False), r, 'same with the flag given')
    h.eq(h.rp.EM.cripor_reuss(M0, Mf, phic, den=True), [(1 - phic) * M0 + phic * Mf], 'density is the volume average')


# ---- E02 Hashin-Shtrikman ------------------------------------------------------
HSARG = [('f', 0, 1, 0.4), ('K1', 0.1, 300, 37), ('K2', 0.1, 300, 21), ('G1', 0.1, 250, 44), ('G2', 0.1, 250, 7)]


def hs_ref(h, f, K1, K2, G1, G2, Km, Gm):
    z = h.q(4, 3) * Gm
    y = Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))
    return [1 / (f / (K1 + z) + (1 - f) / (K2 + z)) - z, 1 / (f / (G1 + y) + (1 - f) / (G2 + y)) - y]


@case('E02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hs_forms(h):
    f, K1, K2, G1, G2 = h.args(HSARG)
    h.eq(h.rp.EM.HS(f, K1, K2, G1, G2, bound='upper'), hs_ref(h, f, K1, K2, G1, G2, K1, G1), 'upper bound')
    h.eq(h.rp.EM.HS(f, K1, K2, G1, G2, bound='lower'), hs_ref(h, f, K1, K2, G1, G2, K2, G2), 'lower bound')
    h.eq(h.rp.EM.HS(f, K1, K2, G1, G2), hs_ref(h, f, K1, K2, G1, G2, K1, G1), 'upper is the default')


@case('E02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hs_symmetry(h):
    f, K1, K2, G1, G2 = h.args(HSARG)
    h.eq(h.rp.EM.HS(f, K1, K2, G1, G2, 'upper'), h.rp.EM.HS(1 - f, K2, K1, G2, G1, 'lower'),
         'exchange of the phases exchanges the bounds')
    for b in ('upper', 'lower'):
        h.eq(h.rp.EM.HS(0 * f, K1, K2, G1, G2, b), [K2, G2], b + ': none of phase 1')
        h.eq(h.rp.EM.HS(1 + 0 * f, K1, K2, G1, G2, b), [K1, G1], b + ': only phase 1')
        h.eq(h.rp.EM.HS(f, K1, K1, G1, G1, b), [K1, G1], b + ': no contrast')
        h.eq(h.rp.EM.HS(f, K1, K1, G1, G2, b)[0], K1, b + ': no bulk contrast')
        h.eq(h.rp.EM.HS(f, K1, K2, G1, G1, b)[1], G1, b + ': no shear contrast')


@case('E02')
def hs_ordered(h):
    f, K1, K2, G1, G2 = h.args(HSARG)
    h.assume(K1 >= K2)
    h.assume(G1 >= G2)
    Ku, Gu = h.rp.EM.HS(f, K1, K2, G1, G2, 'upper')
    Kl, Gl = h.rp.EM.HS(f, K1, K2, G1, G2, 'lower')
    for nm, U, L, a, b in (('K', Ku, Kl, K1, K2), ('G', Gu, Gl, G1, G2)):
        h.le(L, U, nm + ': lower below upper')
        h.le(U, f * a + (1 - f) * b, nm + ': upper below Voigt')
        h.ge(L, 1 / (f / a + (1 - f) / b), nm + ': lower above Reuss')


@case('E02', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hs_fluid(h):
    f, K1, K2, G1 = h.args([('f', 0, 0.999, 0.6), ('K1', 0.1, 300, 37), ('K2', 1e-4, 20, 2.2), ('G1', 0.1, 250, 44)])
    K, G = h.rp.EM.HS(f, K1, K2, G1, h.q(0), 'lower')
    h.eq(K, 1 / (f / K1 + (1 - f) / K2), 'suspension: Reuss')
    h.eq(G, 0, 'suspension has no shear stiffness', scale=1)
    h.eq(h.rp.EM.HS(f, K1, K2, G1, h.q(0), 'upper'), hs_ref(h, f, K1, K2, G1, 0, K1, G1), 'fluid in the pores')


@case('E02')
def hs_arrays(h):
    for b in ('upper', 'lower'):
        f = lambda *a: h.rp.EM.HS(*a, bound=b)
        h.vec(f, [(a + b[0], *r) for a, *r in HSARG], ('f' + b[0],), 3, b + ' over fraction')
        h.vec(f, [(a + b[0] + 'm', *r) for a, *r in HSARG], tuple(a + b[0] + 'm' for a in ('f', 'K1', 'K2', 'G1', 'G2')),
              2, b + ' over everything')


# ---- E03 spherical pores ---------------------------------------------------------
@case('E03', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def swiss_cheese(h):
    K, G = h.args(KM)
    phi = h.real('phi', 0, 1, 0.1)
    Kd, Gd = h.rp.EM.Swiss_cheese(K, G, phi)
    h.eq(1 / Kd, 1 / K + (1 / K + 3 / (4 * G)) * phi, 'pore compressibility of a sphere')
    h.eq(1 / Gd, 1 / G + (15 * K + 20 * G) / (9 * K + 8 * G) * phi / G, 'shear compliance')
    h.eq(h.rp.EM.Swiss_cheese(K, G, 0 * phi), [K, G], 'no pores')
    h.le(Kd, K, 'pores soften (bulk)')
    h.le(Gd, G, 'pores soften (shear)')
    h.eq(h.rp.EM.SC(phi, K, G, 1)[0], Kd, 'first self-consistent iterate')


@case('E03', grid=[{'m': 2}, {'m': 1}])
def swiss_cheese_arrays(h, m):
    sp = KM + [('phi', 0, 1, 0.1)]
    h.vec(h.rp.EM.Swiss_cheese, sp, ('phi',), 3, 'over porosity')
    # several mineral pairs: one row per mineral
    K = [h.real('K0_%d' % i, 1, 250, 37 - 3 * i) for i in range(m)]
    G = [h.real('G0_%d' % i, 0.5, 200, 44 - 3 * i) for i in range(m)]
    p = [h.real('phi_%d' % i, 0, 1, 0.1 + 0.05 * i) for i in range(3)]
    Ka, Ga, pa = h.arr(K), h.arr(G), h.arr(p)
    r = h.rp.EM.Swiss_cheese(Ka, Ga, pa)
    h.true(h.np.shape(r[0]) == (m, 3) and h.np.shape(r[1]) == (m, 3), 'mineral by porosity table')
    for i in range(m):
        for j in range(3):
            h.eq([r[0][i, j], r[1][i, j]], h.rp.EM.Swiss_cheese(K[i], G[i], p[j]), 'table entry %d %d' % (i, j))
    h.eq([Ka, Ga, pa], [h.arr(K), h.arr(G), h.arr(p)], 'arguments unchanged')


@case('E03', grid=[{'n': 0}, {'n': 1}, {'n': 2}, {'n': 6}, {'n': 12}, {'n': 30}])
def self_consistent(h, n):
    """every round is one substitution into the self-consistency equations"""
    h.autolet(4, 3)
    K, G = h.args(KM)
    phi = h.real('phi', 0, 0.4, 0.1)
    k, g = h.rp.EM.SC(phi, K, G, n)
    if n == 0:
        h.eq([k, g], [K, G], 'the iteration starts from the mineral')
    k1, g1 = h.rp.EM.SC(phi, K, G, n + 1)
    h.eq(1 / k1, 1 / K + (1 / k + 3 / (4 * g)) * phi, 'bulk, round %d' % (n + 1))
    h.eq(1 / g1, 1 / G + (15 * k1 + 20 * g) / (9 * k1 + 8 * g) * phi / g, 'shear, round %d' % (n + 1))
    h.eq(h.rp.EM.SC(0 * phi, K, G, n), [K, G], 'no pores')


@case('E03')
def self_consistent_arrays(h):
    h.autolet(4)
    K, G = h.args(KM)
    p = [h.real('phi_%d' % i, 0, 0.4, 0.1 + 0.05 * i) for i in range(2)]
    pa = h.arr(p)
    r = h.rp.EM.SC(pa, K, G, 2)
    for i in range(2):
        h.eq([r[0][i], r[1][i]], h.rp.EM.SC(p[i], K, G, 2), 'element %d' % i)
    h.eq(pa, h.arr(p), 'argument unchanged')


DIL = [('Km', 1, 250, 37), ('Gm', 0.5, 200, 44), ('Ki', 0, 250, 5), ('Gi', 0, 200, 2), ('f', 0, 1, 0.1)]


@case('E03', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def dilute(h):
    Km, Gm, Ki, Gi, f = h.args(DIL)
    h.assume(Ki < Km)
    h.assume(Gi < Gm)
    nu = (3 * Km - 2 * Gm) / (2 * (3 * Km + Gm))
    # Eshelby factors of a sphere
    s1, s2 = 3 * Km / (3 * Km + 4 * Gm), 6 * (Km + 2 * Gm) / (5 * (3 * Km + 4 * Gm))
    Kx, Gx = h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, f, 'strain')
    a, b = (Km - Ki) / (Km - (Km - Ki) * s1), (Gm - Gi) / (Gm - (Gm - Gi) * s2)
    h.eq([Kx, Gx], [1 - f * a, 1 - f * b], 'macrostrain prescribed', scale=1)
    Ks, Gs = h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, f, 'stress')
    h.eq([1 / Ks, 1 / Gs], [1 + f * a, 1 + f * b], 'macrostress prescribed')
    h.le(Kx, Ks, 'strain estimate below stress estimate (bulk)')
    h.le(Gx, Gs, 'strain estimate below stress estimate (shear)')
    h.eq(h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, 0 * f, 'stress') + h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, 0 * f, 'strain'), [1, 1, 1, 1],
         'no inclusions')


@case('E03')
def dilute_stiff(h):
    """inclusions stiffer than the matrix"""
    Km, Gm, Ki, Gi, f = h.args([('Km', 1, 250, 6.5), ('Gm', 0.5, 200, 3), ('Ki', 1, 12500, 300), ('Gi', 1, 10000, 150), ('f', 0, 0.3, 0.1)])
    h.assume(Ki > Km)
    h.assume(Gi > Gm)
    s1, s2 = 3 * Km / (3 * Km + 4 * Gm), 6 * (Km + 2 * Gm) / (5 * (3 * Km + 4 * Gm))
    a, b = (Km - Ki) / (Km - (Km - Ki) * s1), (Gm - Gi) / (Gm - (Gm - Gi) * s2)
    h.eq(h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, f, 'strain'), [1 - f * a, 1 - f * b], 'macrostrain prescribed')
    Ks, Gs = h.rp.EM.SC_dilute(Km, Gm, Ki, Gi, f, 'stress')
    h.eq([Ks * (1 + f * a), Gs * (1 + f * b)], [1, 1], 'macrostress prescribed', nodef=True)


@case('E03', grid=[{'n': 0}, {'n': 1}, {'n': 2}, {'n': 3}, {'n': 10}, {'n': 30}])
def flexible(h, n):
    h.autolet(4 if n < 4 else 8)
    f, Km, Ki, Gm, Gi = h.args([('f', 0, 1, 0.1), ('Km', 1, 250, 6.5), ('Ki', 1, 12500, 300), ('Gm', 0.5, 200, 3), ('Gi', 1, 10000, 150)])
    h.assume(Ki > Km)
    h.assume(Gi > Gm)
    k, g = h.rp.EM.SC_flex(f, n, Km, Ki, Gm, Gi)
    if n == 0:
        h.eq([k, g], [Km, Gm], 'the iteration starts from the matrix')
    k1, g1 = h.rp.EM.SC_flex(f, n + 1, Km, Ki, Gm, Gi)
    s1, s2 = 3 * k / (3 * k + 4 * g), 6 * (k + 2 * g) / (5 * (3 * k + 4 * g))
    h.eq((Km - k1) * (k - (k - Ki) * s1), f * k * (Km - Ki), 'bulk, round %d' % (n + 1), nodef=True)
    h.eq((Gm - g1) * (g - (g - Gi) * s2), f * g * (Gm - Gi), 'shear, round %d' % (n + 1), nodef=True)
    h.eq(h.rp.EM.SC_flex(0 * f, n + 1, Km, Ki, Gm, Gi), [Km, Gm], 'no inclusions')


@case('E03', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def mori_tanaka(h):
    f, K1, K2, G1, G2 = h.args(HSARG)
    h.eq(h.rp.EM.MT_average(f, K1, G1, K1, G1, K2, G2), hs_ref(h, f, K1, K2, G1, G2, K1, G1),
         'background = phase 1: Hashin-Shtrikman with phase 1 outside')
    h.eq(h.rp.EM.MT_average(f, K2, G2, K1, G1, K2, G2), hs_ref(h, f, K1, K2, G1, G2, K2, G2),
         'background = phase 2: Hashin-Shtrikman with phase 2 outside')


@case('E03')
def mori_tanaka_any_background(h):
    f, K1, K2, G1, G2 = h.args(HSARG)
    Kb, Gb = h.real('Kb', 0.1, 300, 30), h.real('Gb', 0.1, 250, 20)
    F = h.rp.EM.MT_average
    h.eq(F(f, Kb, Gb, K1, G1, K2, G2), hs_ref(h, f, K1, K2, G1, G2, Kb, Gb), 'kinetic average')
    h.eq(F(0 * f, Kb, Gb, K1, G1, K2, G2), [K2, G2], 'only phase 2')
    h.eq(F(1 + 0 * f, Kb, Gb, K1, G1, K2, G2), [K1, G1], 'only phase 1')
    h.eq(F(f, Kb, Gb, K1, G1, K1, G1), [K1, G1], 'no contrast')


@case('E03')
def spheres_arrays(h):
    h.autolet(4)
    h.vec(h.rp.EM.MT_average, [('f', 0, 1, 0.4), ('Kb', 0.1, 300, 30), ('Gb', 0.1, 250, 20), ('K1', 0.1, 300, 37), ('G1', 0.1, 250, 44),
                               ('K2', 0.1, 300, 21), ('G2', 0.1, 250, 7)], ('f',), 2, 'MT_average')
    K, G, k, g = h.args([('Km', 40, 250, 60), ('Gm', 40, 200, 44), ('Ki', 0, 30, 5), ('Gi', 0, 30, 2)])
    fs = [h.real('fr_%d' % i, 0, 1, 0.1 + 0.1 * i) for i in range(2)]
    for m in ('stress', 'strain'):
        fa = h.arr(fs)
        r = h.rp.EM.SC_dilute(K, G, k, g, fa, m)
        for i in range(2):
            h.eq([r[0][i], r[1][i]], h.rp.EM.SC_dilute(K, G, k, g, fs[i], m), '%s element %d' % (m, i), scale=1)
        h.eq(fa, h.arr(fs), 'argument unchanged')


# ---- E04 isotropic crack distributions ---------------------------------------------
@case('E04', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def dilute_cracks(h):
    K, G = h.args(KM)
    cd = h.real('cd', 0, 1, 0.1)
    nu = (3 * K - 2 * G) / (6 * K + 2 * G)
    Kc, Gc = h.rp.EM.Dilute_crack(K, G, cd)
    h.eq(K / Kc, 1 + h.q(16, 9) * (1 - nu ** 2) / (1 - 2 * nu) * cd, 'crack compliance (bulk)')
    h.eq(G / Gc, 1 + h.q(32, 45) * (1 - nu) * (5 - nu) / (2 - nu) * cd, 'crack compliance (shear)')
    h.le(Kc, K, 'cracks soften (bulk)')
    h.le(Gc, G, 'cracks soften (shear)')
    h.eq(h.rp.EM.Dilute_crack(K, G, 0 * cd), [K, G], 'no cracks')


@case('E04', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def self_consistent_cracks(h):
    K, G = h.args(KM)
    crd = h.real('crd', 0, h.q(9, 16) if h.symbolic else 0.5625, 0.1)
    nu0 = (3 * K - 2 * G) / (6 * K + 2 * G)
    nu = nu0 * (1 - h.q(16, 9) * crd)
    Kc, Gc = h.rp.EM.OConnell_Budiansky(K, G, crd)
    h.eq(Kc / K, 1 - h.q(16, 9) * (1 - nu ** 2) / (1 - 2 * nu) * crd, 'bulk', scale=1)
    h.eq(Gc / G, 1 - h.q(32, 45) * (1 - nu) * (5 - nu) / (2 - nu) * crd, 'shear', scale=1)
    h.le(Kc, K, 'cracks soften (bulk)')
    h.le(Gc, G, 'cracks soften (shear)')
    h.eq(h.rp.EM.OConnell_Budiansky(K, G, 0 * crd), [K, G], 'no cracks')


@case('E04')
def crack_arrays(h):
    sp = [('K0', 40, 250, 60), ('G0', 0.5, 50, 44)]
    h.vec(h.rp.EM.Dilute_crack, sp + [('cd', 0, 1, 0.1)], ('cd',), 2, 'Dilute_crack')
    h.vec(h.rp.EM.OConnell_Budiansky, [(a + 'x', *r) for a, *r in sp + [('crd', 0, 0.5, 0.1)]], ('crdx',), 2, 'OConnell_Budiansky')


def oc_res(h, nu, D, crd, nu0, w):
    """self-consistent equations of saturated cracks (O'Connell & Budiansky 1974)"""
    e1 = h.q(45, 16) * (nu0 - nu) / (1 - nu ** 2) * (2 - nu) / (D * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0)) - crd
    t = h.q(9, 16) * (1 - 2 * nu) / (1 - nu0 ** 2)
    e2 = crd * D ** 2 - (crd + t + 3 * w / (4 * h.pi)) * D + t
    return [e1, e2]


@case('E04')
def saturated_equations(h):
    nu, D, crd, nu0, w = h.args([('nu', -0.9, 0.49, 0.2), ('D', 0.01, 1, 0.8), ('crd', 0.001, 0.5, 0.1), ('nu0', 0, 0.49, 0.25),
                                 ('w', 0, 100, 0.5)])
    h.eq(h.rp.EM.OC_R_funcs((nu, D), crd, nu0, w), oc_res(h, nu, D, crd, nu0, w), 'coupled equations', scale=1, nodef=True)


@case('E04')
def saturated_cracks(h):
    h.autolet(4)
    K, G, Kf, crd, al = h.args([('K0', 20, 80, 37), ('G0', 5, 50, 30), ('Kfl', 0.01, 5, 2.2), ('crd', 0.01, 0.3, 0.1),
                                ('alpha', 0.001, 0.1, 0.01)])
    h.assume(3 * K > 2 * G)
    h.expect_fsolve()
    Ks, Gs = h.rp.EM.OConnell_Budiansky_fl(K, G, Kf, crd, al)
    nu0 = (3 * K - 2 * G) / (6 * K + 2 * G)
    nu, D = h.fsolve(lambda a, b: oc_res(h, a, b, crd, nu0, Kf / (al * K)), [h.q(1, 5), h.q(9, 10)])
    h.eq(Ks / K, 1 - h.q(16, 9) * (1 - nu ** 2) / (1 - 2 * nu) * crd * D, 'bulk', nodef=True, scale=1)
    h.eq(Gs / G, 1 - h.q(32, 45) * (1 - nu) * (D + 3 / (2 - nu)) * crd, 'shear', nodef=True, scale=1)


# ---- E05 Hudson ---------------------------------------------------------------------
HUD = [('K', 5, 150, 37), ('G', 2, 100, 44), ('Ki', 0, 20, 2.2), ('Gi', 0, 20, 0.5), ('alpha', 1e-4, 0.2, 0.01), ('crd', 0, 0.2, 0.05)]


def hud_U(h, lam, mu, Ki, Gi, al):
    """displacement factors of a penny-shaped crack with weak filling"""
    kap = (Ki + h.q(4, 3) * Gi) * (lam + 2 * mu) / (h.pi * al * mu * (lam + mu))
    M = 4 * Gi * (lam + mu) / (h.pi * al * mu * (3 * lam + 4 * mu))
    return (16 * (lam + 2 * mu) / (3 * (3 * lam + 4 * mu)) / (1 + M), 4 * (lam + 2 * mu) / (3 * (lam + mu)) / (1 + kap))


def traction(h, lam, mu, n, I):
    """vector C_{I r s} n_s for the Voigt component I"""
    i, j = VOIGT[I]
    out = []
    for r in range(3):
        t = h.q(0)
        if i == j:
            t = t + lam * n[r]
        if r == i:
            t = t + mu * n[j]
        if r == j:
            t = t + mu * n[i]
        out.append(t)
    return out


def hud_corr(h, lam, mu, crd, U1, U3, n):
    """first-order stiffness change -(crd/mu) C.n.U.n.C of one crack set of unit normal n"""
    T = [traction(h, lam, mu, n, I) for I in range(6)]
    out = []
    for I in range(6):
        row = []
        for J in range(6):
            dot = sum(a * b for a, b in zip(T[I], T[J]))
            pI = sum(a * b for a, b in zip(T[I], n))
            pJ = sum(a * b for a, b in zip(T[J], n))
            row.append(-crd / mu * (U1 * (dot - pI * pJ) + U3 * pI * pJ))
        out.append(row)
    return out


def madd(*Ms):
    return [[sum(M[i][j] for M in Ms[1:]) + Ms[0][i][j] for j in range(6)] for i in range(6)]


def scale6(M, s):
    return [[s * v for v in r] for r in M]


def hud_args(h, spec=HUD):
    K, G, Ki, Gi, al, crd = h.args(spec)
    lam = lam_of(h, K, G)
    h.assume(lam + G > 0.1)
    return K, G, Ki, Gi, al, crd, lam


@case('E05', grid=[{'axis': 3}, {'axis': 1}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hudson_first(h, axis):
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    U1, U3 = hud_U(h, lam, G, Ki, Gi, al)
    n = [h.q(0)] * 3
    n[axis - 1] = h.q(1)
    want = madd(iso_tensor(h, lam, G), hud_corr(h, lam, G, crd, U1, U3, n))
    tdef(h, h.rp.EM.hudson(K, G, Ki, Gi, al, crd, order=1, axis=axis), want, 'first order', nodef=False)
    tdef(h, h.rp.EM.hudson(K, G, Ki, Gi, al, 0 * crd, 1, axis), iso_tensor(h, lam, G), 'no cracks')


@case('E05')
def hudson_defaults(h):
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    a = h.rp.EM.hudson(K, G, Ki, Gi, al, crd)
    b = h.rp.EM.hudson(K, G, Ki, Gi, al, crd, order=1, axis=3)
    for i in range(6):
        h.eq(a[i, :], b[i, :], 'first order, vertical axis is the default', scale=1)


@case('E05', grid=[{'axis': 3}, {'axis': 1}], si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hudson_second(h, axis):
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    U1, U3 = hud_U(h, lam, G, Ki, Gi, al)
    q = 15 * lam ** 2 / G ** 2 + 28 * lam / G + 28
    a, b = crd * U1, crd * U3
    M = lam + 2 * G
    c11 = q * lam ** 2 / (15 * M) * b ** 2
    c13 = q * lam / 15 * b ** 2
    c33 = q * M / 15 * b ** 2
    c44 = 2 * G * (3 * lam + 8 * G) / (15 * M) * a ** 2
    z = h.q(0)
    s = [[c11, c11, c13, z, z, z], [c11, c11, c13, z, z, z], [c13, c13, c33, z, z, z],
         [z, z, z, c44, z, z], [z, z, z, z, c44, z], [z, z, z, z, z, z]]
    n = [z, z, h.q(1)]
    if axis == 1:
        p = [2, 1, 0, 5, 4, 3]
        s = [[s[p[i]][p[j]] for j in range(6)] for i in range(6)]
        n = n[::-1]
    want = madd(iso_tensor(h, lam, G), hud_corr(h, lam, G, crd, U1, U3, n), s)
    tdef(h, h.rp.EM.hudson(K, G, Ki, Gi, al, crd, order=2, axis=axis), want, 'second order')


@case('E05', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hudson_three_sets(h):
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    als = [h.real('al_%d' % i, 1e-4, 0.2, 0.01 + 0.005 * i) for i in range(3)]
    cs = [h.real('c_%d' % i, 0, 0.2, 0.02 + 0.01 * i) for i in range(3)]
    aa, ca = h.arr(als), h.arr(cs)
    C = h.rp.EM.hudson_ortho(K, G, Ki, Gi, aa, ca)
    parts = [iso_tensor(h, lam, G)]
    for i in range(3):
        U1, U3 = hud_U(h, lam, G, Ki, Gi, als[i])
        n = [h.q(0)] * 3
        n[i] = h.q(1)
        parts.append(hud_corr(h, lam, G, cs[i], U1, U3, n))
    tdef(h, C, madd(*parts), 'superposition of three sets')
    h.eq([aa, ca], [h.arr(als), h.arr(cs)], 'arguments unchanged')
    C2 = h.rp.EM.hudson_ortho(K, G, Ki, Gi, als, cs)
    for i in range(6):
        h.eq(C2[i, :], C[i, :], 'lists', scale=1)


def cone_ref(h, lam, mu, crd, U1, U3, s, c):
    """average over the azimuth of the normal; degree-4 trigonometric
    polynomials are integrated exactly by 8 equidistant directions"""
    r = h.sqrt(h.q(1, 2))
    az = [(1, 0), (r, r), (0, 1), (-r, r), (-1, 0), (-r, -r), (0, -1), (r, -r)]
    Ms = [hud_corr(h, lam, mu, crd, U1, U3, [s * a, s * b, c]) for a, b in az]
    return scale6(madd(*Ms), h.q(1, 8))


@case('E05', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hudson_cone(h):
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    th = h.real('theta', 0, 90, 30)
    C = h.rp.EM.hudson_cone(K, G, Ki, Gi, al, crd, th)
    U1, U3 = hud_U(h, lam, G, Ki, Gi, al)
    if h.symbolic:
        # the stiffness is affine in the displacement factors: name them
        u1, u3 = U1, U3
    s, c = h.sin(th * h.pi / 180), h.cos(th * h.pi / 180)
    want = madd(iso_tensor(h, lam, G), cone_ref(h, lam, G, crd, U1, U3, s, c))
    # recorded finding: the in-plane shear term has 4 sin^4 instead of sin^4
    bad = [r[:] for r in want]
    bad[5][5] = G - crd * G / 2 * (4 * U3 * s ** 4 + U1 * s ** 2 * (2 - s ** 2))
    tdef(h, C, want, 'cone of cracks', finding='hudson-cone-c66', defect=bad)


@case('E05')
def hudson_cone_vertical(h):
    """cone of zero opening = aligned horizontal cracks"""
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    C = h.rp.EM.hudson_cone(K, G, Ki, Gi, al, crd, h.q(0))
    D = h.rp.EM.hudson(K, G, Ki, Gi, al, crd)
    for i in range(6):
        h.eq(C[i, :], D[i, :], 'zero opening angle', scale=1)


@case('E05', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def hudson_random(h):
    h.autolet(6)
    K, G, Ki, Gi, al, crd, lam = hud_args(h)
    Ke, Ge = h.rp.EM.hudson_rand(K, G, Ki, Gi, al, crd)
    U1, U3 = hud_U(h, lam, G, Ki, Gi, al)
    # isotropic averages of the aligned correction: K = C_iijj/9, G = (3 C_ijij - C_iijj)/30
    M = hud_corr(h, lam, G, crd, U1, U3, [h.q(0), h.q(0), h.q(1)])
    tr = sum(M[i][j] for i in range(3) for j in range(3))
    sh = sum(M[i][i] for i in range(3)) + 2 * sum(M[i][i] for i in range(3, 6))
    h.eq(Ke, K + tr / 9, 'bulk modulus', scale=1)
    h.eq(Ge, G + (3 * sh - tr) / 30, 'shear modulus', scale=1, finding='hudson-rand-g',
         defect=G + 15 * (3 * sh - tr) / 30)
    h.eq(h.rp.EM.hudson_rand(K, G, Ki, Gi, al, 0 * crd), [K, G], 'no cracks')


# ---- E06 Eshelby-Cheng ---------------------------------------------------------------
ESH = [('K', 5, 150, 37), ('G', 2, 100, 44), ('phi', 0, 0.1, 0.02), ('alpha', 1e-3, 0.9, 0.05), ('Kf', 0, 4.5, 2.2)]


def eshelby(h, K, G, al):
    """Eshelby tensor components of an oblate spheroid"""
    nu = (3 * K - 2 * G) / (6 * K + 2 * G)
    R = (1 - 2 * nu) / (8 * h.pi * (1 - nu))
    Q = 3 / (8 * h.pi * (1 - nu))
    Sa = h.sqrt(1 - al ** 2)
    Ia = 2 * h.pi * al * (h.acos(al) - al * Sa) / Sa ** 3
    Ic = 4 * h.pi - 2 * Ia
    Iac = (Ic - Ia) / (3 * (1 - al ** 2))
    Iaa = h.pi - h.q(3, 4) * Iac
    Iab = Iaa / 3
    return dict(S11=Q * Iaa + R * Ia, S12=Q * Iab - R * Ia, S13=Q * al ** 2 * Iac - R * Ia,
                S31=Q * Iac - R * Ic, S33=Q * (h.q(4, 3) * h.pi - 2 * Iac * al ** 2) + R * Ic,
                S1212=Q * Iab + R * Ia, S1313=Q * (1 + al ** 2) * Iac / 2 + R * (Ia + Ic) / 2)


def cheng(h, K, G, phi, al, Kf):
    S = eshelby(h, K, G, al)
    lam = lam_of(h, K, G)
    C = Kf / (3 * (K - Kf))
    S11, S12, S13, S31, S33 = S['S11'], S['S12'], S['S13'], S['S31'], S['S33']
    D = S33 * S11 + S33 * S12 - 2 * S31 * S13 - (S11 + S12 + S33 - 1 - 3 * C) - C * (S11 + S12 + 2 * (S33 - S13 - S31))
    E = S33 * S11 - S31 * S13 - (S33 + S11 - 2 * C - 1) + C * (S31 + S13 - S11 - S33)
    c11 = lam * (S31 - S33 + 1) / D + 2 * G * E / (D * (S12 - S11 + 1))
    c11bad = lam * (S31 - S33 + 1) + 2 * G * E / (D * (S12 - S11 + 1))
    c33 = ((lam + 2 * G) * (1 - S12 - S11) + 2 * lam * S13 + 4 * G * C) / D
    c13 = ((lam + 2 * G) * (S13 + S31) - 4 * G * C + lam * (S13 - S12 - S11 - S33 + 2)) / (2 * D)
    M = lam + 2 * G
    return ([M - phi * c11, M - phi * c33, lam - phi * c13, G - phi * G / (1 - 2 * S['S1313']), G - phi * G / (1 - 2 * S['S1212'])],
            M - phi * c11bad)


@case('E06', si=(('(K|G|M|C|lam|mu).*', 10**9),))
def eshelby_cheng(h):
    h.autolet(4)
    K, G, phi, al, Kf = h.args(ESH)
    C = h.rp.EM.Eshelby_Cheng(K, G, phi, al, Kf)
    want, bad = cheng(h, K, G, phi, al, Kf)
    for i, nm in enumerate(('C11', 'C33', 'C13', 'C44', 'C66')):
        h.eq(C[i], want[i], nm, scale=1, nodef=True, finding='eshelby-cheng-c11', defect=bad if i == 0 else want[i])
    h.true(h.np.shape(C) == (5,), 'five constants')


@case('E06')
def eshelby_cheng_matrix(h):
    h.autolet(4)
    K, G, phi, al, Kf = h.args(ESH)
    c11, c33, c13, c44, c66 = h.rp.EM.Eshelby_Cheng(K, G, phi, al, Kf)
    C = h.rp.EM.Eshelby_Cheng(K, G, phi, al, Kf, mat=True)
    z = h.q(0)
    want = [[c11, c11 - 2 * c66, c13, z, z, z], [c11 - 2 * c66, c11, c13, z, z, z], [c13, c13, c33, z, z, z],
            [z, z, z, c44, z, z], [z, z, z, z, c44, z], [z, z, z, z, z, c66]]
    tdef(h, C, want, 'matrix form', nodef=True)


@case('E06')
def eshelby_cheng_limits(h):
    h.autolet(4)
    K, G, phi, al, Kf = h.args(ESH)
    lam = lam_of(h, K, G)
    h.eq(h.rp.EM.Eshelby_Cheng(K, G, 0 * phi, al, Kf), [lam + 2 * G, lam + 2 * G, lam, G, G], 'no pores: isotropic matrix', nodef=True,
         scale=1)
    # fluid does not change the shear constants
    Kf2 = h.real('Kf2', 0, 4.5, 0.1)
    a, b = h.rp.EM.Eshelby_Cheng(K, G, phi, al, Kf), h.rp.EM.Eshelby_Cheng(K, G, phi, al, Kf2)
    h.eq([a[3], a[4]], [b[3], b[4]], 'shear constants do not see the fluid', nodef=True)
    # dilute: linear in porosity
    p2 = h.real('phi2', 0, 0.1, 0.05)
    c = h.rp.EM.Eshelby_Cheng(K, G, p2, al, Kf)
    m = [lam + 2 * G, lam + 2 * G, lam, G, G]
    for i in range(5):
        h.eq((c[i] - m[i]) * phi, (a[i] - m[i]) * p2, 'linear in porosity %d' % i, nodef=True, scale=1)


# ---- E07 concentration factors ---------------------------------------------------------
PQA = [('Km', 2, 200, 37), ('Gm', 1, 150, 44), ('Ki', 0, 200, 3), ('Gi', 0, 150, 2)]


def theta_of(h, al, branch, defect=False):
    if branch == 'oblate':
        s = h.sqrt(1 - al ** 2)
        return al / s ** 3 * (h.acos(al) - al * s)
    s = h.sqrt(al ** 2 - 1)
    if defect:
        return al / s ** 3 * (al * s - 1 / h.cosh(al))
    return al / s ** 3 * (al * s - h.acosh(al))


def pq_ref(h, Km, Gm, Ki, Gi, al, branch, defect=False):
    """Berryman (1980), Table 4.8.2 of the Rock Physics Handbook"""
    if branch == 'sphere':
        z = Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))
        return [(3 * Km + 4 * Gm) / (3 * Ki + 4 * Gm), (Gm + z) / (Gi + z)]
    th = theta_of(h, al, branch, defect)
    f = al ** 2 * (3 * th - 2) / (1 - al ** 2)
    A = Gi / Gm - 1
    B = (Ki / Km - Gi / Gm) / 3
    R = Gm / (Km + h.q(4, 3) * Gm)
    q = h.q
    F1 = 1 + A * (q(3, 2) * (f + th) - R * (q(3, 2) * f + q(5, 2) * th - q(4, 3)))
    F2 = 1 + A * (1 + q(3, 2) * (f + th) - R * (q(3, 2) * f + q(5, 2) * th)) + B * (3 - 4 * R) \
        + A * (A + 3 * B) * (q(3, 2) - 2 * R) * (f + th - R * (f - th + 2 * th ** 2))
    F3 = 1 + A * (1 - f - q(3, 2) * th + R * (f + th))
    F4 = 1 + A / 4 * (f + 3 * th - R * (f - th))
    F5 = A * (-f + R * (f + th - q(4, 3))) + B * th * (3 - 4 * R)
    F6 = 1 + A * (1 + f - R * (f + th)) + B * (1 - th) * (3 - 4 * R)
    F7 = 2 + A / 4 * (3 * f + 9 * th - R * (3 * f + 5 * th)) + B * th * (3 - 4 * R)
    F8 = A * (1 - 2 * R + f / 2 * (R - 1) + th / 2 * (5 * R - 3)) + B * (1 - th) * (3 - 4 * R)
    F9 = A * ((R - 1) * f - R * th) + B * th * (3 - 4 * R)
    P = F1 / F2
    T = P + 2 / F3 + 1 / F4 + (F4 * F5 + F6 * F7 - F8 * F9) / (F2 * F4)
    return [P, (T - P) / 5]


ALPHA = {'oblate': ('alpha', 1e-4, 0.9998, 0.1), 'prolate': ('alpha', 1.0005, 30, 2.5)}


def alpha_of(h, branch, sfx=''):
    if branch == 'sphere':
        return h.q(1)
    n, lo, hi, d = ALPHA[branch]
    return h.real(n + sfx, lo, hi, d)


BR = [{'branch': 'oblate'}, {'branch': 'sphere'}, {'branch': 'prolate'}]


@case('E07', grid=BR, si=(('(K|G|M|C|lam|mu).*', 10**9),))
def factors(h, branch):
    h.autolet(4)
    Km, Gm, Ki, Gi = h.args(PQA)
    al = alpha_of(h, branch)
    k = {}
    if branch == 'prolate':
        k = dict(finding='pq-prolate', defect=pq_ref(h, Km, Gm, Ki, Gi, al, branch, True))
    h.eq(h.rp.EM.PQ(Km, Gm, Ki, Gi, al), pq_ref(h, Km, Gm, Ki, Gi, al, branch), 'P and Q', nodef=True, **k)


@case('E07', grid=BR, si=(('(K|G|M|C|lam|mu).*', 10**9),))
def no_contrast(h, branch):
    h.autolet(4)
    Km, Gm = h.args(PQA[:2])
    al = alpha_of(h, branch)
    h.eq(h.rp.EM.PQ(Km, Gm, Km, Gm, al), [1, 1], 'inclusion equal to the matrix: unit factors', nodef=True)
    P, Q = h.rp.EM.PQ_vectorize(Km, Gm, h.arr([Km]), h.arr([Gm]), h.arr([al]))
    h.eq([P[0], Q[0]], [1, 1], 'inclusion equal to the matrix: unit factors (vectorised)', nodef=True)


@case('E07', grid=[{'order': 'o'}, {'order': 's'}, {'order': 'p'}, {'order': 'os'}, {'order': 'so'}, {'order': 'oop'}, {'order': 'spo'}, {'order': 'ss'}])
def vectorised(h, order):
    """the array version agrees with the scalar one for every mixture of shapes"""
    h.autolet(4)
    full = {'o': 'oblate', 's': 'sphere', 'p': 'prolate'}
    Km, Gm = h.args(PQA[:2])
    Ki = [h.real('Ki_%d' % i, 0, 200, 3 + 20 * i) for i in range(len(order))]
    Gi = [h.real('Gi_%d' % i, 0, 150, 2 + 9 * i) for i in range(len(order))]
    al = [alpha_of(h, full[c], '_%d' % i) for i, c in enumerate(order)]
    Ka, Ga, aa = h.arr(Ki), h.arr(Gi), h.arr(al)
    P, Q = h.rp.EM.PQ_vectorize(Km, Gm, Ka, Ga, aa)
    h.eq([Ka, Ga, aa], [h.arr(Ki), h.arr(Gi), h.arr(al)], 'arguments unchanged')
    h.true(h.np.shape(P) == (len(order),) and h.np.shape(Q) == (len(order),), 'one factor per phase')
    for i, c in enumerate(order):
        h.eq([P[i], Q[i]], h.rp.EM.PQ(Km, Gm, Ki[i], Gi[i], al[i]), 'phase %d' % i, nodef=True)
    P2, Q2 = h.rp.EM.PQ_vectorize(Km, Gm, Ka, Ga, aa)
    h.eq([P2, Q2], [P, Q], 'repeated call', nodef=True)


@case('E07', grid=BR)
def cavity(h, branch):
    """empty inclusions: factors do not depend on the scale of the matrix moduli"""
    h.autolet(4)
    Km, Gm = h.args(PQA[:2])
    al = alpha_of(h, branch)
    s = h.real('s', 0.1, 10 ** 10, 2)
    z = h.q(0)
    h.eq(h.rp.EM.PQ(s * Km, s * Gm, z, z, al), h.rp.EM.PQ(Km, Gm, z, z, al), 'scale invariance', nodef=True)


# ---- E08 self-consistent and differential media --------------------------------------------
def shapes(h, order):
    full = {'o': 'oblate', 's': 'sphere', 'p': 'prolate'}
    n = len(order)
    K = [h.real('K_%d' % i, 1, 80, 37 - 12 * i) for i in range(n)]
    G = [h.real('G_%d' % i, 1, 60, 44 - 15 * i) for i in range(n)]
    al = [alpha_of(h, full[c], '_%d' % i) for i, c in enumerate(order)]
    x = [h.real('x_%d' % i, 0, 1, 0.6 / (n - 1)) for i in range(n - 1)]
    last = 1 - sum(x)
    h.assume(last >= 0)
    return K, G, x + [last], al, [full[c] for c in order]


def sc_res(h, K, G, X, al, br, ke, ge, defect):
    e1, e2 = h.q(0), h.q(0)
    for k, g, x, a, b in zip(K, G, X, al, br):
        P, Q = pq_ref(h, ke, ge, k, g, a, b, defect and b == 'prolate')
        e1 = e1 + x * (k - ke) * P
        e2 = e2 + x * (g - ge) * Q
    return [e1, e2]


@case('E08', grid=[{'order': 'oo'}, {'order': 'os'}, {'order': 'ss'}, {'order': 'oso'}, {'order': 'po'}])
def berryman_equations(h, order):
    h.autolet(4)
    K, G, X, al, br = shapes(h, order)
    ke, ge = h.real('ke', 1, 80, 20), h.real('ge', 1, 60, 15)
    Ka, Ga, Xa, aa = h.arr(K), h.arr(G), h.arr(X), h.arr(al)
    r = h.rp.EM.Berryman_func((ke, ge), Ka, Ga, Xa, aa)
    k = {}
    if 'p' in order:
        k = dict(finding='sc-prolate', defect=sc_res(h, K, G, X, al, br, ke, ge, True))
    h.eq(r, sc_res(h, K, G, X, al, br, ke, ge, False), 'balance equations', nodef=True, scale=1, **k)
    h.eq([Ka, Ga, Xa, aa], [h.arr(K), h.arr(G), h.arr(X), h.arr(al)], 'arguments unchanged')


@case('E08', grid=[{'order': 'oo'}, {'order': 'os'}, {'order': 'ss'}])
def berryman_solution(h, order):
    """the returned moduli solve the balance equations, started from the mean moduli"""
    h.autolet(4)
    K, G, X, al, br = shapes(h, order)
    n = len(order)
    h.expect_fsolve()
    Ka, Ga, Xa, aa = h.arr(K), h.arr(G), h.arr(X), h.arr(al)
    r = h.rp.EM.Berryman_sc(Ka, Ga, Xa, aa)
    root = h.fsolve(lambda a, b: sc_res(h, K, G, X, al, br, a, b, False), [sum(K) / n, sum(G) / n])
    h.eq(r, root, 'effective moduli', nodef=True, tol=1e-5)
    h.eq([Ka, Ga, Xa, aa], [h.arr(K), h.arr(G), h.arr(X), h.arr(al)], 'arguments unchanged')


@case('E08', grid=[{'order': 'po'}, {'order': 'pp', '_thorough': True}])
def berryman_prolate_solution(h, order):
    """the returned moduli solve the balance equations of the given phases"""
    h.autolet(4)
    K, G, X, al, br = shapes(h, order)
    n = len(order)
    h.expect_fsolve()
    A = [h.arr(K), h.arr(G), h.arr(X), h.arr(al)]
    r = h.rp.EM.Berryman_sc(*A)
    root = h.fsolve(lambda a, b: h.rp.EM.Berryman_func((a, b), *A), [sum(K) / n, sum(G) / n])
    h.eq(r, root, 'effective moduli', nodef=True, tol=1e-5)


@case('E08', grid=[{'order': 'os'}, {'order': 'oo'}])
def berryman_fluid(h, order):
    """a phase without rigidity"""
    h.autolet(4)
    K, G, X, al, br = shapes(h, order)
    G[-1] = h.q(0)
    n = len(order)
    Ka, Ga, Xa, aa = h.arr(K), h.arr(G), h.arr(X), h.arr(al)
    ke, ge = h.real('ke', 1, 80, 20), h.real('ge', 1, 60, 15)
    h.eq(h.rp.EM.Berryman_func((ke, ge), Ka, Ga, Xa, aa), sc_res(h, K, G, X, al, br, ke, ge, False), 'balance equations', nodef=True, scale=1)
    h.expect_fsolve()
    r = h.rp.EM.Berryman_sc(Ka, Ga, Xa, aa)
    h.eq([Ka, Ga, Xa, aa], [h.arr(K), h.arr(G), h.arr(X), h.arr(al)], 'arguments unchanged')
    root = h.fsolve(lambda a, b: sc_res(h, K, G, X, al, br, a, b, False), [sum(K) / n, sum(G) / n])
    h.eq(r, root, 'effective moduli', nodef=True, tol=1e-5)


def dem_rhs(h, k, g, t, Ki, Gi, al, br):
    P, Q = pq_ref(h, k, g, Ki, Gi, al, br)
    return [(Ki - k) * P / (1 - t), (Gi - g) * Q / (1 - t)]


@case('E08', grid=[{'branch': 'oblate'}, {'branch': 'sphere'}])
def dem_equations(h, branch):
    h.autolet(4)
    k, g, t = h.args([('k', 1, 80, 30), ('g', 1, 60, 20), ('t', 0, 0.95, 0.3)])
    Ki, Gi = h.args([('Ki', 0, 80, 2), ('Gi', 0, 60, 1)])
    al = alpha_of(h, branch)
    h.eq(h.rp.EM.DEM((k, g), t, [Gi, Ki, al]), dem_rhs(h, k, g, t, Ki, Gi, al, branch), 'differential equations', nodef=True, scale=1)


@case('E08', grid=[{'branch': b, 'phi': p} for b in ('oblate', 'sphere') for p in (0.05, 0.1, 0.055, 0.3, 0.6)])
def dem_solution(h, branch, phi):
    h.autolet(4)
    Km, Gm, Ki, Gi = h.args([('Km', 20, 80, 37), ('Gm', 15, 60, 44), ('Ki', 0, 15, 2), ('Gi', 0, 10, 1)])
    if branch == 'sphere':
        al = h.q(1)
    else:
        al = h.real('alpha', 0.05, 0.9, 0.2)
    h.expect_odeint()
    p = h.q(repr(phi))
    K, G, t = h.rp.EM.Berryman_DEM(Km, Gm, Ki, Gi, al, p)
    n = int(round(phi * 1000)) // 10 + (1 if round(phi * 1000) % 10 == 0 else 2)
    grid = [h.q(i, 100) for i in range(n)]
    h.true(h.np.shape(t) == (n,), 'grid from zero to the porosity in steps of 0.01')
    h.eq(t, grid, 'grid', scale=1)
    y = h.odeint(lambda a, b, s: dem_rhs(h, a, b, s, Ki, Gi, al, branch), [Km, Gm], grid)
    h.eq(K, [y[i, 0] for i in range(n)], 'bulk', nodef=True, tol=1e-4)
    h.eq(G, [y[i, 1] for i in range(n)], 'shear', nodef=True, tol=1e-4)
    h.eq([K[0], G[0]], [Km, Gm], 'starts at the host moduli', nodef=True)
