"""quantitative interpretation: matrix, screening bounds, cement lines, templates"""
from fractions import Fraction
from rpsym.harness import case
from _lib import *


def hill(h, f, M):
    v = sum(a * b for a, b in zip(f, M))
    r = 1 / sum(a / b for a, b in zip(f, M))
    return (v + r) / 2


def only(h, x, label='one value'):
    """number, or array holding one number"""
    if h.np.shape(x) == ():
        return x
    h.true(h.np.shape(x) == (1,), label)
    return x[0]


# ---- Q01 matrix of a cementing sandstone ------------------------------------------------
MX = [('vsh', 0, 0.6, 0.1), ('phi_c', 0.2, 0.5, 0.4), ('phi_0', 0, 0.5, 0.25)]


def solids(h, v, pc, p0):
    return [v / (1 - p0), (1 - pc - v) / (1 - p0), (pc - p0) / (1 - p0)]


def mx(h, s=''):
    v, pc, p0 = h.args(MX)
    h.assume(p0 <= pc)
    h.assume(v + pc < 1)
    return v, pc, p0


@case('Q01')
def matrix_modulus(h):
    v, pc, p0 = mx(h)
    M = h.args([('M_sh', 1, 200, 20), ('M_g', 1, 200, 37), ('M_c', 1, 200, 45)])
    r = only(h, h.rp.QI.matrix_modulus(v, pc, p0, *M))
    f = solids(h, v, pc, p0)
    h.eq(sum(f), 1, 'solid fractions')
    h.eq(r, hill(h, f, M), 'Hill average of the solids')
    h.eq(only(h, h.rp.QI.matrix_modulus(h.q(0), pc, p0, *M)), hill(h, solids(h, h.q(0), pc, p0)[1:], M[1:]), 'without shale')
    h.eq(only(h, h.rp.QI.matrix_modulus(v, pc, pc, *M)), hill(h, [v / (1 - pc), 1 - v / (1 - pc)], M[:2]), 'without cement')
    h.eq(only(h, h.rp.QI.matrix_modulus(v, pc, p0, M[0], M[0], M[0])), M[0], 'one mineral')


@case('Q01')
def matrix_density(h):
    v, pc, p0 = mx(h)
    D = h.args([('D_sh', 1, 5, 2.6), ('D_g', 1, 5, 2.65), ('D_c', 1, 5, 2.7)])
    r = only(h, h.rp.QI.den_matrix(v, pc, p0, *D))
    h.eq(r * (1 - p0), v * D[0] + (1 - pc - v) * D[1] + (pc - p0) * D[2], 'mass balance of the solids')
    h.eq(only(h, h.rp.QI.den_matrix(v, pc, p0, D[0], D[0], D[0])), D[0], 'one mineral')


@case('Q01', grid=[{'n': 2, 'sh': True}, {'n': 3, 'sh': False}, {'n': 1, 'sh': True}, {'n': 4, 'sh': True, '_thorough': True}])
def matrix_arrays(h, n, sh):
    v, pc = h.args(MX[:2]) if sh else (h.q(0), h.args(MX[1:2])[0])
    h.assume(v + pc < 1)
    p = [h.real('p_%d' % i, 0, 0.5, 0.1 + 0.05 * i) for i in range(n)]
    for x in p:
        h.assume(x <= pc)
    M = h.args([('M_sh', 1, 200, 20), ('M_g', 1, 200, 37), ('M_c', 1, 200, 45)])
    A = h.arr(p)
    r, d = h.rp.QI.matrix_modulus(v, pc, A, *M), h.rp.QI.den_matrix(v, pc, A, *M)
    h.true(h.np.shape(r) == (n,) and h.np.shape(d) == (n,), 'one value per porosity')
    for i in range(n):
        f = solids(h, v, pc, p[i])
        h.eq(r[i], hill(h, f, M), 'modulus at porosity %d' % i)
        h.eq(d[i], sum(a * b for a, b in zip(f, M)), 'density at porosity %d' % i)
    h.eq([A[i] for i in range(n)], p, 'porosity is not modified')


# ---- common models --------------------------------------------------------------------------
QZ = [('Dqz', 2, 3, 2.65), ('Kqz', 20, 100, 37), ('Gqz', 20, 100, 45)]
SH = [('Dsh', 2, 3, 2.6), ('Ksh', 5, 60, 20), ('Gsh', 2, 40, 9)]
CE = [('Dc', 2, 3, 2.7), ('Kc', 5, 100, 36), ('Gc', 2, 100, 40)]
FLU = [('Db', 0.1, 1.3, 1.0), ('Kb', 0.01, 4, 2.3)]


def vel(h, K, G, rho):
    """velocities in m/s from GPa and g/cm3"""
    return h.sqrt((K + h.q(4, 3) * G) / rho * 1000000), h.sqrt(G / rho * 1000000)


def hide(h, *names):
    """the model functions are decided by their own properties; here only what is made of them"""
    for n in names:
        h.summary(*n.split('.'), **({'same': {1: 1}} if n == 'Fluid.Gassmann' else {}))


def satvel(h, Kd, Gd, K0, D, Kb, Db, phi):
    K, G = h.rp.Fluid.Gassmann(Kd, Gd, K0, Kb, phi)
    return vel(h, K, G, D * (1 - phi) + Db * phi)


# ---- Q03 constant cement velocities --------------------------------------------------------
@case('Q03', grid=[{'scheme': 1, 'cn': True}, {'scheme': 2, 'cn': False}])
def const_velocities(h, scheme, cn):
    hide(h, 'GM.constantcement', 'Fluid.Gassmann')
    Dq, Kq, Gq = h.args(QZ)
    Ds, Ks, Gs = h.args(SH)
    Dc, Kc, Gc = h.args(CE)
    Db, Kb = h.args(FLU)
    pc, pb, v, phi = h.args([('phi_c', 0.3, 0.45, 0.4), ('phi_b', 0.2, 0.45, 0.35), ('vsh', 0, 0.5, 0.1), ('phi', 0.01, 0.4, 0.2)])
    h.assume(pb < pc)
    K0 = h.rp.EM.VRH(h.arr([v, 1 - v]), h.arr([Ks, Kq]))[2]
    G0 = h.rp.EM.VRH(h.arr([v, 1 - v]), h.arr([Gs, Gq]))[2]
    Cn = h.real('Cn', 4, 14, 9) if cn else 20 - 34 * pc + 14 * pc ** 2
    a = (Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pb, pc, v)
    P = h.arr([phi])
    vp, vs = h.rp.QI.cal_v_const(*a, P, scheme, *([Cn] if cn else []))
    Kd, Gd = h.rp.GM.constantcement(pb, K0, G0, Kc, Gc, phi, pc, Cn, scheme)
    w = satvel(h, Kd, Gd, K0, Ds * v + Dq * (1 - v), Kb, Db, phi)
    h.eq(vp[0], w[0], 'P velocity of the constant-cement rock', nodef=True)
    h.eq(vs[0], w[1], 'S velocity of the constant-cement rock', nodef=True)


@case('Q03', grid=[{'scheme': 1}, {'scheme': 2}])
def const_lines(h, scheme):
    """lines of the cement diagram: matrix density with cement, no value above phi_b"""
    hide(h, 'GM.constantcement', 'Fluid.Gassmann')
    Kq, Gq, Dq = h.args([('K0', 20, 100, 37), ('G0', 20, 100, 45), ('D0', 2, 3, 2.6)])
    Dc, Kc, Gc = h.args(CE)
    Db, Kb = h.args(FLU)
    Ds, Dg, Cn = h.args([('Dsh', 2, 3, 2.6), ('Dqz', 2, 3, 2.65), ('Cn', 4, 14, 9)])
    pc, pb, v = h.args([('phi_c', 0.3, 0.45, 0.4), ('phi_b', 0.2, 0.45, 0.35), ('vsh', 0, 0.5, 0.1)])
    h.assume(pb < pc)
    p = [h.real('p_%d' % i, 0.01, 0.45, 0.15 + 0.1 * i) for i in range(3)]
    P = h.arr(p)
    vp, vs = h.rp.QI.cst_vels(pb, Kq, Dq, Gq, P, pc, Cn, Kc, Gc, Db, Kb, scheme, v, Ds, Dg, Dc)
    h.true(h.np.shape(vp) == (3,) and h.np.shape(vs) == (3,), 'one value per porosity')
    D = (v * Ds + (1 - pc - v) * Dg + (pc - pb) * Dc) / (1 - pb)
    for i in range(3):
        if h.decide(p[i] > pb):
            h.true(h.isnan(vp[i]) and h.isnan(vs[i]), 'no value above the end point')
        else:
            Kd, Gd = h.rp.GM.constantcement(pb, Kq, Gq, Kc, Gc, p[i], pc, Cn, scheme)
            w = satvel(h, Kd, Gd, Kq, D, Kb, Db, p[i])
            h.eq(vp[i], w[0], 'P velocity %d' % i, nodef=True)
            h.eq(vs[i], w[1], 'S velocity %d' % i, nodef=True)
    h.eq([P[i] for i in range(3)], p, 'porosity is not modified')


# ---- Q04 cement volume from velocities -------------------------------------------------------
def seeds(h, k):
    return [h.q(0)] + [h.real('s_%d' % i, 0.1 * (i + 0.6) / (k - 1), 0.1 * (i + 1.4) / (k - 1), 0.1 * (i + 1) / (k - 1)) for i in range(k - 2)] + [h.q('0.1')]


def well(h, n):
    return [h.real('phi_%d' % i, 0.05, 0.25, 0.2 - 0.03 * i) for i in range(n)], \
        [h.real('Vp_%d' % i, 1000, 7000, 3600 + 200 * i) for i in range(n)]


@case('Q04', grid=[{'n': 1, 'k': 2, 'scheme': 2}, {'n': 1, 'k': 3, 'scheme': 1}, {'n': 2, 'k': 2, 'scheme': 2}, {'n': 1, 'k': 4, 'scheme': 2}, {'n': 1, 'k': 6, 'scheme': 1},
                   {'n': 2, 'k': 3, 'scheme': 1, '_thorough': True}])
def cement_volume(h, n, k, scheme):
    hide(h, 'QI.cal_v_const')
    Dq, Kq, Gq = h.args(QZ)
    Ds, Ks, Gs = h.args(SH)
    Dc, Kc, Gc = h.args(CE)
    Db, Kb = h.args(FLU)
    pc, v, Cn = h.args([('phi_c', 0.36, 0.45, 0.4), ('vsh', 0, 0.5, 0.1), ('Cn', 4, 14, 9)])
    s = seeds(h, k)
    phi, Vp = well(h, n)
    P, V, SD = h.arr(phi), h.arr(Vp), h.arr(s)
    lines = []
    for i in range(n):
        row = []
        for x in s:
            a = (Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pc - x, pc, v, h.arr([phi[i]]), scheme)
            row.append(h.rp.QI.cal_v_const(*a, Cn)[0][0])
        h.given(*row)
        for a, b in zip(row, row[1:]):
            h.assume(b > a)
        lines.append(row)
    q = h.rp.QI(V, P, Vsh=None)
    r = q.estimate_cem(SD, Kq, Gq, Ks, Gs, pc, Cn, Kc, Gc, Db, Kb, scheme, v, Ds, Dq, Dc)
    h.true(h.np.shape(r) == (n,), 'one estimate per datum')
    for i in range(n):
        L = lines[i]
        if h.decide(Vp[i] <= L[0]):
            want = h.q(0)
        elif h.decide(Vp[i] >= L[-1]):
            want = h.q('0.1')
        else:
            j = next((j for j in range(1, k - 1) if h.decide(Vp[i] < L[j])), k - 1)
            want = s[j - 1] + (s[j] - s[j - 1]) * (Vp[i] - L[j - 1]) / (L[j] - L[j - 1])
        h.eq(r[i], want, 'cement volume of datum %d' % i, scale=0.1, nodef=True)
    h.eq([SD[i] for i in range(k)], s, 'seeds are not modified')
    h.eq([V[i] for i in range(n)] + [P[i] for i in range(n)], Vp + phi, 'logs are not modified')


@case('Q04')
def cement_on_a_line(h):
    """a datum on a line has the cement volume of the line; seeds given as a list"""
    hide(h, 'QI.cal_v_const')
    Dq, Kq, Gq = h.args(QZ)
    Ds, Ks, Gs = h.args(SH)
    Dc, Kc, Gc = h.args(CE)
    Db, Kb = h.args(FLU)
    pc, v, Cn, phi = h.args([('phi_c', 0.36, 0.45, 0.4), ('vsh', 0, 0.5, 0.1), ('Cn', 4, 14, 9), ('phi', 0.05, 0.25, 0.2)])
    s = seeds(h, 3)
    L = [h.rp.QI.cal_v_const(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pc - x, pc, v, h.arr([phi]), 2, Cn)[0][0] for x in s]
    h.given(*L)
    h.assume(L[1] > L[0])
    h.assume(L[2] > L[1])
    for x, y in zip(s, L):
        q = h.rp.QI(h.arr([y]), h.arr([phi]))
        r = q.estimate_cem(s, Kq, Gq, Ks, Gs, pc, Cn, Kc, Gc, Db, Kb, 2, v, Ds, Dq, Dc)
        h.eq(r[0], x, 'cement volume on a line', scale=0.1, nodef=True)


# ---- Q02 screening bounds --------------------------------------------------------------------
SCR = [('phi_c', 0.3, 0.45, 0.4), ('phib', 0.001, 0.45, 0.3), ('sigma', 1, 100, 20), ('vsh', 0, 0.5, 0.1), ('f', 0, 1, 0.5), ('Cn', 4, 14, 9)]
LOW = '0.0000001'


def axis(h, pc):
    """porosity axis of the diagrams: 100 equally spaced values from 1e-7 to phi_c"""
    lo = h.q(LOW)
    return [lo + (pc - lo) * h.q(i, 99) for i in range(100)]


def at(h, x, k):
    """phib strictly between axis points k-1 and k"""
    pc, pb = x[0], x[1]
    a = axis(h, pc)
    h.assume(pb > a[k - 1])
    h.assume(pb < a[k])
    return a



def rock(h):
    return h.args(QZ), h.args(SH), h.args(CE), h.args(FLU)


def mins(h, qz, sh, v):
    return h.rp.EM.VRH(h.arr([v, 1 - v]), h.arr([sh[1], qz[1]]))[2], h.rp.EM.VRH(h.arr([v, 1 - v]), h.arr([sh[2], qz[2]]))[2]


def bounds(h, qz, sh, ce, fl, x, scheme, phi):
    """friable, increasing-cement and contact-cement velocities at porosity phi"""
    pc, pb, sg, v, f, Cn = x
    K0, G0 = mins(h, qz, sh, v)
    D0 = sh[0] * v + qz[0] * (1 - v)
    Db, Kb = fl
    A = h.arr([phi])
    s = h.rp.GM.softsand(K0, G0, A, pc, Cn, sg, f)
    c = h.rp.GM.contactcement(K0, G0, ce[1], ce[2], A, pc, Cn, scheme)
    m = h.rp.GM.MUHS(K0, G0, ce[1], ce[2], A, pb, pc, Cn, scheme)
    Km = h.rp.QI.matrix_modulus(v, pc, A, sh[1], qz[1], ce[1])[0]
    Dm = h.rp.QI.den_matrix(v, pc, A, sh[0], qz[0], ce[0])[0]
    return (satvel(h, s[0][0], s[1][0], K0, D0, Kb, Db, phi), satvel(h, m[0][0], m[1][0], K0, D0, Kb, Db, phi),
            satvel(h, c[0][0], c[1][0], Km, Dm, Kb, Db, phi))


HID = ('GM.contactcement', 'GM.softsand', 'GM.MUHS', 'Fluid.Gassmann')


@case('Q02', grid=[{'k': 40, 'scheme': 2}, {'k': 90, 'scheme': 1}, {'k': 2, 'scheme': 1}, {'k': 98, 'scheme': 2, '_thorough': True}])
def screening(h, k, scheme):
    hide(h, *HID)
    qz, sh, ce, fl = rock(h)
    x = h.args(SCR)
    a = at(h, x, k)
    pc, pb, sg, v, f, Cn = x
    r = h.rp.QI.screening(*qz, *sh, *ce, *fl, pb, pc, sg, v, scheme, f, Cn)
    h.true(len(r) == 7 and all(h.np.shape(z) == (100,) for z in r), 'seven curves of 100 points')
    phi, v1, v2, v3, s1, s2, s3 = r
    for i in range(100):
        h.eq(phi[i], a[i], 'porosity axis %d' % i, nodef=True)
        h.true(not (h.isnan(v1[i]) or h.isnan(s1[i])), 'friable curve everywhere')
        h.true(h.isnan(v3[i]) == (i < k) and h.isnan(s3[i]) == (i < k), 'contact cement curve only above phib')
        h.true(h.isnan(v2[i]) == (i >= k) and h.isnan(s2[i]) == (i >= k), 'increasing cement curve only below phib')
    for i in sorted({1, k // 2, k - 1, k, (k + 99) // 2, 98}):
        w1, w2, w3 = bounds(h, qz, sh, ce, fl, x, scheme, a[i])
        h.eq([v1[i], s1[i]], w1, 'friable velocities %d' % i, nodef=True)
        if i < k:
            h.eq([v2[i], s2[i]], w2, 'increasing cement velocities %d' % i, nodef=True)
        else:
            h.eq([v3[i], s3[i]], w3, 'contact cement velocities %d' % i, nodef=True)


@case('Q02', grid=[{'scheme': 1}, {'scheme': 2}])
def end_point_at_critical_porosity(h, scheme):
    """the axis ends at phi_c: with phib there, both curves have the point"""
    hide(h, *HID)
    qz, sh, ce, fl = rock(h)
    x = h.args(SCR[:1] + SCR[2:])
    x.insert(1, x[0])
    pc, pb, sg, v, f, Cn = x
    phi, v1, v2, v3, s1, s2, s3 = h.rp.QI.screening(*qz, *sh, *ce, *fl, pb, pc, sg, v, scheme, f, Cn)
    for i in range(99):
        h.true(h.isnan(v3[i]) and h.isnan(s3[i]), 'contact cement curve only from phib')
        h.true(not (h.isnan(v2[i]) or h.isnan(s2[i])), 'increasing cement curve up to phib')
    w1, w2, w3 = bounds(h, qz, sh, ce, fl, x, scheme, pc)
    h.eq([v1[99], s1[99]], w1, 'friable velocities', nodef=True)
    h.eq([v2[99], s2[99]], w2, 'increasing cement velocities', nodef=True)
    h.eq([v3[99], s3[99]], w3, 'contact cement velocities', nodef=True)


# ---- Q05 diagrams ------------------------------------------------------------------------------
def xy(h, line):
    return list(line.get_xdata()), list(line.get_ydata())


def points(h, fig):
    """scatter points and their colours"""
    p = fig.axes[0].collections[0]
    o, c = p.get_offsets(), p.get_array()
    return [q[0] for q in o], [q[1] for q in o], [x for x in c]


def same_curve(h, got, want, label):
    """same values, missing at the same places"""
    h.true(len(got) == len(want), label + ': length')
    for i, (a, b) in enumerate(zip(got, want)):
        if h.isnan(b):
            h.true(h.isnan(a), label + ': missing value %d' % i)
        else:
            h.eq(a, b, label + ' %d' % i, nodef=True)


def rpt(h, Kd, Gd, K0, D0, Kb, Db, Kh, Dh, phi, sw):
    """impedance and velocity ratio of one rock and one saturation"""
    Kf = 1 / (sw / Kb + (1 - sw) / Kh)
    K, G = h.rp.Fluid.Gassmann(Kd, Gd, K0, Kf, phi)
    r = D0 * (1 - phi) + (sw * Db + (1 - sw) * Dh) * phi
    vp, vs = vel(h, K, G, r)
    return vp * r, vp / vs


@case('Q05', grid=[{'n': 1, 'm': 2}, {'n': 2, 'm': 2}, {'n': 2, 'm': 1}, {'n': 3, 'm': 2}, {'n': 2, 'm': 3, '_thorough': True}, {'n': 4, 'm': 4, '_thorough': True}])
def template(h, n, m):
    hide(h, 'Fluid.Gassmann')
    K0, D0 = h.args([('K0', 20, 100, 37), ('D0', 2, 3, 2.65)])
    Kb, Db, Kh, Dh = h.args([('Kb', 1, 4, 2.5), ('Db', 0.8, 1.3, 1.0), ('Khc', 0.01, 2, 0.05), ('Dhc', 0.05, 1, 0.2)])
    phi = [h.real('phi_%d' % i, 0.01, 0.5, 0.1 + 0.05 * i) for i in range(n)]
    sw = [h.real('sw_%d' % i, 0, 1, 0.1 + 0.2 * i) for i in range(m)]
    Kd = [h.real('Kdry_%d' % i, 1, 19, 15 - 2 * i) for i in range(n)]
    Gd = [h.real('Gdry_%d' % i, 0.02, 60, 14 - 2 * i) for i in range(n)]
    A = [h.arr(z) for z in (Kd, Gd, phi, sw)]
    fig = h.rp.QI.plot_rpt(A[0], A[1], K0, D0, Kb, Db, Kh, Dh, A[2], A[3])
    L = [xy(h, z) for z in fig.axes[0].get_lines()]
    h.true(len(L) == n + 1, 'one line per porosity and the line of the last saturation')
    W = [[rpt(h, Kd[i], Gd[i], K0, D0, Kb, Db, Kh, Dh, phi[i], sw[j]) for j in range(m)] for i in range(n)]
    for i in range(n):
        h.true(len(L[i][0]) == m and len(L[i][1]) == m, 'one point per saturation')
        h.eq(L[i][0], [W[i][j][0] for j in range(m)], 'impedance, porosity %d' % i, nodef=True)
        h.eq(L[i][1], [W[i][j][1] for j in range(m)], 'velocity ratio, porosity %d' % i, nodef=True)
    h.true(len(L[n][0]) == n and len(L[n][1]) == n, 'one point per porosity')
    h.eq(L[n][0], [W[i][-1][0] for i in range(n)], 'impedance at the last saturation', nodef=True)
    h.eq(L[n][1], [W[i][-1][1] for i in range(n)], 'velocity ratio at the last saturation', nodef=True)
    h.eq([z[i] for z in A for i in range(len(z))], Kd + Gd + phi + sw, 'inputs are not modified')


@case('Q05', grid=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4, '_thorough': True}])
def normalized(h, n):
    d = [h.real('d_%d' % i, 0, 100, 1 + i) for i in range(n)]
    h.assume(sum(d) > 0)
    A = h.arr(d)
    r = h.rp.QI.normalize(A)
    h.true(h.np.shape(r) == (n,), 'shape')
    m = d[0]
    for x in d[1:]:
        if h.decide(x > m):
            m = x
    for i in range(n):
        h.eq(r[i] * m, d[i], 'value relative to the largest %d' % i)
        h.between(0, r[i], 1, 'within zero and one %d' % i)
    h.eq([A[i] for i in range(n)], d, 'density is not modified')


@case('Q05', grid=[{'n': 2}, {'n': 3}])
def screening_diagram(h, n):
    ph = [h.real('phi_%d' % i, 0.01, 0.4, 0.1 + 0.1 * i) for i in range(n)]
    v = [[h.real('v%d_%d' % (j, i), 1000, 6000, 2000 + 500 * j - 100 * i) for i in range(n)] for j in range(3)]
    po = [h.real('logphi_%d' % i, 0.01, 0.4, 0.15 + 0.02 * i) for i in range(2)]
    vp = [h.real('logVp_%d' % i, 1000, 6000, 3000 - 200 * i) for i in range(2)]
    sh = [h.real('logVsh_%d' % i, 0, 1, 0.2 + 0.1 * i) for i in range(2)]
    q = h.rp.QI(h.arr(vp), h.arr(po), Vsh=h.arr(sh))
    fig = q.screening_plot(h.arr(ph), *[h.arr(z) for z in v])
    L = [xy(h, z) for z in fig.axes[0].get_lines()]
    h.true(len(L) == 3, 'three bounds')
    for (x, y), j in zip(L, (2, 0, 1)):
        h.eq(x, ph, 'porosity of curve %d' % j)
        h.eq(y, v[j], 'velocity of curve %d' % j)
    x, y, c = points(h, fig)
    h.eq(x, po, 'porosity of the data')
    h.eq(y, vp, 'velocity of the data')
    h.eq(c, [1 - s for s in sh], 'sand volume of the data')


@case('Q05', grid=[{'vels': None, 'n': None}, {'vels': 'Vs', 'n': 16}, {'vels': 'Vp', 'n': 8, '_thorough': True}])
def density_diagram(h, vels, n):
    """curves over the density of the data relative to its peak; the estimator is external"""
    # relative to 1 the others are above, below and too small to show
    d = [[h.real('d_0', -0.01, 100, 0.6), h.real('d_1', -0.01, 100, 2)], [1, 0.00003]]
    gx = [0.1, 0.2]
    gy = [2500, 3500]
    ph = [h.real('phi_%d' % i, 0.01, 0.4, 0.1 + 0.1 * i) for i in range(2)]
    v = [[h.real('v%d_%d' % (j, i), 1000, 6000, 2000 + 500 * j - 100 * i) for i in range(2)] for j in range(3)]
    po = [h.real('logphi_%d' % i, 0.01, 0.4, 0.15 + 0.02 * i) for i in range(2)]
    vp = [h.real('logVp_%d' % i, 1000, 6000, 3000 - 200 * i) for i in range(2)]
    vs = [h.real('logVs_%d' % i, 500, 4000, 1800 - 200 * i) for i in range(2)]
    calls = h.expect_kde(d, (gx, gy))
    q = h.rp.QI(h.arr(vp), h.arr(po), Vs=h.arr(vs))
    k = {a: b for a, b in (('vels', vels), ('n', n)) if b is not None}
    fig = q.kde_plot(h.arr(ph), *[h.arr(z) for z in v], **k)
    h.true(len(calls) > 0, 'density of the data')
    h.eq(calls[-1][0], po, 'porosity of the data')
    h.eq(calls[-1][1], vs if vels == 'Vs' else vp, 'velocity of the data')
    h.true(calls[-1][2] == (n or 64), 'grid size')
    h.true(calls[-1][3] is None, 'limits of the density are those of the data')
    L = [xy(h, z) for z in fig.axes[0].get_lines()]
    h.true(len(L) == 3, 'three bounds')
    for (x, y), j in zip(L, (2, 0, 1)):
        h.eq(x, ph, 'porosity of curve %d' % j)
        h.eq(y, v[j], 'velocity of curve %d' % j)
    m = d[0][0]
    for x in (d[0][1], d[1][0], d[1][1]):
        if h.decide(x > m):
            m = x
    t, e = Fraction(1, 10000), Fraction(1, 10 ** 8)

    def shown(x):
        small = h.decide(x < m * t)
        h.assume(x < m * (t - e) if small else x > m * (t + e))
        return 0 if small else x / m
    W = [[shown(x) for x in row] for row in d]
    mp, ct = h.maps(fig)
    h.true(len(mp) == 1 and len(ct) == 1, 'one map and its contours')
    for a, b, c in mp + ct:
        h.eq(a, gx, 'porosity axis of the map')
        h.eq(b, gy, 'velocity axis of the map')
        h.true(len(c) == 2 and len(c[0]) == 2, 'size of the map')
        for i in range(2):
            for j in range(2):
                h.eq(c[j][i], W[i][j], 'density %d %d' % (i, j))


@case('Q05', grid=[{'k': 60, 'scheme': 2, 'data': False}, {'k': 85, 'scheme': 1, 'data': True}])
def cement_diagram(h, k, scheme, data):
    """curves of the constant-cement diagram, and the data with their cement volume"""
    hide(h, *HID, 'GM.constantcement')
    qz, sh, ce, fl = rock(h)
    x = h.args(SCR)
    at(h, x, k)
    pc, pb, sg, v, f, Cn = x
    ends = [h.real('end_%d' % i, 0.1, 0.45, 0.3 + 0.02 * i) for i in range(2)]
    a = axis(h, pc)
    for i, e in enumerate(ends):
        h.assume(e > a[70 + 10 * i])
        h.assume(e < a[71 + 10 * i])
    E = h.arr(ends)
    arg = (*qz, *sh, *ce, *fl, pb, E, pc, sg, v, Cn, scheme, f)
    if data:
        po = [h.real('logphi_%d' % i, 0.01, 0.4, 0.15 + 0.02 * i) for i in range(2)]
        vp = [h.real('logVp_%d' % i, 1000, 6000, 3000 - 200 * i) for i in range(2)]
        vc = [h.real('vcem_%d' % i, 0, 0.1, 0.02 + 0.01 * i) for i in range(2)]
        fig = h.rp.QI(h.arr(vp), h.arr(po)).cement_diag_plot(h.arr(vc), *arg)
        px, py, c = points(h, fig)
        h.eq(px, po, 'porosity of the data')
        h.eq(py, vp, 'velocity of the data')
        h.eq(c, vc, 'cement volume of the data')
    else:
        fig, ax = h.rp.QI.cst_plot(*arg)
    L = [xy(h, z) for z in fig.axes[0].get_lines()]
    h.true(len(L) == 4, 'contact cement, friable and one line per end point')
    P, v1, v2, v3 = h.rp.QI.screening(*qz, *sh, *ce, *fl, pb, pc, sg, v, scheme, f, Cn)[:4]
    K0, G0 = mins(h, qz, sh, v)
    D0 = sh[0] * v + qz[0] * (1 - v)
    W = [v3, v1] + [h.rp.QI.cst_vels(e, K0, D0, G0, P, pc, Cn, ce[1], ce[2], fl[0], fl[1], scheme, v, sh[0], qz[0], ce[0])[0] for e in ends]
    for i, ((lx, ly), w) in enumerate(zip(L, W)):
        same_curve(h, lx, list(P), 'porosity of line %d' % i)
        same_curve(h, ly, list(w), 'velocity of line %d' % i)
