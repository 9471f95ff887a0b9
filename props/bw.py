"""fluid properties after Batzle and Wang"""
from rpsym.harness import case
from _lib import *

TPA = [('T', 1, 250, 60), ('P', 0.1, 99, 25)]
TP = [('T', 1, 250, 60), ('P', 0.1, 200, 25)]

WV = [['1402.85', '1.524', '0.003437', '-0.00001197'],
      ['4.871', '-0.0111', '0.0001739', '-0.000001628'],
      ['-0.04783', '0.0002747', '-0.000002135', '0.00000001237'],
      ['0.0001487', '-0.0000006503', '-0.00000001455', '0.0000000001327'],
      ['-0.0000002197', '0.0000000007987', '0.0000000000523', '-0.0000000000004614']]


def vw_ref(h, T, P):
    return sum(h.q(WV[i][j]) * T ** i * P ** j for i in range(5) for j in range(4))


def rw_ref(h, T, P):
    q = h.q
    return 1 + q('0.000001') * (-80 * T - q('3.3') * T ** 2 + q('0.00175') * T ** 3 + 489 * P - 2 * T * P
                                + q('0.016') * T ** 2 * P - q('0.000013') * T ** 3 * P - q('0.333') * P ** 2 - q('0.002') * T * P ** 2)


def rb_ref(h, T, P, S):
    q = h.q
    return rw_ref(h, T, P) + S * (q('0.668') + q('0.44') * S + q('0.000001') * (
        300 * P - 2400 * P * S + T * (80 + 3 * T - 3300 * S - 13 * P + 47 * P * S)))


def vb_ref(h, T, P, S):
    q = h.q
    return vw_ref(h, T, P) + S * (1170 - q('9.6') * T + q('0.055') * T ** 2 - q('0.000085') * T ** 3 + q('2.6') * P
                                  - q('0.0029') * T * P - q('0.0476') * P ** 2) \
        + S * h.sqrt(S) * (780 - 10 * P + q('0.16') * P ** 2) - 820 * S ** 2


# ---- B01 water and brine ---------------------------------------------------------
@case('B01')
def water(h):
    T, P = h.args(TP)
    v = h.rp.BW.v_water(T, P)
    r, K = h.rp.BW.rho_K_water(T, P)
    h.eq(v, vw_ref(h, T, P), 'velocity of water')
    h.eq(r, rw_ref(h, T, P), 'density of water')
    h.eq(K * 10 ** 6, r * v ** 2, 'modulus, density and velocity of water')


@case('B01')
def water_high_pressure(h):
    """above the calibrated range the fit is used with a warning"""
    T, P = h.args([('T', 1, 250, 60), ('P', 90, 200, 150)])
    h.eq(h.rp.BW.v_water(T, P), vw_ref(h, T, P), 'velocity of water')


SALT = [('S', 0, 0.4, 0.1)]
BR = TP + SALT


@case('B01')
def brine(h):
    T, P, S = h.args(BR)
    v = h.rp.BW.v_brine(T, P, S)
    r, K = h.rp.BW.rho_K_brine(T, P, S)
    h.eq(v, vb_ref(h, T, P, S), 'velocity of brine')
    h.eq(r, rb_ref(h, T, P, S), 'density of brine')
    h.eq(K * 10 ** 6, r * v ** 2, 'modulus, density and velocity of brine')


@case('B01')
def fresh_brine(h):
    T, P = h.args(TP)
    h.eq(h.rp.BW.v_brine(T, P, h.q(0)), h.rp.BW.v_water(T, P), 'no salt: velocity of water')
    h.eq(h.rp.BW.rho_K_brine(T, P, h.q(0)), h.rp.BW.rho_K_water(T, P), 'no salt: water')


@case('B01')
def water_positive(h):
    T, P = h.args([('T', 1, 100, 60), ('P', 0.1, 50, 25)])
    r, K = h.rp.BW.rho_K_water(T, P)
    h.between(h.q('0.9'), r, h.q('1.1'), 'density of water is about one')


@case('B01', grid=[{'fn': 'v_water'}, {'fn': 'rho_K_water'}, {'fn': 'v_brine'}, {'fn': 'rho_K_brine'}])
def water_arrays(h, fn):
    f = getattr(h.rp.BW, fn)
    sp = TPA + SALT if 'brine' in fn else TPA
    h.vec(f, sp, ('T', 'P'), 3, 'over temperature and pressure')
    h.vec(f, [(a + 'x', *r) for a, *r in sp], ('Tx',), 2, 'over temperature')
    h.vec(f, [(a + 'y', *r) for a, *r in sp], ('Py',) if len(sp) == 2 else ('Sy',), 2, 'over one variable')
    sp = [(a + 'z', *r) for a, *r in (BR if 'brine' in fn else TP)]
    h.vec(f, sp, ('Pz',), 2, 'over pressures of both ranges')


# ---- B02 gas -------------------------------------------------------------------
def z_ref(h, p, t):
    """compressibility factor and its pressure derivative"""
    q = h.q
    a = (q('0.45') + 8 * (q('0.56') - 1 / t) ** 2) / t
    pw = h.pow(p, q('1.2'))
    e = h.exp(-a * pw)
    c = q('0.109') * (q('3.85') - t) ** 2
    lin = q('0.03') + q('0.00527') * (q('3.5') - t) ** 3
    Z = lin * p + q('0.642') * t - q('0.007') * t ** 4 - q('0.52') + c * e
    # d/dp of exp(-a p^1.2) is -1.2 a p^0.2 exp(-a p^1.2)
    dZ = lin - c * q('1.2') * a * h.pow(p, q('0.2')) * e
    return Z, dZ


def gas_ref(h, P, T, G, p, t):
    q = h.q
    Z, dZ = z_ref(h, p, t)
    rho = q('28.8') * G * P / (Z * q('8.3145') * (T + q('273.15')))
    g0 = q('0.85') + q('5.6') / (p + 2) + q('27.1') / (p + q('3.5')) ** 2 - q('8.7') * h.exp(-q('0.65') * (p + 1))
    return Z, rho, P * g0 / (1 - p * dZ / Z) / 1000


GA = [('P', 0.1, 150, 25), ('T', 1, 350, 60), ('G', 0.5, 2, 0.8)]


@case('B02')
def reduced(h):
    P, T, G = h.args(GA)
    Ta, p, t = h.rp.BW.pseudo_p_t(P, T, G)
    q = h.q
    h.eq(Ta, T + q('273.15'), 'absolute temperature')
    h.eq(p, P / (q('4.892') - q('0.4048') * G), 'pseudo-reduced pressure')
    h.eq(t, (T + q('273.15')) / (q('94.72') + q('170.75') * G), 'pseudo-reduced temperature')


@case('B02')
def z_derivative(h):
    p, t = h.args([('p', 0.01, 50, 5), ('t', 0.5, 3.5, 1.4)])
    h.eq(h.rp.BW.dz_dp(p, t), z_ref(h, p, t)[1], 'derivative of the compressibility factor', scale=1)


@case('B02')
def gas(h):
    P, T, G = h.args(GA)
    q = h.q
    p, t = P / (q('4.892') - q('0.4048') * G), (T + q('273.15')) / (q('94.72') + q('170.75') * G)
    Z, rho, K = gas_ref(h, P, T, G, p, t)
    h.autolet(8)
    h.assume(Z > q('0.05'))
    r = h.rp.BW.rho_K_gas(P, T, G)
    h.eq(r[0], rho, 'density of gas', nodef=True)
    h.eq(r[1], K, 'adiabatic bulk modulus of gas', nodef=True)


@case('B02')
def co2(h):
    P, T, G = h.args(GA)
    q = h.q
    Ta = T + q('273.15')
    p, t = P / q('7.4'), Ta / (q('31.1') + q('273.15'))
    td = Ta / (q('31.1') + q('273.5'))
    a = gas_ref(h, P, T, G, p, t)
    d = gas_ref(h, P, T, G, p, td)
    h.assume(a[0] > q('0.05'))
    h.assume(d[0] > q('0.05'))
    r = h.rp.BW.rho_K_co2(P, T, G)
    h.eq(r[0], a[1], 'density of CO2', finding='co2-critical-temperature', defect=d[1], nodef=True)
    h.eq(r[1], a[2], 'bulk modulus of CO2', finding='co2-critical-temperature', defect=d[2], nodef=True)


@case('B02', grid=[{'fn': 'rho_K_gas'}, {'fn': 'rho_K_co2'}])
def gas_arrays(h, fn):
    f = getattr(h.rp.BW, fn)
    h.vec(f, GA, ('P', 'T'), 3, 'over pressure and temperature', nodef=True)
    h.vec(f, [(a + 'x', *r) for a, *r in GA], ('Px',), 2, 'over pressure', nodef=True)


@case('B02')
def reduced_arrays(h):
    h.vec(h.rp.BW.pseudo_p_t, GA, ('P', 'T'), 2, 'pseudo-reduced')
    h.vec(h.rp.BW.dz_dp, [('p', 0.01, 50, 5), ('t', 0.5, 3.5, 1.4)], ('p', 't'), 2, 'derivative')


# ---- B03 oil ------------------------------------------------------------------------
def oil_v(h, P, T, d):
    q = h.q
    return 2096 * h.sqrt(d / (q('2.6') - d)) - q('3.7') * T + q('4.64') * P \
        + q('0.0115') * (q('4.12') * h.sqrt(q('1.08') / d - 1) - 1) * T * P


OI = [('P', 0.1, 150, 25), ('T', 1, 350, 60), ('den', 0.5, 1.07, 0.85)]


@case('B03')
def dead_oil(h):
    P, T, d = h.args(OI)
    q = h.q
    r, K = h.rp.BW.rho_K_oil(P, T, d)
    rp = d + (q('0.00277') * P - q('0.000000171') * P ** 3) * (d - q('1.15')) ** 2 + q('0.000349') * P
    h.eq(r, rp / (q('0.972') + q('0.000381') * h.pow(T + q('17.78'), q('1.175'))), 'density of dead oil')
    h.eq(K * 10 ** 6, r * oil_v(h, P, T, d) ** 2, 'modulus of dead oil')


LO = [('P', 0.1, 150, 25), ('T', 1, 350, 60), ('den', 0.6, 1.07, 0.85), ('G', 0.5, 2, 0.8)]


def live_ref(h, P, T, d, G, R):
    q = h.q
    B = q('0.972') + q('0.00038') * h.pow(q('2.4') * R * h.sqrt(G / d) + T + q('17.8'), q('1.175'))
    return B, d / ((1 + q('0.001') * R) * B), (d + q('0.0012') * G * R) / B


@case('B03')
def live_oil(h):
    P, T, d, G = h.args(LO)
    R = h.real('Rg', 0, 500, 85)
    h.autolet(6)
    B, rp, rg = live_ref(h, P, T, d, G, R)
    h.assume(rp < h.q('1.08'))
    r, K = h.rp.BW.rho_K_go(P, T, d, G, R)
    h.eq(r, rg, 'density of live oil')
    h.eq(K * 10 ** 6, rg * oil_v(h, P, T, rp) ** 2, 'modulus of live oil', nodef=True)


@case('B03')
def saturated_oil(h):
    """gas ratio not given: as much gas as dissolves"""
    P, T, d, G = h.args(LO)
    q = h.q
    h.autolet(6)
    R = q('0.02123') * G * h.pow(P * h.exp(q('4.072') / d - q('0.00377') * T), q('1.205'))
    a = h.rp.BW.rho_K_go(P, T, d, G, None)
    B, rp, rg = live_ref(h, P, T, d, G, R)
    h.assume(rp < q('1.08'))
    h.eq(a[0], rg, 'density of gas-saturated oil')
    h.eq(a[1] * 10 ** 6, rg * oil_v(h, P, T, rp) ** 2, 'modulus of gas-saturated oil', nodef=True)
    h.eq(a, h.rp.BW.rho_K_go(P, T, d, G, R), 'same as with the ratio given', nodef=True)


@case('B03')
def oil_arrays(h):
    h.vec(h.rp.BW.rho_K_oil, OI, ('P', 'T'), 3, 'dead oil over pressure and temperature')
    h.vec(h.rp.BW.rho_K_oil, [(a + 'x', *r) for a, *r in OI], ('denx',), 2, 'dead oil over density')


@case('B03')
def live_oil_arrays(h):
    h.autolet(6)
    h.vec(lambda P, T, d, G, R: h.rp.BW.rho_K_go(P, T, d, G, R), LO + [('R', 0, 500, 85)], ('P', 'T'), 2, 'live oil', nodef=True)
    h.vec(lambda P, T, d, G: h.rp.BW.rho_K_go(P, T, d, G, None), [(a + 'n', *r) for a, *r in LO], ('Pn', 'Tn'), 2,
          'gas-saturated oil', nodef=True)


# ---- B04 mixtures of brine and CO2 -----------------------------------------------------
CB = [('T', 1, 150, 60), ('P', 5, 60, 25), ('sal', 0, 0.3, 0.1)]


@case('B04', grid=[{'bw': False}, {'bw': True}])
def co2_brine_uniform(h, bw):
    T, P, s = h.args(CB)
    S = h.real('S', 0, 1, 0.3)
    gasf = 'rho_K_gas' if bw else 'rho_K_co2'
    h.opaque('BW', gasf)
    h.opaque('BW', 'rho_K_brine')
    r2, K2 = getattr(h.rp.BW, gasf)(P, T, h.q('1.5349'))
    r1, K1 = h.rp.BW.rho_K_brine(T, P, s)
    for x in (r1, K1, r2, K2):
        h.assume(x > 0)
    d, K = h.rp.BW.co2_brine(T, P, s, S, bw=bw)
    h.eq(d, (1 - S) * r1 + S * r2, 'density is the volume average', nodef=True)
    h.eq(K * ((1 - S) / K1 + S / K2), 1, 'isostress average', nodef=True)
    h.eq(h.rp.BW.co2_brine(T, P, s, h.q(0), bw=bw), [r1, K1], 'only brine', nodef=True)
    h.eq(h.rp.BW.co2_brine(T, P, s, h.q(1), bw=bw), [r2, K2], 'only CO2', nodef=True)
    if not bw:
        h.eq(h.rp.BW.co2_brine(T, P, s, S), [d, K], 'CO2 equations by default', nodef=True)


@case('B04', grid=[{'bw': False, 'e': 1}, {'bw': False, 'e': 3}, {'bw': True, 'e': 2}, {'bw': False, 'e': '2.5'}, {'bw': False, 'e': 0}, {'bw': False, 'e': 40, '_thorough': True}])
def co2_brine_patchy(h, bw, e):
    T, P, s = h.args(CB)
    S = h.real('S', 0, 1 if e else h.q('0.99'), 0.3)
    gasf = 'rho_K_gas' if bw else 'rho_K_co2'
    h.opaque('BW', gasf)
    h.opaque('BW', 'rho_K_brine')
    r2, K2 = getattr(h.rp.BW, gasf)(P, T, h.q('1.5349'))
    r1, K1 = h.rp.BW.rho_K_brine(T, P, s)
    ee = h.q(e)
    d, K = h.rp.BW.co2_brine(T, P, s, S, ee, bw)
    h.eq(d, (1 - S) * r1 + S * r2, 'density does not depend on the mixing law', nodef=True)
    h.eq(K, (K1 - K2) * h.pow(1 - S, ee) + K2, 'Brie mixing', nodef=True)


@case('B04')
def co2_brine_arrays(h):
    h.opaque('BW', 'rho_K_co2')
    h.opaque('BW', 'rho_K_brine')
    f = lambda T, P, s, S: h.rp.BW.co2_brine(T, P, s, S)
    sp = CB + [('S', 0, 1, 0.3)]
    h.vec(f, sp, ('S',), 3, 'over saturation', nodef=True)
    h.vec(f, [(a + 'x', *r) for a, *r in sp], ('Tx', 'Px', 'salx', 'Sx'), 2, 'over everything', nodef=True)
    g = lambda T, P, s, S: h.rp.BW.co2_brine(T, P, s, S, 3)
    h.vec(g, [(a + 'y', *r) for a, *r in sp], ('Sy',), 3, 'patchy over saturation', nodef=True)
