"""references shared by the property modules"""


def lam_of(h, K, G):
    return K - h.q(2, 3) * G


def iso_tensor(h, lam, mu):
    """6x6 stiffness of an isotropic solid as nested lists"""
    z = h.q(0)
    C = [[z] * 6 for _ in range(6)]
    for i in range(3):
        for j in range(3):
            C[i][j] = lam + (2 * mu if i == j else z)
        C[i + 3][i + 3] = mu + z
    return C


VOIGT = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def tdef(h, C, want, label, **k):
    """6x6 matrix C equals the nested list want"""
    h.true(h.np.shape(C) == (6, 6), label + ': 6x6')
    d = k.pop('defect', None)
    for i in range(6):
        for j in range(6):
            kk = dict(k)
            if d is not None:
                kk['defect'] = d[i][j]
            h.eq(C[i, j], want[i][j], '%s C%d%d' % (label, i + 1, j + 1), scale=1, **kk)
