"""Short reference definitions used as oracles (transcribed from the specs)."""
import math

IDENT = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def mat_mul(a, b):
    out = []
    for i in range(4):
        row = []
        for j in range(4):
            s = 0
            for k in range(4):
                s = s + a[i][k] * b[k][j]
            row.append(s)
        out.append(row)
    return out


def mat_apply(a, p):
    return [a[i][0] * p[0] + a[i][1] * p[1] + a[i][2] * p[2] + a[i][3] * p[3]
            for i in range(4)]


def rows_of(m):
    return [[m.m11, m.m21, m.m31, m.m41], [m.m12, m.m22, m.m32, m.m42],
            [m.m13, m.m23, m.m33, m.m43], [m.m14, m.m24, m.m34, m.m44]]


def from2d(a, b, c, d, e, f):
    return [[a, c, 0, e], [b, d, 0, f], [0, 0, 1, 0], [0, 0, 0, 1]]


def translation(x, y, z=0):
    return [[1, 0, 0, x], [0, 1, 0, y], [0, 0, 1, z], [0, 0, 0, 1]]


def scaling(x, y, z=1):
    return [[x, 0, 0, 0], [0, y, 0, 0], [0, 0, z, 0], [0, 0, 0, 1]]


def _cs(deg):
    r = math.radians(deg)
    return math.cos(r), math.sin(r)


def rot_z(a):
    c, s = _cs(a)
    return [[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def rot_y(a):
    c, s = _cs(a)
    return [[c, 0, s, 0], [0, 1, 0, 0], [-s, 0, c, 0], [0, 0, 0, 1]]


def rot_x(a):
    c, s = _cs(a)
    return [[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1]]


def axis_rotation(x, y, z, a):
    """Rodrigues' rotation formula about the unit vector (x, y, z)."""
    c, s = _cs(a)
    k = 1 - c
    return [[c + x * x * k, x * y * k - z * s, x * z * k + y * s, 0],
            [y * x * k + z * s, c + y * y * k, y * z * k - x * s, 0],
            [z * x * k - y * s, z * y * k + x * s, c + z * z * k, 0],
            [0, 0, 0, 1]]


def tan_deg(a):
    return math.tan(math.radians(a))


def skew_x(a):
    return [[1, tan_deg(a), 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def skew_y(a):
    return [[1, 0, 0, 0], [tan_deg(a), 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def close(t, a, b, label, tol=1e-9):
    """Equal up to a relative (or absolute) error; unlike t.eq this leaves
    room for constants which the code itself rounds."""
    if t.symbolic:
        m = tol * (1 + abs(b))
        t.observe(label, a)
        t.check(t.And(a - b <= m, b - a <= m), label)
    else:
        t.eq(float(a), float(b), label)
