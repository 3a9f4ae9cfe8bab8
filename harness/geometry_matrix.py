PROPERTIES = ['C01', 'C02', 'C03', 'C04']

import math

from symx.api import harness
from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly
from harness.ref import (IDENT, axis_rotation, mat_apply, mat_mul, rows_of,
                         tan_deg, translation, scaling, rot_x, rot_y, rot_z,
                         skew_x, skew_y, from2d)

NAMES16 = ['m11', 'm12', 'm13', 'm14', 'm21', 'm22', 'm23', 'm24',
           'm31', 'm32', 'm33', 'm34', 'm41', 'm42', 'm43', 'm44']
NAMES6 = ['a', 'b', 'c', 'd', 'e', 'f']


def sym_matrix(t, pre, dim, cls=DOMMatrix):
    """An arbitrary matrix and its 4x4 rows."""
    if dim == 2:
        v = [t.real(pre + n) for n in NAMES6]
        return cls(v), from2d(*v)
    v = [t.real(pre + n) for n in NAMES16]
    m = cls(v)
    return m, [[v[4 * c + r] for c in range(4)] for r in range(4)]


def sparse_matrix(t, zero):
    """A 4x4 matrix with a pattern of zeros."""
    keep = {'persp': (11, 12, 21, 22, 33, 44, 41, 14, 34),
            'block': (11, 13, 31, 33, 22, 24, 42, 44),
            'lower': (11, 22, 33, 44, 12, 13, 14, 23, 24, 34)}[zero]
    v = [t.real(n) if int(n[1:]) in keep else 0 for n in NAMES16]
    return DOMMatrix(v), [[v[4 * c + r] for c in range(4)] for r in range(4)]


def rows(m):
    return [[m.m11, m.m21, m.m31, m.m41],
            [m.m12, m.m22, m.m32, m.m42],
            [m.m13, m.m23, m.m33, m.m43],
            [m.m14, m.m24, m.m34, m.m44]]


def is_2d_rows(r):
    return [r[0][2], r[1][2], r[2][0], r[2][1], r[2][2] - 1, r[2][3],
            r[3][0], r[3][1], r[3][2], r[3][3] - 1]


def check_flag(t, m, label):
    """a matrix flagged 2d has identity 3d components"""
    t.check(m.is2d is True or m.is2d is False, label + ': flag is a bool')
    if m.is2d:
        t.eq(is_2d_rows(rows(m)), [0] * 10, label + ': 2d flag is sound')


OPS = ['multiply', 'mul', 'translate', 'scale', 'scale1', 'scale3d',
       'scale_xz', 'rotate', 'axis', 'vector', 'skew_x', 'skew_y', 'flip_x',
       'flip_y', 'scale_o']


def apply_op(t, m, op, pre, inplace, dim2=None):
    """Apply an operation with arbitrary arguments.

    Returns (result, expected post-multiplied rows).
    """
    def name(x):
        return x + '_self' if inplace else x
    if op in ('multiply', 'mul'):
        o, orows = sym_matrix(t, pre + 'o_', dim2 or 2)
        if op == 'mul':
            if inplace:
                r = m
                r *= o
            else:
                r = m * o
        else:
            r = getattr(m, name('multiply'))(o)
        return r, orows
    if op == 'translate':
        x, y, z = t.real(pre + 'tx'), t.real(pre + 'ty'), t.real(pre + 'tz')
        return getattr(m, name('translate'))(x, y, z), translation(x, y, z)
    if op == 'scale1':
        s = t.real(pre + 's')
        return getattr(m, name('scale'))(s), scaling(s, s, 1)
    if op == 'scale':
        s, u = t.real(pre + 'sx'), t.real(pre + 'sy')
        return getattr(m, name('scale'))(s, u), scaling(s, u, 1)
    if op == 'scale_xz':
        s, u, w = t.real(pre + 'sx'), t.real(pre + 'sy'), t.real(pre + 'sz')
        return getattr(m, name('scale'))(s, u, w), scaling(s, u, w)
    if op == 'scale_o':
        s, u, w = t.real(pre + 'sx'), t.real(pre + 'sy'), t.real(pre + 'sz')
        x, y, z = t.real(pre + 'ox'), t.real(pre + 'oy'), t.real(pre + 'oz')
        e = mat_mul(mat_mul(translation(x, y, z), scaling(s, u, w)),
                    translation(-x, -y, -z))
        return getattr(m, name('scale'))(s, u, w, x, y, z), e
    if op == 'scale3d':
        s = t.real(pre + 's')
        x, y, z = t.real(pre + 'ox'), t.real(pre + 'oy'), t.real(pre + 'oz')
        e = mat_mul(mat_mul(translation(x, y, z), scaling(s, s, s)),
                    translation(-x, -y, -z))
        return getattr(m, name('scale3d'))(s, x, y, z), e
    if op == 'rotate':
        x, y, z = t.angle(pre + 'rx'), t.angle(pre + 'ry'), t.angle(pre + 'rz')
        # [geometry]: rotations about z, then y, then x are post-multiplied
        e = mat_mul(mat_mul(rot_z(z), rot_y(y)), rot_x(x))
        return getattr(m, name('rotate'))(x, y, z), e
    if op == 'axis':
        k = t.choice(pre + 'axis', ['x', 'y', 'z', 'xy', 'xyz'])
        a = t.angle(pre + 'ang')
        x = t.real(pre + 'ax') if 'x' in k else 0
        y = t.real(pre + 'ay') if 'y' in k else 0
        z = t.real(pre + 'az') if 'z' in k else 0
        r = getattr(m, name('rotate_axis_angle'))(x, y, z, a)
        n = math.sqrt(x * x + y * y + z * z)
        if n == 0:
            return r, IDENT
        return r, axis_rotation(x / n, y / n, z / n, a)
    if op == 'vector':
        x, y = t.real(pre + 'vx'), t.real(pre + 'vy')
        r = getattr(m, name('rotate_from_vector'))(x, y)
        if x == 0 and y == 0:
            return r, IDENT
        n = math.sqrt(x * x + y * y)
        c, s = x / n, y / n
        return r, [[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
    if op == 'skew_x':
        a = t.angle(pre + 'sk')
        t.assume(math.cos(math.radians(a)) != 0)
        return getattr(m, name('skew_x'))(a), skew_x(a)
    if op == 'skew_y':
        a = t.angle(pre + 'sk')
        t.assume(math.cos(math.radians(a)) != 0)
        return getattr(m, name('skew_y'))(a), skew_y(a)
    if op == 'flip_x':
        return m.flip_x(), scaling(-1, 1, 1)
    if op == 'flip_y':
        return m.flip_y(), scaling(1, -1, 1)


def op_cases():
    out = []
    for op in OPS:
        for dim in (2, 3):
            for inplace in (False, True):
                if op.startswith('flip') and inplace:
                    continue
                if op in ('multiply', 'mul'):
                    for dim2 in (2, 3):
                        out.append(dict(op=op, dim=dim, inplace=inplace,
                                        dim2=dim2))
                else:
                    out.append(dict(op=op, dim=dim, inplace=inplace))
    return out


@harness('C01', cases=op_cases())
def c01_op(t, op, dim, inplace, dim2=2):
    """Each transformation method, in both its copying and its in-place form,
    post-multiplies the documented transformation onto an arbitrary matrix."""
    m, mrows = sym_matrix(t, '', dim)
    r, orows = apply_op(t, m, op, 'p_', inplace, dim2)
    t.eq(rows(r), mat_mul(mrows, orows), 'result = M x T')
    if inplace:
        t.check(r is m, 'in-place form returns the receiver')
    else:
        t.check(r is not m, 'copying form returns a new object')
    t.check(isinstance(r, DOMMatrix), 'result is a matrix')


@harness('C01', cases=[dict(dim=d, ro=r) for d in (2, 3)
                       for r in (False, True)])
def c01_point(t, dim, ro):
    """Mapping a point equals multiplying the column vector."""
    m, mrows = sym_matrix(t, '', dim, DOMMatrixReadOnly if ro else DOMMatrix)
    x, y = t.real('x'), t.real('y')
    z, w = t.real('z'), t.real('w')
    e = mat_apply(mrows, [x, y, z, w])
    r = m.transform_point(x, y, z, w)
    if len(r) == 2:
        t.check(t.And(m.is2d, z == 0, w == 1), 'two results only for 2d')
        t.eq(list(r), e[:2], 'point maps to M p')
    else:
        t.eq(list(r), e, 'point maps to M p')
    e = mat_apply(mrows, [x, y, 0, 1])
    r = m.transform_point(x, y)
    t.eq(list(r)[:2], e[:2], '2d point maps to M (x, y, 0, 1)')
    t.check(len(r) == (2 if dim == 2 else 4), 'arity of the mapped point')


@harness('C01', cases=[dict(d1=a, d2=b) for a in (2, 3) for b in (2, 3)])
def c01_compose(t, d1, d2):
    """Applying a product to a point = applying the factors right to left."""
    a, ar = sym_matrix(t, 'a_', d1)
    b, br = sym_matrix(t, 'b_', d2)
    x, y, z, w = t.real('x'), t.real('y'), t.real('z'), t.real('w')
    p = b.transform_point(x, y, z, w)
    if len(p) == 2:
        p = tuple(p) + (0, 1)
    q = a.transform_point(*p)
    r = a.multiply(b).transform_point(x, y, z, w)
    t.eq(list(q)[:2], list(r)[:2], '(A B) p = A (B p)')


def decomp_cases():
    return [dict(dim=2), dict(dim=3)]


@harness('C01', cases=decomp_cases())
def c01_accessors(t, dim):
    """Component accessors, the decomposition getters and equality agree with
    the stored components."""
    m, r = sym_matrix(t, '', dim)
    t.eq([m.a, m.b, m.c, m.d, m.e, m.f],
         [r[0][0], r[1][0], r[0][1], r[1][1], r[0][3], r[1][3]], '2d aliases')
    t.eq(rows(m), r, '4x4 accessors')
    tr = m.get_translate()
    t.eq(list(tr), [r[0][3], r[1][3]] + ([r[2][3]] if dim == 3 else []),
         'translation part')
    sc = m.get_scale()
    t.check(len(sc) == dim, 'one scale per dimension')
    for i, s in enumerate(sc):
        t.eq(s * s, r[0][i] ** 2 + r[1][i] ** 2 + r[2][i] ** 2,
             'scale = length of the basis vector')
        t.check(s >= 0, 'scale is not negative')
    if dim == 2:
        ang = m.get_angle(False)
        n = math.sqrt(m.a * m.a + m.b * m.b)
        if n != 0:
            t.eq([math.cos(ang) * n, math.sin(ang) * n], [m.a, m.b],
                 'angle of the x basis vector')
    t.check(m == DOMMatrix(m.tolist()), 'equal to its own components')
    t.check(m.isidentity == t.near(r, IDENT), 'identity test')


@harness('C02', cases=[dict(dim=2, inplace=False), dict(dim=2, inplace=True)]
         + [dict(dim=3, inplace=i, zero=z) for i in (False, True)
            for z in ('persp', 'block', 'lower')]
         + [dict(dim=3, inplace=i, _tier='thorough') for i in (False, True)])
def c02_inverse(t, dim, inplace, zero=None):
    """Inverting any non-singular matrix gives a two-sided inverse; a singular
    one is rejected with an error and left unchanged."""
    if zero:
        m, mr = sparse_matrix(t, zero)
    else:
        m, mr = sym_matrix(t, '', dim)
    try:
        inv = m.invert_self() if inplace else m.inverse()
    except Exception as e:
        # singular: no point set may be inverted
        t.check(type(e).__name__ == 'LinAlgError', 'error kind')
        t.eq(rows(m), mr, 'unchanged after a failed inversion')
        if dim == 2:
            t.eq(mr[0][0] * mr[1][1] - mr[0][1] * mr[1][0], 0,
                 'only singular matrices are rejected')
        return
    ir = rows(inv)
    t.eq(mat_mul(mr, ir), IDENT, 'M x inverse(M) = identity')
    t.eq(mat_mul(ir, mr), IDENT, 'inverse(M) x M = identity')
    t.check(inv.is2d == (dim == 2), 'dimension preserved')
    if inplace:
        t.check(inv is m, 'in-place form returns the receiver')
    else:
        t.eq(rows(m), mr, 'receiver unchanged')


@harness('C02', cases=[dict(zero='b'), dict(zero='c'), dict(zero='ad'),
                       dict(zero='', _tier='thorough')])
def c02_point_roundtrip(t, zero):
    """Mapping by a 2d matrix and then by its inverse returns the point."""
    m = DOMMatrix([0 if n in zero else t.real(n) for n in NAMES6])
    x, y = t.real('x'), t.real('y')
    t.assume(m.a * m.d - m.b * m.c != 0)
    p = m.transform_point(x, y)
    q = m.inverse().transform_point(*p)
    t.eq(list(q), [x, y], 'round trip')


# ---------------------------------------------------------------- C03

def flag_cases():
    return [c for c in op_cases()]


@harness('C03', cases=flag_cases())
def c03_flag_op(t, op, dim, inplace, dim2=2):
    """From an arbitrary sound matrix, one operation with arbitrary arguments
    gives a sound 2d flag (inductive step for any history)."""
    m, mrows = sym_matrix(t, '', dim)
    r, orows = apply_op(t, m, op, 'p_', inplace, dim2)
    check_flag(t, r, op)
    if dim == 3:
        t.check(r.is2d is False, 'an operation never turns a 3d matrix 2d')


@harness('C03', cases=[dict(field=f) for f in NAMES16 + NAMES6])
def c03_flag_set(t, field):
    """Assigning any component keeps the 2d flag sound and changes exactly
    that component."""
    dim = t.choice('dim', [2, 3])
    m, mr = sym_matrix(t, '', dim)
    v = t.real('v')
    setattr(m, field, v)
    check_flag(t, m, 'assignment')
    alias = dict(a='m11', b='m12', c='m21', d='m22', e='m41', f='m42')
    f = alias.get(field, field)
    i, j = int(f[2]) - 1, int(f[1]) - 1
    exp = [list(r) for r in mr]
    exp[i][j] = v
    t.eq(rows(m), exp, 'only the assigned component changes')
    if dim == 3:
        t.check(m.is2d is False, 'a 3d matrix stays 3d')


@harness('C03', cases=[dict(dim=2), dict(dim=3)])
def c03_roundtrip(t, dim):
    """Every exported form rebuilds an equal matrix with the same flag."""
    cls = t.choice('cls', [DOMMatrix, DOMMatrixReadOnly])
    m, mr = sym_matrix(t, '', dim, cls)
    t.check(m.is2d == (dim == 2), 'flag from the number of elements')
    t.check(len(m.tolist()) == (6 if dim == 2 else 16), 'element count')
    n = cls(m.tolist())
    t.eq(rows(n), mr, 'list form')
    t.check(n.is2d == m.is2d, 'list form keeps the flag')
    n = cls.from_matrix(m.tojson())
    t.eq(rows(n), mr, 'dictionary form')
    t.check(n.is2d == m.is2d, 'dictionary form keeps the flag')
    n = cls.from_float_array(m.to_float_array())
    t.eq(rows(n), mr, 'float array form')
    t.check(isinstance(n, cls), 'class of the rebuilt matrix')


ALIASES = [('a', 'm11', 1), ('b', 'm12', 0), ('c', 'm21', 0),
           ('d', 'm22', 1), ('e', 'm41', 0), ('f', 'm42', 0)]
ONLY3D = [('m13', 0), ('m14', 0), ('m23', 0), ('m24', 0), ('m31', 0),
          ('m32', 0), ('m33', 1), ('m34', 0), ('m43', 0), ('m44', 1)]


@harness('C03', cases=[dict(k=k) for k in range(6)])
def c03_init_alias(t, k):
    """Keyword construction: aliases must agree, missing components default to
    the identity."""
    al, full, dflt = ALIASES[k]
    use = t.choice('use', ['alias', 'full', 'both', 'none'])
    v, w = t.real('v'), t.real('w')
    kw = {}
    if use in ('alias', 'both'):
        kw[al] = v
    if use in ('full', 'both'):
        kw[full] = w
    e, m = t.raises(lambda: DOMMatrix(**kw))
    if use == 'both' and v != w:
        t.check(isinstance(e, (ValueError, TypeError)),
                'conflicting aliases are rejected')
        return
    t.check(e is None, 'accepted')
    exp = [list(r) for r in IDENT]
    i, j = int(full[2]) - 1, int(full[1]) - 1
    exp[i][j] = v if use == 'alias' else (w if use != 'none' else dflt)
    t.eq(rows(m), exp, 'components')
    t.check(m.is2d is True, 'two-dimensional')


@harness('C03', cases=[dict(k=k) for k in range(10)])
def c03_init_3d(t, k):
    """Keyword construction with a 3d component: an explicit 2d request is
    rejected unless the component has its identity value; otherwise the flag
    is inferred."""
    full, dflt = ONLY3D[k]
    flag = t.choice('flag', [None, True, False])
    v = t.real('v')
    x = t.real('x')
    kw = {full: v, 'm41': x}
    if flag is not None:
        kw['is2d'] = flag
    e, m = t.raises(lambda: DOMMatrixReadOnly(**kw))
    if flag is True and v != dflt:
        t.check(isinstance(e, (ValueError, TypeError)), 'rejected')
        return
    t.check(e is None, 'accepted')
    i, j = int(full[2]) - 1, int(full[1]) - 1
    exp = [list(r) for r in IDENT]
    exp[i][j] = v
    exp[0][3] = x
    t.eq(rows(m), exp, 'components')
    check_flag(t, m, 'keyword construction')
    if flag is not None:
        t.check(m.is2d is flag, 'explicit flag is honoured')
    else:
        t.check(m.is2d == t.near(v, dflt), 'flag is inferred')


# ---------------------------------------------------------------- C04

READERS = ['multiply', 'mul', 'translate', 'scale', 'scale_xz', 'scale_o',
           'scale1', 'scale3d', 'rotate', 'axis', 'vector', 'skew_x',
           'skew_y', 'flip_x', 'flip_y']


@harness('C04', cases=[dict(op=o, dim=d, cls=c) for o in READERS
                       for d in (2, 3) for c in ('rw', 'ro')])
def c04_pure(t, op, dim, cls):
    """Copying operations leave the receiver and their arguments untouched,
    and later changes to the result do not reach the receiver."""
    m, mr = sym_matrix(t, '', dim,
                       DOMMatrix if cls == 'rw' else DOMMatrixReadOnly)
    flag = m.is2d
    if op in ('multiply', 'mul'):
        o, orows = sym_matrix(t, 'o_', 3)
        r = m * o if op == 'mul' else m.multiply(o)
        t.eq(rows(o), orows, 'argument unchanged')
        t.check(o.is2d is False, 'argument flag unchanged')
    else:
        r, _ = apply_op(t, m, op, 'p_', False)
    t.eq(rows(m), mr, 'receiver unchanged')
    t.check(m.is2d is flag, 'receiver flag unchanged')
    t.check(r is not m, 'result is a new object')
    r.m11 = t.real('new')
    r.m42 = 7
    t.eq(rows(m), mr, 'result is independent of the receiver')


@harness('C04', cases=[dict(dim=2), dict(dim=3)])
def c04_readers(t, dim):
    """Queries leave the matrix untouched."""
    m, mr = sparse_matrix(t, 'persp') if dim == 3 else sym_matrix(t, '', 2)
    flag = m.is2d
    m.transform_point(t.real('x'), t.real('y'), t.real('z'), t.real('w'))
    lst = m.tolist()
    m.tojson()
    m.to_float_array()
    m.get_scale()
    m.get_translate()
    m.isidentity
    lst[0] = 12345
    t.eq(rows(m), mr, 'unchanged by queries')
    t.check(m.is2d is flag, 'flag unchanged by queries')
    e, _ = t.raises(lambda: m.inverse())
    t.eq(rows(m), mr, 'unchanged by inversion')


@harness('C04')
def c04_readonly(t):
    """Components of a read-only matrix cannot be assigned."""
    m, mr = sym_matrix(t, '', 3, DOMMatrixReadOnly)
    f = t.choice('field', NAMES16 + NAMES6)
    t.rejects('assignment rejected', AttributeError, setattr, m, f,
              t.real('v'))
    t.eq(rows(m), mr, 'unchanged')
