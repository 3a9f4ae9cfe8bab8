PROPERTIES = ['C05', 'C06', 'C07', 'C08']

from symx.api import harness
from svgpy.geometry.matrix import DOMMatrix
from svgpy.geometry.rect import DOMRect, DOMRectReadOnly
from harness.geometry_matrix import sym_matrix

CLASSES = [DOMRect, DOMRectReadOnly]


def real_rect(t, pre, cls=DOMRect):
    x, y = t.real(pre + 'x'), t.real(pre + 'y')
    w, h = t.real(pre + 'w'), t.real(pre + 'h')
    return cls(x, y, w, h), (x, y, w, h)


def valid_rect(t, pre, cls=DOMRect, degenerate=False):
    r, v = real_rect(t, pre, cls)
    t.assume(v[2] >= 0 if degenerate else v[2] > 0)
    t.assume(v[3] >= 0 if degenerate else v[3] > 0)
    return r, v


def lo(a, b):
    return a if a <= b else b


def hi(a, b):
    return a if a >= b else b


# ---------------------------------------------------------------- C05

@harness('C05', cases=[dict(cls=0), dict(cls=1)])
def c05_edges(t, cls):
    """Edges, size, coordinates and emptiness follow from x, y, width and
    height, for every value."""
    r, (x, y, w, h) = real_rect(t, '', CLASSES[cls])
    t.eq([r.x, r.y, r.width, r.height], [x, y, w, h], 'stored values')
    t.eq([r.left, r.top, r.right, r.bottom], [x, y, x + w, y + h], 'edges')
    t.eq(list(r.get_coords()), [x, y, x + w, y + h], 'get_coords')
    t.eq(list(r.get_rect()), [x, y, w, h], 'get_rect')
    t.eq(list(r.get_size()), [w, h], 'get_size')
    t.eq(r.isvalid(), t.And(w > 0, h > 0), 'isvalid')
    t.eq(r.isempty(), t.Or(w <= 0, h <= 0), 'isempty')


@harness('C05', cases=[dict(cls=0), dict(cls=1)])
def c05_normalize(t, cls):
    """Normalising keeps the covered area and leaves no negative size."""
    r, (x, y, w, h) = real_rect(t, '', CLASSES[cls])
    n = r.normalize()
    t.check(n.width >= 0, 'width not negative')
    t.check(n.height >= 0, 'height not negative')
    t.eq([n.left, n.right], [lo(x, x + w), hi(x, x + w)], 'same x range')
    t.eq([n.top, n.bottom], [lo(y, y + h), hi(y, y + h)], 'same y range')
    t.eq(list(r.get_rect()), [x, y, w, h], 'receiver unchanged')


@harness('C05', cases=[dict(op=o, inplace=i) for o in (
    'adjust', 'translate', 'transpose') for i in (False, True)])
def c05_move(t, op, inplace):
    """Moving, inflating and transposing change exactly what they name."""
    r, (x, y, w, h) = real_rect(t, '', t.choice('cls', [DOMRect])
                                if inplace else t.choice('cls', CLASSES))
    d = [t.real('d%d' % i) for i in range(4)]
    nm = op + ('_self' if inplace else '')
    if op == 'adjust':
        q = getattr(r, nm)(*d)
        if w > 0 and h > 0:
            e = [x + d[0], y + d[1], w - d[0] + d[2], h - d[1] + d[3]]
        else:
            e = [x, y, w, h]
    elif op == 'translate':
        q = getattr(r, nm)(d[0], d[1])
        e = [x + d[0], y + d[1], w, h]
    else:
        q = getattr(r, nm)()
        e = [x, y, h, w]
    t.eq(list(q.get_rect()), e, 'result')
    if inplace:
        t.check(q is r, 'returns itself')
    else:
        t.eq(list(r.get_rect()), [x, y, w, h], 'receiver unchanged')
        t.check(isinstance(q, DOMRect), 'result class')


@harness('C05')
def c05_setters(t):
    """Setters and bulk setters store exactly the given values."""
    r, (x, y, w, h) = real_rect(t, '')
    v = [t.real('v%d' % i) for i in range(4)]
    k = t.choice('k', ['x', 'y', 'width', 'height', 'move_to', 'set_size',
                       'set_rect', 'set_coords', 'json', 'from_rect'])
    e = [x, y, w, h]
    if k in ('x', 'y', 'width', 'height'):
        setattr(r, k, v[0])
        e[['x', 'y', 'width', 'height'].index(k)] = v[0]
    elif k == 'move_to':
        r.move_to(v[0], v[1])
        e[:2] = v[:2]
    elif k == 'set_size':
        r.set_size(v[0], v[1])
        e[2:] = v[:2]
    elif k == 'set_rect':
        r.set_rect(*v)
        e = v
    elif k == 'set_coords':
        r.set_coords(*v)
        e = [v[0], v[1], v[2] - v[0], v[3] - v[1]]
    elif k == 'json':
        r = DOMRect.from_rect(r.tojson())
    else:
        r = DOMRectReadOnly.from_rect(r.tojson())
    t.eq(list(r.get_rect()), e, 'stored')
    q = DOMRect(*[r.x, r.y, r.width, r.height])
    t.check(q == r, 'equal values, equal rectangles')


@harness('C05')
def c05_equal(t):
    """Two rectangles are equal exactly when all four values are."""
    a, u = real_rect(t, 'a')
    b, v = real_rect(t, 'b', DOMRectReadOnly)
    same = t.And(*[p == q for p, q in zip(u, v)])
    t.eq(a == b, same, 'equality')
    t.eq(a != b, t.Not(same), 'inequality')


# ---------------------------------------------------------------- C06

def bounding(a, b):
    x1, y1 = lo(a[0], b[0]), lo(a[1], b[1])
    x2 = hi(a[0] + a[2], b[0] + b[2])
    y2 = hi(a[1] + a[3], b[1] + b[3])
    return [x1, y1, x2 - x1, y2 - y1]


@harness('C06', cases=[dict(how=h) for h in ('unite', 'self', 'or', 'ior')])
def c06_rects(t, how):
    """The union of two rectangles (lines and points included) is the smallest rectangle that
    covers both."""
    a, u = valid_rect(t, 'a', degenerate=True)
    b, v = valid_rect(t, 'b', DOMRect if how == 'ior' else DOMRectReadOnly,
                      True)
    if how == 'unite':
        r = a.unite(*v)
    elif how == 'self':
        r = a.unite_self(*v)
        t.check(r is a, 'returns itself')
    elif how == 'or':
        r = a | b
    else:
        r = a
        r |= b
        t.check(r is a, 'in place')
    t.eq(list(r.get_rect()), bounding(u, v), 'bounding rectangle')
    if how in ('unite', 'or'):
        t.eq(list(a.get_rect()), list(u), 'receiver unchanged')
    t.eq(list(b.get_rect()), list(v), 'argument unchanged')


@harness('C06')
def c06_order(t):
    """Union is commutative, idempotent and absorbing."""
    a, u = valid_rect(t, 'a', degenerate=True)
    b, v = valid_rect(t, 'b', degenerate=True)
    ab, ba = a | b, b | a
    t.eq(list(ab.get_rect()), list(ba.get_rect()), 'commutative')
    t.eq(list((a | a).get_rect()), list(u), 'idempotent')
    t.eq(list((ab | b).get_rect()), list(ab.get_rect()), 'absorbing')
    if ab.isvalid():
        t.check(ab.contains(*u), 'covers the first')
        t.check(ab.contains(*v), 'covers the second')


@harness('C06', cases=[dict(how=h) for h in ('unite', 'self', 'or')])
def c06_point(t, how):
    """Extending by a point covers the point and nothing more."""
    a, u = valid_rect(t, 'a', degenerate=True)
    x, y = t.real('x'), t.real('y')
    if how == 'unite':
        r = a.unite(x, y)
    elif how == 'self':
        r = a.unite_self(x, y)
    else:
        r = a | DOMRect(x, y)
    t.eq(list(r.get_rect()), bounding(u, (x, y, 0, 0)), 'smallest cover')


@harness('C06')
def c06_empty(t):
    """A rectangle without a position is neutral for union."""
    b, v = valid_rect(t, 'b', degenerate=True)
    r = DOMRect() | b
    t.eq(list(r.get_rect()), list(v), 'empty | b = b')
    r = b | DOMRect()
    t.eq(list(r.get_rect()), list(v), 'b | empty = b')
    r = DOMRect()
    r |= b
    t.eq(list(r.get_rect()), list(v), 'empty |= b')


@harness('C06')
def c06_grow(t):
    """From a lone point, adding a rectangle or a point covers both."""
    x, y = t.real('x'), t.real('y')
    a = DOMRect(x, y)
    if t.bool('rect'):
        b, v = valid_rect(t, 'b', degenerate=True)
    else:
        v = (t.real('bx'), t.real('by'), 0, 0)
        b = DOMRect(v[0], v[1])
    r = a | b
    t.eq(list(r.get_rect()), bounding((x, y, 0, 0), v), 'covers both')


# ---------------------------------------------------------------- C07

@harness('C07', cases=[dict(cls=0), dict(cls=1)])
def c07_contains_point(t, cls):
    """Point containment includes the edges."""
    r, (x, y, w, h) = real_rect(t, '', CLASSES[cls])
    px, py = t.real('px'), t.real('py')
    e = t.And(w > 0, h > 0, x <= px, px <= x + w, y <= py, py <= y + h)
    t.eq(r.contains(px, py), e, 'point inside or on the edge')


@harness('C07', cases=[dict(cls=0), dict(cls=1)])
def c07_contains_rect(t, cls):
    """Rectangle containment = containment of all four edges."""
    r, (x, y, w, h) = real_rect(t, '', CLASSES[cls])
    b, (bx, by, bw, bh) = valid_rect(t, 'b')
    e = t.And(w > 0, h > 0, x <= bx, bx + bw <= x + w, y <= by,
              by + bh <= y + h)
    t.eq(r.contains(bx, by, bw, bh), e, 'rectangle inside')


@harness('C07', cases=[dict(how=h) for h in ('intersect', 'self', 'and',
                                             'iand')])
def c07_intersect(t, how):
    """The intersection of two overlapping rectangles is the common area."""
    a, u = valid_rect(t, 'a')
    b, v = valid_rect(t, 'b', DOMRect if how == 'iand' else DOMRectReadOnly)
    x1, y1 = hi(u[0], v[0]), hi(u[1], v[1])
    x2, y2 = lo(u[0] + u[2], v[0] + v[2]), lo(u[1] + u[3], v[1] + v[3])
    t.assume(x1 < x2)
    t.assume(y1 < y2)
    if how == 'intersect':
        r = a.intersect(b)
    elif how == 'self':
        r = a.intersect_self(b)
        t.check(r is a, 'returns itself')
    elif how == 'and':
        r = a & b
    else:
        r = a
        r &= b
        t.check(r is a, 'in place')
    t.eq(list(r.get_rect()), [x1, y1, x2 - x1, y2 - y1], 'common area')
    if how in ('intersect', 'and'):
        t.eq(list(a.get_rect()), list(u), 'receiver unchanged')
    t.eq(list(b.get_rect()), list(v), 'argument unchanged')


@harness('C07')
def c07_disjoint(t):
    """Rectangles without common area: the receiver is returned as it was."""
    a, u = valid_rect(t, 'a')
    b, v = real_rect(t, 'b')
    t.assume(t.Or(v[2] <= 0, v[3] <= 0, u[0] + u[2] < v[0],
                  v[0] + v[2] < u[0], u[1] + u[3] < v[1],
                  v[1] + v[3] < u[1]))
    r = a.intersect(b)
    t.eq(list(r.get_rect()), list(u), 'unchanged')


@harness('C07')
def c07_intersect_rejects(t):
    """Only rectangles can be intersected."""
    a, u = real_rect(t, 'a')
    t.rejects('type', TypeError, a.intersect_self, (1, 2, 3, 4))
    t.eq(list(a.get_rect()), list(u), 'unchanged')


# ---------------------------------------------------------------- C08

@harness('C08', cases=[dict(inplace=False), dict(inplace=True)])
def c08_transform(t, inplace):
    """Transforming a rectangle gives the tight bounding box of its four
    mapped corners."""
    r, (x, y, w, h) = real_rect(t, '')
    m, mr = sym_matrix(t, 'm_', 2)
    q = r.transform_self(m) if inplace else r.transform(m)
    pts = []
    for px, py in ((x, y), (x + w, y), (x + w, y + h), (x, y + h)):
        pts.append((mr[0][0] * px + mr[0][1] * py + mr[0][3],
                    mr[1][0] * px + mr[1][1] * py + mr[1][3]))
    for i, (px, py) in enumerate(pts):
        t.le(q.left, px, 'left of corner %d' % i)
        t.le(px, q.right, 'right of corner %d' % i)
        t.le(q.top, py, 'above corner %d' % i)
        t.le(py, q.bottom, 'below corner %d' % i)
    t.check(t.Or(*[t.near(q.left, p[0]) for p in pts]), 'left is tight')
    t.check(t.Or(*[t.near(q.right, p[0]) for p in pts]), 'right is tight')
    t.check(t.Or(*[t.near(q.top, p[1]) for p in pts]), 'top is tight')
    t.check(t.Or(*[t.near(q.bottom, p[1]) for p in pts]), 'bottom is tight')
    if inplace:
        t.check(q is r, 'returns itself')
    else:
        t.eq(list(r.get_rect()), [x, y, w, h], 'receiver unchanged')


@harness('C08')
def c08_identity(t):
    """The identity leaves a rectangle as it is; a rectangle without a
    position is never changed."""
    r, (x, y, w, h) = real_rect(t, '')
    t.assume(w >= 0)
    t.assume(h >= 0)
    q = r.transform(DOMMatrix())
    t.eq(list(q.get_rect()), [x, y, w, h], 'identity')
    m, mr = sym_matrix(t, 'm_', 2)
    q = DOMRect(width=w, height=h).transform(m)
    t.check(q.x is None and q.y is None, 'no position')
    t.eq([q.width, q.height], [w, h], 'same size')
