PROPERTIES = ['C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C46']

import math

from symx.api import harness
from svgpy.geometry.matrix import DOMMatrix
from svgpy.path import (CubicBezierCurve, Ellipse, PathParser, PathSegment,
                        SVGPathSegment)
from harness.geometry_matrix import sym_matrix

ARGC = {'A': 7, 'B': 1, 'C': 6, 'H': 1, 'L': 2, 'M': 2, 'Q': 4, 'S': 4,
        'T': 2, 'V': 1, 'Z': 0}
CURVES = 'CcHhLlMmQqSsTtVvZz'


# ------------------------------------------------- reference interpretation

def rot(bearing, x, y):
    if bearing is None:
        return x, y
    r = math.radians(bearing)
    c, s = math.cos(r), math.sin(r)
    return c * x - s * y, s * x + c * y


class Pen(object):
    """Current point, sub-path start, reflection points and bearing, as
    SVG 2 defines them."""

    def __init__(self):
        self.x = self.y = self.sx = self.sy = 0
        self.c2 = self.q1 = None
        self.bearing = None
        self.last = None

    def run(self, cmd, v):
        """Absolute base commands drawn by one command."""
        up = cmd.upper()
        rel = cmd != up
        if up == 'B':
            self.bearing = v[0] if not rel or self.bearing is None \
                else self.bearing + v[0]
            self.last = cmd
            self.c2 = self.q1 = None
            return []
        p = []
        if up == 'H':
            p = [rot(self.bearing, v[0], 0)] if rel else [(v[0], self.y)]
        elif up == 'V':
            p = [rot(self.bearing, 0, v[0])] if rel else [(self.x, v[0])]
        else:
            for i in range(0, len(v), 2):
                p.append(rot(self.bearing, v[i], v[i + 1]) if rel
                         else (v[i], v[i + 1]))
        if rel:
            p = [(self.x + a, self.y + b) for a, b in p]
        cur = (self.x, self.y)
        c2 = q1 = None
        if up == 'Z':
            out = [('Z',)]
            end = (self.sx, self.sy)
        elif up == 'M':
            out = [('M',) + p[0]]
            end = p[0]
            if self.last not in ('M', 'm'):
                self.sx, self.sy = end
        elif up in 'LHV':
            out = [('L',) + p[0]]
            end = p[0]
        elif up in 'CS':
            if up == 'S':
                c1 = cur if self.c2 is None else (
                    2 * cur[0] - self.c2[0], 2 * cur[1] - self.c2[1])
                p = [c1] + p
            out = [('C',) + p[0] + p[1] + p[2]]
            c2, end = p[1], p[2]
        else:
            if up == 'T':
                q = cur if self.q1 is None else (
                    2 * cur[0] - self.q1[0], 2 * cur[1] - self.q1[1])
                p = [q] + p
            q1, end = p
            two = 2 / 3
            out = [('C',
                    cur[0] + two * (q1[0] - cur[0]),
                    cur[1] + two * (q1[1] - cur[1]),
                    end[0] + two * (q1[0] - end[0]),
                    end[1] + two * (q1[1] - end[1])) + end]
        self.x, self.y = end
        self.c2, self.q1 = c2, q1
        self.last = cmd
        return out


def sym_values(t, cmd, pre):
    return [t.real('%s%d' % (pre, i)) for i in range(ARGC[cmd.upper()])]


def seg(cmd, v):
    return SVGPathSegment(cmd, *v)


def flat(segs):
    """Types and values of path segments."""
    return [s.type for s in segs], [list(s.values) for s in segs]


def check_path(t, got, exp, label):
    types, vals = flat(got)
    t.check(types == [e[0] for e in exp], label + ': commands',
            '%s / %s' % (types, [e[0] for e in exp]))
    for a, e in zip(vals, exp):
        t.eq(a, list(e[1:]), label + ': coordinates')


# ---------------------------------------------------------------- C12

def seq_cases():
    out = [dict(first=f, cmds=c) for f in 'Mm' for c in CURVES]
    return out


@harness('C12', cases=[dict(a=a) for a in CURVES])
def c12_normalize(t, a):
    """For every command sequence M, a, b, c the normalised path consists of
    the absolute M, L, C and Z commands that SVG prescribes."""
    n = 2 if t.tier == 'quick' else 3
    cmds = [t.choice('first', 'Mm'), a]
    for i in range(n - 1):
        cmds.append(t.choice('c%d' % i, CURVES))
    path, exp, pen = [], [], Pen()
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i)
        path.append(seg(c, v))
        exp += pen.run(c, v)
    before = [list(s.values) for s in path]
    got = PathParser.normalize(path)
    check_path(t, got, exp, 'normalised')
    t.eq([list(s.values) for s in path], before, 'input untouched')


@harness('C12', cases=[dict(cmds=c) for c in (
    'MZs', 'MLZls', 'MCsS', 'MSsl', 'MQtT', 'MTtS', 'MCZS', 'MLBls', 'MBhv',
    'MbbLq', 'MZZm', 'MlZmlZ', 'MLMZl', 'mHMLzh', 'MCmZs', 'MlZMLzlMzl', 'MCtsT', 'mmll', 'MmLzl', 'MBtT', 'MBBcS')])
def c12_longer(t, cmds):
    """Selected longer sequences, bearings included."""
    path, exp, pen = [], [], Pen()
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i) if c not in 'Bb' \
            else [t.angle('v%d_0' % i)]
        path.append(seg(c, v))
        exp += pen.run(c, v)
    check_path(t, PathParser.normalize(path), exp, 'normalised')


@harness('C12', cases=[dict(a=a) for a in 'CcSsQqTtLl'])
def c12_smooth(t, a):
    """Smooth segments in a row go on from the one before, however that one
    was written."""
    cmds = [t.choice('first', 'Mm'), a, t.choice('b', 'SsTt'),
            t.choice('c', 'SsTt')]
    path, exp, pen = [], [], Pen()
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i)
        path.append(seg(c, v))
        exp += pen.run(c, v)
    check_path(t, PathParser.normalize(path), exp, 'normalised')


@harness('C12', cases=[dict(cmd=c) for c in 'CcHhLlMmQqSsTtVvAaZz'])
def c12_absolute(t, cmd):
    """Making one segment absolute keeps where it goes."""
    v = sym_values(t, cmd, 'v')
    x, y = t.real('x'), t.real('y')
    turned = t.bool('turned')
    bearing = t.angle('bearing') if turned else 0
    s = seg(cmd, v)
    r = PathSegment.toabsolute(s, x, y, bearing)
    t.check(r is not s, 'new object')
    t.eq(list(s.values), v, 'input untouched')
    up = cmd.upper()
    if cmd == up:
        t.check(r.type == cmd, 'absolute commands stay')
        t.eq(list(r.values), v, 'absolute commands stay')
        return
    b = bearing if turned else None
    if up == 'A':
        p = rot(b, v[5], v[6])
        t.check(r.type == 'A', 'arc')
        t.eq(list(r.values), v[:2] + [v[2] + bearing] + v[3:5]
             + [p[0] + x, p[1] + y], 'arc values')
        return
    if up in 'HV':
        w = [v[0], 0] if up == 'H' else [0, v[0]]
        t.check(r.type == 'L', 'h and v become L')
    else:
        w = v
        t.check(r.type == up, 'same command')
    e = []
    for i in range(0, len(w), 2):
        p = rot(b, w[i], w[i + 1])
        e += [p[0] + x, p[1] + y]
    t.eq(list(r.values), e, 'absolute values')


@harness('C12')
def c12_bearing(t):
    """Bearings add up for b and are replaced by B."""
    b, v = t.real('b'), t.real('v')
    t.eq(seg('B', [v]).get_bearing(b), v, 'absolute')
    t.eq(seg('b', [v]).get_bearing(b), b + v, 'relative')
    c = t.choice('c', 'CcHhLlMmQqSsTtVvZz')
    t.eq(seg(c, sym_values(t, c, 'w')).get_bearing(b), b, 'others keep it')


SETTERS = {'B': 'bearing', 'C': 'curveto', 'A': 'elliptical_arc',
           'H': 'horizontal_lineto', 'L': 'lineto', 'M': 'moveto',
           'Q': 'quadratic_curveto', 'S': 'smooth_curveto',
           'T': 'smooth_quadratic_curveto', 'V': 'vertical_lineto'}


@harness('C12', cases=[dict(up=u) for u in SETTERS])
def c12_setters(t, up):
    """Typed setters and the segment queries agree with type and values."""
    v = sym_values(t, up, 'v')
    if up == 'A':
        v[3], v[4] = t.choice('fa', [0, 1]), t.choice('fs', [0, 1])
    rel = t.bool('rel')
    s = SVGPathSegment('L', 1, 2)
    getattr(s, 'set_%s_%s' % (SETTERS[up], 'rel' if rel else 'abs'))(*v)
    cmd = up.lower() if rel else up
    t.check(s.type == cmd, 'type')
    t.eq(list(s.values), v, 'values')
    t.check(s.isabsolute() is not rel and s.isrelative() is rel, 'kind')
    t.check(s.isvalid() is True, 'valid')
    t.check(s == SVGPathSegment(cmd, *v), 'equality')
    e = s.end
    if up == 'H':
        t.eq(e[0], v[0], 'end')
        t.check(e[1] is None if not rel else e[1] == 0, 'end')
    elif up == 'V':
        t.eq(e[1], v[0], 'end')
        t.check(e[0] is None if not rel else e[0] == 0, 'end')
    elif up == 'B':
        t.check(e == (None, None), 'no end')
    else:
        t.eq(list(e), v[-2:], 'end')
    w = list(v)
    k = t.choice('k', list(range(len(v))))
    w[k] = w[k] + 1
    t.check(s != SVGPathSegment(cmd, *w), 'different values differ')


# ---------------------------------------------------------------- C13

def affine(mr, p):
    return (mr[0][0] * p[0] + mr[0][1] * p[1] + mr[0][3],
            mr[1][0] * p[0] + mr[1][1] * p[1] + mr[1][3])


def map_path(mr, segs):
    out = []
    for s in segs:
        v = list(s[1:])
        w = []
        for i in range(0, len(v), 2):
            w += list(affine(mr, (v[i], v[i + 1])))
        out.append((s[0],) + tuple(w))
    return out


@harness('C13', cases=[dict(a=a) for a in CURVES])
def c13_commute(t, a):
    """Normalising a transformed path = transforming the normalised path,
    for every affine map and command sequence M, a, b."""
    m, mr = sym_matrix(t, 'm_', 2)
    n = 2 if t.tier == 'quick' else 3
    cmds = [t.choice('first', 'Mm'), a]
    for i in range(n - 1):
        cmds.append(t.choice('c%d' % i, CURVES))
    path, exp, pen = [], [], Pen()
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i)
        path.append(seg(c, v))
        exp += pen.run(c, v)
    before = [list(s.values) for s in path]
    out = PathParser.transform(path, m)
    got = PathParser.normalize(out)
    check_path(t, got, map_path(mr, exp), 'transformed')
    t.eq([list(s.values) for s in path], before, 'input untouched')
    t.check(len(out) == len(path), 'one segment per segment')


@harness('C13', cases=[dict(cmds=c) for c in (
    'MHhV', 'MVvH', 'MHVqt', 'MlZhH', 'MCsSt', 'MBhl', 'MHlbv', 'MLMZl',
    'MLmlZv', 'mHMLzh', 'MCmZs', 'MlZMLzlMzl')])
def c13_longer(t, cmds):
    """Longer sequences, bearings included."""
    m, mr = sym_matrix(t, 'm_', 2)
    path, exp, pen = [], [], Pen()
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i) if c not in 'Bb' \
            else [t.angle('v%d_0' % i)]
        path.append(seg(c, v))
        exp += pen.run(c, v)
    got = PathParser.normalize(PathParser.transform(path, m))
    check_path(t, got, map_path(mr, exp), 'transformed')


@harness('C13', cases=[dict(cmd=c) for c in 'Aa'])
def c13_arc(t, cmd):
    """Arcs keep their start and end under any affine map; the radii follow
    the map (checked against the implicit equation)."""
    m, mr = sym_matrix(t, 'm_', 2)
    v = sym_values(t, cmd, 'v')
    v[3], v[4] = t.choice('fa', [0, 1]), t.choice('fs', [0, 1])
    v[2] = 0
    x, y = t.real('x'), t.real('y')
    t.assume(v[0] > 0)
    t.assume(v[1] > 0)
    t.excluding('KF01', t.Not(t.And(m.a == 1, m.b == 0, m.c == 0,
                                    m.d == 1)))
    out = PathParser.transform([seg('M', [x, y]), seg(cmd, v)], m)
    t.check([s.type for s in out] == ['M', 'A'], 'commands')
    e = (v[5], v[6]) if cmd == 'A' else (x + v[5], y + v[6])
    t.eq(list(out[0].values), list(affine(mr, (x, y))), 'start')
    t.eq(list(out[1].values[5:]), list(affine(mr, e)), 'end')
    det = m.a * m.d - m.b * m.c
    rx, ry = out[1].values[0], out[1].values[1]
    t.eq(t.ite(det >= 0, det, -det) * v[0] * v[1], rx * ry,
         'area of the ellipse scales with the determinant')


# ---------------------------------------------------------------- C11

def nums(t, cmd, pre):
    """Decimal values; the more of them the shorter."""
    n = ARGC[cmd.upper()]
    if cmd in 'Aa':
        return ([t.decimal(pre + '0', 1, 0, False), 7,
                 t.decimal(pre + '2', 1, 0)]
                + [t.choice(pre + 'fa', [0, 1]), t.choice(pre + 'fs', [0, 1])]
                + [t.decimal(pre + '5', 1, 1), t.decimal(pre + '6', 1, 0)])
    if n > 2:
        return [t.decimal(pre + str(i), 1, 1 if i == n - 1 else 0)
                for i in range(n)]
    if n == 2:
        return [t.decimal(pre + str(i), 2, 1) for i in range(n)]
    return [t.decimal(pre + str(i), 2, 2) for i in range(n)]


@harness('C11', cases=[dict(cmd=c) for c in 'AaBbCcHhLlMmQqSsTtVvZz'])
def c11_roundtrip(t, cmd):
    """Serialising any segment and parsing the text gives the segment."""
    v = nums(t, cmd, 'v')
    out = PathParser.parse(PathParser.tostring([seg(cmd, v)]))
    t.check([s.type for s in out] == [cmd], 'same command')
    t.eq(list(out[0].values), v, 'same values')
    t.eq(out[0] == seg(cmd, v), True, 'equal segment')


@harness('C11', cases=[dict(a=a) for a in 'HhLlMmTtVvZz'])
def c11_sequence(t, a):
    """Sequences keep order, repetition and case through text."""
    b = t.choice('b', 'HhLlMmVvZzCQ')
    c = t.choice('c', 'HLmz')
    # closing twice in a row is written once
    t.assume(not (a == b and a in 'zZ' or b == c and b in 'zZ'))
    path = []
    for i, k in enumerate((a, b, c)):
        n = ARGC[k.upper()]
        path.append(seg(k, [t.decimal('v%d_%d' % (i, j), 1, 0)
                            for j in range(n)] if n <= 2
                        else [i - j * 1.5 for j in range(n)]))
    out = PathParser.parse(PathParser.tostring(path))
    t.check([s.type for s in out] == [a, b, c], 'same commands')
    t.eq([list(s.values) for s in out], [list(s.values) for s in path],
         'same values')


@harness('C11', cases=[dict(a=a) for a in 'AaCcQqSsTtBb'])
def c11_repeat(t, a):
    """A repeated command is written once and read twice."""
    n = ARGC[a.upper()]
    k = t.choice('k', list(range(n)))
    path = []
    for i in range(2):
        v = [i + j for j in range(n)]
        if a in 'Aa':
            v[3], v[4] = 0, 1
        if not (a in 'Aa' and k in (3, 4)):
            v[k] = t.decimal('v%d' % i, 1, 1)
        path.append(seg(a, v))
    text = PathParser.tostring(path)
    t.check(text.count(a) == 1, 'command letter written once')
    out = PathParser.parse(text)
    t.check([s.type for s in out] == [a, a], 'read twice')
    t.eq([list(s.values) for s in out], [list(s.values) for s in path],
         'same values')


def tokens(t, s):
    """Split text into numbers as the SVG grammar does; assumes that the text
    is a sequence of numbers with optional single separators."""
    out = []
    i, n = 0, len(s)
    while i < n:
        j = i
        if s[j] in '+-':
            j += 1
        d = j
        while j < n and s[j] in '0123456789':
            j += 1
        digits = j - d
        if j < n and s[j] == '.':
            f = j + 1
            k = f
            while k < n and s[k] in '0123456789':
                k += 1
            # "1." is a number too
            t.assume(digits + k - f > 0)
            digits += k - f
            j = k
        t.assume(digits > 0)
        if j < n and s[j] in 'eE':
            k = j + 1
            if k < n and s[k] in '+-':
                k += 1
            t.assume(k < n)
            t.assume(s[k] in '0123456789')
            # one exponent digit
            t.assume(k + 1 == n or s[k + 1] not in '0123456789')
            j = k + 1
        out.append(float(s[i:j]))
        i = j
        if i < n and s[i] in ' ,':
            i += 1
            t.assume(i < n)
    return out


@harness('C11', cases=[dict(n=n) for n in (1, 2, 3, 4)] + [
    dict(n=5, _tier='thorough')])
def c11_numbers(t, n):
    """Numbers are read as the grammar splits them, with or without
    separators, for every text of n characters."""
    s = t.text('s', n, '0123456789.-+eE, ')
    v = tokens(t, s)
    out = PathParser.parse('H' + s + 'v1')
    t.check([x.type for x in out] == ['H'] * len(v) + ['v'], 'one per number')
    t.eq([x.values[0] for x in out], v + [1], 'values')


SHAPES = ('d', 'd.', '.d', 'd.d', 'dd.dd')


@harness('C11', cases=[dict(shape=s, marker=m) for s in SHAPES
                       for m in ('', 'e', 'E', 'e-', 'e+', 'E-', 'E+')])
def c11_shapes(t, shape, marker):
    """Every shape of number the grammar allows, signs and exponents
    included, is read whole, whatever follows it."""
    s = t.choice('sign', ['', '-', '+'])
    for i, c in enumerate(shape):
        s += t.text('d%d' % i, 1, '0123456789') if c == 'd' else c
    if marker:
        s += marker + t.text('e', t.choice('ne', [1, 2]), '01')
    sep = t.choice('sep', [' ', ',', '-', '+', '.'])
    if sep == '.' and not marker and '.' not in shape:
        sep = ' '
    rest = t.text('r', 1, '0123456789')
    out = PathParser.parse('H' + s + sep + rest + 'v1')
    second = float((sep if sep in '-+.' else '') + rest)
    t.check([x.type for x in out] == ['H', 'H', 'v'], 'two numbers')
    t.eq([x.values[0] for x in out], [float(s), second, 1], 'values')


@harness('C11', cases=[dict(cmd=c) for c in 'MlCqAt'])
def c11_layout(t, cmd):
    """White space and commas between commands and numbers do not matter."""
    w0 = t.text('w0', 1, ' \t\n')
    w1 = t.text('w1', 1, ' ,\t\n')
    w2 = t.text('w2', 2, ' ,\n')
    t.assume(t.Not(t.And(w2[0] == ',', w2[1] == ',')))
    v = [3, -1, 2.5, 0, 1, 6, -7][:ARGC[cmd.upper()]]
    body = ''
    for i, x in enumerate(v):
        body = body + (('' if i == 0 else w1 if i % 2 else w2) + str(x))
    text = w0 + cmd + w0 + body + w0 + 'Z' + w0
    out = PathParser.parse(text)
    t.check([s.type for s in out] == [cmd, 'Z'], 'commands')
    t.eq(list(out[0].values), v, 'values')


@harness('C11')
def c11_implicit(t):
    """Extra coordinates repeat the command; an incomplete tail is dropped."""
    cmd = t.choice('cmd', 'MLhqTc')
    argc = ARGC[cmd.upper()]
    n = t.choice('n', [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13])
    v = [i * 2 - 3 for i in range(n)]
    out = PathParser.parse(cmd + ' '.join(str(x) for x in v))
    t.check([s.type for s in out] == [cmd] * (n // argc), 'count')
    t.check([list(s.values) for s in out] == [
        v[i * argc:(i + 1) * argc] for i in range(n // argc)], 'values')


@harness('C11')
def c11_flags(t):
    """Arc flags may be written without separators."""
    fa, fs = t.choice('fa', '01'), t.choice('fs', '01')
    sep = t.choice('sep', [' ', ',', ''])
    t.excluding('KF02', sep == '')
    x = t.decimal('x', 1, 0, False)
    out = PathParser.parse('A5 4 0 ' + fa + sep + fs + sep + str(int(x))
                           + ' 7')
    t.check(len(out) == 1, 'one arc')
    t.eq(list(out[0].values), [5, 4, 0, int(fa), int(fs), x, 7], 'values')


# ---------------------------------------------------------------- C14

def lohi(vals):
    lo = hi = vals[0]
    for v in vals[1:]:
        if v < lo:
            lo = v
        if v > hi:
            hi = v
    return lo, hi


@harness('C14', cases=[dict(cmds=c) for c in (
    'ML', 'MLL', 'MLZ', 'MLML', 'LL', 'MM', 'MLZL')] + [
    dict(cmds='MLLL', _tier='thorough')])
def c14_lines(t, cmds):
    """The bounding box of straight lines is the tight box of the points the
    path visits."""
    path, pts, cur, start = [], [], None, None
    last = None
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i)
        path.append(seg(c, v))
        if c == 'Z':
            cur = start
        elif c == 'M':
            if last != 'M':
                start = tuple(v)
            else:
                pts += [cur, tuple(v)]
            cur = tuple(v)
            if last is None:
                pts.append(cur)
        else:
            if cur is None:
                cur = (0, 0)
                start = tuple(v)
            pts += [cur, tuple(v)]
            cur = tuple(v)
        last = c
    b = PathParser.get_bbox(path)
    xs, ys = lohi([p[0] for p in pts]), lohi([p[1] for p in pts])
    t.eq([b.left, b.right], list(xs), 'x range')
    t.eq([b.top, b.bottom], list(ys), 'y range')


def cubic(v, s):
    k = 1 - s
    return k * k * k * v[0] + 3 * s * k * k * v[1] + 3 * s * s * k * v[2] \
        + s * s * s * v[3]


def slope(v, s):
    """A third of the derivative."""
    k = 1 - s
    return k * k * (v[1] - v[0]) + 2 * k * s * (v[2] - v[1]) \
        + s * s * (v[3] - v[2])


KINDS = ['line', 'quadratic', 'monotone', 'double']


@harness('C14', cases=[dict(axis=a, kind=k) for a in 'xy' for k in KINDS]
         + [dict(axis=a, kind='two', r=r) for a in 'xy'
            for r in (-2, 0, 0.25, 0.5, 1)]
         + [dict(axis=a, kind='two', r='any', _tier='thorough') for a in 'xy'],
         budget=(120, 800))
def c14_curve(t, axis, kind, r=None):
    """The bounding box of a cubic contains its end points and every
    stationary point (hence, a cubic being smooth, all of it), and each side
    is touched by one of them.  Every cubic is one of these: its derivative
    is constant, linear, or quadratic with no, one or two real roots (of
    which the first is concrete in the quick tier)."""
    d = t.real('d', -100, 100)
    if kind in ('monotone', 'double', 'two'):
        k = t.choice('k', [6, -15]) if t.tier == 'quick' or kind == 'two' \
            else t.real('k', -100, 100)
        t.assume(k != 0)
        if r is None or r == 'any':
            r = t.real('r', -10, 10)
        if kind == 'two':
            s = t.real('s', -10, 10)
            t.assume(r != s)
            stat = [r, s]
            a, b, c = k / 3, -k * (r + s) / 2, k * r * s
        elif kind == 'double':
            stat = [r]
            a, b, c = k / 3, -k * r, k * r * r
        else:
            w = t.real('w', 0.001, 10)
            stat = []
            a, b, c = k / 3, -k * r, k * (r * r + w)
    elif kind == 'quadratic':
        k, r = t.real('k', -100, 100), t.real('r', -10, 10)
        t.assume(k != 0)
        stat = [r]
        a, b, c = 0, k, -2 * k * r
    else:
        stat = []
        a, b, c = 0, 0, t.real('k', -100, 100)
    v = [d, d + c / 3, d + (2 * c + b) / 3, d + a + b + c]
    u = [t.real('u', -100, 100)] * 4
    p = [(x, y) if axis == 'x' else (y, x) for x, y in zip(v, u)]
    box = PathParser.get_bbox([seg('M', p[0]), seg('C', p[1] + p[2] + p[3])])
    lo_, hi_ = (box.left, box.right) if axis == 'x' else (box.top, box.bottom)
    o = (box.top, box.bottom) if axis == 'x' else (box.left, box.right)
    t.eq(list(o), [u[0], u[0]], 'constant coordinate')
    low = [t.near(lo_, v[0]), t.near(lo_, v[3])]
    high = [t.near(hi_, v[0]), t.near(hi_, v[3])]
    for x in (v[0], v[3]):
        t.le(lo_, x + 1e-6, 'contains the end points')
        t.le(x, hi_ + 1e-6, 'contains the end points')
    for q in stat:
        x = a * q * q * q + b * q * q + c * q + d
        out = t.Or(q < 0, q > 1)
        t.check(t.Or(out, lo_ <= x + 1e-6), 'contains the extremum')
        t.check(t.Or(out, x <= hi_ + 1e-6), 'contains the extremum')
        low.append(t.And(t.Not(out), t.near(lo_, x)))
        high.append(t.And(t.Not(out), t.near(hi_, x)))
    t.check(t.Or(*low), 'lower side is touched')
    t.check(t.Or(*high), 'upper side is touched')


@harness('C14', cases=[dict(axis=a) for a in 'xy'])
def c14_point(t, axis):
    """A point of the curve by parameter is the Bernstein combination; the
    coefficients describe the same cubic."""
    v = [t.real('p%d' % i) for i in range(8)]
    import numpy as np
    p = [np.array([v[2 * i], v[2 * i + 1]]) for i in range(4)]
    c = CubicBezierCurve(*p)
    s = t.real('t')
    k = 1 - s
    for i in range(2):
        e = k * k * k * v[i] + 3 * s * k * k * v[2 + i] \
            + 3 * s * s * k * v[4 + i] + s * s * s * v[6 + i]
        t.eq(c.point(s)[i], e, 'point')


# ---------------------------------------------------------------- C15

@harness('C15', cases=[dict(cmds=c) for c in (
    'ML', 'MLL', 'MLZ', 'MLML', 'MlhH', 'MvVZ', 'mmZ', 'MHMVZ', 'MLZlZ',
    'MLzmlz', 'Mlb', 'MBhv')])
def c15_length(t, cmds):
    """The length of a path of straight lines is the sum of the lengths of
    the lines it draws, closing lines included, moves excluded."""
    path, pen, total = [], Pen(), 0
    for i, c in enumerate(cmds):
        v = sym_values(t, c, 'v%d_' % i) if c not in 'Bb' \
            else [t.angle('v%d_0' % i)]
        path.append(seg(c, v))
        x, y, last = pen.x, pen.y, pen.last
        out = pen.run(c, v)
        if not out or (out[0][0] == 'M' and last not in ('M', 'm')):
            continue
        total = total + math.hypot(pen.x - x, pen.y - y)
    t.eq(PathParser.get_total_length(path), total, 'length')


@harness('C15')
def c15_segments(t):
    """Lengths are not negative and do not depend on direction."""
    x, y = t.real('x'), t.real('y')
    u, v = t.real('u'), t.real('v')
    d1, e1 = PathSegment.get_length(seg('L', [u, v]), x, y, 0)
    d2, e2 = PathSegment.get_length(seg('L', [x, y]), u, v, 0)
    t.check(d1 >= 0, 'not negative')
    t.eq(d1, d2, 'symmetric')
    t.eq(list(e1), [u, v], 'end point')
    d3, e3 = PathSegment.get_length(seg('l', [u - x, v - y]), x, y, 0)
    t.eq(d3, d1, 'relative form')
    t.eq(list(e3), [u, v], 'end point of the relative form')


# ---------------------------------------------------------------- C46

def speed2(p, s):
    """Square of the speed of the cubic through the control points p."""
    k = 1 - s
    out = 0
    for i in range(2):
        d = 3 * (k * k * (p[1][i] - p[0][i])
                 + 2 * k * s * (p[2][i] - p[1][i])
                 + s * s * (p[3][i] - p[2][i]))
        out = out + d * d
    return out


def measured(curve):
    """Length of a cubic by numeric integration (concrete runs)."""
    import warnings
    from scipy.integrate import quad
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return quad(lambda s: math.sqrt(speed2(curve, s)), 0, 1,
                    limit=200)[0]


# a polynomial of degree 4 is given by five of its values
SAMPLES = [0, 0.25, 0.5, 0.75, 1]


def check_curves(t, length, curves, straight):
    """The length is that of the curves plus the straight parts."""
    if not t.symbolic:
        total = straight + sum(measured(c) for c in curves)
        t.check(abs(length - total) <= 1e-4 * (1 + total), 'length')
        return
    calls = t.integrals()
    t.check(len(calls) == len(curves), 'one integral per curve')
    for (value, lo, hi, fn), c in zip(calls, curves):
        t.check(t.And(lo == 0, hi == 1), 'over the whole curve')
        for s in SAMPLES:
            a, b = t.squared(fn, s), speed2(c, s)
            t.check(t.And(a - b <= 1e-9 * (1 + b), b - a <= 1e-9 * (1 + b)),
                    'integral of the speed')
        straight = straight + value
    d = length - straight
    t.check(t.And(d <= 1e-6, -d <= 1e-6), 'length')


@harness('C46')
def c46_cubic(t):
    """The length of a cubic is the integral of its speed over [0, 1]."""
    import numpy as np
    v = [t.real('p%d' % i, -100, 100) for i in range(8)]
    p = [(v[2 * i], v[2 * i + 1]) for i in range(4)]
    c = CubicBezierCurve(*[np.array(q) for q in p])
    check_curves(t, c.get_length(), [p], 0)


@harness('C46', cases=[dict(cmds=c) for c in (
    'MC', 'Mc', 'MQ', 'Mq', 'MlCs', 'MCS', 'Mcs', 'MQT', 'Mqt', 'MCZ', 'MCzc',
    'MLMC', 'MS', 'Ms', 'MT', 'Mt', 'MQs', 'MCT', 'Mlqzl', 'MQTT', 'MCSs',
    'MBc', 'Mcbq', 'MHSVt', 'Mqtt', 'MqTt', 'MtTt', 'Mcss', 'MsSs')])
def c46_paths(t, cmds):
    """The length of a path is the sum of the lengths of its curves and
    lines."""
    path, pen, curves, straight = [], Pen(), [], 0
    for i, c in enumerate(cmds):
        v = [t.real('v%d_%d' % (i, j), -100, 100)
             for j in range(ARGC[c.upper()])] if c not in 'Bb' \
            else [t.angle('v%d_0' % i)]
        path.append(seg(c, v))
        x, y, last = pen.x, pen.y, pen.last
        for e in pen.run(c, v):
            if e[0] == 'C':
                curves.append([(x, y), e[1:3], e[3:5], e[5:7]])
            elif e[0] != 'M' or last in ('M', 'm'):
                straight = straight + math.hypot(pen.x - x, pen.y - y)
    check_curves(t, PathParser.get_total_length(path), curves, straight)


def arc_to(rx, ry, angle):
    """Length of an ellipse from its positive x-axis to a direction of 0 to
    90 degrees."""
    from scipy.special import ellipeinc
    k = rx / ry
    phi = math.atan(k * math.tan(math.radians(angle)))
    return ry * ellipeinc(phi, 1 - k ** 2)


def arc_from_zero(rx, ry, angle):
    """Length from the x-axis counted over all quarters."""
    s0 = arc_to(rx, ry, 90)
    n = angle // 90
    a = angle % 90
    if a == 0:
        return n * s0
    if n % 2 == 0:
        return n * s0 + arc_to(rx, ry, a)
    return n * s0 + s0 - arc_to(rx, ry, 90 - a)


@harness('C46', cases=[dict(rx=a, ry=b) for a, b in
                       ((2, 3), (5, 2), (1, 1), (0, 2), (3, 0))])
def c46_ellipse(t, rx, ry):
    """The length of an elliptical arc is the length between its two
    directions, for every start and extent."""
    t.opaque_trig()
    start = t.real('start', -360, 720)
    delta = t.real('delta', -359, 359)
    got = Ellipse(0, 0, rx, ry).get_length(start, delta)
    if rx == 0 or ry == 0:
        exp = 0
    else:
        lo = start if delta >= 0 else start + delta
        hi = start + delta if delta >= 0 else start
        exp = arc_from_zero(rx, ry, hi) - arc_from_zero(rx, ry, lo)
    t.check(t.And(got - exp <= 1e-6, exp - got <= 1e-6), 'arc length')


@harness('C46', cases=[dict(i=i, rx=a, ry=b) for i in range(4)
                       for a, b in ((5, 5), (10, 4), (4, 10))])
def c46_arc(t, i, rx, ry):
    """The length of an arc command between axis points of an ellipse is
    that of the quarters it draws, on the side the flags ask for."""
    cx, cy = t.real('cx', -100, 100), t.real('cy', -100, 100)
    q = t.choice('quarters', [1, 2, 3])
    fs = t.choice('fs', [0, 1])
    fa = t.choice('fa', [0, 1]) if q == 2 else int(q > 2)
    (a, b), (c, d) = CORNERS[i], CORNERS[(i + q if fs else i - q) % 4]
    x, y, ex, ey = cx + rx * a, cy + ry * b, cx + rx * c, cy + ry * d
    rel = t.bool('rel')
    end = [ex - x, ey - y] if rel else [ex, ey]
    path = [seg('M', [x, y]), seg('a' if rel else 'A',
                                  [rx, ry, 0, fa, fs] + end),
            seg('l', [3, 4]), seg('L', [ex + 3, ey])]
    got = PathParser.get_total_length(path)
    exp = q * arc_to(rx, ry, 90) + 9
    t.check(t.And(got - exp <= 1e-3, exp - got <= 1e-3), 'arc length')


@harness('C46', cases=[dict(fs=f) for f in (0, 1)])
def c46_small_radii(t, fs):
    """Radii too small for the distance grow until the arc is a half
    ellipse; a zero radius makes the arc a line; no distance, no arc."""
    x, y = t.real('x', -100, 100), t.real('y', -100, 100)
    kind = t.choice('kind', ['small', 'rx', 'ry', 'point', 'negative'])
    dx, dy = t.choice('d', [(10, 0), (-10, 0), (0, 10)])
    fa = t.choice('fa', [0, 1])
    r = {'small': [2, 2], 'rx': [0, 7], 'ry': [7, 0], 'point': [7, 7],
         'negative': [-3, -3]}[kind]
    if kind == 'point':
        dx = dy = 0
    rel = t.bool('rel')
    end = [dx, dy] if rel else [x + dx, y + dy]
    path = [seg('M', [x, y]),
            seg('a' if rel else 'A', r + [0, fa, fs] + end),
            seg('h', [2])]
    got = PathParser.get_total_length(path)
    exp = {'rx': 10, 'ry': 10, 'point': 0}.get(kind, 5 * math.pi) + 2
    t.check(t.And(got - exp <= 1e-3, exp - got <= 1e-3), 'length')


# ---------------------------------------------------------------- C17

def _centre_cases():
    for c in 'Aa':
        for a in (0, 1):
            for b in (0, 1):
                for f in ('small', 'axis', 'wide', 'ends'):
                    d = dict(cmd=c, fa=a, fs=b, fixed=f)
                    if f in ('wide', 'ends') or c == 'a' and a != b:
                        d['_tier'] = 'thorough'
                    yield d


@harness('C17', cases=list(_centre_cases()), budget=(120, 500))
def c17_centre(t, cmd, fa, fs, fixed):
    """Both end points of an arc lie on the ellipse with the reported centre
    and radii; radii only grow, by a common factor, when they are too
    small."""
    if fixed == 'ends':
        rx, ry = t.real('rx', 1, 50), t.real('ry', 1, 50)
        px, py = t.choice('ends', [(3, 0), (3, 4), (0, -3)])
        mx, my = 7, -3
    else:
        rx, ry = (5, -5) if fixed == 'small' else \
            t.choice('radii', [(2, 2), (-2, 5)])
        px, py = t.choice('dir', [(1, 0), (0, 1)]
                          if fixed == 'axis' else [(3, 4), (-5, 12)])
        k = t.real('k', 0.1, 10)
        px, py = px * k, py * k
        mx, my = 7, -3
    x, y, ex, ey = mx + px, my + py, mx - px, my - py
    v = [rx, ry, 0, fa, fs] + ([ex, ey] if cmd == 'A' else [ex - x, ey - y])
    (cx, cy), (qx, qy), _ = PathSegment.get_center_of_arc(seg(cmd, v), x, y,
                                                          0)
    t.eq(abs(rx) * qy, abs(ry) * qx, 'common factor')
    t.check(qx >= abs(rx) - 1e-6, 'never smaller')
    for px, py in ((x, y), (ex, ey)):
        dx, dy = (px - cx) * qy, (py - cy) * qx
        t.eq(dx * dx + dy * dy, qx * qx * qy * qy, 'on the ellipse')


RATIOS = [(1, 1), (3, 2), (1, 7), 1, 3]
CORNERS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


@harness('C17', cases=[dict(q=q, fs=s, rk=k) for q in (1, 2, 3)
                       for s in (0, 1) for k in RATIOS],
         budget=(40, 300))
def c17_quarters(t, q, fs, rk):
    """Arcs between the axis points of an ellipse become one cubic per
    quarter with the standard control points, on the requested side."""
    cx, cy = t.real('cx', -100, 100), t.real('cy', -100, 100)
    if isinstance(rk, tuple):
        rx, ry = rk
    else:
        rx = t.real('rx', 1, 100)
        ry = rx * rk
    k0 = t.choice('k0', [0, 1, 2, 3])
    step = 1 if fs else -1
    pts = [CORNERS[(k0 + step * i) % 4] for i in range(q + 1)]
    P = [(cx + rx * a, cy + ry * b) for a, b in pts]
    fa = t.choice('fa', [0, 1]) if q == 2 else int(q > 2)
    path = [seg('M', P[0]), seg('A', (rx, ry, 0, fa, fs) + P[-1])]
    got = PathParser.normalize(path)
    t.check([s.type for s in got] == ['M'] + ['C'] * q, 'one per quarter')
    k = 4 / 3 * (math.sqrt(2) - 1)
    for i in range(q):
        (a, b), (c, d) = pts[i], pts[i + 1]
        v = got[i + 1].values
        e = [a + k * c, b + k * d, c + k * a, d + k * b, c, d]
        e = [(cx + rx * z) if j % 2 == 0 else (cy + ry * z)
             for j, z in enumerate(e)]
        for g, w in zip(v, e):
            t.le(g - w, 1e-6 * (rx + ry), 'control points')
            t.le(w - g, 1e-6 * (rx + ry), 'control points')


@harness('C17', cases=[dict(cmd=c) for c in 'Aa'])
def c17_degenerate(t, cmd):
    """A zero radius gives a straight line; identical end points give
    nothing; negative radii count as positive."""
    x, y = t.real('x'), t.real('y')
    ex, ey = t.real('ex'), t.real('ey')
    phi, r = t.real('phi'), t.real('r')
    fa, fs = t.choice('fa', [0, 1]), t.choice('fs', [0, 1])
    which = t.choice('zero', ['rx', 'ry', 'end'])
    e = [ex, ey]
    if which == 'end':
        e = [x, y]
        t.assume(r > 1)
    rel = [e[0] - x, e[1] - y] if cmd == 'a' else e
    rr = [0, r] if which == 'rx' else [r, 0] if which == 'ry' else [r, r]
    got = PathParser.normalize([seg('M', [x, y]),
                                seg(cmd, rr + [phi, fa, fs] + rel),
                                seg('l', [1, 2])])
    if which == 'end':
        check_path(t, got, [('M', x, y), ('L', x + 1, y + 2)], 'omitted')
    else:
        check_path(t, got, [('M', x, y), ('L', ex, ey),
                            ('L', ex + 1, ey + 2)], 'straight line')


@harness('C17', cases=[dict(fs=s) for s in (0, 1)])
def c17_through(t, fs):
    """The points at which a half ellipse is split lie on it, on the
    requested side, and the first curve starts along its tangent."""
    cx, cy = t.real('cx', -100, 100), t.real('cy', -100, 100)
    rx, ry = t.choice('radii', [(5, 5), (20, 20), (10, 5)])
    a, b = t.choice('start', [(3, 4), (-4, 3), (5, -12), (-8, -15)])
    t.excluding('KF03', rx != ry)
    n = math.hypot(a, b)
    a, b = a / n, b / n
    path = [seg('M', [cx + rx * a, cy + ry * b]),
            seg('A', [rx, ry, 0, t.choice('fa', [0, 1]), fs,
                      cx - rx * a, cy - ry * b])]
    got = PathParser.normalize(path)
    # rounding may push the extent past 180 degrees
    t.check([s.type for s in got] in (['M', 'C', 'C'], ['M', 'C', 'C', 'C']),
            'two curves')
    for s in got[1:]:
        x, y = s.values[-2:]
        u, v = (x - cx) / rx, (y - cy) / ry
        t.check(t.And(u * u + v * v <= 1.0001, u * u + v * v >= 0.9999),
                'on the ellipse')
        if s is got[1]:
            tx, ty = s.values[0] - path[0].values[0], \
                s.values[1] - path[0].values[1]
            cross = tx * ry * a + ty * rx * b
            t.check(t.And(cross < 1e-4, cross > -1e-4),
                    'leaves along the tangent')
            side = a * v - b * u
            t.check(side > 0 if fs else side < 0, 'on the requested side')
