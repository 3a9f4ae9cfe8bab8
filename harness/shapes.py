"""Shapes, use elements, groups; viewports and coordinate systems."""
PROPERTIES = ['C16', 'C20']

import math
from fractions import Fraction

from symx.api import harness
from svgpy import SVGParser, SVGPathDataSettings, SVGPreserveAspectRatio
from svgpy.path import PathParser
from harness import ref
from harness.path import Pen, check_path
from harness.ref import close

SVG = 'http://www.w3.org/2000/svg'
XLINK = 'http://www.w3.org/1999/xlink'
UNITS = {'': 1, 'px': 1, 'in': 96, 'pc': 16, 'pt': Fraction(96, 72),
         'mm': Fraction(960, 254)}


def text(x):
    return x[0] if isinstance(x, tuple) else str(x)


def value(x):
    return x[1] if isinstance(x, tuple) else x


class Scene(object):
    def __init__(self, w=None, h=None, **attrib):
        self.parser = SVGParser()
        self.w, self.h = w, h
        self.root = self.make('svg', None)
        if w is not None:
            self.root.set('width', text(w))
            self.root.set('height', text(h))
            self.w, self.h = value(w), value(h)
        for k, v in attrib.items():
            self.root.set(k, v)

    def make(self, name, parent, **attrib):
        e = self.parser.create_element_ns(SVG, name)
        for k, v in attrib.items():
            if v is not None:
                e.set(k.replace('_', '-'), text(v))
        if parent is not None:
            parent.append(e)
        return e


def lengths(t, scene, names, units, lo=-1000, hi=1000):
    """Attributes with symbolic numbers and the pixels they stand for;
    a name ending with ! is positive, one with ? may be missing (auto)."""
    attrib, px = {}, {}
    for n in names:
        k = n.rstrip('!?')
        if n.endswith('?') and t.bool(k + ' auto'):
            px[k] = None
            continue
        u = t.choice('unit ' + k, units) if len(units) > 1 else units[0]
        text, v = t.number(k, 0 if n[-1] in '!?' else lo, hi)
        if n[-1] == '!':
            t.assume(v > 0)
        attrib[k] = text + u
        if u == '%':
            s = scene.h if k in ('y', 'y1', 'y2', 'cy', 'ry', 'height') \
                else scene.w
            px[k] = v * s / 100
        else:
            f = UNITS[u]
            px[k] = v * f.numerator / f.denominator \
                if isinstance(f, Fraction) else v * f
    return attrib, px


def shape(t, got, exp, label, tol=1e-9):
    """Commands and coordinates of path data."""
    t.check([s.type for s in got] == [e[0] for e in exp],
            label + ': commands',
            '%s / %s' % ([s.type for s in got], [e[0] for e in exp]))
    for s, e in zip(got, exp):
        vals = list(s.values)
        t.check(len(vals) == len(e) - 1, label + ': number of values')
        for a, b in zip(vals, e[1:]):
            close(t, a, b, label, tol)


SOME = ['', 'mm', '%']


# ---------------------------------------------------------------- C16

@harness('C16', cases=[dict(units=[u]) for u in ['', 'px', 'in', 'pc', 'pt',
                                                 'mm', '%']])
def c16_rect(t, units):
    """A rect is drawn from the left end of its top edge clockwise; radii
    fall back to each other and are at most half the size."""
    s = Scene(t.number('vw', 1, 2000), t.number('vh', 1, 2000))
    a, p = lengths(t, s, ['x', 'y', 'width!', 'height!', 'rx?', 'ry?'], units)
    e = s.make('rect', s.root, **a)
    x, y, w, h = p['x'], p['y'], p['width'], p['height']
    rx, ry = p['rx'], p['ry']
    if rx is None and ry is None:
        rx = ry = 0
    elif rx is None:
        rx = ry
    elif ry is None:
        ry = rx
    rx = t.ite(rx > w / 2, w / 2, rx)
    ry = t.ite(ry > h / 2, h / 2, ry)
    got = e.get_path_data()
    if rx <= 0 or ry <= 0:
        exp = [('M', x, y), ('H', x + w), ('V', y + h), ('H', x), ('V', y),
               ('Z',)]
    else:
        exp = [('M', x + rx, y), ('H', x + w - rx),
               ('A', rx, ry, 0, 0, 1, x + w, y + ry), ('V', y + h - ry),
               ('A', rx, ry, 0, 0, 1, x + w - rx, y + h), ('H', x + rx),
               ('A', rx, ry, 0, 0, 1, x, y + h - ry), ('V', y + ry),
               ('A', rx, ry, 0, 0, 1, x + rx, y), ('Z',)]
    shape(t, got, exp, 'rect')


@harness('C16')
def c16_nothing(t):
    """Shapes without area or length are not drawn."""
    s = Scene(100, 100)
    kind = t.choice('kind', ['rect', 'circle', 'ellipse', 'line', 'polygon',
                             'polyline', 'path'])
    z = t.choice('zero', ['missing', '0', '0px', '-1'])
    v = None if z == 'missing' else z
    n = t.number('n', 1, 100)[0]
    if kind == 'rect':
        a = t.choice('which', [dict(width=n, height=v), dict(width=v,
                                                             height=n)])
    elif kind == 'circle':
        a = dict(cx=n, cy=n, r=v)
    elif kind == 'ellipse':
        t.assume(v is not None)
        a = t.choice('which', [dict(rx=n, ry=v), dict(rx=v, ry=n),
                               dict(rx=v), dict(ry=v), {}])
    elif kind == 'line':
        a = dict(x1=n, y1=n, x2=n, y2=n)
    elif kind == 'path':
        a = t.choice('which', [{}, dict(d=''), dict(d='none')])
    else:
        a = t.choice('which', [{}, dict(points=''), dict(points=' ')])
    e = s.make(kind, s.root, **a)
    t.check(e.get_path_data() == [], 'not drawn')
    t.eq(e.get_total_length(), 0, 'no length')
    b = e.get_bbox()
    t.check(b.isempty(), 'no box')


@harness('C16', cases=[dict(kind=k, unit=u) for k in ('circle', 'ellipse',
                                                      'line')
                       for u in ['', 'px', 'mm', '%']
                       if (k, u) != ('circle', '%')])
def c16_round(t, kind, unit):
    """Circles and ellipses are four quarter arcs from the rightmost point
    clockwise, lines go from the first to the second point."""
    s = Scene(t.number('vw', 1, 2000), t.number('vh', 1, 2000))
    if kind == 'line':
        a, p = lengths(t, s, ['x1', 'y1', 'x2', 'y2'], [unit])
        t.assume(t.Or(p['x1'] - p['x2'] > 1, p['x2'] - p['x1'] > 1,
                      p['y1'] - p['y2'] > 1, p['y2'] - p['y1'] > 1))
        exp = [('M', p['x1'], p['y1']), ('L', p['x2'], p['y2'])]
        e = s.make(kind, s.root, **a)
        shape(t, e.get_path_data(), exp, 'line')
        return
    if kind == 'circle':
        a, p = lengths(t, s, ['cx', 'cy', 'r!'], [unit])
        rx = ry = p['r']
    else:
        a, p = lengths(t, s, ['cx', 'cy', 'rx?', 'ry?'], [unit])
        rx, ry = p['rx'], p['ry']
        t.assume(not (rx is None and ry is None))
        if rx is None:
            rx = ry
        elif ry is None:
            ry = rx
        t.assume(t.And(rx > 0, ry > 0))
    cx, cy = p['cx'], p['cy']
    e = s.make(kind, s.root, **a)
    exp = [('M', cx + rx, cy), ('A', rx, ry, 0, 0, 1, cx, cy + ry),
           ('A', rx, ry, 0, 0, 1, cx - rx, cy),
           ('A', rx, ry, 0, 0, 1, cx, cy - ry),
           ('A', rx, ry, 0, 0, 1, cx + rx, cy), ('Z',)]
    shape(t, e.get_path_data(), exp, kind)


@harness('C16', cases=[dict(kind='circle'), dict(kind='ellipse')])
def c16_round_box(t, kind):
    """The box of a circle or ellipse anywhere is around its centre."""
    s = Scene(100, 100)
    rx, ry = t.choice('radii', [(3, 3), (0.5, 0.5)] if kind == 'circle'
                      else [(3, 5), (20, 0.5)])
    cx, cy = t.number('cx', -100, 100), t.number('cy', 0, 100)
    if kind == 'circle':
        e = s.make(kind, s.root, cx=cx, cy=cy, r=rx)
    else:
        e = s.make(kind, s.root, cx=cx, cy=cy, rx=rx, ry=ry)
    cx, cy = cx[1], cy[1]
    b = e.get_bbox()
    for g, x in zip((b.x, b.y, b.width, b.height),
                    (cx - rx, cy - ry, 2 * rx, 2 * ry)):
        close(t, g, x, 'box', 1e-6)


@harness('C16')
def c16_circle_percent(t):
    """A percentage radius refers to the normalised diagonal."""
    s = Scene(t.number('vw', 1, 2000), t.number('vh', 1, 2000))
    w, h = s.w, s.h
    text, n = t.number('n', 1, 100)
    e = s.make('circle', s.root, r=text + '%')
    r = e.get_computed_geometry()['r']
    t.check(r >= 0, 'positive')
    close(t, r * r, n * n * (w * w + h * h) / 20000, 'radius', 1e-6)


SEPS = [[',', ' '], [' ', ' '], [' , ', '\n'], ['  ', ',\t'], [',', ',']]


@harness('C16', cases=[dict(kind=k, n=n) for k in ('polyline', 'polygon')
                       for n in (1, 2)] + [
                           dict(kind=k, n=n, _tier='thorough')
                           for k in ('polyline', 'polygon')
                           for n in (3, 4)])
def c16_points(t, kind, n):
    """Points in any syntax give the vertices, polygons are closed; setting
    points and reading them gives the same."""
    s = Scene(100, 100)
    how = t.choice('how', ['set'] + list(range(len(SEPS))))
    e = s.make(kind, s.root)
    if how == 'set':
        n = min(n, 2)
        pts = [(t.decimal('x%d' % i, 1, 1), t.decimal('y%d' % i, 1, 1))
               for i in range(n)]
        e.points = pts
    else:
        both = [(t.number('x%d' % i, 0 if i else -1000, 1000),
                 t.number('y%d' % i, 0, 1000)) for i in range(n)]
        pts = [(x[1], y[1]) for x, y in both]
        a, b = SEPS[how]
        text = b.join([x[0] + a + y[0] for x, y in both])
        if t.bool('spaces'):
            text = ' ' + text + '\n'
        e.set('points', text)
    got = e.points
    t.check(len(got) == n, 'number of points')
    for g, p in zip(got, pts):
        close(t, g[0], p[0], 'x', 1e-6)
        close(t, g[1], p[1], 'y', 1e-6)
    exp = [('M',) + pts[0]] + [('L',) + q for q in pts[1:]]
    if kind == 'polygon' and n > 1:
        exp.append(('Z',))
    shape(t, e.get_path_data(), exp, kind, 1e-6)
    shape(t, e.get_path_data(), exp, kind + ' again', 1e-6)
    if n > 1 and how == 0:
        b = e.get_bbox()
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        for g, x in zip((b.x, b.y, b.x + b.width, b.y + b.height),
                        (min(xs), min(ys), max(xs), max(ys))):
            close(t, g, x, 'box', 1e-6)


@harness('C16')
def c16_points_odd(t):
    """An odd number of coordinates is an error: no points."""
    s = Scene(100, 100)
    x, y, z = [t.number(n, 0, 10)[0] for n in 'xyz']
    e = s.make('polyline', s.root, points=x + ',' + y + ' ' + z)
    t.check(e.points == [], 'no points')
    t.check(e.get_path_data() == [], 'no path')


@harness('C16', cases=[dict(kind=k) for k in ('rect', 'polyline', 'polygon',
                                              'line', 'path')])
def c16_normalize(t, kind):
    """Normalised path data are the base commands for the same shape; the
    total length is that of the segments."""
    s = Scene(100, 100)
    both = [t.number('v%d' % i, 1, 100) for i in range(4)]
    s_ = [x[0] for x in both]
    v = [x[1] for x in both]
    if kind == 'rect':
        e = s.make('rect', s.root, x=s_[0], y=s_[1], width=s_[2],
                   height=s_[3])
        cmds = [('M', v[0], v[1]), ('H', v[0] + v[2]), ('V', v[1] + v[3]),
                ('H', v[0]), ('V', v[1]), ('Z',)]
        size = 2 * v[2] + 2 * v[3]
    elif kind == 'line':
        t.assume(v[2] > v[0] + 1)
        e = s.make('line', s.root, x1=s_[0], y1=s_[1], x2=s_[2], y2=s_[1])
        cmds = [('M', v[0], v[1]), ('L', v[2], v[1])]
        size = v[2] - v[0]
    elif kind == 'path':
        e = s.make('path', s.root, d='m' + s_[0] + ' ' + s_[1] + 'h' + s_[2]
                   + 'v' + s_[3] + 'z')
        cmds = [('m', v[0], v[1]), ('h', v[2]), ('v', v[3]), ('z',)]
        size = None
    else:
        e = s.make(kind, s.root)
        e.set('points', s_[0] + ',' + s_[1] + ' ' + s_[2] + ',' + s_[3])
        cmds = [('M', v[0], v[1]), ('L', v[2], v[3])]
        if kind == 'polygon':
            cmds.append(('Z',))
        size = None
    exp, pen = [], Pen()
    for c in cmds:
        exp += pen.run(c[0], list(c[1:]))
    settings = SVGPathDataSettings()
    settings.normalize = True
    if kind in ('rect', 'path'):
        shape(t, e.get_path_data(settings), exp, 'normalised')
    settings.normalize = False
    shape(t, e.get_path_data(settings), cmds, 'as written')
    if kind == 'path':
        return
    if size is not None:
        close(t, e.get_total_length(), size, 'length', 1e-6)


@harness('C16')
def c16_path_set(t):
    """set_path_data writes d so that get_path_data gives the path back."""
    s = Scene(100, 100)
    e = s.make('path', s.root)
    v = [t.decimal('v%d' % i, 1, 1) for i in range(2)] + [2.5, -3]
    e.set('d', 'M %s,%s l %s,%s z' % tuple(v))
    p = e.get_path_data()
    f = s.make('path', s.root)
    f.set_path_data(p)
    shape(t, f.get_path_data(), [('M', v[0], v[1]), ('l', v[2], v[3]),
                                 ('z',)], 'same path', 1e-6)
    f.set_path_data([])
    t.check(f.get_path_data() == [], 'no path')
    t.eq(f.get('d'), 'none', 'none')


FORMS = ['none', 'translate', 'scale', 'matrix', 'two']


def transform_text(t, name, quick=FORMS):
    """A transform attribute and its matrix (or None)."""
    k = t.choice(name, quick if t.tier == 'quick' else FORMS)
    low = 0 if t.tier == 'quick' else -100
    both = [t.number('%s%d' % (name, i), low if i == 0 else 0, 100)
            for i in range({'none': 0, 'matrix': 6, 'two': 4}.get(k, 2))]
    s, v = [x[0] for x in both], [x[1] for x in both]
    if k == 'none':
        return None, ref.IDENT
    if k == 'translate':
        return ('translate(' + s[0] + ', ' + s[1] + ')',
                ref.translation(v[0], v[1]))
    if k == 'scale':
        return ('scale(' + s[0] + ',-' + s[1] + ')',
                ref.scaling(v[0], -v[1]))
    if k == 'matrix':
        return 'matrix(' + ' '.join(s) + ')', ref.from2d(*v)
    return ('translate(' + s[0] + ', ' + s[1] + ') scale(' + s[2] + ','
            + s[3] + ')', ref.mat_mul(ref.translation(v[0], v[1]),
                                      ref.scaling(v[2], v[3])))


def mapped(m, pts):
    return [tuple(ref.mat_apply(m, [x, y, 0, 1])[:2]) for x, y in pts]


def extents(t, b, pts, label):
    """The box is exactly around the points."""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    for g, x, n in zip((b.x, b.y, b.x + b.width, b.y + b.height),
                       (min(xs), min(ys), max(xs), max(ys)),
                       ('left', 'top', 'right', 'bottom')):
        close(t, g, x, label + ': ' + n, 1e-6)


@harness('C16', cases=[dict(target=x, attr=a)
                       for x in ('line', 'group', 'defs', 'nested group')
                       for a in (('href', 'xlink') if x == 'line'
                                 else ('href',))])
def c16_use(t, target, attr):
    """A use element draws the element it refers to, with the transforms of
    that element and of its parts, moved by x and y, in its own transform."""
    s = Scene(1000, 1000)
    text, inner = transform_text(t, 'inner', ['none', 'matrix', 'two'])
    both = [(t.number('x%d' % i, 0, 100), t.number('y%d' % i, 0, 100))
            for i in range(2)]
    pts = [(x[1], y[1]) for x, y in both]
    t.assume(pts[0][0] + 1 < pts[1][0])
    a = dict(x1=both[0][0], y1=both[0][1], x2=both[1][0], y2=both[1][1])
    m = inner
    if target == 'line':
        s.make('line', s.root, id='target', transform=text, **a)
    elif target == 'defs':
        d = s.make('defs', s.root)
        s.make('line', d, id='target', transform=text, **a)
    elif target == 'group':
        g = s.make('g', s.root, id='target', transform=text)
        s.make('line', g, **a)
    else:
        g = s.make('g', s.root, id='target', transform='translate(5,-7)')
        h = s.make('g', g)
        s.make('line', h, transform=text, **a)
        m = ref.mat_mul(ref.translation(5, -7), inner)
    text, outer = transform_text(t, 'outer', ['none', 'matrix'])
    x, y = t.number('x', -100, 100), t.number('y', 0, 100)
    u = s.make('use', s.root, x=x, y=y, transform=text)
    x, y = x[1], y[1]
    if attr == 'href':
        u.set('href', '#target')
    else:
        u.set_attribute_ns(XLINK, 'href', '#target')
    m = ref.mat_mul(ref.translation(x, y), m)
    exp = mapped(m, pts)
    shape(t, u.get_path_data(), [('M',) + exp[0], ('L',) + exp[1]],
          'path data', 1e-6)
    m = ref.mat_mul(outer, m)
    exp = mapped(m, pts)
    shape(t, u.get_transformed_path_data(), [('M',) + exp[0],
                                             ('L',) + exp[1]],
          'transformed', 1e-6)


@harness('C16')
def c16_use_missing(t):
    """A use element without target draws nothing; it never changes the
    element it refers to."""
    s = Scene(100, 100)
    i, j = t.text('id', 2, 'ab'), t.text('ref', 2, 'ab')
    e = s.make('line', s.root, id=i, x1=1, y1=2, x2=3, y2=4)
    u = s.make('use', s.root, href='#' + j)
    if i == j:
        t.check(u.instance_root is e, 'target')
        t.eq(len(u.get_path_data()), 2, 'drawn')
    else:
        t.check(u.instance_root is None, 'no target')
        t.check(u.get_path_data() == [], 'nothing')
        t.check(u.get_bbox().isempty(), 'no box')
    t.eq(len(e.attributes), 5, 'target unchanged')


@harness('C16', cases=[dict(form=f) for f in ('leaf', 'group', 'deep', 'nested',
                                              'hidden')])
def c16_box(t, form):
    """The bounding box of a group is that of the shapes in it, with their
    transforms and those of the groups between; children with display none
    do not count."""
    s = Scene(1000, 1000)
    both = [(t.number('x%d' % i, 0, 100), t.number('y%d' % i, 0, 100))
            for i in range(2)]
    if form in ('group', 'deep', 'nested') and t.tier == 'quick':
        both = [(('10', 10), ('20', 20)), (('30.5', 30.5), ('2', 2))] + both
    else:
        both += [(t.number('u%d' % i, 0, 100), t.number('v%d' % i, 0, 100))
                 for i in range(2)]
    pts = [(x[1], y[1]) for x, y in both]
    text, m = transform_text(t, 'm', FORMS if form == 'leaf'
                             else ['translate'] if form == 'nested'
                             else ['translate', 'matrix'])

    def line(parent, i, **k):
        return s.make('polyline', parent, points=' '.join(
            [x[0] + ',' + y[0] for x, y in both[i:i + 2]]), **k)
    if form == 'leaf':
        e = line(s.root, 0, transform=text)
        extents(t, e.get_bbox(), mapped(m, pts[:2]), 'leaf')
        return
    g = s.make('g', s.root, transform='scale(3)')
    exp = list(pts[:2])
    line(g, 0)
    if form == 'group':
        line(g, 2, transform=text)
        exp += mapped(m, pts[2:])
    elif form == 'deep':
        h = s.make('g', g, transform='translate(7,9)')
        line(h, 2, transform=text)
        exp += mapped(ref.mat_mul(ref.translation(7, 9), m), pts[2:])
    elif form == 'nested':
        n = t.choice('depth', [2, 3])
        h, moved = g, m
        for i in range(n):
            h = s.make('g', h, transform=('translate(7,9)', 'scale(2)',
                                          'translate(-4,20)')[i])
        line(h, 2, transform=text)
        for k in (ref.translation(-4, 20), ref.scaling(2, 2),
                  ref.translation(7, 9))[3 - n:]:
            moved = ref.mat_mul(k, moved)
        exp += mapped(moved, pts[2:])
    else:
        h = t.choice('where', ['self', 'group', 'defs', 'symbol',
                             'marker'])
        if h == 'self':
            line(g, 2, display='none')
        else:
            k = s.make('g' if h == 'group' else h, g)
            if h == 'group':
                k.set('display', 'none')
            line(k, 2)
    extents(t, g.get_bbox(), exp, 'group')


# ---------------------------------------------------------------- C20

ALIGN = {'none': 1}
for _j, _y in enumerate(['Min', 'Mid', 'Max']):
    for _i, _x in enumerate(['Min', 'Mid', 'Max']):
        ALIGN['x%sY%s' % (_x, _y)] = 2 + _i + 3 * _j


@harness('C20')
def c20_ratio(t):
    """preserveAspectRatio is one of the ten alignments, then meet or slice;
    anything else counts as the default; its text reads back the same."""
    k = t.choice('align', sorted(ALIGN) + ['', 'xMid', 'XMidYMid'])
    m = t.choice('meet', ['', 'meet', 'slice', 'cut'])
    sep = t.choice('sep', [' ', '  ', '\n'])
    text = k if m == '' else k + sep + m
    if t.bool('spaces'):
        text = ' ' + text + ' '
    p = SVGPreserveAspectRatio(text)
    align = ALIGN.get(k, 6)
    meet = 2 if m == 'slice' and k != '' else 1
    t.eq(p.align, align, 'align')
    t.eq(p.meet_or_slice, meet, 'meet or slice')
    out = p.tostring()
    q = SVGPreserveAspectRatio(out)
    t.eq(q.align, align, 'align again')
    if align != 1:
        t.eq(q.meet_or_slice, meet, 'meet or slice again')
    t.check((p == q) == (align != 1 or meet == 1), 'equal')


@harness('C20')
def c20_ratio_text(t):
    """The text is made of the keywords SVG defines."""
    k = t.choice('align', sorted(ALIGN))
    m = t.choice('meet', ['', ' meet', ' slice'])
    words = SVGPreserveAspectRatio(k + m).tostring().split()
    t.excluding('KF04', k == 'xMinYMid')
    t.check(words[0] == k, 'keyword')
    if k != 'none':
        t.check(words[1:] == [m.strip() or 'meet'], 'meet or slice')


@harness('C20')
def c20_ratio_set(t):
    """Every alignment can be set and is written so that it reads back."""
    p = SVGPreserveAspectRatio()
    t.eq(p.align, 6, 'default')
    t.eq(p.meet_or_slice, 1, 'default')
    a, m = t.choice('a', list(range(1, 11))), t.choice('m', [1, 2])
    p.align = a
    p.meet_or_slice = m
    t.eq(p.align, a, 'set')
    t.eq(p.meet_or_slice, m, 'set')
    q = SVGPreserveAspectRatio(p.tostring())
    t.eq(q.align, a, 'read back')
    if a != 1:
        t.check(q == p, 'equal')


def fit(t, box, size, origin, align, slice_):
    """The matrix from a viewBox to a viewport (SVG 2, 8.2)."""
    vx, vy, vw, vh = box
    sx, sy = size[0] / vw, size[1] / vh
    if align != 1:
        small = sx < sy
        if slice_:
            k = t.ite(small, sy, sx)
        else:
            k = t.ite(small, sx, sy)
        sx = sy = k
    tx, ty = origin[0] - vx * sx, origin[1] - vy * sy
    if align != 1:
        i, j = (align - 2) % 3, (align - 2) // 3
        tx = tx + (size[0] - vw * sx) * i / 2
        ty = ty + (size[1] - vh * sy) * j / 2
    return [[sx, 0, 0, tx], [0, sy, 0, ty], [0, 0, 1, 0], [0, 0, 0, 1]]


def same(t, got, exp, label, tol=1e-6):
    got = ref.rows_of(got)
    for i in range(4):
        for j in range(4):
            close(t, got[i][j], exp[i][j], '%s[%d,%d]' % (label, i, j), tol)


@harness('C20', cases=[dict(slice_=s, aligns=a) for s in (False, True)
                       for a in ([1, 2, 3], [4, 5], [6, 7], [8, 9, 10])])
def c20_viewbox(t, slice_, aligns):
    """The viewBox is mapped to the viewport as preserveAspectRatio says,
    for every box, viewport and alignment."""
    s = Scene(t.number('w', 1, 1000), t.number('h', 1, 1000))
    w, h = s.w, s.h
    both = [t.number('vx', -100, 100), t.number('vy', 0, 100),
            t.number('vw', 1, 1000), t.number('vh', 1, 1000)]
    box = [x[1] for x in both]
    a = t.choice('align', aligns)
    p, q = w * box[3], h * box[2]
    # scales which differ by less are taken to be the same
    t.assume(t.Or(p == q, p > 1.000001 * q, q > 1.000001 * p))
    sep = t.choice('sep', [' '] if t.tier == 'quick' else [' ', ' , '])
    s.root.set('viewBox', sep.join([x[0] for x in both]))
    if a != 6 or slice_ or t.bool('given'):
        k = [x for x in ALIGN if ALIGN[x] == a][0]
        s.root.set('preserveAspectRatio', k + (' slice' if slice_ else ''))
    x, y = 0, 0
    if t.tier == 'quick' or t.bool('moved'):
        x, y = t.number('x', 0, 100), t.number('y', 0, 100)
        s.root.set('x', x[0])
        s.root.set('y', y[0])
        x, y = x[1], y[1]
    exp = fit(t, box, (w, h), (x, y), a, slice_)
    same(t, s.root.get_viewport_transformation_matrix(), exp, 'viewport')
    e = s.make('rect', s.root)
    same(t, e.get_ctm(), exp, 'ctm')
    same(t, e.get_screen_ctm(), exp, 'screen')


@harness('C20')
def c20_viewbox_text(t):
    """The four numbers of a viewBox, whatever the separators; a viewBox
    with another number of values counts as none."""
    s = Scene(100, 50)
    n = t.choice('n', [4, 3, 5])
    both = [t.number('v%d' % i, 1, 100) for i in range(n)]
    v = [x[1] for x in both]
    text = t.choice('sep', [' ', ',', ', ', '\t', ' ,\n']).join(
        [x[0] for x in both])
    if t.bool('spaces'):
        text = ' ' + text + '\n'
    s.root.set('viewBox', text)
    got = s.root.view_box
    if n != 4:
        t.check(got is None, 'none')
        same(t, s.root.get_ctm(), ref.IDENT, 'no mapping')
        return
    for g, x in zip(got, v):
        close(t, g.value(), x, 'number')
    e = s.make('g', s.root)
    box = e.get_view_box()
    for g, x in zip(box[:4], v):
        close(t, g.value(), x, 'number for a child')


@harness('C20', cases=[dict(unit=u) for u in [
    '', 'px', 'in', 'mm', '%', 'vw', 'vh', 'vmin', 'vmax', 'em', 'auto']])
def c20_size(t, unit):
    """Width and height of a viewport: percentages and viewport units refer
    to the viewport around it, auto is all of it."""
    outer = t.bool('nested')
    if outer:
        s = Scene(t.number('w', 1, 2000), t.number('h', 1, 2000))
        w, h = s.w, s.h
        e = s.make('svg', s.root)
    else:
        w, h = 1280, 720
        s = Scene()
        e = s.root

    def length(name, side):
        if unit == 'auto':
            if t.bool(name + ' given'):
                e.set(name, 'auto')
            return side
        text, n = t.number(name, 1, 200)
        e.set(name, text + unit)
        if unit in UNITS:
            f = UNITS[unit]
            return n * f.numerator / f.denominator \
                if isinstance(f, Fraction) else n * f
        if unit == 'em':
            return n * 16
        k = {'%': side, 'vw': w, 'vh': h,
             'vmin': t.ite(w < h, w, h) if outer else 720,
             'vmax': t.ite(w < h, h, w) if outer else 1280}[unit]
        return n * k / 100
    ew, eh = length('width', w), length('height', h)
    ex = ey = 0
    if unit != 'auto':
        ex, ey = length('x', w), length('y', h)
    got = e.get_viewport_size()
    for g, x, n in zip(got, (ex, ey, ew, eh), ('x', 'y', 'width', 'height')):
        close(t, g.value(), x, n)
    g = e.get_computed_geometry()
    for n, x in zip(('x', 'y', 'width', 'height'), (ex, ey, ew, eh)):
        close(t, g[n], x, 'computed ' + n)
    if not outer:
        k = s.make('rect', e, x='50%', y='25%')
        g = k.get_computed_geometry()
        close(t, g['x'], ew / 2, 'percentage of the viewport')
        close(t, g['y'], eh / 4, 'percentage of the viewport')


@harness('C20')
def c20_percent(t):
    """Percentages refer to the viewBox of the viewport, if it has one."""
    s = Scene(t.number('w', 1, 2000), t.number('h', 1, 2000))
    vw, vh = t.number('vw', 1, 2000), t.number('vh', 1, 2000)
    s.root.set('viewBox', '3 4 ' + vw[0] + ' ' + vh[0])
    vw, vh = vw[1], vh[1]
    g = s.make('g', s.root)
    p, n = t.number('n', 0, 100)
    p = p + '%'
    k = s.make('rect', g, x=p, y=p, width=p, height=p)
    got = k.get_computed_geometry()
    for x, side in (('x', vw), ('y', vh), ('width', vw), ('height', vh)):
        close(t, got[x], n * side / 100, x)


@harness('C20', cases=[dict(form=f) for f in (
    'flat', 'group', 'nested', 'between', 'symbolless')])
def c20_ctm(t, form):
    """The CTM of an element is the product of the viewport mapping and all
    transforms from the viewport element down; the screen CTM goes up to
    the outermost svg element, with its scale and translation."""
    s = Scene(t.number('w', 1, 1000), t.number('h', 1, 1000))
    w, h = s.w, s.h
    vw, vh = t.number('vw', 1, 1000), t.number('vh', 1, 1000)
    s.root.set('viewBox', '0 0 ' + vw[0] + ' ' + vh[0])
    vw, vh = vw[1], vh[1]
    s.root.set('preserveAspectRatio', 'none')
    top = ref.scaling(w / vw, h / vh)
    text, m = transform_text(t, 'm', FORMS if form == 'flat'
                             else ['none', 'matrix'])
    text2, m2 = transform_text(t, 'k', ['none', 'matrix']) \
        if form in ('group', 'between') else (None, ref.IDENT)
    near = far = None
    if form == 'flat':
        e = s.make('rect', s.root, transform=text)
        near = far = ref.mat_mul(top, m)
    elif form == 'group':
        g = s.make('g', s.root, transform=text)
        e = s.make('rect', s.make('g', g), transform=text2)
        near = far = ref.mat_mul(ref.mat_mul(top, m), m2)
    elif form == 'symbolless':
        g = SVGParser().create_element_ns(SVG, 'g')
        g.set('transform', 'scale(2)')
        e = s.make('rect', g, transform='scale(3)')
        same(t, e.get_ctm(), ref.IDENT, 'no viewport')
        return
    else:
        parent = s.root
        if form == 'between':
            parent = s.make('g', s.root, transform=text2)
        x, y = t.number('x', 0, 100), t.number('y', 0, 100)
        n = s.make('svg', parent, x=x, y=y, width=50, height=20,
                   viewBox='0 0 25 10')
        x, y = x[1], y[1]
        e = s.make('rect', n, transform=text)
        near = ref.mat_mul(ref.mat_mul(ref.translation(x, y),
                                       ref.scaling(2, 2)), m)
        far = ref.mat_mul(ref.mat_mul(top, m2), near)
    same(t, e.get_ctm(), near, 'ctm')
    if form != 'between' or t.bool('zoomed'):
        k = t.real('zoom', 0.1, 10)
        tx, ty = t.real('tx', -100, 100), t.real('ty', -100, 100)
        s.root.current_scale = k
        s.root.current_translate = tx, ty
        far = ref.mat_mul(ref.from2d(k, 0, 0, k, tx, ty), far)
    same(t, e.get_screen_ctm(), far, 'screen ctm')


@harness('C20')
def c20_current(t):
    """currentScale and currentTranslate belong to the outermost svg; on
    others they are the identity and setting them has no effect."""
    s = Scene(100, 100)
    e = s.make('svg', s.make('g', s.root))
    k, x, y = t.real('k', 1, 10), t.real('x', 1, 10), t.real('y', 1, 10)
    t.eq(s.root.current_scale, 1, 'default')
    e.current_scale = k
    e.current_translate = x, y
    t.eq(e.current_scale, 1, 'inner')
    t.check(e.current_translate == (0, 0), 'inner')
    t.eq(s.root.current_scale, 1, 'outer unchanged')
    s.root.current_scale = k
    s.root.current_translate = x, y
    t.eq(s.root.current_scale, k, 'outer')
    t.eq(list(s.root.current_translate), [x, y], 'outer')
    t.eq(e.current_scale, 1, 'inner')


@harness('C20')
def c20_owner(t):
    """The svg and viewport elements of an element, wherever it stands."""
    s = Scene(100, 100)
    names = [t.choice('n%d' % i, ['g', 'svg', 'symbol']) for i in range(3)]
    chain, e = [s.root], s.root
    for n in names + ['rect']:
        e = s.make(n, e)
        chain.append(e)
    svgs = [x for x in chain if x.local_name == 'svg']
    views = [x for x in chain if x.local_name in ('svg', 'symbol')]
    t.check(e.get_nearest_svg_element() is svgs[-1], 'nearest svg')
    t.check(e.get_farthest_svg_element() is svgs[0], 'farthest svg')
    t.check(e.get_nearest_viewport_element() is views[-1], 'nearest')
    t.check(e.get_farthest_viewport_element() is views[0], 'farthest')
    t.check(e.owner_svg_element is svgs[-1], 'owner')
    t.check(e.viewport_element is views[-1], 'viewport')
    t.check(s.root.owner_svg_element is None, 'no owner')
    t.check(s.root.viewport_element is None, 'no viewport')
