PROPERTIES = ['C37']

from symx.api import harness
from svgpy import SVGParser
from svgpy.core import CSSUtils, Font
from harness.ref import close

SVG = 'http://www.w3.org/2000/svg'


class Chain(object):
    """Elements, each the only child of the one before."""

    def __init__(self, t):
        self.t = t
        self.parser = SVGParser()
        self.nodes = []

    def add(self, via=None, name=None, value=None):
        """Append an element which declares one property, or nothing."""
        n = 'svg' if not self.nodes else 'g'
        e = self.parser.create_element_ns(SVG, n, nsmap={None: SVG})
        if self.nodes:
            self.nodes[-1].append(e)
        self.nodes.append(e)
        if value is not None:
            self.declare(e, via, name, value)
        return e

    def declare(self, e, via, name, value):
        if via == 'attribute':
            e.set(name, value)
        else:
            # the style attribute overrides the presentation attribute
            e.set(name, '123')
            e.set('style', 'x:y; ' + name + ': ' + value)


VIA = ['attribute', 'style']

KEYWORDS = {'xx-small': 10, 'x-small': 10, 'small': 13, 'medium': 16,
            'large': 18, 'x-large': 24, 'xx-large': 32}
RELATIVE = {'larger': 1.2, 'smaller': 1 / 1.2, '150%': 1.5, '80%': 0.8,
            '2em': 2, '0.5em': 0.5}
SPECS = [None, 'inherit', 'number', 'large'] + list(RELATIVE)


def some_specs(specs):
    """Every pair of specifications, given by attributes; those of each kind
    given by style attributes."""
    out = [dict(a=a, b=b, va='attribute', vb='attribute')
           for a in specs for b in specs]
    for i, a in enumerate(specs):
        b = specs[(i + 4) % len(specs)]
        for va, vb in (('style', 'style'), ('style', 'attribute'),
                       ('attribute', 'style')):
            if a is not None or va == 'attribute':
                out.append(dict(a=a, b=b, va=va, vb=vb))
    return out + [dict(x, more=True, _tier='thorough') for x in out]


@harness('C37', cases=some_specs(SPECS))
def c37_size(t, a, b, va, vb, more=False):
    """Each element's font size is its own value applied to the size computed
    for its parent, an unspecified one is inherited as computed."""
    c = Chain(t)
    x, size = t.number('root', 100, 1000)
    c.add('style' if va == 'style' else 'attribute', 'font-size', x)
    for i, (s, via) in enumerate(((a, va), (b, vb),
                                  (t.choice('c', SPECS) if more else None,
                                   va))):
        if s == 'number':
            s, size = t.number('n%d' % i, 100, 1000)
            s += 'px'
        elif s in RELATIVE:
            size = size * RELATIVE[s]
        elif s in KEYWORDS:
            size = KEYWORDS[s]
        e = c.add(via, 'font-size', s)
        t.assume(size > 10)
        if more or i != 1:
            close(t, CSSUtils.compute_font_size(e), size, 'computed size')


@harness('C37')
def c37_minimum(t):
    """Computed sizes are at least the minimum font size; keywords have the
    sizes of the default table."""
    via = t.choice('via', VIA)
    s, x = t.number('x', 0, 100)
    got = CSSUtils.compute_font_size(
        Chain(t).add(via, 'font-size', s + 'px'))
    close(t, got, t.ite(x < 10, 10, x), 'clamped')
    k = t.choice('keyword', list(KEYWORDS))
    t.eq(CSSUtils.compute_font_size(Chain(t).add(via, 'font-size', k)),
         KEYWORDS[k], 'keyword')
    t.eq(CSSUtils.compute_font_size(Chain(t).add()), Font.default_font_size,
         'default')


def weight_text(t, name):
    return t.text(name, 1, '123456789') + '00'


def relative_weight(t, kind, w):
    """CSS Fonts, relative weights."""
    if kind == 'bolder':
        return t.ite(w < 350, 400, t.ite(w < 550, 700, 900))
    return t.ite(w < 550, 100, t.ite(w < 750, 400, 700))


WEIGHTS = [None, 'inherit', 'bolder', 'lighter', 'normal', 'bold', 'number']


@harness('C37', cases=some_specs(WEIGHTS))
def c37_weight(t, a, b, va, vb, more=False):
    """Each element's font weight is its own value, relative ones applied to
    the weight of its parent by the CSS table."""
    c = Chain(t)
    s = weight_text(t, 'root')
    w = int(s)
    c.add('style' if va == 'style' else 'attribute', 'font-weight', s)
    for i, (s, via) in enumerate(((a, va), (b, vb),
                                  (t.choice('c', WEIGHTS) if more else None,
                                   va))):
        if s == 'number':
            s = weight_text(t, 'n%d' % i)
            w = int(s)
        elif s in ('bolder', 'lighter'):
            w = relative_weight(t, s, w)
        elif s in ('normal', 'bold'):
            w = 400 if s == 'normal' else 700
        e = c.add(via, 'font-weight', s)
        if more or i == 2:
            t.eq(CSSUtils.compute_font_weight(e), w, 'computed weight')


@harness('C37', cases=[dict(kind=k) for k in ('normal', '%', 'em', 'px', '')])
def c37_line_height(t, kind):
    """The line height is 1.2 times the font size when normal, a number
    times the font size, the length given, or a percentage or em of the font
    size of the element that specifies it."""
    c = Chain(t)
    sizes = []
    owner = t.choice('owner', [0, 1, 2])
    via = t.choice('via', VIA)
    for i in range(3):
        e = c.add()
        if i == 0 or t.choice('sized%d' % i, [True, False]):
            s, x = t.number('s%d' % i, 20, 200)
            e.set('font-size', s)
            sizes.append(x)
        else:
            sizes.append(sizes[-1])
    n, v = t.number('v', 1, 5)
    c.declare(c.nodes[owner], via, 'line-height',
              'normal' if kind == 'normal' else n + kind)
    want = {'normal': sizes[2] * 1.2, '': sizes[2] * v, 'px': v,
            'em': sizes[owner] * v, '%': sizes[owner] * v / 100}[kind]
    got = CSSUtils.compute_line_height(
        c.nodes[2], {'line-height': 'normal' if kind == 'normal'
                     else n + kind, 'font-size': sizes[2]})
    close(t, got, want, 'line height')


@harness('C37', cases=[dict(key=k) for k in ('width', 'fill')])
def c37_get_value(t, key):
    """A property lookup returns the nearest specified value and the element
    which specifies it."""
    c = Chain(t)
    chain = []
    for i in range(3):
        v = t.choice('v%d' % i, [None, 'inherit', 'own', 'auto'])
        if v == 'own':
            v = t.text('t%d' % i, 2, 'xyz')
        if v == 'auto':
            t.assume(key != 'width')
        chain.append((c.add('attribute', key, v), v))
    got, ctx = CSSUtils.get_value(c.nodes[-1], key)
    for n, v in reversed(chain):
        if v not in (None, 'inherit'):
            t.eq(got, v, 'nearest value')
            t.check(ctx is n, 'the element')
            return
    t.check(got is None and ctx is c.nodes[-1], 'not specified')
