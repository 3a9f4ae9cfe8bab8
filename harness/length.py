PROPERTIES = ['C18', 'C19']

from fractions import Fraction

from symx.api import harness, stub
from svgpy.core import CSSUtils, Font, SVGLength
from harness.ref import close

# pixels per unit (CSS Values)
ABS = {'px': Fraction(1), 'in': Fraction(96), 'cm': Fraction(9600, 254),
       'mm': Fraction(960, 254), 'q': Fraction(240, 254),
       'pt': Fraction(96, 72), 'pc': Fraction(16), None: Fraction(1)}
RES = {'dpi': Fraction(1, 96), 'dpcm': Fraction(254, 9600),
       'dppx': Fraction(1)}
VIEW = ['vw', 'vh', 'vmin', 'vmax']
FONT = ['em', 'ex', 'cap', 'ch', 'ic', 'rem']
ALL = [u for u in ABS if u] + list(RES) + VIEW + FONT + ['%']
SOME = [None, 'px', 'in', 'mm', 'pc', 'em', 'vw', 'vmin', '%']


@stub
class Node(object):
    """The members of an element that lengths are resolved against."""

    def __init__(self, size, parent, view):
        self.size, self.parent, self.view = size, parent, view

    def getparent(self):
        return self.parent

    def get(self, key, default=None):
        return self.size if key == 'font-size' else default

    def get_inherited_style(self):
        return {'font-size': self.size}

    def getroottree(self):
        return self

    def getroot(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def get_view_box(self):
        return None

    def get_viewport_size(self):
        return (SVGLength(0), SVGLength(0), SVGLength(self.view[0]),
                SVGLength(self.view[1]))

    def __deepcopy__(self, memo):
        return self


def world(t, context):
    """(context, font size of the parent, root font size, viewport)"""
    d = Font.default_font_size
    if not context:
        return None, d, d, (100, 100)
    f, r = t.real('parent_font', 10, 100), t.real('root_font', 10, 100)
    w, h = t.real('vw', 1, 2000), t.real('vh', 1, 2000)
    root = Node(r, None, (w, h))
    return Node(1, Node(f, root, (w, h)), (w, h)), f, r, (w, h)


def pixels(t, unit, w, direction=None):
    """Pixels (or dppx) per unit."""
    _, font, root, (vw, vh) = w
    if unit in ABS:
        return ABS[unit]
    if unit in RES:
        return RES[unit]
    if unit == 'em':
        return font
    if unit == 'rem':
        return root
    if unit in ('ex', 'cap', 'ch', 'ic'):
        return font / 2
    if unit == '%':
        return {None: font, 1: vw, 2: vh}[direction] / 100
    if unit == 'vw':
        return vw / 100
    if unit == 'vh':
        return vh / 100
    lo, hi = t.ite(vw < vh, vw, vh), t.ite(vw < vh, vh, vw)
    return (lo if unit == 'vmin' else hi) / 100


def length(t, name, unit, w, direction=None):
    x = t.real(name, -1000, 1000)
    return x, SVGLength(x, unit, context=w[0], direction=direction)


def f(x):
    return float(x) if isinstance(x, Fraction) else x


# ---------------------------------------------------------------- C18

@harness('C18', cases=[dict(unit=u, context=c) for c in (False, True)
                       for u in [None] + ALL
                       if not (c and u in ('ex', 'cap', 'ch', 'ic'))])
def c18_convert(t, unit, context):
    """The value of a length in another unit is its value times the ratio of
    the units; lengths and resolutions do not mix."""
    w = world(t, context)
    d = t.choice('direction', [None, 1, 2]) if unit == '%' or context \
        else None
    x, n = length(t, 'x', unit, w, d)
    to = t.choice('to', [None] + [u for u in ALL if not (
        context and u in ('ex', 'cap', 'ch', 'ic'))])
    if (unit in RES) != (to in RES):
        t.rejects('lengths and resolutions do not mix', ValueError, n.value,
                  to)
        return
    a, b = f(pixels(t, unit, w, d)), f(pixels(t, to, w, d))
    got = n.value(to)
    close(t, got * b, x * a, 'converted value')
    t.check(n.unit == unit, 'unit kept')
    t.eq(n.value(unit), x, 'own unit')
    n.convert(to)
    t.check(n.unit == to, 'unit converted to')
    t.eq(n.value(to), got, 'converted in place')


@harness('C18')
def c18_diagonal(t):
    """A percentage without a direction refers to the normalised diagonal."""
    x = t.real('x', -1000, 1000)
    vw, vh = t.choice('view', [(100, 100), (300, 400), (70, 170)])
    k = ((vw * vw + vh * vh) / 2) ** 0.5
    n = SVGLength(x, '%', context=Node(1, None, (vw, vh)), direction=0)
    close(t, n.value(), x * k / 100, 'of the diagonal', 1e-7)


@harness('C18', cases=[dict(op=o, inplace=i) for o in '+-'
                       for i in (False, True)])
def c18_add(t, op, inplace):
    """Adding and subtracting convert the right operand to the unit of the
    left one (a unitless left operand takes the unit of the right one)."""
    w = world(t, False)
    u, v = t.choice('u', SOME), t.choice('v', SOME)
    x, a = length(t, 'x', u, w)
    y, b = length(t, 'y', v, w)
    p, q = f(pixels(t, u, w)), f(pixels(t, v, w))
    if inplace:
        r = a
        if op == '+':
            r += b
        else:
            r -= b
        t.check(r is a, 'in place')
    else:
        r = a + b if op == '+' else a - b
        t.check(a.unit == u, 'left operand unchanged')
        t.eq(a.value(u), x, 'left operand unchanged')
    t.check(b.unit == v, 'right operand unchanged')
    t.eq(b.value(v), y, 'right operand unchanged')
    t.check(r.unit == (v if u is None else u), 'unit of the result')
    close(t, r.value(), x * p + y * q if op == '+' else x * p - y * q,
          'value of the result')


@harness('C18', cases=[dict(op=o, inplace=i) for o in '*/'
                       for i in (False, True)])
def c18_scale(t, op, inplace):
    """Multiplying or dividing by a number scales the value and keeps the
    unit."""
    w = world(t, False)
    u = t.choice('u', [None] + ALL)
    x, a = length(t, 'x', u, w)
    k = t.real('k', -100, 100)
    if op == '/':
        t.assume(k != 0)
    if inplace:
        r = a
        if op == '*':
            r *= k
        else:
            r /= k
        t.check(r is a, 'in place')
    else:
        r = a * k if op == '*' else a / k
        t.eq(a.value(u), x, 'operand unchanged')
        if op == '*':
            t.eq((k * a).value(u), r.value(u), 'number on the left')
    t.check(r.unit == u, 'unit kept')
    if op == '*':
        t.eq(r.value(u), x * k, 'product')
    else:
        t.eq(r.value(u) * k, x, 'quotient')


@harness('C18')
def c18_sign(t):
    """Unary operators keep the unit and leave the operand alone."""
    w = world(t, False)
    u = t.choice('u', [None] + ALL)
    x, a = length(t, 'x', u, w)
    for r, e in ((-a, -x), (+a, x), (abs(a), t.ite(x < 0, -x, x))):
        t.check(r.unit == u and r is not a, 'unit kept')
        t.eq(r.value(u), e, 'value')
    t.eq(a.value(u), x, 'operand unchanged')


@harness('C18', cases=[dict(u=u) for u in SOME])
def c18_compare(t, u):
    """Lengths compare like their values in pixels, whatever their units
    (up to a small tolerance)."""
    w = world(t, False)
    v = t.choice('v', SOME)
    x, a = length(t, 'x', u, w)
    y, b = length(t, 'y', v, w)
    p, q = x * f(pixels(t, u, w)), y * f(pixels(t, v, w))
    case = t.choice('case', ['less', 'equal', 'greater'])
    if case == 'less':
        t.assume(p < q - 0.01)
    elif case == 'greater':
        t.assume(p > q + 0.01)
    else:
        t.assume(p == q)
    want = (case == 'less', case != 'greater', case == 'equal',
            case != 'equal', case != 'less', case == 'greater')
    got = (a < b, a <= b, a == b, a != b, a >= b, a > b)
    t.check(tuple(bool(g) for g in got) == want, 'order')
    got = (b > a, b >= a, b == a, b != a, b <= a, b < a)
    t.check(tuple(bool(g) for g in got) == want, 'mirrored order')


@harness('C18')
def c18_kinds(t):
    """Every unit is exactly one of absolute, relative or resolution."""
    u = t.choice('u', [None] + ALL)
    n = SVGLength(t.real('x', -1000, 1000), u)
    got = [bool(n.isabsolute()), bool(n.isrelative()),
           bool(n.isresolution())]
    t.check(got == [u in ABS, u in VIEW + FONT + ['%'], u in RES], 'kind')


# ---------------------------------------------------------------- C19

@harness('C19', cases=[dict(unit=u) for u in [''] + ALL])
def c19_parse(t, unit):
    """A length text gives its number and its unit in lower case."""
    x = t.decimal('x', 2, 2)
    s = '{:.2f}'.format(x)
    plus = t.choice('plus', ['', '+'])
    if plus:
        t.assume(x >= 0)
    pad = t.choice('pad', ['', ' ', '\t\n'])
    u = t.choice('case', [unit, unit.upper()])
    n = SVGLength(pad + plus + s + u + pad)
    t.check(n.unit == (unit or None), 'unit')
    t.eq(n.value(unit or None), x, 'number')


@harness('C19', cases=[dict(n=n) for n in (1, 2, 3)]
         + [dict(n=4, _tier='thorough')])
def c19_number(t, n):
    """Any spelling of a number is read as that number."""
    s = t.text('s', n, '05.+-eE')
    e, v = t.raises(lambda: float(s))
    if e is not None:
        t.assume(False)
    r = t.no_raise('accepted', lambda: SVGLength(s))
    t.check(r.unit is None, 'no unit')
    t.eq(r.value(), v, 'number')


@harness('C19', cases=[dict(unit=u) for u in [''] + ALL])
def c19_roundtrip(t, unit):
    """Serialising and parsing again gives the same length."""
    x = t.decimal('x', 2, 2)
    n = SVGLength(x, unit or None)
    s = n.tostring()
    r = SVGLength(s)
    t.check(r.unit == (unit or None), 'unit')
    t.eq(r.value(unit or None), x, 'number')
    t.check(s == r.tostring(), 'serialisation is stable')


@harness('C19', cases=[dict(n=n) for n in (1, 2, 3)])
def c19_unknown(t, n):
    """An unknown unit or a text that is not a length is rejected."""
    u = t.text('u', n, 'abcdehimnopqrtvwxyz%')
    if n == 1:
        t.assume(u != 'q')
        t.assume(u != '%')
    for k in ALL:
        if len(k) == n:
            t.assume(u != k)
    t.assume('%' not in u)
    t.rejects('unknown unit', ValueError, SVGLength, '5' + u)
    t.rejects('no number', ValueError, SVGLength, u)
