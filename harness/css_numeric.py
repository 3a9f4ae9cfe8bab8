PROPERTIES = ['C30', 'C31', 'C32']

import math
from fractions import Fraction

from symx.api import harness
from svgpy.css.types import CSSMathClamp, CSSMathInvert, CSSMathMax, \
    CSSMathMin, CSSMathNegate, CSSMathProduct, CSSMathSum, CSSNumericType, \
    CSSNumericValue, CSSUnitValue
from harness.ref import close

BASE = ['length', 'angle', 'time', 'frequency', 'resolution', 'flex']
PI = Fraction(math.pi)
# unit: (base type, canonical unit, how many canonical units it is)
UNITS = {
    'cm': ('length', 'px', Fraction(9600, 254)),
    'mm': ('length', 'px', Fraction(960, 254)),
    'q': ('length', 'px', Fraction(240, 254)),
    'in': ('length', 'px', Fraction(96)),
    'pt': ('length', 'px', Fraction(96, 72)),
    'pc': ('length', 'px', Fraction(16)),
    'px': ('length', 'px', Fraction(1)),
    'deg': ('angle', 'deg', Fraction(1)),
    'grad': ('angle', 'deg', Fraction(9, 10)),
    'rad': ('angle', 'deg', 180 / PI),
    'turn': ('angle', 'deg', Fraction(360)),
    's': ('time', 'ms', Fraction(1000)), 'ms': ('time', 'ms', Fraction(1)),
    'hz': ('frequency', 'hz', Fraction(1)),
    'khz': ('frequency', 'hz', Fraction(1000)),
    'dpi': ('resolution', 'dppx', Fraction(1, 96)),
    'dpcm': ('resolution', 'dppx', Fraction(254, 9600)),
    'dppx': ('resolution', 'dppx', Fraction(1)),
    'number': (None, 'number', Fraction(1)),
}
for _u in 'em ex ch ic rem lh rlh vw vh vi vb vmin vmax'.split():
    UNITS[_u] = ('length', _u, Fraction(1))
UNITS['fr'] = ('flex', 'fr', Fraction(1))
UNITS['percent'] = ('percent', 'percent', Fraction(1))


# ---------------------------------------------------------------- types
def new_type(d, hint):
    r = CSSNumericType()
    for k, v in d.items():
        r[k] = v
    if hint is not None:
        r.percent_hint = hint
    return r


def applied(d, h):
    d = dict(d)
    d[h] = d.get(h, 0) + d.get('percent', 0)
    d['percent'] = 0
    return d


def alike(a, b):
    for k in BASE + ['percent']:
        if a.get(k, 0) != b.get(k, 0):
            return False
    return True


def ref_hints(a, ha, b, hb):
    if ha is not None and hb is not None:
        return None if ha != hb else (a, b, ha)
    if ha is not None:
        return a, applied(b, ha), ha
    if hb is not None:
        return applied(a, hb), b, hb
    return a, b, None


def ref_add(a, ha, b, hb):
    """CSS Typed OM, 'add two types', except that percentages also add to
    plain numbers: types that differ in percentages only are compatible."""
    r = ref_hints(a, ha, b, hb)
    if r is None:
        return None
    a, b, hint = r
    if all(a.get(k, 0) == b.get(k, 0) for k in BASE):
        p, q = a.get('percent', 0), b.get('percent', 0)
        return dict(a, percent=p if p == q else None), hint
    if a.get('percent', 0) != 0 or b.get('percent', 0) != 0:
        if any(x.get(k, 0) != 0 for x in (a, b) for k in BASE):
            for h in BASE:
                x, y = applied(a, h), applied(b, h)
                if alike(x, y):
                    return x, h
    return None


def ref_mul(a, ha, b, hb):
    r = ref_hints(a, ha, b, hb)
    if r is None:
        return None
    a, b, hint = r
    return {k: a.get(k, 0) + b.get(k, 0) for k in BASE + ['percent']}, hint


def some_type(t, name, keys):
    """Any type over the given base types, perhaps with a percent hint."""
    hint = t.choice(name + '_hint', [None] + [k for k in keys if k in BASE])
    d = {}
    for k in keys:
        if k == 'percent' and hint is not None:
            continue        # a hint has taken the percentages
        if t.bool('%s_has_%s' % (name, k)):
            d[k] = t.int('%s_%s' % (name, k), -2, 2)
    return d, hint


def same_type(t, got, want, label):
    if want is None:
        t.check(got is None, label + ': no such type')
        return
    t.check(got is not None, label + ': there is such a type')
    d, hint = want
    for k in BASE + ['percent']:
        if d.get(k, 0) is None:
            continue            # different percentages: left open
        t.eq(got.get(k, 0), d.get(k, 0), '%s: %s' % (label, k))
    t.eq(got.percent_hint, hint, label + ': percent hint')


KEYS = [('length', 'percent'), ('time', 'percent'), ('angle', 'frequency'),
        ('resolution', 'flex')]


@harness('C30', cases=[dict(op=o, keys=k) for o in ('add', 'mul')
                       for k in KEYS] + [
    dict(op=o, keys=('length', 'angle', 'percent'), _tier='thorough')
    for o in ('add', 'mul')])
def c30_algebra(t, op, keys):
    """Adding and multiplying types is as CSS Typed OM says."""
    a, ha = some_type(t, 'a', keys)
    b, hb = some_type(t, 'b', keys)
    x, y = new_type(a, ha), new_type(b, hb)
    f = CSSNumericType.add_types if op == 'add' \
        else CSSNumericType.multiply_types
    r = f(x, y)
    same_type(t, r, (ref_add if op == 'add' else ref_mul)(a, ha, b, hb), op)
    t.eq([x.get(k) for k in keys] + [x.percent_hint],
         [a.get(k) for k in keys] + [ha], 'first argument unchanged')
    t.eq([y.get(k) for k in keys] + [y.percent_hint],
         [b.get(k) for k in keys] + [hb], 'second argument unchanged')
    if r is not None:
        r.length = 7
        t.eq([x.get('length'), y.get('length')],
             [a.get('length'), b.get('length')], 'the result is new')


@harness('C30')
def c30_units(t):
    """Every unit has the type of its dimension."""
    u = t.choice('unit', sorted(UNITS))
    x = CSSNumericType.create_type(u.upper() if t.bool('upper') else u)
    k = UNITS[u][0]
    same_type(t, x, ({k: 1} if k else {}, None), 'type')
    bad = t.text('bad', 2, 'pxzsm%')
    t.assume(bad not in UNITS)
    t.rejects('unknown unit', ValueError, CSSNumericType.create_type, bad)
    t.rejects('unknown unit of a value', ValueError, CSSUnitValue, 1, bad)


@harness('C30')
def c30_unit_map(t):
    """A map of units and powers has the product of their types."""
    u = t.choice('u', ['px', 'em', 's', 'deg', 'percent'])
    v = t.choice('v', ['cm', 'ms', 'dpi', 'khz', 'vw', None])
    p, q = t.int('p', -3, 3), t.int('q', -3, 3)
    d, m = {UNITS[u][0]: p}, {u: p}
    if v is not None:
        m[v] = q
        k = UNITS[v][0]
        d[k] = d.get(k, 0) + q
    same_type(t, CSSNumericType.create_type_from_unit_map(m), (d, None),
              'type')
    n = CSSNumericType.product_unit_maps(m, {u: 1, 'fr': q})
    want = dict(m)
    want[u] = p + 1
    want['fr'] = q
    t.eq(sorted(n), sorted(want), 'units of a product')
    for k in want:
        t.eq(n[k], want[k], 'power in a product')
    t.eq(m[u], p, 'argument unchanged')


def inverted(d):
    return {k: None if v is None else -v for k, v in d.items()}


def leaf(t, name, units):
    u = t.choice(name + '_unit', units)
    v = t.real(name, -1000, 1000)
    k = UNITS[u][0]
    return CSSUnitValue(v, u), ({k: 1} if k else {}, None), v, u


@harness('C30', cases=[dict(cls=c) for c in ('sum', 'product', 'min', 'max',
                                             'clamp', 'negate', 'invert')])
def c30_expressions(t, cls):
    """The type of an expression follows from the types of its parts, which
    it leaves alone; parts that do not fit are rejected."""
    units = ['px', 'em', 'percent', 'number', 's']
    x, tx, _, _ = leaf(t, 'x', units)
    y, ty, _, _ = leaf(t, 'y', units)
    args, types = [x, y], [tx, ty]
    cons = {'sum': CSSMathSum, 'product': CSSMathProduct, 'min': CSSMathMin,
            'max': CSSMathMax, 'clamp': CSSMathClamp,
            'negate': CSSMathNegate, 'invert': CSSMathInvert}[cls]
    deep = t.choice('deep', [None, 'product', 'invert'])
    if deep == 'product':
        args[0] = CSSMathProduct(x, y)
        types[0] = ref_mul(tx[0], None, ty[0], None)
    elif deep == 'invert':
        args[0] = CSSMathInvert(x)
        types[0] = (inverted(tx[0]), None)
        same_type(t, x.type(), tx, 'type of the inverted value')
    if cls in ('negate', 'invert'):
        args, types = args[:1], types[:1]
    elif cls == 'clamp':
        args, types = args + [y], types + [ty]
    want = types[0]
    for k in types[1:]:
        if want is not None:
            f = ref_mul if cls == 'product' else ref_add
            want = f(want[0], want[1], k[0], k[1])
    if cls == 'invert':
        want = inverted(want[0]), want[1]
    if want is None:
        t.rejects('parts of different types', ValueError, cons, *args)
    else:
        e = t.no_raise('expression', lambda: cons(*args))
        same_type(t, e.type(), want, 'type')
        i = CSSMathInvert(e)
        same_type(t, i.type(), (inverted(want[0]),
                                want[1]), 'type of the inverse')
        same_type(t, e.type(), want, 'type afterwards')
    same_type(t, x.type(), tx, 'type of a part afterwards')
    same_type(t, y.type(), ty, 'type of another part afterwards')


# --------------------------------------------------------------- values
GROUPS = {}
for _u in UNITS:
    GROUPS.setdefault(UNITS[_u][1], []).append(_u)


@harness('C31', cases=[dict(group=g) for g in sorted(GROUPS)])
def c31_to(t, group):
    """Converting between the units of a dimension multiplies with the ratio
    of the units, there and back again changes nothing; other units are
    rejected."""
    u = t.choice('u', GROUPS[group])
    v = t.choice('v', GROUPS[group])
    n = t.real('n', -10000, 10000)
    x = CSSUnitValue(n, u)
    name = v.upper() if t.bool('upper') else v
    y = x.to(name)
    t.eq(y.unit, v, 'unit')
    want = n * (UNITS[u][2] / UNITS[v][2])
    close(t, y.value, want, 'value')
    z = y.to(u)
    t.eq(z.unit, u, 'unit back')
    close(t, z.value, n, 'value back')
    t.eq(x.unit, u, 'unit kept')
    t.eq(x.value, n, 'value kept')
    y.value = 5
    t.eq(x.value, n, 'the result is new')
    other = t.choice('other', sorted(UNITS))
    if UNITS[other][1] != group:
        t.rejects('other dimension', ValueError, x.to, other)


@harness('C31', cases=[dict(group=g) for g in sorted(GROUPS)
                       if len(GROUPS[g]) > 1])
def c31_compare(t, group):
    """Values compare by the quantity they stand for."""
    us = GROUPS[group]
    u = t.choice('u', us)
    v = t.choice('v', us)
    a, b = t.real('a', -1000, 1000), t.real('b', -1000, 1000)
    x, y = CSSUnitValue(a, u), CSSUnitValue(b, v)
    p, q = a * UNITS[u][2], b * UNITS[v][2]
    gap = t.choice('gap', ['less', 'more', 'same'])
    far = 1e-6 * (abs(p) + abs(q) + 1e-3)
    if gap == 'same':
        if u == v:
            t.assume(a == b)
        else:
            t.assume(a == 0)
            t.assume(b == 0)
        want = (True, False, False, True, False, True)
    elif gap == 'less':
        t.assume(q - p > far)
        want = (False, True, True, True, False, False)
    else:
        t.assume(p - q > far)
        want = (False, True, False, False, True, True)
    for f, w, label in zip(
            (lambda: x == y, lambda: x != y, lambda: x < y, lambda: x <= y,
             lambda: x > y, lambda: x >= y), want,
            ('==', '!=', '<', '<=', '>', '>=')):
        t.eq(bool(f()), w, label)


@harness('C31')
def c31_numbers(t):
    """Plain numbers compare with numbers, not with dimensions."""
    a, b = t.real('a', -1000, 1000), t.int('b', -5, 5)
    x = CSSUnitValue(a, 'number')
    t.assume(abs(a - b) > 1e-3)
    t.eq(bool(x < b), a < b, '<')
    t.eq(bool(x > b), a > b, '>')
    t.eq(bool(x == b), False, '==')
    u = t.choice('u', ['px', 'em', 'percent', 'deg'])
    t.rejects('dimension', ValueError, lambda: CSSUnitValue(a, u) < b)


@harness('C31')
def c31_add(t):
    """add() adds up quantities; what cannot be added is rejected."""
    us = ['px', 'in', 'em', 'percent', 's', 'number']
    x, tx, a, u = leaf(t, 'x', us)
    y, ty, b, v = leaf(t, 'y', us)
    k = t.int('k', -3, 3)
    e, r = t.raises(lambda: x.add(y))
    s = ref_add(tx[0], None, ty[0], None)
    if s is None:
        t.check(isinstance(e, ValueError), 'rejected')
        return
    t.check(e is None, 'added')
    same_type(t, r.type(), s, 'type')
    if u == v:
        t.check(isinstance(r, CSSUnitValue), 'one unit')
        t.eq(r.unit, u, 'unit of the sum')
        close(t, r.value, a + b, 'sum')
        w = r.add(y, y)
        close(t, w.value, a + 3 * b, 'sum of four')
        if u == 'number':
            close(t, x.add(k, y).value, a + k + b, 'sum with a number')
    else:
        t.check(isinstance(r, CSSMathSum), 'a sum')
        t.eq(r.operator.value, 'sum', 'operator')
        t.eq([(i.value, i.unit) for i in r.values], [(a, u), (b, v)],
             'terms')
        w = r.add(x)
        t.eq([(i.value, i.unit) for i in w.values],
             [(a, u), (b, v), (a, u)], 'more terms')
        t.eq(len(r.values), 2, 'the sum is unchanged')
    t.eq([x.value, x.unit, y.value, y.unit], [a, u, b, v], 'terms unchanged')


def q(u, v):
    return v * UNITS[u][2]


SHAPES = ['neg', 'inv', 'sum', 'prod', 'div', 'min', 'max', 'sumsum',
          'prodsum', 'ratio', 'square', 'negsum', 'sumprod', 'cancel']


@harness('C31', cases=[dict(shape=s, group=g) for s in SHAPES
                       for g in ('px', 'ms')])
def c31_evaluate(t, shape, group):
    """Converting an expression evaluates it; the expression can be converted
    again."""
    us = [x for x in GROUPS[group] if x in ('px', 'in', 'mm', 's', 'ms')]
    u, v = t.choice('u', us), t.choice('v', us)
    w = t.choice('w', us)
    a, b, k = t.real('a', -100, 100), t.real('b', -100, 100), \
        t.real('k', -100, 100)
    x, y, n = CSSUnitValue(a, u), CSSUnitValue(b, v), CSSUnitValue(
        k, 'number')
    p, r = q(u, a), q(v, b)
    if shape == 'neg':
        e, want = CSSMathNegate(x), -p
    elif shape == 'inv':
        e, want = CSSMathInvert(x), None
    elif shape == 'sum':
        e, want = CSSMathSum(x, y), p + r
    elif shape == 'prod':
        e, want = CSSMathProduct(x, n), p * k
    elif shape == 'div':
        t.assume(k > 0.5)
        e, want = CSSMathProduct(x, CSSMathInvert(n)), p / k
    elif shape == 'min':
        e, want = CSSMathMin(x, y), t.ite(p < r, p, r)
    elif shape == 'max':
        e, want = CSSMathMax(x, y, x), t.ite(p > r, p, r)
    elif shape == 'sumsum':
        e, want = CSSMathSum(x, CSSMathNegate(CSSMathSum(y, x))), -r
    elif shape == 'prodsum':
        e, want = CSSMathProduct(CSSMathSum(x, y), n), (p + r) * k
    elif shape == 'ratio':
        t.assume(b > 0.5)
        e = CSSMathProduct(x, CSSMathInvert(y))
        z = t.no_raise('ratio', lambda: e.to('number'))
        t.eq(z.unit, 'number', 'unit')
        close(t, z.value * r, p, 'value')
        t.rejects('a ratio is no quantity', ValueError, e.to, w)
        return
    elif shape == 'square':
        e, want = CSSMathProduct(x, y), None
    elif shape == 'negsum':
        e, want = CSSMathNegate(CSSMathMin(x, y)), -t.ite(p < r, p, r)
    elif shape == 'sumprod':
        e, want = CSSMathSum(CSSMathProduct(n, x), CSSMathProduct(y, 2)), \
            k * p + 2 * r
    else:
        t.assume(b > 0.5)
        e = CSSMathProduct(CSSMathProduct(x, y), CSSMathInvert(y))
        want = p
        z = t.no_raise('cancelled', lambda: e.to(w))
        close(t, z.value * UNITS[w][2], want, 'value')
        return
    other = 'deg' if group != 'deg' else 'px'
    t.rejects('other dimension', ValueError, e.to, other)
    if want is None:
        t.rejects('not a quantity of this dimension', ValueError, e.to, w)
        return
    for label in ('value', 'value again'):
        z = t.no_raise(label, lambda: e.to(w))
        t.eq(z.unit, w, 'unit')
        close(t, z.value, want / UNITS[w][2], label)
    t.eq([x.value, x.unit, y.value, y.unit], [a, u, b, v], 'parts unchanged')


@harness('C31')
def c31_to_sum(t):
    """to_sum() splits a sum into the units asked for."""
    a, b, c = [t.real(x, -100, 100) for x in 'abc']
    u = t.choice('u', ['px', 'in', 'cm'])
    e = CSSMathSum(CSSUnitValue(a, 'px'), CSSUnitValue(b, 'em'),
                   CSSUnitValue(c, u))
    px = a + q(u, c)
    r = e.to_sum('em', 'in')
    t.eq([x.unit for x in r.values], ['em', 'in'], 'units')
    close(t, r.values[0].value, b, 'em')
    close(t, r.values[1].value, px / 96, 'in')
    r = e.to_sum()
    t.eq([x.unit for x in r.values], ['em', 'px'], 'canonical units')
    close(t, r.values[0].value, b, 'em')
    close(t, r.values[1].value, px, 'px')
    r = e.to_sum('px', 'em', 'percent')
    t.eq([x.unit for x in r.values], ['px', 'em', 'percent'], 'more units')
    close(t, r.values[0].value, px, 'px')
    close(t, r.values[2].value, 0, 'percent')
    t.rejects('units missing', ValueError, e.to_sum, 'px')
    t.rejects('other units', ValueError, e.to_sum, 'px', 'vw')
    t.rejects('not one unit', ValueError, e.to, 'px')


@harness('C31', cases=[dict(shape=s) for s in (
    'left', 'right', 'minus', 'times', 'both', 'deep')])
def c31_nested_sum(t, shape):
    """to_sum() collects the like terms of nested sums."""
    a, b, c, d = [t.real(x, -100, 100) for x in 'abcd']
    px = t.choice('order', [('px', 'em'), ('em', 'px')])

    def two(x, y):
        v = [CSSUnitValue(x, 'px'), CSSUnitValue(y, 'em')]
        return CSSMathSum(*(v if px[0] == 'px' else v[::-1]))

    u, w = CSSUnitValue(c, 'px'), CSSUnitValue(d, 'em')
    if shape == 'left':
        e, p, q = CSSMathSum(two(a, b), u, w), a + c, b + d
    elif shape == 'right':
        e, p, q = CSSMathSum(w, u, two(a, b)), a + c, b + d
    elif shape == 'minus':
        e = CSSMathSum(u, CSSMathNegate(two(a, b)), w)
        p, q = c - a, d - b
    elif shape == 'times':
        e = CSSMathSum(w, CSSMathProduct(CSSUnitValue(3, 'number'),
                                         two(a, b)), u)
        p, q = c + 3 * a, d + 3 * b
    elif shape == 'both':
        e, p, q = CSSMathSum(two(a, b), two(c, d)), a + c, b + d
    else:
        e = CSSMathSum(two(a, b), CSSMathSum(u, CSSMathSum(w, u)))
        p, q = a + 2 * c, b + d
    r = e.to_sum('em', 'px')
    t.eq([x.unit for x in r.values], ['em', 'px'], 'units')
    close(t, r.values[0].value, q, 'em')
    close(t, r.values[1].value, p, 'px')
    t.rejects('two units', ValueError, e.to, 'px')


@harness('C31', cases=[dict(cls=c) for c in ('unit', 'sum', 'product', 'min',
                                             'max', 'clamp', 'negate',
                                             'invert')])
def c31_equals(t, cls):
    """equals() holds for the same expression and no other."""
    a, b, c = [t.real(x, -100, 100) for x in 'abc']
    n = t.real('n', -100, 100)
    cons = {'sum': CSSMathSum, 'product': CSSMathProduct, 'min': CSSMathMin,
            'max': CSSMathMax, 'clamp': CSSMathClamp,
            'negate': CSSMathNegate, 'invert': CSSMathInvert}.get(cls)
    u = t.choice('u', ['px', 'em', 'in'])

    def build(v, w):
        z = CSSUnitValue(c, w)
        if cls == 'unit':
            return CSSUnitValue(v, w)
        if cls in ('negate', 'invert'):
            return cons(CSSUnitValue(v, w))
        return cons(CSSUnitValue(a, u), CSSUnitValue(v, w), CSSUnitValue(
            c, u))
    x = build(b, u)
    t.check(x.equals(x), 'itself')
    t.check(x.equals(build(b, u)), 'the same')
    t.check(x.equals(build(b, u), build(b, u)), 'the same twice')
    if n != b:
        t.check(not x.equals(build(n, u)), 'another number')
        t.check(not x.equals(build(b, u), build(n, u)), 'one differs')
    w = t.choice('w', ['px', 'em', 'in'])
    if w != u:
        t.check(not x.equals(build(b, w)), 'another unit')
    other = CSSMathSum(CSSUnitValue(b, u)) if cls != 'sum' else CSSMathMin(
        CSSUnitValue(a, u), CSSUnitValue(b, u), CSSUnitValue(c, u))
    t.check(not x.equals(other), 'another operator')


# ------------------------------------------------------------- text forms
# '?' stands for any operator and a capital letter for an operand
CALC = {
    'flat': 'calc(A ? B ? C ? D)',
    'front': 'calc(calc(A ? B ? C) ? D)',
    'back': 'calc(A ? calc(B ? C ? D))',
    'mid': 'calc(A ? (B ? C) ? D)',
    'parens': 'calc((A ? B) ? (C ? D))',
    'deep': 'calc(A ? ((B ? C) ? D))',
    'max': 'max(A ? B, C ? D)',
    'min': 'min(A, B ? C ? D)',
    'minfront': 'min(A ? B ? C, D)',
    'inmax': 'calc(A ? max(B ? C, D))',
    'maxin': 'calc(min(A, B ? C) ? D)',
    'max3': 'max(A, B ? C, D)',
    'flat5': 'calc(A ? B ? C ? D ? E)',
    'back5': 'calc(A ? B ? calc(C ? D ? E))',
}
PREC = {'+': 1, '-': 1, '*': 2, '/': 2}


def ref_tokens(s):
    out, i = [], 0
    while i < len(s):
        for w in ('calc(', 'max(', 'min('):
            if s.startswith(w, i):
                out.append(w)
                i += len(w)
                break
        else:
            if s[i] != ' ':
                out.append(s[i])
            i += 1
    return out


def ref_calc(t, tokens, env, ops, i=0):
    """Evaluate from tokens[i] up to the closing parenthesis: (values of the
    arguments, index behind it)."""
    args, terms, factor, op = [], [], None, '+'

    def push(v):
        nonlocal factor
        if op in '+-':
            if factor is not None:
                terms.append(factor)
            factor = v if op == '+' else -v
        elif op == '*':
            factor = factor * v
        else:
            t.assume(v != 0)
            factor = factor / v
    while True:
        k = tokens[i]
        i += 1
        if k in ('calc(', 'max(', 'min(', '('):
            vs, i = ref_calc(t, tokens, env, ops, i)
            v = vs[0]
            for x in vs[1:]:
                if k == 'max(':
                    v = x if x > v else v
                else:
                    v = x if x < v else v
            push(v)
        elif k == '?':
            op = ops.pop(0)
        elif k in ',)':
            terms.append(factor)
            r = terms[0]
            for x in terms[1:]:
                r = r + x
            args.append(r)
            if k == ')':
                return args, i
            terms, factor, op = [], None, '+'
        else:
            push(env[k])


@harness('C32', cases=[dict(shape=s) for s in CALC if '5' not in s] + [
    dict(shape=s, _tier='thorough') for s in CALC if '5' in s])
def c32_calc(t, shape):
    """A calculation has the value its operators and brackets say."""
    form = CALC[shape]
    n = form.count('?')
    ops = [t.choice('op%d' % i, ['+', '-', '*', '/']) for i in range(n)]
    env, text = {}, form
    for k in 'ABCDE':
        if k in form:
            d = t.text('d' + k, 1, '2357')
            env[k] = d
    for o in ops:
        text = text.replace('?', o, 1)
    s = ''
    for k in text:
        s += env[k] if k in env else k
    vals = {k: int(v) for k, v in env.items()}
    want, _ = ref_calc(t, ref_tokens('calc(' + form + ')')[1:],
                       {k: v * Fraction(1) if not t.symbolic else v * 1.0
                        for k, v in vals.items()}, list(ops))
    want = want[0]
    e = t.no_raise('read', lambda: CSSNumericValue.parse(s))
    r = t.no_raise('evaluated', lambda: e.to('number'))
    t.eq(r.unit, 'number', 'unit')
    t.eq(r.value, want, 'value')
    t.eq(e.tostring(), s, 'text kept')


NUMBERS = ['7', '+7', '-7', '.7', '0.7', '7e1', '7E-1', '-.7e+1', '12.7']


@harness('C32', cases=[dict(form=f) for f in NUMBERS])
def c32_unit(t, form):
    """A number with a unit is read as this number and unit."""
    d = t.text('d', 1, '123456789')
    u = t.choice('u', sorted(UNITS))
    s = ''
    for k in form:
        s += d if k == '7' else k
    n = float(s)
    suffix = {'number': '', 'percent': '%'}.get(u, u)
    if suffix and t.bool('upper'):
        suffix = suffix.upper()
    if form == '7' and suffix == 'e':
        return
    sp = t.choice('space', ['', ' ', '/**/'])
    e = t.no_raise('read', lambda: CSSNumericValue.parse(
        sp + s + suffix + sp))
    t.check(isinstance(e, CSSUnitValue), 'a unit value')
    t.eq(e.value, n, 'value')
    t.eq(e.unit, u, 'unit')
    bad = t.choice('bad', ['px', '#fff', '"1"', 'a(1)', 'calc()', 'min()',
                           'calc(1 ^ 2)', 'calc(1 + a)', 'max(1, b(2))',
                           '(1)', '1x', 'calc(1s + 2px)', 'min(1px, 2s)'])
    t.rejects('no number', ValueError, CSSNumericValue.parse, bad)


def dec(t, name, unit, ints=2, frac=1):
    v = t.decimal(name, ints, frac)
    return CSSUnitValue(v, unit), v


@harness('C32', cases=[dict(digits=(1, 0)), dict(digits=(2, 1)),
                       dict(digits=(1, 3), _tier='thorough')],
         budget=(60, 300))
def c32_unit_text(t, digits):
    """A number with a unit is written so that it reads back the same."""
    u = t.choice('u', sorted(UNITS))
    x, v = dec(t, 'v', u, *digits)
    s = x.tostring()
    e = t.no_raise('read', lambda: CSSNumericValue.parse(s))
    t.eq(e.value, v, 'value')
    t.eq(e.unit, u, 'unit')
    t.check(not s.startswith('-0') or v != 0, 'no negative zero')


WRITE = ['sum', 'sub', 'prod', 'div', 'min', 'max', 'minsum', 'maxprod',
         'prodsum', 'sumsub', 'divsum', 'nested', 'maxdeep', 'inv', 'neg']


@harness('C32', cases=[dict(shape=s) for s in WRITE])
def c32_write(t, shape):
    """An expression is written so that it reads back with its value."""
    u = t.choice('u', ['px', 'number'])
    v = t.choice('v', ['in', 'px']) if u == 'px' else 'number'
    (x, a), (y, b) = dec(t, 'x', u, 1, 0), dec(t, 'y', v, 1, 0)
    c = t.int('c', 2, 9)
    n = CSSUnitValue(c, 'number')
    p, r = q(u, a), q(v, b)
    low, high = t.ite(p < r, p, r), t.ite(p > r, p, r)
    S, P, N, I = CSSMathSum, CSSMathProduct, CSSMathNegate, CSSMathInvert
    e, want = {
        'sum': lambda: (S(x, y, x), p + r + p),
        'sub': lambda: (S(x, N(y)), p - r),
        'prod': lambda: (P(n, x, 3), p * c * 3),
        'div': lambda: (P(x, I(n)), p / c),
        'min': lambda: (CSSMathMin(x, y), low),
        'max': lambda: (CSSMathMax(y, x), high),
        'minsum': lambda: (CSSMathMin(S(x, x), y),
                           t.ite(p + p < r, p + p, r)),
        'maxprod': lambda: (CSSMathMax(P(S(x, y), n), x),
                            t.ite((p + r) * c > p, (p + r) * c, p)),
        'prodsum': lambda: (P(S(x, y), n), (p + r) * c),
        'sumsub': lambda: (S(x, N(S(y, x))), -r),
        'divsum': lambda: (P(S(x, y), I(S(n, 1))), (p + r) / (c + 1)),
        'nested': lambda: (S(P(n, CSSMathMin(x, y)), N(P(x, 2))),
                           c * low - 2 * p),
        'maxdeep': lambda: (CSSMathMax(S(x, N(S(y, x))), x),
                            t.ite(-r > p, -r, p)),
        'inv': lambda: (P(x, I(P(n, 2))), p / (2 * c)),
        'neg': lambda: (S(y, N(P(x, n))), r - p * c),
    }[shape]()
    s = e.tostring()
    f = t.no_raise('read', lambda: CSSNumericValue.parse(s))
    w = u if u == 'number' else 'px'
    g, h = e.to(w), f.to(w)
    close(t, g.value, want, 'value written')
    close(t, h.value, want, 'value read')
    t.eq(f.tostring(), s, 'same text')
    k = CSSMathSum(f, f)        # writes the parts it has read
    z = t.no_raise('read again', lambda: CSSNumericValue.parse(
        k.tostring()))
    close(t, z.to(w).value, want * 2, 'value of twice')
