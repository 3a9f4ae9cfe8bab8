"""CSS Typed OM: style values read from text, unparsed values and style
property maps (C50)."""

PROPERTIES = ['C50']

from symx.api import harness
from svgpy import SVGDOMImplementation
from svgpy.css import CSSStyleDeclaration
from svgpy.css.types import CSSKeywordValue, CSSNumericValue, CSSStyleValue, \
    CSSUnitValue, CSSUnparsedValue, CSSURLImageValue, \
    CSSVariableReferenceValue, StylePropertyMap, StylePropertyMapReadOnly
from svgpy.window import Window
from harness.ref import close


def document():
    return Window(SVGDOMImplementation()).document


def parse_all(name, text):
    return CSSStyleValue.parse_all(name, text, document())


def parse(name, text):
    return CSSStyleValue.parse(name, text, document())


def number(t, name):
    """A number of a digit or two, a point and a digit, and its value."""
    a, b = t.text(name + 'i', 1, '0123456789'), t.text(name + 'f', 1,
                                                       '0123456789')
    sign = t.choice(name + 's', ['', '-', '+'])
    x = int(a) + int(b) / 10
    return sign + a + '.' + b, -x if sign == '-' else x


# ------------------------------------------------------- unparsed values

def item(t, name):
    """A piece of text or a reference to a variable, and its text."""
    c = t.text(name, 1, 'ab')
    if t.choice(name + 'v', [False, True]):
        return CSSVariableReferenceValue('--' + c), 'var(--' + c + ')'
    return c, c


OPS = ['set', 'insert', 'delete', 'append', 'slice', 'pop', 'bad']


@harness('C50', cases=[dict(a=a, b=b) for a in OPS for b in OPS])
def c50_unparsed_sequence(t, a, b):
    """An unparsed value is a list of texts and references, for every history
    of changes; its text is theirs; other items are refused."""
    items = [item(t, 'i0'), item(t, 'i1')]
    v = CSSUnparsedValue([x for x, _ in items])
    for n, op in enumerate((a, b)):
        size = len(items)
        i = t.choice('at%d' % n, list(range(-size, size)) or [0])
        new = item(t, 'n%d' % n)
        if op == 'set':
            if size == 0:
                t.rejects('out of range', IndexError, v.__setitem__, i,
                          new[0])
            else:
                v[i] = new[0]
                items[i] = new
        elif op == 'insert':
            v.insert(i, new[0])
            items.insert(i, new)
        elif op == 'delete':
            if size:
                del v[i]
                del items[i]
        elif op == 'append':
            v.append(new[0])
            items.append(new)
        elif op == 'slice':
            v[i:i + 1] = [new[0], 'z']
            items[i:i + 1] = [new, ('z', 'z')]
        elif op == 'pop':
            if size:
                t.check(v.pop(i) is items.pop(i)[0], 'the item')
        elif op == 'bad':
            t.rejects('other items', TypeError, v.__setitem__, i, 3)
            t.rejects('other items', TypeError, v.append, None)
            t.rejects('other items', TypeError, v.insert, i, 2.5)
    t.eq(len(v), len(items), 'length')
    t.eq(v.length, len(items), 'length')
    for x, (y, _) in zip(v, items):
        t.check(x is y, 'item')
    t.eq(v.tostring(), ''.join([s for _, s in items]), 'text')


def blank(t, name):
    return t.choice(name, ['', ' '])


@harness('C50', cases=[dict(shape=s, name=n)
                       for s in ('plain', 'fallback', 'nested', 'function',
                                 'two', 'empty')
                       for n in ('--x', 'width')])
def c50_var(t, shape, name):
    """A value with var() is the texts and references it is written from,
    with the fallbacks; it is written as it was read, and what is written
    after a change reads back as the same items."""
    a = t.text('a', 1, 'ab')
    n = t.text('n', 2, 'ab-')
    w1, w2 = blank(t, 'w1'), blank(t, 'w2')
    ref = 'var(' + w1 + '--' + n + w2
    want = ['%s ' % 'p', ('--' + n, None)]
    if shape == 'plain':
        text = 'p ' + ref + ')'
    elif shape == 'fallback':
        text = 'p ' + ref + ',' + w1 + a + w2 + ')'
        want[1] = ('--' + n, [w1 + a + w2])
    elif shape == 'empty':
        text = 'p ' + ref + ',' + a + ')' + w1 + '/' + a
        want[1] = ('--' + n, [a])
        want.append(w1 + '/' + a)
    elif shape == 'nested':
        text = 'p ' + ref + ',1 ' + 'var(--' + a + ',b)' + ' 2)'
        want[1] = ('--' + n, ['1 ', ('--' + a, ['b']), ' 2'])
    elif shape == 'function':
        text = 'calc(1px + ' + ref + ') * 2)'
        want = ['calc(1px + ', ('--' + n, None), ' * 2)']
    else:
        text = 'p ' + ref + ')var(--' + a + ')'
        want.append(('--' + a, None))
    vs = parse_all(name, text)
    t.eq(len(vs), 1, 'one value')
    v = vs[0]
    t.check(isinstance(v, CSSUnparsedValue), 'unparsed')
    t.eq(v.tostring(), text, 'text')
    t.eq(v.associated_property, name, 'property')
    same_items(t, v, want)
    v.append('!')
    v.pop()
    same_items(t, parse(name, v.tostring()), want)


def same_items(t, v, want):
    got = list(v)
    t.eq(len(got), len(want), 'number of items')
    for x, y in zip(got, want):
        if isinstance(y, str):
            t.check(isinstance(x, str), 'a text')
            t.eq(x, y, 'text')
            continue
        t.check(isinstance(x, CSSVariableReferenceValue), 'a reference')
        t.eq(x.variable, y[0], 'name of the variable')
        if y[1] is None:
            t.check(x.fallback is None, 'no fallback')
        else:
            t.check(isinstance(x.fallback, CSSUnparsedValue), 'fallback')
            same_items(t, x.fallback, y[1])


# ------------------------------------------------------- values of properties

NUMERIC = [('width', 'px'), ('width', '%'), ('width', 'Em'),
           ('stroke-dashoffset', 'MM'), ('opacity', ''),
           ('stroke-miterlimit', ''), ('transition-duration', 's'),
           ('transition-duration', 'ms'), ('letter-spacing', 'rem'),
           ('x', 'q')]


@harness('C50', cases=[dict(name=n, unit=u) for n, u in NUMERIC])
def c50_number(t, name, unit):
    """A number, percentage or dimension is a unit value of that amount; it
    is written as it was read, or as it was changed."""
    s, x = number(t, 'x')
    # widths and so on refuse no sign; the syntax is all that is looked at
    v = parse(t.choice('case', [name, name.upper()]), s + unit)
    t.check(isinstance(v, CSSUnitValue), 'a unit value')
    close(t, v.value, x, 'value')
    t.eq(v.unit, {'%': 'percent', '': 'number'}.get(unit, unit.lower()),
         'unit')
    t.eq(v.tostring(), s + unit, 'text')
    t.eq(v.associated_property, name, 'property')
    y = t.decimal('y', 1, 1)
    v.value = y
    close(t, v.value, y, 'the new value')
    w = CSSNumericValue.parse(v.tostring())
    close(t, w.value, y, 'the new value is written')
    t.eq(w.unit, v.unit, 'with its unit')


@harness('C50', cases=[dict(name=n, unit=u) for n, u in (
    ('width', 'deg'), ('width', 's'), ('opacity', 'px'),
    ('opacity', 'deg'), ('x', 'dpi'), ('letter-spacing', 'ms'))])
def c50_wrong_unit(t, name, unit):
    """Dimensions of another type are no value of the property."""
    s, x = number(t, 'x')
    t.rejects('rejected', ValueError, parse, name, s + unit)


@harness('C50')
def c50_keyword(t):
    """Keywords of the property are keyword values; other words are
    rejected; the CSS-wide ones are known to all, in any case."""
    name, words = t.choice('property', [
        ('display', ['none', 'block', 'inline']),
        ('width', ['auto']), ('text-anchor', ['start', 'middle', 'end'])])
    wide = t.choice('wide', [None, 'inherit', 'Initial', 'UNSET'])
    if wide is not None:
        v = parse(name, wide)
        t.eq(v.value, wide.lower(), 'keyword')
    else:
        w = t.text('word', 4, 'abceilmnotdu')
        try:
            v = parse(name, w)
        except ValueError:
            t.check(t.And(*[w != x for x in words]), 'a known word')
            return
        ok = False
        for x in words:
            ok = t.Or(ok, w == x)
        t.check(ok, 'an unknown word')
        t.eq(v.value, w, 'keyword')
    t.check(isinstance(v, CSSKeywordValue), 'a keyword value')
    u = t.text('u', 2, 'ab')
    v.value = u
    t.eq(v.tostring(), u, 'written as changed')
    t.rejects('empty keywords', ValueError, CSSKeywordValue, '')


LISTS = ['transition-duration', 'animation-delay']


@harness('C50', cases=[dict(n=1), dict(n=2),
                       dict(n=3, _tier='thorough')])
def c50_list(t, n):
    """The items of a list are the values between the commas; empty items
    and CSS-wide keywords among others are rejected."""
    text, want = '', []
    name = t.choice('property', LISTS) if n == 2 else LISTS[0]
    for i in range(n):
        kind = t.choice('k%d' % i, ['time', 'inherit', 'empty'])
        if kind == 'time':
            s, x = number(t, 'x%d' % i)
            s += t.choice('u%d' % i, ['s', 'ms'])
            want.append(x)
        elif kind == 'inherit':
            s = 'inherit'
            want.append(None)
        else:
            s = ''
            want.append('')
        text += (',' if i else '') + blank(t, 'w%d' % i) + s
    if n == 1 and want == ['']:
        return
    if '' in [x for x in want if isinstance(x, str)] or (
            n > 1 and None in [x for x in want if x is None]):
        t.rejects('rejected', ValueError, parse_all, name,
                  text)
        return
    got = parse_all(name, text)
    t.eq(len(got), n, 'number of items')
    for v, x in zip(got, want):
        if x is None:
            t.check(isinstance(v, CSSKeywordValue), 'keyword')
            t.eq(v.value, 'inherit', 'keyword')
        else:
            close(t, v.value, x, 'value')
        t.eq(v.associated_property, name, 'property')
    t.eq(parse(name, text).tostring(), got[0].tostring(),
         'parse gives the first')
    if n > 1:
        decl = CSSStyleDeclaration()
        decl.set_property(name, text)
        for again in (False, True):
            m = StylePropertyMap(decl)
            if again:
                m.set(name, *got)
            vs = m.get_all(name)
            t.eq(len(vs), n, 'items of the map')
            for v, x in zip(vs, want):
                close(t, v.value, x, 'item of the map')
            close(t, m.get(name.upper()).value, want[0],
                  'the map gives the first')
        t.rejects('foreign item', ValueError, m.set, 'animation-name', got[1])


@harness('C50')
def c50_url(t):
    """An image address is the text between the brackets or quotes."""
    a = t.text('a', 3, 'a/.#')
    q = t.choice('quote', ['', '"', "'"])
    v = parse('background-image', 'url(' + q + a + q + ')')
    t.check(isinstance(v, CSSURLImageValue), 'an address')
    t.eq(v.value, a, 'address')


# ------------------------------------------------------- style property maps

PROPS = ['opacity', 'stroke-miterlimit', '--a']
MAP_OPS = ['set', 'value', 'item', 'delete', 'del', 'foreign', 'bad', 'two']


@harness('C50', cases=[dict(a=a, b=b) for a in MAP_OPS for b in MAP_OPS])
def c50_map(t, a, b):
    """A style property map shows the declared properties and no others, for
    every history; a value of another property and what is no value are
    refused and change nothing."""
    decl = CSSStyleDeclaration()
    decl.set_property('opacity', '0.25')
    m = StylePropertyMap(decl)
    want = {'opacity': '0.25'}
    for n, op in enumerate((a, b)):
        name = t.choice('p%d' % n, PROPS)
        key = t.choice('up%d' % n, [name.upper(), name]) \
            if name[0] != '-' else name
        x = t.text('v%d' % n, 1, '0123456789')
        s = '0.' + x
        if op == 'set':
            m.set(key, s)
            want[name] = s
        elif op == 'item':
            m[key] = s
            want[name] = s
        elif op == 'value':
            if name[0] == '-':
                m.set(key, CSSUnparsedValue([s, ' ', 'x']))
                want[name] = s + ' x'
            else:
                v = parse(name, s)
                m.set(key, v)
                want[name] = s
        elif op == 'delete':
            m.delete(key)
            want.pop(name, None)
        elif op == 'del':
            del m[key]
            want.pop(name, None)
        elif op == 'foreign':
            other = [p for p in PROPS[:2] if p != name][0]
            t.rejects('a value of another property', ValueError, m.set, key,
                      parse(other, s))
        elif op == 'bad':
            t.rejects('no value', TypeError, m.set, key, 3)
            t.rejects('no value', TypeError, m.set, key, s, None)
        elif op == 'two':
            t.rejects('more than an unparsed value', TypeError, m.set, key,
                      CSSUnparsedValue(['a']), 'b')
    for view in (m, StylePropertyMapReadOnly(decl)):
        t.eq(len(view), len(want), 'size')
        t.eq(view.size, len(want), 'size')
        t.eq(sorted(view), sorted(want), 'names')
        t.eq(sorted(view.keys()), sorted(want), 'names')
        for name in PROPS:
            for key in (name, name.upper()):
                if name[0] == '-' and key != name:
                    continue
                t.check(view.has(key) == (name in want), 'has')
                t.check((key in view) == (name in want), 'in')
                vs = view.get_all(key)
                t.eq(len(vs), 1 if name in want else 0, 'values')
                if name not in want:
                    t.check(view.get(key) is None, 'none')
                    continue
                t.eq(vs[0].tostring(), want[name], 'value')
                t.eq(view.get(key).tostring(), want[name], 'value')
                t.eq(view[key][0].tostring(), want[name], 'value')
    for name in PROPS:
        t.eq(decl.get_property_value(name), want.get(name, ''),
             'declarations')
