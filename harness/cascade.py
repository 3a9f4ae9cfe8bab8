"""Style attributes, declarations, shorthands and the cascade."""
PROPERTIES = ['C25', 'C34', 'C35', 'C36']

from symx.api import harness
from svgpy import SVGParser
from svgpy.css import CSSStyleDeclaration
from svgpy.exception import NoModificationAllowedError
from svgpy.utils import dict_to_style, style_to_dict
from svgpy.window import SVGDOMImplementation, Window

SVG = 'http://www.w3.org/2000/svg'
NAME = 'ab-'
WS = ' \n'


def element(name='g', **attrib):
    return SVGParser().create_element_ns(SVG, name, attrib=attrib)


# ---------------------------------------------------------------- C25

def split_declarations(text):
    """Reference: declarations end at semicolons which are outside strings
    and parentheses."""
    out, cur, quote, depth, escaped = [], '', None, 0, False
    for c in text:
        if escaped:
            cur += c
            escaped = False
            continue
        if quote is not None:
            cur += c
            if c == '\\':
                escaped = True
            elif c == quote:
                quote = None
            continue
        if c == ';' and depth == 0:
            out.append(cur)
            cur = ''
            continue
        cur += c
        if c == '"' or c == "'":
            quote = c
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
    return out + [cur]


@harness('C25', cases=[dict(n=4), dict(n=6, _tier='thorough')])
def c25_names_and_values(t, n):
    """Names and values are the texts around the first colon, without the
    space around them; of two declarations of one property the later one
    counts."""
    k1 = t.text('k1', 1, NAME)
    k2 = t.text('k2', 2, NAME)
    v1 = t.text('v1', n, 'x: ,')
    v2 = t.text('v2', 1, 'xy')
    s1 = t.choice('s1', ['', ' ', '\n\t'])
    s2 = t.choice('s2', ['', ' '])
    end = t.choice('end', ['', ';', ' ; ', ';;'])
    d = style_to_dict(s1 + k1 + s2 + ':' + s1 + v1 + s2 + ';' + s1 + k2 +
                      ':' + v2 + s2 + end)
    v1 = v1.strip()
    if k1 == k2 or v1 == '':
        # one declaration, and text without a value is none
        t.eq(list(d), [k2], 'names')
    else:
        t.eq(list(d), [k1, k2], 'names in order')
        t.eq(d[k1], v1, 'first value')
    t.eq(d[k2], v2, 'second value')


@harness('C25', cases=[dict(n=3), dict(n=4, _tier='thorough')])
def c25_quoted(t, n):
    """Semicolons and colons in strings and in parentheses belong to the
    value."""
    body = t.text('body', n, ';:x ')
    q = t.choice('quote', [('"', '"'), ("'", "'"), ('url(', ')'),
                           ('url("', '")'), ("f('", "')"), ('"\\"', '"'),
                           ('"(', '"'), ("'\"", "'"), ('(")', '")')])
    v = 'a ' + q[0] + body + q[1]
    d = style_to_dict('p:' + v + '; q : z')
    t.eq(list(d), ['p', 'q'], 'two declarations')
    t.eq(d['p'], v, 'the value as written')
    t.eq(d['q'], 'z', 'the declaration that follows')


@harness('C25', cases=[dict(n=6), dict(n=8, _tier='thorough')])
def c25_any_text(t, n):
    """Any text splits into the declarations of the reference, and pieces
    without a colon are no declarations."""
    s = t.text('s', n, 'a:;" ')
    want = []
    for piece in split_declarations(s):
        i = piece.find(':')
        if i >= 0:
            want.append((piece[:i].strip(), piece[i + 1:].strip()))
    # an unclosed string is outside of the property
    t.assume(s.count('"') % 2 == 0)
    ref = {}
    for k, v in want:
        if v != '':
            ref[k] = v
    d = style_to_dict(s)
    t.eq(len(d), len(ref), 'number of declarations')
    for k in ref:
        t.check(k in d, 'declared', k)
        t.eq(d[k], ref[k], 'value')


@harness('C25', cases=[dict(n=3), dict(n=4, _tier='thorough')])
def c25_repeated(t, n):
    """Of the declarations of one property the last one counts, of those
    that are important if there are any, in the place where it stands; names
    are read in any case, those of custom properties as they are."""
    ref = {}
    text = ''
    for i in range(n):
        k = t.choice('k%d' % i, ['p', 'P', 'q', '--P', '--p'])
        v = t.text('v%d' % i, 1, 'xyz')
        imp = t.choice('i%d' % i, ['', '!important', ' ! IMPORTANT'])
        text = text + k + ':' + v + imp + ';'
        if k == 'P':
            k = 'p'
        if k in ref and '!' in ref[k] and imp == '':
            continue
        ref.pop(k, None)
        ref[k] = v + imp
    d = style_to_dict(text)
    t.eq(list(d), list(ref), 'names in the order of what counts')
    for k in ref:
        t.eq(d[k], ref[k], 'value')


@harness('C25', cases=[dict(n=4), dict(n=6, _tier='thorough')])
def c25_comments(t, n):
    """Comments are no part of names and values; what looks like one in a
    string or in an address is no comment."""
    body = t.text('body', n, ';:/*x')
    t.assume('*/' not in body and not body.endswith('*'))
    form = t.choice('form', [
        ('/*%s*/p: a; q: b', 'a'), ('p/*%s*/: a; q: b', 'a'),
        ('p: a/*%s*/; q: b', 'a'), ('p: a; /*%s*/ q: b', 'a'),
        ('p: a; q: b /*%s', 'a'), ('p: "/*%s"; q: b', '"/*%s"'),
        ("p: '/*%s*/'; q: b", "'/*%s*/'"),
        ('p: url(x/*%s); q: b', 'url(x/*%s)')])

    def fill(s):
        i = s.find('%s')
        return s if i < 0 else s[:i] + body + s[i + 2:]
    d = style_to_dict(fill(form[0]))
    t.eq(list(d), ['p', 'q'], 'two declarations')
    t.eq(d['p'], fill(form[1]), 'first value')
    t.eq(d['q'], 'b', 'second value')


@harness('C25', cases=[dict(n=3), dict(n=4, _tier='thorough')])
def c25_round_trip(t, n):
    """Writing a dictionary gives declarations that read back as it."""
    k1 = t.text('k1', n, NAME)
    k2 = t.text('k2', n, NAME)
    t.assume(k1 != k2)
    v1 = t.text('v1', n, 'x:y')
    v2 = t.choice('v2', ['url("a;b")', "'c:d'", 'x y', 'f(1;2)'])
    ref = {k1: v1, k2: v2}
    text = dict_to_style(ref)
    d = style_to_dict(text)
    t.eq(len(d), 2, 'size')
    t.eq(d[k1], v1, 'first')
    t.eq(d[k2], v2, 'second')
    t.eq(dict_to_style(d), text, 'the text is a fixed point')


# ---------------------------------------------------------------- C35

PLAIN = ['fill', 'stroke', '--x', 'foo']


class Sheet(object):
    """Reference: an association list of declarations."""

    def __init__(self):
        self.items = []

    def get(self, k):
        for x, v, p in self.items:
            if x == k:
                return v, p
        return '', ''

    def put(self, k, v, p):
        self.items = [i for i in self.items if i[0] != k] + [(k, v, p)]

    def drop(self, k):
        v = self.get(k)[0]
        self.items = [i for i in self.items if i[0] != k]
        return v


def same_declarations(t, s, ref, order=True):
    t.eq(len(s), len(ref.items), 'size')
    t.eq(s.length, len(ref.items), 'length')
    names = [k for k, _, _ in ref.items]
    if order:
        t.eq(list(s), names, 'names, last set last')
        for i, k in enumerate(names):
            t.eq(s.item(i), k, 'item()')
    for k in PLAIN:
        v, p = ref.get(k)
        t.check((k in s) == (k in names), 'contains', k)
        t.eq(s[k], v, 'value of ' + k)
        t.eq(s.get_property_value(k), v, 'getPropertyValue')
        t.eq(s.get_property_priority(k), p, 'priority of ' + k)



def written(t, i):
    """A value text: a word, a function or a string with symbolic parts."""
    c = t.text('v%d' % i, 1, 'abz')
    if i == 0:
        return 'x' + c
    if i == 1:
        return 'f(' + c + ', ;1)'
    return '"' + c + ';:"'


@harness('C35', cases=[dict(steps=2), dict(steps=2, look=True),
                       dict(steps=3, _tier='thorough')])
def c35_inline(t, steps, look=False):
    """Any history of setting and removing properties of the style of an
    element, and of writing its style attribute, shows the declarations
    made last, in the object and in the attribute."""
    e = element()
    s = e.style
    ref = Sheet()
    for i in range(steps + 1):
        op = t.choice('op%d' % i, ['set', 'remove', 'attribute', 'drop'] if i
                      else ['set', 'attribute'])
        k = t.choice('k%d' % i, ['fill', '--x'])
        if op == 'set':
            v = written(t, i)
            s.set_property(k, v)
            ref.put(k, v, '')
        elif op == 'remove':
            t.eq(s.remove_property(k), ref.drop(k), 'removed value')
        elif op == 'attribute':
            v = written(t, i)
            e.set('style', k + ': ' + v)
            ref.items = [(k, v, '')]
        else:
            e.attrib.pop('style', None)
            ref.items = []
        if look:
            len(s)
    same_declarations(t, s, ref, order=False)
    same_declarations(t, e.style, ref, order=False)
    d = style_to_dict(e.get('style') or '')
    t.eq(sorted(d), sorted(k for k, _, _ in ref.items), 'the attribute')
    for k, v, _ in ref.items:
        t.eq(d[k], v, 'value in the attribute')


@harness('C35', cases=[dict(steps=2), dict(steps=3, _tier='thorough')])
def c35_priority(t, steps):
    """Declarations that belong to no element keep value and priority; a
    property set again moves to the end; no priority given keeps the one
    it has; an unknown priority or an empty value changes as told."""
    s = CSSStyleDeclaration()
    ref = Sheet()
    for i in range(steps + 1):
        k = t.choice('k%d' % i, PLAIN[:2] + ['FILL'] if i else PLAIN[:3])
        low = k if k == '--x' else k.lower()
        op = t.choice('op%d' % i, ['set', 'important', 'normal', 'odd',
                                   'empty', 'remove'] if i
                      else ['set', 'important'])
        v = written(t, i)
        if op == 'set':
            s[k] = v
            ref.put(low, v, ref.get(low)[1])
        elif op == 'important':
            s.set_property(k, v, t.choice('p%d' % i,
                                          ['important', 'IMPORTANT']))
            ref.put(low, v, 'important')
        elif op == 'normal':
            s.set_property(k, v, '')
            ref.put(low, v, '')
        elif op == 'odd':
            s.set_property(k, v, t.text('p%d' % i, 2, 'a '))
        elif op == 'empty':
            s.set_property(k, '')
            ref.drop(low)
        else:
            t.eq(s.remove_property(k), ref.drop(low), 'removed value')
    same_declarations(t, s, ref)


@harness('C35', cases=[dict(steps=2), dict(steps=3, _tier='thorough')])
def c35_important_attribute(t, steps):
    """Declarations of the style attribute have the priority written there,
    and no part of it in their value; values set with the object keep it."""
    e = element()
    s = e.style
    ref = Sheet()
    for i in range(steps):
        op = t.choice('op%d' % i, ['attribute', 'two', 'set', 'reset'] if i
                      else ['attribute', 'two'])
        k = t.choice('k%d' % i, ['fill', '--x']) if i else 'fill'
        v = written(t, i)
        mark, p = t.choice('mark%d' % i, [('', ''), (
            '! IMPORTANT' if i else ' !important', 'important')])
        if op == 'attribute':
            e.set('style', k + ': ' + v + mark)
            ref.items = [(k, v, p)]
        elif op == 'two':
            e.set('style', k + ': ' + v + mark + '; stroke: x!important;' +
                  k + ': y')
            ref.items = [(k, v if p else 'y', p)]
            ref.items.insert(1 if p else 0, ('stroke', 'x', 'important'))
        elif op == 'set':
            s.set_property(k, v)
            ref.put(k, v, ref.get(k)[1])
        else:
            s.set_property(k, v, p)
            ref.put(k, v, p)
        if i < steps - 1 and t.choice('look%d' % i, [False, True]):
            same_declarations(t, s, ref, order=False)
    same_declarations(t, s, ref, order=False)


@harness('C35')
def c35_readonly(t):
    """Read-only declarations refuse every change and stay as they were."""
    s = CSSStyleDeclaration()
    v = written(t, 0)
    s.set_property('fill', v, 'important')
    s.readonly = True
    op = t.choice('op', ['set', 'remove', 'item', 'del', 'empty'])
    fn = {'set': lambda: s.set_property('stroke', v),
          'remove': lambda: s.remove_property('fill'),
          'item': lambda: s.__setitem__('fill', 'y'),
          'del': lambda: s.__delitem__('fill'),
          'empty': lambda: s.set_property('fill', '')}[op]
    t.rejects('read-only', NoModificationAllowedError, fn)
    t.eq(list(s), ['fill'], 'names')
    t.eq(s['fill'], v, 'value')
    t.eq(s.get_property_priority('fill'), 'important', 'priority')


# ---------------------------------------------------------------- C34

WIDE = ['inherit', 'unset', 'initial', 'revert']
VARIANT = ['font-variant-ligatures', 'font-variant-caps',
           'font-variant-alternates', 'font-variant-numeric',
           'font-variant-east-asian', 'font-variant-position']
FONT = ['font-style', 'font-weight', 'font-stretch', 'font-size',
        'line-height', 'font-family'] + VARIANT
DECORATION = ['text-decoration-line', 'text-decoration-style',
              'text-decoration-color']
MASK = ['mask-image', 'mask-position', 'mask-size', 'mask-repeat',
        'mask-origin', 'mask-clip', 'mask-composite', 'mask-mode']
BORDER = ['mask-border-source', 'mask-border-slice', 'mask-border-width',
          'mask-border-outset', 'mask-border-repeat', 'mask-border-mode']
SPACE = ['text-space-collapse', 'text-wrap', 'text-space-trim']
SYNTHESIS = ['font-synthesis-weight', 'font-synthesis-style']
OVERFLOW = ['overflow-x', 'overflow-y']
LONGHANDS = {'font': FONT, 'font-variant': VARIANT, 'mask': MASK,
             'text-decoration': DECORATION, 'mask-border': BORDER,
             'white-space': SPACE, 'font-synthesis': SYNTHESIS,
             'overflow': OVERFLOW}


def order(t, parts):
    """The parts in any order, as one text."""
    parts = list(parts)
    out = []
    while parts:
        i = t.choice('order%d' % len(out), list(range(len(parts)))) \
            if len(parts) > 1 else 0
        out.append(parts.pop(i))
    return ' '.join(out)


def subset(t, table):
    """Longhands and values: one value, or none, for each."""
    out = {}
    for k, vs in table:
        v = t.choice(k, [None] + vs)
        if v is not None:
            out[k] = v
    return out


def some(t, name, few=False):
    """A value of the shorthand: the text and its longhands."""
    ref = {}
    if name == 'overflow':
        words = ['visible', 'hidden', 'scroll', 'auto']
        x, y = t.choice('x', words), t.choice('y', [None] + words)
        return (x if y is None else x + ' ' + y,
                {'overflow-x': x, 'overflow-y': x if y is None else y})
    if name == 'white-space':
        table = {'normal': ('collapse', 'wrap', 'none'),
                 'pre': ('preserve', 'nowrap', 'none'),
                 'nowrap': ('collapse', 'nowrap', 'none'),
                 'pre-wrap': ('preserve', 'wrap', 'none'),
                 'pre-line': ('preserve-breaks', 'wrap', 'none')}
        v = t.choice('v', sorted(table))
        return v, dict(zip(SPACE, table[v]))
    if name == 'font-synthesis':
        table = {'none': ('none', 'none'), 'weight': ('auto', 'none'),
                 'style': ('none', 'auto'), 'weight style': ('auto', 'auto'),
                 'style weight': ('auto', 'auto')}
        v = t.choice('v', sorted(table))
        return v, dict(zip(SYNTHESIS, table[v]))
    if name == 'text-decoration':
        got = subset(t, [(DECORATION[0], ['underline', 'none']),
                         (DECORATION[1], ['dotted']),
                         (DECORATION[2], ['red'])])
        t.assume(len(got) > 0)
        ref = dict((k, 'initial') for k in DECORATION)
        ref.update(got)
        return order(t, got.values()), ref
    if name == 'font-variant':
        got = subset(t, [(VARIANT[0], ['no-common-ligatures']),
                         (VARIANT[1], ['small-caps', 'unicase']),
                         (VARIANT[3], ['tabular-nums']),
                         (VARIANT[5], ['sub'])])
        ref = dict((k, 'normal') for k in VARIANT)
        ref.update(got)
        return (order(t, got.values()) if got
                else 'normal'), ref
    if name == 'font':
        got = subset(t, [('font-style', ['italic']),
                         ('font-variant-caps', ['small-caps']),
                         ('font-weight', ['bold']),
                         ('font-stretch', ['condensed'])][:2 if few else 4])
        ref = dict((k, 'normal') for k in FONT)
        ref.update(got)
        size = '12' if few else '1' + t.text('size', 1, '0123456789')
        ref['font-size'] = size + 'px'
        text = ref['font-size']
        if t.choice('line', [False, True]):
            h = t.text('height', 1, '123456789')
            ref['line-height'] = h
            text += t.choice('slash', ['/', ' / ']) + h
        ref['font-family'] = t.choice('family', ['serif', '"A b", serif'])
        return (order(t, got.values()) + ' ' + text + ' ' +
                ref['font-family']).strip(), ref
    if name == 'mask':
        got = subset(t, [('mask-image', ['url("#a")', 'none']),
                         ('mask-repeat', ['no-repeat']),
                         ('mask-composite', ['subtract']),
                         ('mask-mode', ['alpha'])])
        t.assume(len(got) > 0)
        ref = dict((k, 'initial') for k in MASK)
        ref.update(got)
        return order(t, got.values()), ref
    if name == 'mask-border':
        ref = dict((k, 'initial') for k in BORDER)
        got = subset(t, [(BORDER[0], ['url("#a")']), (BORDER[4], ['round']),
                         (BORDER[5], ['alpha'])][:1 if few else 3])
        n = t.text('slice', 1, '123456789')
        got[BORDER[1]] = n
        ref.update(got)
        parts = dict(got)
        more = t.choice('more', ['', 'width', 'outset'])
        if more:
            w = t.text('width', 1, '123456789')
            ref[BORDER[2]] = w + 'px'
            parts[BORDER[1]] += ' / ' + w + 'px'
        if more == 'outset':
            o = t.text('outset', 1, '123456789')
            ref[BORDER[3]] = o + 'px'
            parts[BORDER[1]] += ' / ' + o + 'px'
        return order(t, parts.values()), ref


def longhands_are(t, s, ref, what):
    for k in sorted(ref):
        t.eq(s[k], ref[k], what + ': ' + k)


CASES34 = [dict(name=n) for n in sorted(LONGHANDS)]


@harness('C34', cases=CASES34)
def c34_parts(t, name):
    """A shorthand sets each of its longhands to its part of the value or
    to what stands for the parts left out, in any order of the parts;
    nothing else changes; the value read back means the same."""
    s = CSSStyleDeclaration()
    s['fill'] = 'red'
    first = LONGHANDS[name][0]
    before, p, spelt = t.choice('manner', [
        (False, '', name), (True, 'important', name.upper())])
    if before:
        s[first] = 'inherit'
    text, ref = some(t, name)
    s.set_property(spelt, text, p)
    longhands_are(t, s, ref, 'set')
    t.eq(sorted(s), sorted(list(ref) + ['fill']), 'the declarations')
    t.eq(s['fill'], 'red', 'another property')
    t.eq(s.get_property_priority(name), p, 'priority')
    for k in ref:
        t.eq(s.get_property_priority(k), p, 'priority of a longhand')
    back = s[name]
    t.check(len(back) > 0, 'has a value', repr(text))
    s2 = CSSStyleDeclaration()
    s2[name] = back
    longhands_are(t, s2, ref, 'read back')
    t.eq(s2[name], back, 'the value is a fixed point')
    s3 = CSSStyleDeclaration()
    for k in ref:
        s3[k] = ref[k]
    t.eq(s3[name], back, 'the value of the longhands together')


@harness('C34', cases=CASES34)
def c34_change(t, name):
    """Overriding, removing or outranking one longhand shows in the
    shorthand: it has the value of the longhands as they are, or none when
    one is missing or differs in priority; removing the shorthand removes
    the longhands and nothing else."""
    s = CSSStyleDeclaration()
    s['fill'] = 'red'
    values = {'font': 'bold 12px/2 serif', 'mask': 'url("#a") alpha',
              'font-variant': 'small-caps', 'white-space': 'pre',
              'text-decoration': 'underline dotted red',
              'mask-border': 'url("#a") 30 round', 'overflow': 'hidden auto',
              'font-synthesis': 'weight'}
    s[name] = values[name]
    before = s[name]
    ref = dict((k, s[k]) for k in LONGHANDS[name])
    k = t.choice('longhand', LONGHANDS[name])
    op = t.choice('op', ['remove', 'important', 'inherit', 'same', 'all'])
    if op == 'remove':
        t.eq(s.remove_property(k), ref.pop(k), 'removed value')
        t.eq(s[name], '', 'a longhand is missing')
        t.check(k not in s, 'gone')
    elif op == 'important':
        s.set_property(k, ref[k], 'important')
        t.eq(s[name], '', 'priorities differ')
        t.eq(s.get_property_priority(name), '', 'no common priority')
        for j in LONGHANDS[name]:
            if j != k:
                s.set_property(j, ref[j], 'important')
        t.eq(s[name], before, 'the same priority again')
        t.eq(s.get_property_priority(name), 'important', 'common priority')
    elif op == 'inherit':
        s[k] = 'inherit'
        ref[k] = 'inherit'
        t.eq(s[name], '', 'one longhand inherits')
        for j in LONGHANDS[name]:
            s[j] = 'inherit'
            ref[j] = 'inherit'
        t.eq(s[name], 'inherit', 'all of them inherit')
    elif op == 'same':
        s[k] = ref[k]
        t.eq(s[name], before, 'the same value')
    else:
        w = t.choice('wide', WIDE)
        s[name] = w
        for j in LONGHANDS[name]:
            ref[j] = w
    longhands_are(t, s, ref, 'after')
    s.remove_property(name)
    t.eq(list(s), ['fill'], 'removed')
    t.eq(s[name], '', 'no value')


@harness('C34', cases=[dict(name=n) for n in sorted(LONGHANDS)
                       if n not in ('mask',)])
def c34_attribute(t, name):
    """What the style of an element shows after a shorthand was set, and a
    longhand changed, is what its style attribute says."""
    e = element()
    s = e.style
    text, ref = some(t, name, t.tier == 'quick')
    s[name] = text
    op = t.choice('op', ['keep', 'change', 'remove', 'shorthand'])
    k = t.choice('longhand', LONGHANDS[name][:2])
    if op == 'change':
        s[k] = 'inherit'
        ref[k] = 'inherit'
    elif op == 'remove':
        s.remove_property(k)
        ref.pop(k)
    elif op == 'shorthand':
        s.remove_property(name)
        ref = {}
    fresh = element(style=e.get('style') or '').style
    for x in [s, fresh]:
        t.eq(sorted(x), sorted(ref), 'names')
        longhands_are(t, x, ref, 'style' if x is s else 'attribute')
    t.eq(fresh[name], s[name], 'the shorthand')


# ---------------------------------------------------------------- C36

INITIAL = {'fill': 'black', 'opacity': '1', 'stroke': 'none',
           'stop-color': 'black', 'visibility': 'visible'}
INHERITED = ['fill', 'stroke', 'visibility']


class Page(object):
    """svg > g > rect, in a window, with one style element."""

    def __init__(self, t, rules, media=None, below=0):
        win = Window(SVGDOMImplementation())
        win.inner_width = 600
        self.parser = SVGParser()
        self.nodes = []
        style = self.parser.create_element_ns(SVG, 'style')
        style.text = '@namespace s url(%s);' % SVG + rules
        if media is not None:
            style.set('media', media)
        self.nodes.append(win.document.document_element)
        for name in ['g', 'rect']:
            e = self.parser.create_element_ns(
                SVG, name, nsmap={None: SVG})
            self.nodes[-1].append(e)
            self.nodes.append(e)
        self.nodes[below].insert(0, style)

    def computed(self, i):
        return self.nodes[i].get_inherited_style()


class Layers(object):
    """Reference: the declarations of one property on one element, by
    increasing weight."""

    def __init__(self):
        self.items = []

    def put(self, weight, value):
        self.items.append((weight, value))

    def value(self):
        best = None
        for w, v in self.items:
            if best is None or w >= best[0]:
                best = (w, v)
        return None if best is None else best[1]


ATTR, RULE, INLINE, RULE_IMP, INLINE_IMP = range(5)


def resolve(name, chain):
    """chain: the declared values from the element up to the root."""
    if name not in INHERITED:
        return INITIAL[name] if chain[0] is None else chain[0]
    for v in chain:
        if v is not None and not v == 'inherit':
            return v
    return INITIAL[name]


@harness('C36', cases=[dict(name='fill'), dict(name='opacity')])
def c36_origins(t, name):
    """Presentation attributes, rules, the style attribute and important
    declarations count in this order; of two rules the later one."""
    d = Layers()
    rules = ''
    for i in range(2):
        c = t.text('r%d' % i, 1, 'ab')
        imp = t.choice('imp%d' % i, ['', '!important', ' ! IMPORTANT'])
        rules += '.k {%s: r%s%s}' % (name, c, imp)
        d.put(RULE_IMP if imp else RULE, 'r' + c)
    if not t.choice('matched', [True, False]):
        d = Layers()
    p = Page(t, rules)
    e = p.nodes[2]
    if t.choice('class', [True, False]) and d.items:
        e.set('class', 'x k')
    else:
        d = Layers()
    a = t.choice('attribute', [False, True])
    if a:
        c = t.text('a', 1, 'ab')
        e.set(name, 'a' + c)
        d.put(ATTR, 'a' + c)
    s = t.choice('style', [None, '', ' !important', '!Important '])
    if s is not None:
        c = t.text('s', 1, 'ab')
        e.set('style', 'foo:bar;' + name + ': s' + c + s)
        d.put(INLINE_IMP if s else INLINE, 's' + c)
    t.eq(p.computed(2)[name], resolve(name, [d.value(), None, None]),
         'computed value')


@harness('C36', cases=[dict(n=2), dict(n=3, _tier='thorough')])
def c36_selectors(t, n):
    """A rule applies to exactly the elements its selector matches."""
    sel = t.choice('selector', SELECTORS)
    p = Page(t, sel + ' {opacity: x}')
    words = []
    for i in range(3):
        w = t.text('class%d' % i, n, 'ab ') if i == 2 else \
            t.text('class%d' % i, 1, 'ab')
        p.nodes[i].set('class', w)
        words.append(w.split())
    name = t.text('id', 1, 'ab')
    p.nodes[2].set('id', name)
    tags = ['svg', 'g', 'rect']

    def has(i, c):
        for w in words[i]:
            if w == c:
                return True
        return False
    for i in range(3):
        want = {
            '*': True,
            '.a': has(i, 'a'),
            '.a.b': has(i, 'a') and has(i, 'b'),
            '#a': i == 2 and name == 'a',
            's|g': tags[i] == 'g',
            's|rect.a': i == 2 and has(2, 'a'),
            '.a .b': has(i, 'b') and i > 0 and (
                has(i - 1, 'a') or (i == 2 and has(0, 'a'))),
            '.a > .b': has(i, 'b') and i > 0 and has(i - 1, 'a'),
            's|svg .b, #a': (has(i, 'b') and i > 0) or (
                i == 2 and name == 'a'),
            's|g > [id=a]': i == 2 and name == 'a',
            '[class~=a]': has(i, 'a'),
            's|unknown': False,
        }[sel]
        t.eq(p.computed(i)['opacity'], 'x' if want else '1',
             'node %d' % i)


SELECTORS = ['*', '.a', '.a.b', '#a', 's|g', 's|rect.a', '.a .b', '.a > .b',
             's|svg .b, #a', 's|g > [id=a]', '[class~=a]', 's|unknown']


@harness('C36', cases=[dict(name='fill'), dict(name='stroke'),
                       dict(name='stop-color'), dict(name='visibility')])
def c36_inheritance(t, name):
    """Inherited properties take the value of the nearest ancestor that
    declares one other than inherit; the others do not look at the
    ancestors; nothing declared gives the initial value."""
    p = Page(t, '')
    chain = []
    for i in range(3):
        how = t.choice('how%d' % i, ['none', 'attribute', 'style',
                                     'inherit'] if i or name in INHERITED
                       else ['none', 'style'])
        c = t.text('v%d' % i, 1, 'ab') if how in ('attribute', 'style') \
            else ''
        if how == 'attribute':
            p.nodes[i].set(name, 'v' + c)
            chain.append('v' + c)
        elif how == 'style':
            p.nodes[i].set('style', name + ':w' + c)
            chain.append('w' + c)
        elif how == 'inherit' and name in INHERITED:
            p.nodes[i].set(name, 'inherit')
            chain.append('inherit')
        else:
            chain.append(None)
    for i in range(3):
        t.eq(p.computed(i)[name], resolve(name, chain[i::-1]),
             'node %d' % i)


@harness('C36')
def c36_conditions(t):
    """Rules inside of @media and sheets with a media attribute count when
    the media match, wherever the style element stands; sheets of another
    type do not count."""
    n = t.text('n', 3, '0569')
    query = '(min-width: ' + n + 'px)'
    where = t.choice('where', ['rule', 'element', 'both', 'nested', 'type'])
    hit = int(n) <= 600
    rule = '.k {opacity: x}'
    if where == 'rule':
        p = Page(t, '.k {opacity: y} @media ' + query + '{' + rule + '}')
        want = t.ite(hit, 0, 1)
    elif where == 'element':
        p = Page(t, rule, query, t.choice('below', [0, 1]))
        want = t.ite(hit, 0, 2)
    elif where == 'both':
        p = Page(t, '@media print {' + rule + '}', query)
        want = 2
    elif where == 'nested':
        p = Page(t, '@media ' + query + '{ .k {opacity: y} @media all {' +
                 rule + '}}')
        want = t.ite(hit, 0, 2)
    else:
        p = Page(t, rule)
        kind = t.choice('kind', ['text/css', 'text/plain'])
        p.nodes[0][0].set('type', kind)
        want = 0 if kind == 'text/css' else 2
    e = p.nodes[2]
    e.set('class', 'k')
    got = p.computed(2)['opacity']
    t.eq(['x', 'y', '1'].index(got), want, 'the value in force')


@harness('C36')
def c36_display(t):
    """An element is displayed unless it or an ancestor says none."""
    p = Page(t, '.n {display: none} .i {display: inline}')
    none = []
    for i in range(3):
        how = t.choice('how%d' % i, ['', 'rule', 'attribute', 'style',
                                     'shown'])
        if how == 'rule':
            p.nodes[i].set('class', 'n')
        elif how == 'attribute':
            p.nodes[i].set('display', 'none')
        elif how == 'style':
            p.nodes[i].set('style', 'display:none')
        elif how == 'shown':
            p.nodes[i].set('display', 'none')
            p.nodes[i].set('class', 'i')
        none.append(how in ('rule', 'attribute', 'style'))
    for i in range(3):
        t.eq(p.computed(i)['display'],
             'none' if any(none[:i + 1]) else 'inline', 'node %d' % i)


@harness('C36')
def c36_types(t):
    """Type selectors match the elements of that name, with the prefix of
    the namespace or without one."""
    local = t.choice('name', ['g', 'rect', 'svg', 'a'])
    prefix = t.choice('prefix', ['s|', '', '*|'])
    tail = t.choice('tail', ['', '.k', '#i'])
    # cssselect takes no prefix, or *|, for the null namespace
    t.excluding('KF06', prefix != 's|' and local != 'a')
    p = Page(t, prefix + local + tail + ' {opacity: x}')
    for i, tag in enumerate(['svg', 'g', 'rect']):
        c = t.text('c%d' % i, 1, 'kx')
        p.nodes[i].set('class', c)
        if i == 1:
            p.nodes[i].set('id', 'i')
        want = tag == local and (tail != '.k' or c == 'k') \
            and (tail != '#i' or i == 1)
        t.eq(p.computed(i)['opacity'], 'x' if want else '1', tag)


SPECIFIC = [('*', 0), ('s|rect', 1), ('.k', 10), ('[class]', 10),
            ('s|rect.k', 11), ('s|g .k', 11), ('#i', 100), ('.k#i', 110)]


@harness('C36')
def c36_specificity(t):
    """Of two rules the one with the more specific selector counts, the
    later one if they are alike."""
    a, x = t.choice('first', SPECIFIC)
    b, y = t.choice('second', SPECIFIC)
    # the later rule wins whatever the selectors
    t.excluding('KF07', x > y)
    p = Page(t, a + ' {opacity: x} ' + b + ' {opacity: y}')
    p.nodes[2].set('class', 'k')
    p.nodes[2].set('id', 'i')
    t.eq(p.computed(2)['opacity'], 'x' if x > y else 'y', 'the winner')
