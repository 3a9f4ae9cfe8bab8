"""Media queries and lists, the screen, and identifiers in CSS."""
PROPERTIES = ['C33', 'C38', 'C39', 'C40']

import tinycss2

from symx.api import harness
from svgpy.css import CSS, MediaList
from svgpy.css.screen import Screen, ScreenOrientation
from svgpy.window import SVGDOMImplementation, Window

DIGITS = '0123456789'


# -- C33: reference evaluation ----------------------------------------------
class Device(object):
    """A window on a screen, with the features it has."""

    def __init__(self, t, media):
        win = Window(SVGDOMImplementation())
        self.win = win
        k = t.choice('device', [0, 1])
        win.inner_width, win.inner_height = [(600, 300), (300, 450)][k]
        s = win.screen
        s.width, s.height = [(1280, 720), (600, 800)][k]
        s.media = media
        s.color_depth = [2, 0][k]
        self.lengths = {'width': win.inner_width, 'height': win.inner_height,
                        'device-width': s.width, 'device-height': s.height}
        self.ratios = {'aspect-ratio': (win.inner_width, win.inner_height),
                       'device-aspect-ratio': (s.width, s.height)}
        self.numbers = {'color': s.color_depth,
                        'color-index': 1 << s.color_depth, 'monochrome': 0}
        self.words = {'orientation': 'landscape' if s.width > s.height
                      else 'portrait',
                      'scan': 'progressive', 'update': 'none',
                      'color-gamut': 'srgb', 'grid': '0'}
        self.booleans = {'color': s.color_depth > 0, 'monochrome': False,
                         'color-index': True, 'grid': False, 'width': True,
                         'aspect-ratio': True, 'orientation': True,
                         'update': False, 'hover': False, 'unheard-of': False}


    def pick(self, t, i, table):
        names = sorted(table)
        if t.tier == 'quick' and i:
            names = names[i % 2::2]
        return t.choice('name%d' % i, names)


def compare(t, a, op, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    return a == b


FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '='}
FORMS = ['plain', 'min', 'max', 'left', 'right', 'both']


def ranged(t, i, name, value, text, other, text2, form):
    """A condition on a ranged feature, as text and as truth."""
    sp = t.choice('space%d' % i, ['', ' '])
    if form == 'plain':
        return '(%s:%s%s)' % (name, sp, text), value == other
    if form == 'min':
        return '(min-%s:%s%s)' % (name, sp, text), value >= other
    if form == 'max':
        return '(max-%s:%s%s)' % (name, sp, text), value <= other
    ops = ['<', '<=', '>', '>='] + (['='] if form != 'both' else [])
    op = t.choice('op%d' % i, ops)
    if form == 'right':
        return ('(' + name + sp + op + sp + text + ')',
                compare(t, value, op, other))
    if form == 'left':
        return ('(' + text + sp + op + sp + name + ')',
                compare(t, other, op, value))
    op2 = op[0] if op[-1] == '=' else op + '='
    return ('(' + text + sp + op + sp + name + sp + op2 + sp + text2 + ')',
            t.And(compare(t, other[0], op, value),
                  compare(t, value, op2, other[1])))


def apart(t, a, b):
    """Lengths are compared with a tolerance; stay clear of it."""
    t.assume(t.Or(a == b, a - b > 0.001, b - a > 0.001))


def condition(t, i, dev, kind, forms=None):
    if kind == 'length':
        name = dev.pick(t, i, dev.lengths)
        form = t.choice('form%d' % i, forms or FORMS)
        unit, k = ('in', 96) if form in ('min', 'right') else ('px', 1)
        a, x = t.number('n%d' % i, 0)
        b, y = t.number('m%d' % i, 0) if form == 'both' else ('', None)
        for v in [x, y]:
            if v is not None:
                apart(t, v * k, dev.lengths[name])
        other = (x * k, y * k) if form == 'both' else x * k
        return ranged(t, i, name, dev.lengths[name], a + unit, other,
                      b + unit, form)
    if kind == 'number':
        name = dev.pick(t, i, dev.numbers)
        form = t.choice('form%d' % i, forms or FORMS)
        a = t.text('n%d' % i, 1, DIGITS)
        b = t.text('m%d' % i, 1, DIGITS) if form == 'both' else ''
        other = (int(a), int(b)) if form == 'both' else int(a)
        return ranged(t, i, name, dev.numbers[name], a, other, b, form)
    if kind == 'ratio':
        name = t.choice('name%d' % i, sorted(dev.ratios))
        form = t.choice('form%d' % i, forms or FORMS[:-1])
        if form == 'both':
            # n / 2 <= width / height < 6 / n and the like
            a = t.text('n%d' % i, 1, DIGITS)
            b = t.text('m%d' % i, 1, DIGITS)
            t.assume(int(b) > 0)
            w, h = dev.ratios[name]
            return ranged(t, i, name, 2 * w * int(b), a + '/2',
                          (int(a) * h * int(b), 12 * h), '6/' + b, form)
        a = t.text('n%d' % i, 2, DIGITS)
        b = t.text('m%d' % i, 2, DIGITS)
        t.assume(int(b) > 0)
        slash = '/' if form in ('plain', 'left') else ' / '
        w, h = dev.ratios[name]
        # w / h against a / b, both denominators positive
        q, v = ranged(t, i, name, w * int(b), a + slash + b, int(a) * h, '',
                      form)
        return q, v
    if kind == 'word':
        name = t.choice('name%d' % i, sorted(dev.words))
        word = t.choice('word%d' % i, ['landscape', 'portrait', 'progressive',
                                       'none', 'srgb', 'p3', '0', '1'])
        same = dev.words[name] == word
        return '(%s: %s)' % (name, word), same
    name = t.choice('name%d' % i, sorted(dev.booleans))
    sp = t.choice('space%d' % i, ['', ' '])
    return '(' + sp + name + sp + ')', dev.booleans[name]


@harness('C33', cases=[dict(kind=k, form=f) for k in
                       ('length', 'number', 'ratio', 'word', 'boolean')
                       for f in (FORMS if k in ('length', 'number', 'ratio')
                                 else [''])])
def c33_condition(t, kind, form):
    """One condition, plain, negated or restricted to a medium."""
    media = t.choice('media', ['screen', 'print']) if kind == 'boolean' \
        else 'screen'
    dev = Device(t, media)
    text, truth = condition(t, 0, dev, kind, [form])
    heads = ['', 'all and ', 'screen and ', 'not ']
    if kind in ('length', 'ratio') and t.tier == 'quick':
        heads = ['', 'not ']
    head = t.choice('head', heads)
    if head == 'screen and ':
        truth = t.And(truth, media == 'screen')
    if head == 'not ':
        truth = t.Not(truth)
    got = dev.win.match_media(head + text).matches
    t.check(t.Not(t.And(got, t.Not(truth))), 'matches only if true')
    t.check(t.Or(got, t.Not(truth)), 'matches if true')


@harness('C33', cases=[dict(kinds=k, op=op)
                       for k in (('length', 'number'), ('number', 'length'),
                                 ('boolean', 'word'))
                       for op in ('and', 'or')])
def c33_chain(t, kinds, op):
    """Conditions joined by and or by or; `not` inverts the whole."""
    dev = Device(t, 'screen')
    f = t.choice('forms', [['min', 'plain'], ['right', 'max']])
    a, x = condition(t, 0, dev, kinds[0], f[:1])
    b, y = condition(t, 1, dev, kinds[1], f[1:])
    truth = t.And(x, y) if op == 'and' else t.Or(x, y)
    neg = t.bool('not')
    if neg:
        t.excluding('KF05', t.Or(t.And(x, t.Not(y)), t.And(t.Not(x), y)))
        truth = t.Not(truth)
    got = dev.win.match_media(('not ' if neg else '') + a + ' ' + op + ' '
                              + b).matches
    t.check(t.Or(t.And(got, truth), t.And(t.Not(got), t.Not(truth))),
            'truth of the chain')


MEDIA = ['all', 'screen', 'print', 'speech', 'unheard-of']


@harness('C33')
def c33_types(t):
    """Media types, with only and not, alone or with a condition."""
    media = t.choice('media', ['screen', 'print'])
    dev = Device(t, media)
    word = t.choice('word', MEDIA)
    x = word == 'all' or word == media
    head = t.choice('head', ['', 'only ', 'not ', 'NOT ', 'Only '])
    text = head + t.choice('case', [word, word.upper()])
    if t.bool('feature'):
        a, y = t.number('n', 0)
        apart(t, y, dev.win.inner_width)
        text += t.choice('and', [' and ', '  AND ']) \
            + '(min-width: ' + a + 'px)'
        y = dev.win.inner_width >= y
        if head.lower() == 'not ':
            t.excluding('KF05', t.Or(t.And(x, t.Not(y)), t.And(t.Not(x), y)))
        x = t.And(x, y)
    if head.lower() == 'not ':
        x = t.Not(x)
    got = dev.win.match_media(text).matches
    t.check(t.Or(t.And(got, x), t.And(t.Not(got), t.Not(x))), 'truth')


@harness('C33')
def c33_list(t):
    """A list of queries matches if any of them does; the empty one always
    does."""
    dev = Device(t, 'screen')
    t.check(dev.win.match_media(t.choice('empty', ['', ' '])).matches,
            'empty list')
    parts, truth = [], False
    for i in range(3 if t.tier == 'thorough' else 2):
        k = t.choice('k%d' % i, [0, 1, 2])
        if k == 0:
            parts.append('print')
        elif k == 1:
            a, y = t.number('n%d' % i, 0)
            parts.append('screen and (max-width:' + a + 'px)')
            apart(t, y, dev.win.inner_width)
            truth = t.Or(truth, dev.win.inner_width <= y)
        else:
            a, y = t.number('n%d' % i, 0)
            parts.append('not (height > ' + a + 'px)')
            apart(t, y, dev.win.inner_height)
            truth = t.Or(truth, t.Not(dev.win.inner_height > y))
    got = dev.win.match_media(t.choice('comma', [',', ' , ']).join(parts))
    got = got.matches
    t.check(t.Or(t.And(got, truth), t.And(t.Not(got), t.Not(truth))),
            'any of the list')


# -- C38: identifiers ---------------------------------------------------------
HEX = '0123456789abcdefABCDEF'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


def read_identifier(t, e):
    """Reads an identifier as CSS does; the value and the rest."""
    out, i = '', 0
    while i < len(e):
        c = e[i]
        if c == '\\':
            i += 1
            if i == len(e) or e[i] in '\n\r\f':
                break
            j = i
            while j < len(e) and j < i + 6 and e[j] in HEX:
                j += 1
            if j == i:
                out += e[i]
                i += 1
                continue
            n = int(e[i:j], 16)
            out += chr(n) if 0 < n < 0x110000 else '\ufffd'
            i = j
            if i < len(e) and e[i] in ' \n\t\r\f':
                i += 1
            continue
        if not (c in LETTERS or c >= '\x80'):
            # digits and hyphens, but not in front
            if c == '-':
                if not out and i + 1 == len(e):
                    break
            elif not (c in DIGITS and i > 0 and not e[:i] == '-'):
                break
        out += c
        i += 1
    return out, e[i:]


@harness('C38', cases=[dict(n=1), dict(n=2), dict(n=3, abc='-0afg\x1f\x7f .'),
                       dict(n=4, abc='-0ag\x1f.', _tier='thorough'),
                       dict(n=3, _tier='thorough')], budget=(120, 1500),
         max_paths=10 ** 6)
def c38_escape(t, n, abc=None):
    """An escaped text is one identifier with that text as its value."""
    s = t.text('s', n, abc)
    want = ''
    for c in s:
        want += '\ufffd' if c == '\0' else c
    got, rest = read_identifier(t, CSS.escape(s))
    t.eq(len(rest), 0, 'an identifier and nothing else')
    t.check(got == want, 'the same text')


@harness('C38', cases=[dict(n=n) for n in (1, 2)])
def c38_parsed(t, n):
    """The same with a parser of CSS, and inside of other text."""
    s = t.text('s', n)
    t.assume(not s[:1] == '-')      # '--' is no identifier for tinycss2
    want = ''
    for c in s:
        want += '\ufffd' if c == '\0' else c
    got = tinycss2.parse_component_value_list('.' + CSS.escape(s) + '{')
    t.eq(len(got), 3, 'three tokens')
    t.check(got[1].type == 'ident', 'an identifier')
    t.check(got[1].value == want, 'the same text')
    t.check(got[2].type == '{} block', 'ends where it should')


@harness('C38')
def c38_empty(t):
    t.check(CSS.escape('') == '', 'empty')
    c = chr(t.choice('c', [0x80, 0x9f, 0xa0, 0xe9, 0x3042, 0xffff, 0x1f600]))
    i = t.choice('i', [0, 1])
    s = c + 'a' if i == 0 else 'a' + c
    t.check(CSS.escape(s) == s, 'other characters stay')


# -- C39: media lists ------------------------------------------------------
def query(t, name):
    return t.text(name, 2, 'ab-')


@harness('C39')
def c39_text(t):
    """mediaText splits at commas, without the space around, and joins."""
    n = t.choice('n', [1, 2, 3])
    qs = [query(t, 'q%d' % i) for i in range(n)]
    if t.bool('inner'):
        qs = [q + ' ' + q for q in qs]
    m = MediaList()
    m.media_text = 'x'
    m.media_text = t.choice('comma', [',', ', ', ' ,\n']).join(qs)
    t.eq(m.length, n, 'length')
    for i, q in enumerate(qs):
        t.check(m.item(i) == q, 'item')
        t.check(m[i] == q, 'index')
    t.check(m.media_text == ', '.join(qs), 'serialised')
    m2 = MediaList()
    m2.media_text = m.media_text
    t.check(m2.media_text == m.media_text, 'round trip')
    m.media_text = t.choice('empty', ['', ' ', '\n'])
    t.eq(m.length, 0, 'cleared')
    t.check(m.media_text == '', 'cleared')


@harness('C39')
def c39_spaces(t):
    """White space inside of a query is collapsed."""
    a, b = query(t, 'a'), query(t, 'b')
    m = MediaList()
    m.media_text = a + t.choice('space', [' ', '  ', '\n', '\r\n', ' \n ']) \
        + b
    t.eq(m.length, 1, 'length')
    t.check(m.media_text == a + ' ' + b, 'collapsed')


@harness('C39')
def c39_history(t):
    """append, delete and insert against a plain list without duplicates."""
    m, ref = MediaList(), []
    steps = 4 if t.tier == 'thorough' else 3
    for i in range(steps):
        op = t.choice('op%d' % i, ['append', 'delete', 'several'])
        q = query(t, 'q%d' % i)
        known = [x for x in ref if x == q]
        if op == 'append':
            sp = t.choice('sp%d' % i, ['', ' '])
            t.no_raise('append', lambda: m.append_medium(sp + q + sp))
            if not known:
                ref.append(q)
        elif op == 'delete':
            if known:
                t.no_raise('delete', lambda: m.delete_medium(q))
                ref = [x for x in ref if not x == q]
            else:
                t.rejects('delete missing', ValueError, m.delete_medium, q)
        else:
            t.no_raise('several', lambda: m.append_medium(q + ',' + q))
        t.eq(len(m), len(ref), 'length')
        for x, y in zip(list(m), ref):
            t.check(x == y, 'items')
        t.check(m.media_text == ', '.join(ref), 'text')


# -- C40: orientation ------------------------------------------------------
TYPES = ['landscape-primary', 'portrait-primary', 'landscape-secondary',
         'portrait-secondary']


@harness('C40')
def c40_type(t):
    """The orientation type follows from the size and the angle."""
    s = Screen()
    s.width, s.height = t.int('w', 1, 10000), t.int('h', 1, 10000)
    a = t.int('a', -1080, 1440)
    s.orientation.angle = a
    k = (a // 90) % 4
    t.eq(s.orientation.angle, k * 90, 'angle')
    wide = s.width > s.height
    # turning by 90 degrees swaps the two shapes
    names = TYPES if wide else [TYPES[1], TYPES[0], TYPES[3], TYPES[2]]
    got = s.orientation.type
    for i in range(4):
        t.check(t.Or(t.Not(k == i), got == names[i]), 'type')
    s.orientation.angle = a + 360
    t.check(s.orientation.type == got, 'a whole turn changes nothing')
    s.width, s.height = s.height, s.width
    if s.width != s.height:
        t.check(s.orientation.type.split('-')[0] != got.split('-')[0],
                'swapping the sides swaps the shape')
        t.check(s.orientation.type.split('-')[1] == got.split('-')[1],
                'same direction')


@harness('C40')
def c40_screen(t):
    """Every setting is kept, as the kind of number it is, and no other."""
    s = Screen()
    vals = {}
    for i, k in enumerate(['width', 'height', 'color_depth', 'monochrome',
                           'horizontal_resolution', 'vertical_resolution']):
        vals[k] = t.int(k, 0, 10000)
    vals['device_pixel_ratio'] = t.real('ratio', 0, 10)
    vals['media'] = t.text('media', 2, 'ab')
    vals['scan'] = t.text('scan', 2, 'ab')
    vals['update'] = t.text('update', 2, 'ab')
    vals['color_gamut'] = t.text('gamut', 2, 'ab')
    keys = list(vals)
    if t.bool('reversed'):
        keys.reverse()
    for k in keys:
        setattr(s, k, vals[k])
    for k in vals:
        t.eq(getattr(s, k), vals[k], k)
    t.eq(s.pixel_depth, vals['color_depth'], 'pixel depth')
    # the same device pixels through a window, with the zoom of the page
    win = Window(SVGDOMImplementation())
    z = t.real('zoom', 0, 10)
    win.screen.device_pixel_ratio = vals['device_pixel_ratio']
    win.page_zoom_scale = z
    t.eq(win.device_pixel_ratio, vals['device_pixel_ratio'] * z, 'zoom')
    win.inner_width, win.inner_height = vals['width'], vals['height']
    t.eq(win.inner_width, vals['width'], 'viewport')
    t.eq(win.inner_height, vals['height'], 'viewport')
