"""Layout of text: where the glyphs of a text element go (C51)."""

PROPERTIES = ['C51']

from harness.ref import close
from symx.api import harness, stub
from svgpy import SVGDOMImplementation
from svgpy import text as module
from svgpy.base import SVGElement
from svgpy.window import Window

UNIT = 64
HEIGHT, DESCENDER = 10, -2
START = 500                      # signs of positions are known: fewer cases
TOL = 0.05                       # the outlines are moved by whole 64ths


# What the shaper, the bidi and line breaking algorithms and the font say is
# an input: the stand-ins below give it out.

class Plan(object):
    """The glyphs of each character (or cluster of characters)."""
    glyphs = None            # text -> [(cluster, name)]
    metrics = None           # name -> (advance, x offset, y offset, x, y)


@stub
class Outline(object):
    def __init__(self, x, y):
        self.points = [(x, y), (x + UNIT, y)]

    def translate(self, dx, dy):
        self.points = [(x + dx, y + dy) for x, y in self.points]

    def transform(self, matrix):
        # FT_Outline_Transform
        m = matrix.matrix
        xx, xy, yx, yy = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
        self.points = [(x * xx + y * xy, x * yx + y * yy)
                       for x, y in self.points]

    def decompose(self, move_to, line_to, conic_to, cubic_to, user=None):
        (x0, y0), (x1, y1) = self.points
        move_to(x0, y0, user)
        line_to(x1, y1, user)


@stub
class Glyph(object):
    def __init__(self, name):
        m = Plan.metrics[name]
        self.outline = Outline(m[3], m[4])


@stub
class Metrics(object):
    x_ppem = 8
    height = HEIGHT * UNIT
    descender = DESCENDER * UNIT


@stub
class Size(object):
    metrics = Metrics()


@stub
class Face(object):
    style_flags = 0
    size = Size()
    glyph = None

    def load_glyph(self, name, flags):
        self.glyph = Glyph(name)


@stub
class FontStub(object):
    WEIGHT_NORMAL = 400

    def __init__(self, element):
        self.face = Face()


@stub
class Record(object):
    """cluster and codepoint, or the position of a glyph."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


@stub
class Buffer(object):
    CLUSTER_LEVEL_MONOTONE_CHARACTERS = 1

    @classmethod
    def create(cls, *args):
        return cls()

    fromstring = create

    def __getattr__(self, name):
        if name.startswith(('set_', 'clear_', 'guess_')):
            return lambda *args: None
        raise AttributeError(name)

    def get_script(self):
        return None

    def add_utf8(self, line):
        self.line = line

    def shape(self, font, features):
        self.glyphs = Plan.glyphs(self.line)

    def get_glyph_infos(self):
        return [Record(cluster=c, codepoint=n) for c, n in self.glyphs]

    def get_glyph_positions(self):
        out = []
        for c, n in self.glyphs:
            m = Plan.metrics[n]
            out.append(Record(x_advance=m[0], y_advance=0, x_offset=m[1],
                              y_offset=m[2]))
        return out


@stub
class Direction(object):
    HB_DIRECTION_LTR, HB_DIRECTION_RTL, HB_DIRECTION_TTB = 4, 5, 6

    def __init__(self, value):
        pass


@stub
class Locale(object):
    locale = 'en'

    def __init__(self, name='en'):
        pass

    @classmethod
    def get_default(cls):
        return cls()

    def get_language(self):
        return 'en'

    def get_script(self):
        return 'Latn'


@stub
class Bidi(object):
    """One left-to-right run, or a run for each of the parts given."""
    UBIDI_LTR, UBIDI_RTL = 0, 1
    UBIDI_DEFAULT_LTR, UBIDI_DEFAULT_RTL = 254, 255

    def set_para(self, text, level):
        self.text = text

    def get_processed_length(self):
        return len(self.text)

    def get_logical_run(self, start):
        return len(self.text), 0


@stub
class Breaks(object):
    """Lines end after spaces."""
    UBRK_LINE = 2

    def __init__(self, kind, locale):
        pass

    def set_text(self, text):
        self.text = text

    def __iter__(self):
        out, last = [], 0
        for i in range(len(self.text)):
            if self.text[i] == ' ':
                out.append(self.text[last:i + 1])
                last = i + 1
        if last < len(self.text):
            out.append(self.text[last:])
        return iter(out)


@stub
class NoBox(object):
    """For the checks that do not look at boxes."""
    def __init__(self, *args):
        pass

    def __ior__(self, other):
        return self

    def transform_self(self, matrix):
        pass


STUBS = dict(Font=FontStub, HBFTFont=Buffer, HBBuffer=Buffer, HBFeature=Buffer,
             HBLanguage=Buffer, HBScript=Buffer, HBDirection=Direction,
             ULocale=Locale, UBiDi=Bidi, UBreakIterator=Breaks)

STYLE = {'direction': 'ltr', 'font-synthesis': [], 'font-weight': 400,
         'font-style': 'normal', 'writing-mode': 'horizontal-tb',
         'font-language-override': 'normal', 'white-space': 'normal',
         'display': 'inline', 'x': None, 'y': None, 'dx': None, 'dy': None,
         'rotate': None, 'font-feature-settings': {}, 'font-kerning': 'auto',
         'font-variant-alternates': ['normal'],
         'font-variant-caps': 'normal',
         'font-variant-east-asian': ['normal'],
         'font-variant-ligatures': ['normal'],
         'font-variant-numeric': ['normal'],
         'font-variant-position': 'normal'}


def one_each(line):
    """A glyph for each character."""
    return [(i, line[i]) for i in range(len(line))]


def with_stubs(styles, fn, boxes=False):
    """Run fn with the stand-ins; styles: id of the element -> its lists."""
    stubs = dict(STUBS)
    if not boxes:
        stubs['DOMRect'] = NoBox
    saved = {k: getattr(module, k) for k in stubs}
    style_saved = (SVGElement.get_computed_style,
                   SVGElement.get_inherited_style)

    def style(e):
        s = dict(STYLE)
        if e.local_name == 'text':
            s.update(x=[START], y=[START])
        for k, v in styles.get(e.get('id'), {}).items():
            s[k] = list(v) if type(v) is list else v
        return s

    try:
        for k, v in stubs.items():
            setattr(module, k, v)
        SVGElement.get_computed_style = style
        SVGElement.get_inherited_style = style
        return fn()
    finally:
        for k, v in saved.items():
            setattr(module, k, v)
        (SVGElement.get_computed_style,
         SVGElement.get_inherited_style) = style_saved


def metrics(t, names):
    out = {}
    for n in names:
        out[n] = (t.int('adv ' + n, 0, 2000), t.int('xo ' + n, -200, 200),
                  t.int('yo ' + n, -200, 200), 64, 128)
    return out


def rotated(angle, x, y):
    """A point turned by a multiple of 90 degrees, y down."""
    return {0: (x, y), 90: (-y, x), 180: (-x, -y), -90: (y, -x)}[angle]


def place(own, chars):
    """[(x, y, angle)] of the characters and where the text ends. own: for
    each character the lists of the elements it is in, innermost last, with
    the index of the character in each."""
    out = []
    cx = cy = START
    for ch, lists in chars:
        value = {}
        for key in ('x', 'y', 'dx', 'dy', 'rotate'):
            for attrs, index in reversed(lists):
                have = attrs.get(key)
                if have and key == 'rotate':
                    value[key] = have[min(index, len(have) - 1)]
                    break
                if have and index < len(have):
                    value[key] = have[index]
                    break
        x = value.get('x', cx) + value.get('dx', 0)
        y = value.get('y', cy) + value.get('dy', 0)
        out.append((ch, x, y, value.get('rotate', 0)))
        cx = x + Plan.metrics[ch][0] / UNIT
        cy = y
    return out


def same_glyphs(t, path, placed):
    t.eq(len(path), 2 * len(placed), 'segments')
    for i, (ch, x, y, angle) in enumerate(placed):
        adv, xo, yo, gx, gy = Plan.metrics[ch]
        ox, oy = x + xo / UNIT, y - yo / UNIT
        for seg, kind, px in ((path[2 * i], 'M', gx),
                              (path[2 * i + 1], 'L', gx + UNIT)):
            t.eq(seg.type, kind, 'kind')
            dx, dy = rotated(angle, px / UNIT, -gy / UNIT)
            sx, sy = seg.values
            near(t, sx, ox + dx, 'x of glyph %d' % i)
            near(t, sy, oy + dy, 'y of glyph %d' % i)


def near(t, a, b, label):
    t.check(t.And(a - b <= TOL, b - a <= TOL), label)


def lists(t, name, keys, n):
    """Values for the attributes."""
    out = {}
    for k in keys:
        if k == 'rotate':
            out[k] = [t.choice('%s rotate %d' % (name, i), [0, 90, 180, -90] if n == 1
                               else [0, 90] if n == 2 else [0, -90])
                      for i in range(n)]
        else:
            lo, hi = (300, 600) if k in ('x', 'y') else (-50, 50)
            out[k] = [t.int('%s %s %d' % (name, k, i), lo, hi)
                      for i in range(n)]
    return out


@harness('C51', cases=[dict(keys=k, n=n)
                       for k in ('', 'x', 'y', 'dx', 'dy', 'x dx', 'y dy',
                                 'rotate', 'x y rotate')
                       for n in (1, 2, 4)
                       if (k or n == 1) and (n < 4 or len(k) < 4 or
                                             k == 'rotate')])
def c51_glyphs(t, keys, n):
    """Each glyph stands at its own x and y, or where the one before ended,
    moved by its dx and dy, turned by its rotation; the last rotation goes on
    for the rest."""
    keys = keys.split()
    root = Window(SVGDOMImplementation()).document.document_element
    text = root.create_sub_element('text')
    text.id = 'T'
    text.text = 'abc'
    if t.choice('space', [False, True]):
        text.text = 'a bc'
    chars = text.text
    Plan.glyphs = one_each
    Plan.metrics = metrics(t, 'abc ')
    attrs = lists(t, 'T', keys, n)
    placed = place(None, [(c, [(attrs, i)]) for i, c in enumerate(chars)])
    path = with_stubs({'T': attrs}, text.get_path_data)
    same_glyphs(t, path, placed)


def span_text(t, deep=False):
    """<text>ab<tspan>cd</tspan>e</text>; the indices of the characters."""
    root = Window(SVGDOMImplementation()).document.document_element
    text = root.create_sub_element('text')
    text.id = 'T'
    text.text = 'ab'
    span = text.create_sub_element('tspan')
    span.id = 'S'
    span.text = 'cd'
    span.tail = 'e'
    Plan.glyphs = one_each
    Plan.metrics = metrics(t, 'abcde')
    inside = [('a', None), ('b', None), ('c', 0), ('d', 1), ('e', None)]
    return text, span, inside


@harness('C51', cases=[dict(outer=o, m=m, inner=i, n=n)
                       for o, m in (('', 1), ('x', 2), ('x', 4), ('x', 5),
                                    ('dy', 4), ('rotate', 3), ('x dx', 3))
                       for i, n in (('', 1), ('x', 1), ('dx', 1), ('dy', 2),
                                    ('rotate', 2), ('x', 3))
                       if o or i])
def c51_spans(t, outer, m, inner, n):
    """The values of a tspan are for its characters; where it has none, the
    ones of the text go on, each for the character of its number in the
    text."""
    text, span, inside = span_text(t)
    a = lists(t, 'T', outer.split(), m)
    b = lists(t, 'S', inner.split(), n)
    placed = place(None, [(c, [(a, k)] + ([] if i is None else [(b, i)]))
                          for k, (c, i) in enumerate(inside)])
    styles = {'T': a, 'S': b}
    same_glyphs(t, with_stubs(styles, text.get_path_data), placed)
    same_glyphs(t, with_stubs(styles, span.get_path_data), placed[2:4])


@harness('C51')
def c51_rotations_of_both(t):
    """Characters of a tspan with rotations of its own count in the rotations
    of the text."""
    text, span, inside = span_text(t)
    a = lists(t, 'T', ['rotate'], 5)
    b = lists(t, 'S', ['rotate'], 1)
    t.excluding('KF08', a['rotate'][2] != a['rotate'][4])
    placed = place(None, [(c, [(a, k)] + ([] if i is None else [(b, i)]))
                          for k, (c, i) in enumerate(inside)])
    same_glyphs(t, with_stubs({'T': a, 'S': b}, text.get_path_data), placed)


@harness('C51')
def c51_lengths(t):
    """The length of a text, of a part of it, of a tspan is the sum of the
    advances of the characters."""
    text, span, inside = span_text(t)
    adv = [Plan.metrics[c][0] / UNIT for c, _ in inside]
    attrs = {'T': lists(t, 'T', ['x'], t.choice('k', [1, 3]))}

    def sums():
        t.eq(text.get_computed_text_length(), sum(adv), 'text')
        t.eq(span.get_computed_text_length(), sum(adv[2:4]), 'tspan')
        for i in range(5):
            for k in range(1, 6 - i):
                t.eq(text.get_sub_string_length(i, k), sum(adv[i:i + k]),
                     'part of the text')
        t.eq(span.get_sub_string_length(1, 1), adv[3], 'part of the tspan')
        t.eq(text.get_sub_string_length(2), sum(adv[2:]), 'rest')
    with_stubs(attrs, sums)


@harness('C51', cases=[dict(keys=k) for k in ('', 'x', 'dx dy')])
def c51_boxes(t, keys):
    """The box of a text holds the cells of its characters, from the ascent
    to the descent and as wide as the advance, and no more; that of a tspan
    those of its own."""
    root = Window(SVGDOMImplementation()).document.document_element
    text = root.create_sub_element('text')
    text.id = 'T'
    text.text = 'a'
    span = text.create_sub_element('tspan')
    span.id = 'S'
    span.text = 'b'
    Plan.glyphs = one_each
    Plan.metrics = {c: (t.int('adv ' + c, 1, 2000), 0, 0, 64, 128)
                    for c in 'ab'}
    attrs = lists(t, 'T', keys.split(), 2)
    placed = place(None, [('a', [(attrs, 0)]), ('b', [(attrs, 1)])])
    for e, part in ((text, placed), (span, placed[1:])):
        box = with_stubs({'T': attrs}, e.get_bbox, boxes=True)
        left = right = top = bottom = None
        for c, x, y, _ in part:
            r = x + Plan.metrics[c][0] / UNIT
            u, v = y - HEIGHT - DESCENDER, y - DESCENDER
            left = x if left is None or x < left else left
            right = r if right is None or r > right else right
            top = u if top is None or u < top else top
            bottom = v if bottom is None or v > bottom else bottom
        t.eq(box.left, left, 'left')
        t.eq(box.right, right, 'right')
        t.eq(box.top, top, 'top')
        t.eq(box.bottom, bottom, 'bottom')


# the clusters of 'office', 'ffia', ... with ligatures: (glyph, characters)
LIGATURES = {'fi': [('a', 1), ('f', 2), ('b', 1)],
             'first': [('f', 2), ('b', 1), ('c', 1)],
             'last': [('a', 1), ('f', 2)],
             'three': [('a', 1), ('F', 3), ('b', 1), ('c', 1)],
             'twice': [('f', 2), ('a', 1), ('f', 2), ('b', 1)],
             'wide': [('f', 2), ('f', 2), ('f', 2), ('b', 1)],
             'split': [('a', 1), ('b', 1), ('c', 0), ('d', 1)]}


@harness('C51', cases=[dict(kind=k, keys=a, non_ascii=u)
                       for k in LIGATURES for a in ('x', 'y', 'dx', 'rotate')
                       for u in (False, True)])
def c51_ligatures(t, kind, keys, non_ascii):
    """A glyph for several characters takes the x, y and rotation of the
    first, what the others have is not for the next glyph; several glyphs for
    a character take its values once."""
    shape = LIGATURES[kind]
    count = sum([n for _, n in shape])
    root = Window(SVGDOMImplementation()).document.document_element
    text = root.create_sub_element('text')
    text.id = 'T'
    text.text = ('\u00e9' if non_ascii else 'z') * count
    size = 2 if non_ascii else 1      # clusters count bytes of UTF-8

    def glyphs(line):
        out, at = [], 0
        for name, n in shape:
            if n:
                out.append((at * size, name))
            else:
                out.append((out[-1][0], name))
            at += n
        return out

    Plan.glyphs = glyphs
    Plan.metrics = metrics(t, sorted(set([n for n, _ in shape])))
    attrs = {keys: [t.choice('r%d' % i, [0, 90]) if keys == 'rotate' and i < 3
                    else 90 if keys == 'rotate' and i % 2 else
                    0 if keys == 'rotate' else
                    t.int('v%d' % i, *((300, 600) if keys in 'xy'
                                       else (-50, 50)))
                    for i in range(count)]}
    placed, at, x, y, angle = [], 0, START, START, 0
    pending = 0
    for name, n in shape:
        if n:
            v = attrs[keys][at]
            if keys == 'x':
                x = v
            elif keys == 'y':
                y = v
            elif keys == 'dx':
                x = x + v + pending
                pending = 0
                for w in attrs[keys][at + 1:at + n]:
                    pending = pending + w
            else:
                angle = v
        placed.append((name, x, y, angle))
        x = x + Plan.metrics[name][0] / UNIT
        at += n
    same_glyphs(t, with_stubs({'T': attrs}, text.get_path_data), placed)

SEPARATORS = [' ', ',', ' , ', '\n', '\t ', ',\r\n']
BLANKS = ['', ' ', '\n\t']
AROUND = [('', ''), (' ', ''), ('', '\n'), ('\t', ' ')]


@harness('C51', cases=[dict(tag=g, key=k) for g in ('text', 'tspan')
                       for k in ('x', 'y', 'dx', 'dy', 'rotate')])
def c51_attributes(t, tag, key):
    """The lists of the attributes are read whatever is between and around
    the numbers; one that is missing or blank has no values (0 for the
    position of a text)."""
    doc = SVGDOMImplementation().create_svg_document()
    view = doc.document_element
    view.set('viewBox', '0 0 200 100')
    text = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
    view.append(text)
    elem = text
    if tag == 'tspan':
        elem = doc.create_element_ns('http://www.w3.org/2000/svg', 'tspan')
        text.append(elem)
    none = [0] if tag == 'text' and key in ('x', 'y') else None
    kind = t.choice('kind', ['numbers', 'blank', 'missing'])
    if kind == 'missing':
        expected = none
    elif kind == 'blank':
        elem.set(key, t.choice('blank', BLANKS))
        expected = none
    else:
        n = t.choice('n', [1, 2])
        sep = t.choice('separator', SEPARATORS) if n > 1 else ''
        unit = '' if key == 'rotate' else t.choice('unit', ['', 'px', '%'])
        scale = 1
        if unit == '%':
            scale = 2 if key in ('x', 'dx') else 1
        numbers = [t.number('n{}'.format(i), -500, 500) for i in range(n)]
        before, after = t.choice('around', AROUND)
        elem.set(key,
                 before + sep.join([a + unit for a, _ in numbers]) + after)
        expected = [v * scale for _, v in numbers]
    got = t.no_raise('geometry', elem.get_computed_geometry)
    for k in ('x', 'y', 'dx', 'dy', 'rotate'):
        want = expected if k == key else (
            [0] if tag == 'text' and k in ('x', 'y') else None)
        if want is None:
            t.check(got[k] is None, 'no ' + k, str(k))
            continue
        t.check(got[k] is not None and len(got[k]) == len(want),
                'values of ' + k, str(k))
        for a, b in zip(got[k], want):
            close(t, a, b, 'value of ' + k, 1e-9)
