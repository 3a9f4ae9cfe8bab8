"""Text: white space, OpenType features (C41, C43)."""

PROPERTIES = ['C41', 'C43']

from symx.api import harness
from svgpy import SVGDOMImplementation
from svgpy.base import SVGElement
from svgpy.core import CSSUtils
from svgpy.opentype import features_from_style
from svgpy.window import Window

BREAKS = '\r\n'
WHITE = ' \t\r\n'
ZWSP = '\u200b'


def wide(ch):
    """Ideographs and kana: the alphabets below have these."""
    return ch == '\u5b57' or ch == '\u304b' or ch == '\uff21'


def reading(text, lines):
    """[words and gaps]: what stands between the words of the text: '' when
    nothing, ' ' for white space, '\n'*k for line breaks."""
    words, gaps = [''], []
    i = 0
    gap = None
    while i < len(text):
        ch = text[i]
        if ch in WHITE:
            gap = gap or [False, 0]
            gap[0] = True
            if ch == '\n' or ch == '\r':
                gap[1] += 1
                if ch == '\r' and i + 1 < len(text) and text[i + 1] == '\n':
                    i += 1
        else:
            if gap is not None:
                gaps.append(gap[1])
                words.append('')
                gap = None
            words[-1] += ch
        i += 1
    if gap is not None:
        gaps.append(gap[1])
        words.append('')
    return words, gaps


def collapsed(text, lines):
    words, gaps = reading(text, lines)
    out = words[0]
    for w, k in zip(words[1:], gaps):
        if lines and k:
            out += '\n' * k
        elif k and ((out != '' and out[-1] == ZWSP)
                    or (w != '' and w[0] == ZWSP)):
            pass
        elif k and out != '' and w != '' and wide(out[-1]) and wide(w[0]):
            pass
        else:
            out += ' '
        out += w
    return out


@harness('C41', cases=[dict(mode=m, alphabet=a)
                       for m in ('normal', 'nowrap', 'pre-line')
                       for a in ('a \t\n', 'a\u5b57\n ', 'a\r\n ',
                                 '\u5b57\uac00\r ', '\uff21\u304b\n',
                                 'a\u200b\n ', '\xa0 \n')],
         budget=(300, 900))
def c41_collapse(t, mode, alphabet):
    """White space between words becomes one space; line breaks next to a
    zero-width space or between ideographs vanish (with pre-line they are
    kept); the words are kept."""
    text = t.text('text', 5 if t.tier == 'quick' else 6, alphabet)
    out = CSSUtils.normalize_text_content(
        None, text, {'white-space': mode}, first=True, tail=True)
    t.eq(out, collapsed(text, mode == 'pre-line').strip(' '), 'text')
    t.eq(CSSUtils.normalize_text_content(
        None, out, {'white-space': mode}, first=True, tail=True), out,
        'idempotent')


@harness('C41', cases=[dict(mode=m) for m in ('pre', 'pre-wrap')])
def c41_preserve(t, mode):
    """Preserved white space is the white space written; line breaks are
    line feeds."""
    text = t.text('text', 5 if t.tier == 'quick' else 7, 'a \r\n\t')
    first, tail = t.bool('first'), t.bool('tail')
    prev = t.choice('prev', [None, ' ', 'x'])
    out = CSSUtils.normalize_text_content(
        None, text, {'white-space': mode}, prev, first=first, tail=tail)
    want = ''
    for i in range(len(text)):
        if text[i] == '\r':
            want += '\n'
        elif text[i] != '\n' or i == 0 or text[i - 1] != '\r':
            want += text[i]
    t.eq(out, want, 'text')


# the texts of a text element in document order: (owner, text), where the
# owner is the list of elements it is inside of
def build(t, shape, pieces):
    """A text element of the shape; [(element, [texts])]."""
    doc = Window(SVGDOMImplementation()).document
    root = doc.document_element
    text = root.create_sub_element('text')
    own = []
    p = list(pieces)
    text.text = p[0]
    own.append((p[0], [text]))
    if shape == 'comment':
        child = doc.create_comment('zz z')
        text.append(child)
        child.tail = p[1]
        own.append((p[1], [text]))
        return text, [text], own
    if shape == 'pi':
        child = doc.create_processing_instruction('zz', 'z')
        text.append(child)
        child.tail = p[1]
        own.append((p[1], [text]))
        return text, [text], own
    if shape in ('title', 'hidden'):
        child = text.create_sub_element('title' if shape == 'title'
                                        else 'tspan')
        if shape == 'hidden':
            child.set_attribute('display', 'none')
        child.text = 'zz z'
        child.tail = p[1]
        own.append((p[1], [text]))
        return text, [text], own
    span = text.create_sub_element('tspan')
    span.text = p[1]
    own.append((p[1], [text, span]))
    elements = [text, span]
    if shape == 'nested':
        inner = span.create_sub_element('tspan')
        inner.text = p[2]
        inner.tail = p[3]
        own.append((p[2], [text, span, inner]))
        own.append((p[3], [text, span]))
        elements.append(inner)
    elif shape == 'two':
        other = text.create_sub_element('tspan')
        span.tail = p[2]
        other.text = p[3]
        own.append((p[2], [text]))
        own.append((p[3], [text, other]))
        elements.append(other)
    else:
        span.tail = p[2]
        own.append((p[2], [text]))
    return text, elements, own


@harness('C41', cases=[dict(shape=s, mode=m)
                       for s in ('comment', 'pi', 'title', 'hidden', 'span',
                                 'nested', 'two')
                       for m in ('normal', 'pre')]
         + [dict(shape=s, mode='pre', styled=True)
            for s in ('span', 'hidden')], budget=(300, 900))
def c41_elements(t, shape, mode, styled=False):
    """The characters of a text element are those of its texts in document
    order, with white space collapsed across its elements or preserved; those
    of a tspan are the ones inside of it. Comments, titles and what is not
    displayed have none. (Which style the elements have is decided by C36 and
    taken from it here, but for the cases `styled`.)"""
    if styled:
        return elements_case(t, shape, mode, styled)
    saved = SVGElement.get_computed_style, SVGElement.get_inherited_style

    def style(e):
        return {'white-space': mode,
                'display': e.get('display', 'inline')}

    SVGElement.get_computed_style = style
    SVGElement.get_inherited_style = style
    try:
        return elements_case(t, shape, mode, styled)
    finally:
        (SVGElement.get_computed_style,
         SVGElement.get_inherited_style) = saved


def elements_case(t, shape, mode, styled):
    count = {'span': 3, 'nested': 4, 'two': 4}.get(shape, 2)
    pieces = []
    for i in range(count):
        if styled:
            n = 1
        elif t.tier == 'quick':
            n = t.choice('n%d' % i, [0, 1, 2] if count < 3 else [0, 1])
        else:
            n = t.choice('n%d' % i, [0, 1, 2] if count < 4 else [0, 2])
        pieces.append(t.text('p%d' % i, n, 'a \n') if n else
                      t.choice('e%d' % i, [None, '']))
    text, elements, own = build(t, shape, pieces)
    if mode == 'pre':
        text.set_attribute('style', 'white-space: pre')
    chars = []              # (character, owners)
    for piece, owners in own:
        for ch in piece or '':
            if mode == 'pre':
                chars.append((ch, owners))
            elif ch != ' ' and ch != '\n':
                chars.append((ch, owners))
            elif chars and chars[-1][0] != ' ':
                chars.append((' ', owners))
    if mode != 'pre' and chars and chars[-1][0] == ' ':
        chars.pop()
    for e in elements:
        want = ''
        for ch, owners in chars:
            if any([o is e for o in owners]):
                want += ch
        got = e.get_chars()
        t.eq(got or '', want, 'characters')
        t.eq(e.get_number_of_chars(), len(want), 'number of characters')


# ------------------------------------------------------ OpenType features

# the CSS Fonts 3 tables of features
CAPS = {'normal': {}, 'small-caps': {'smcp': 1},
        'all-small-caps': {'c2sc': 1, 'smcp': 1}, 'petite-caps': {'pcap': 1},
        'all-petite-caps': {'c2pc': 1, 'pcap': 1}, 'unicase': {'unic': 1},
        'titling-caps': {'titl': 1}}
POSITION = {'normal': {}, 'sub': {'subs': 1}, 'super': {'sups': 1}}
KERNING = {'auto': {}, 'normal': {'kern': 1, 'vkrn': 1},
           'none': {'kern': 0, 'vkrn': 0}}
EAST = [{'jis78': {'jp78': 1}, 'jis83': {'jp83': 1}, 'jis90': {'jp90': 1},
         'jis04': {'jp04': 1}, 'simplified': {'smpl': 1},
         'traditional': {'trad': 1}},
        {'full-width': {'fwid': 1}, 'proportional-width': {'pwid': 1}},
        {'ruby': {'ruby': 1}}]
LIGATURES = [{'common-ligatures': {'liga': 1, 'clig': 1},
              'no-common-ligatures': {'liga': 0, 'clig': 0}},
             {'discretionary-ligatures': {'dlig': 1},
              'no-discretionary-ligatures': {'dlig': 0}},
             {'historical-ligatures': {'hlig': 1},
              'no-historical-ligatures': {'hlig': 0}},
             {'contextual': {'calt': 1}, 'no-contextual': {'calt': 0}}]
NUMERIC = [{'lining-nums': {'lnum': 1}, 'oldstyle-nums': {'onum': 1}},
           {'proportional-nums': {'pnum': 1}, 'tabular-nums': {'tnum': 1}},
           {'diagonal-fractions': {'frac': 1},
            'stacked-fractions': {'afrc': 1}},
           {'ordinal': {'ordn': 1}}, {'slashed-zero': {'zero': 1}}]
ALTERNATES = [{'historical-forms': {'hist': 1}}]
LISTS = {'font-variant-east-asian': EAST, 'font-variant-ligatures': LIGATURES,
         'font-variant-numeric': NUMERIC,
         'font-variant-alternates': ALTERNATES}


def style_of(**kw):
    style = {'font-feature-settings': {}, 'font-kerning': 'auto',
             'font-variant-alternates': ['normal'],
             'font-variant-caps': 'normal',
             'font-variant-east-asian': ['normal'],
             'font-variant-ligatures': ['normal'],
             'font-variant-numeric': ['normal'],
             'font-variant-position': 'normal'}
    style.update({k.replace('_', '-'): v for k, v in kw.items()})
    return style


def same_features(t, style, want):
    got = features_from_style(style)
    t.eq(len(got), len(want), 'number of features')
    for tag, value in want.items():
        t.check(tag + '=' + str(value) in got, 'feature ' + tag,
                'the feature is missing or has another value')


def pick(t, name):
    """A value of a list property: a keyword of each group or none of it, in
    either order, and the features for it."""
    words, want = [], {}
    for i, group in enumerate(LISTS[name]):
        w = t.choice('%s %d' % (name, i), [None] + sorted(group))
        if w is not None:
            words.append(w)
            want.update(group[w])
    if len(words) > 1 and t.bool(name + ' reversed'):
        words.reverse()
    return words or ['normal'], want


@harness('C43', cases=[dict(name=n) for n in sorted(LISTS)])
def c43_lists(t, name):
    """Each keyword of a font-variant list turns the features on or off that
    CSS Fonts names for it, in whatever order they stand."""
    words, want = pick(t, name)
    style = style_of()
    style[name] = words
    same_features(t, style, want)


@harness('C43')
def c43_none(t):
    """font-variant-ligatures: none turns all ligatures off."""
    same_features(t, style_of(font_variant_ligatures=['none']),
                  {'liga': 0, 'clig': 0, 'dlig': 0, 'hlig': 0, 'calt': 0})


@harness('C43')
def c43_words(t):
    """The features of caps, position and kerning, for every combination, and
    for keywords of other lists next to them."""
    caps = t.choice('caps', sorted(CAPS))
    position = t.choice('position', sorted(POSITION))
    kerning = t.choice('kerning', sorted(KERNING))
    want = {}
    for m in (KERNING[kerning], CAPS[caps], POSITION[position]):
        want.update(m)
    extra = t.choice('extra', ['', 'ordinal', 'ruby', 'contextual'])
    style = style_of(font_variant_caps=caps, font_variant_position=position,
                     font_kerning=kerning)
    if extra == 'ordinal':
        style['font-variant-numeric'] = [extra]
        want['ordn'] = 1
    elif extra == 'ruby':
        style['font-variant-east-asian'] = [extra]
        want['ruby'] = 1
    elif extra:
        style['font-variant-ligatures'] = [extra]
        want['calt'] = 1
    same_features(t, style, want)


@harness('C43')
def c43_settings(t):
    """Tags of font-feature-settings keep their values, and settings for the
    same features take precedence over the other properties; the style is not
    changed."""
    tag = t.choice('tag', ['kern', 'smcp', 'liga', 'swsh', 'zero', 'sups'])
    value = t.int('value', 0, 9)
    style = style_of(font_feature_settings={tag: value})
    if t.bool('with'):
        style.update({'font-kerning': 'normal',
                      'font-variant-caps': 'small-caps',
                      'font-variant-ligatures': ['no-common-ligatures'],
                      'font-variant-numeric': ['slashed-zero'],
                      'font-variant-position': 'super'})
        want = {'kern': 1, 'vkrn': 1, 'smcp': 1, 'liga': 0, 'clig': 0,
                'zero': 1, 'sups': 1}
    else:
        want = {}
    want[tag] = value
    got = features_from_style(style)
    t.eq(len(got), len(want), 'number of features')
    for k, v in want.items():
        found = False
        for x in got:
            if x[:5] == k + '=':
                found = True
                t.eq(x[5:], str(v), 'value of ' + k)
        t.check(found, 'feature ' + k)
    t.check(style['font-feature-settings'] == {tag: value}, 'style unchanged')
