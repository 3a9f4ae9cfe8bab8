"""Values of the font properties and the cascade of shorthands."""
PROPERTIES = ['C36', 'C49']

from symx.api import harness
from svgpy.core import CSSUtils, Font
from harness.cascade import Page

WORD = 'aB-'

# ---------------------------------------------------------------- C49

PREFIXES = {
    'normal': {}, 'italic': {'font-style': 'italic'},
    'OBLIQUE': {'font-style': 'oblique'},
    'oblique 10deg': {'font-style': 'oblique'},
    'small-caps': {'font-variant': 'small-caps'},
    'bold': {'font-weight': 'bold'}, '350': {'font-weight': '350'},
    'lighter': {'font-weight': 'lighter'},
    'condensed': {'font-stretch': 'condensed'},
}
SIZES = ['12px', '1.5em', 'x-large', 'smaller', '50%', '.5em', '0',
         'calc(1px + 2em)']
DEFAULTS = {'font-style': 'normal', 'font-variant': 'normal',
            'font-weight': 'normal', 'font-stretch': 'normal',
            'line-height': 'normal', 'font-size-adjust': 'none',
            'font-kerning': 'auto', 'font-language-override': 'normal'}


def same_font(t, d, want):
    t.eq(len(d), 10, 'all of the longhands')
    for k in want:
        t.eq(d[k], want[k], k)


@harness('C49', cases=[dict(n=2), dict(n=1, sizes=True),
                       dict(n=3, _tier='thorough'),
                       dict(n=2, sizes=True, _tier='thorough')])
def c49_prefix(t, n, sizes=False):
    """Style, caps, weight and stretch stand before the size in any order
    and number; what is not given is set to its initial value."""
    want = dict(DEFAULTS)
    text = ''
    for i in range(n):
        p = t.choice('p%d' % i, [''] + list(PREFIXES))
        if p == '':
            continue
        for k in PREFIXES[p]:
            t.assume(want[k] == DEFAULTS[k])
            want[k] = PREFIXES[p][k]
        text += p + t.choice('s%d' % i, [' ', '\t\n '])
    want['font-size'] = t.choice('size', SIZES if sizes else SIZES[1:3])
    text += want['font-size']
    lh = t.choice('height', [None, '1.5', 'normal', '20px', '120%',
                             'calc(1em + 1px)'] if sizes else [None, '2'])
    if lh is not None:
        text += t.choice('slash', ['/', ' /', '/ ', ' / ']) + lh
        want['line-height'] = lh
    c = t.text('family', 2, WORD)
    want['font-family'] = [c]
    same_font(t, CSSUtils.parse_font(text + ' ' + c), want)


QUOTED = [('"', '"'), ("'", "'")]


def family(t, i, n):
    """A family name as written and what it stands for."""
    kind = t.choice('kind%d' % i, ['word', 'words', 'string', 'escaped'])
    if kind == 'word':
        c = t.text('w%d' % i, n, WORD)
        return c, c
    if kind == 'words':
        c = t.text('w%d' % i, 1, WORD)
        d = t.text('x%d' % i, 1, WORD)
        return c + t.choice('gap%d' % i, [' ', ' \n']) + d, c + ' ' + d
    q = t.choice('q%d' % i, QUOTED)
    if kind == 'string':
        c = t.text('w%d' % i, n, "a, /(")
        return q[0] + c + q[1], c
    c = t.text('w%d' % i, 1, WORD)
    return q[0] + c + '\\' + q[0] + q[1], c + q[0]


@harness('C49', cases=[dict(n=2, m=1), dict(n=1, m=2),
                       dict(n=1, m=3, _tier='thorough')])
def c49_families(t, n, m):
    """A list of families, of words or strings; commas, slashes and spaces
    in strings belong to the name; the same inside of a font value."""
    text = ''
    want = []
    for i in range(m):
        w, name = family(t, i, n)
        if i:
            text += t.choice('comma%d' % i, [',', ', ', ' , ', ' ,'])
        text += w
        want.append(name)
    t.eq(CSSUtils.parse_font_family(text), want, 'families')
    d = CSSUtils.parse_font('italic 12px/1.5 ' + text)
    t.eq(d['font-family'], want, 'families of the shorthand')
    t.eq(d['font-size'], '12px', 'size')
    t.eq(d['line-height'], '1.5', 'line height')
    t.eq(d['font-style'], 'italic', 'style')


@harness('C49', cases=[dict(n=1), dict(n=2, _tier='thorough')])
def c49_no_font(t, n):
    """A value without a size or a family is no font, and sets nothing."""
    c = t.text('word', n, WORD)
    bad = t.choice('bad', ['', 'bold', '12px', c, 'bold ' + c, 'italic 12px',
                           '12px/', '12px/1.5', 'bold bold', 'small-caps',
                           '12px ,', 'caption ' + c, c + ' 12px'])
    t.eq(CSSUtils.parse_font(bad), {}, 'no longhands')
    p = Page(t, '')
    how = t.choice('how', ['attribute', 'style', 'important'])
    e = p.nodes[2]
    if how == 'attribute':
        e.set('font', bad)
    else:
        e.set('style', 'font-size: 20px; font-style: italic; font: ' + bad +
              (' !important' if how == 'important' else ''))
    s = p.computed(2)
    t.eq(s['font-size'], 'medium' if how == 'attribute' else '20px', 'size')
    t.eq(s['font-style'], 'normal' if how == 'attribute' else 'italic',
         'style')


@harness('C49')
def c49_system_fonts(t):
    """The names of system fonts, in any case, give the default font."""
    v = t.choice('name', ['caption', 'icon', 'menu', 'message-box',
                          'small-caption', 'status-bar', 'Caption'])
    want = dict(DEFAULTS)
    want['font-size'] = 'medium'
    want['font-family'] = CSSUtils.parse_font_family(
        Font.default_font_family)
    same_font(t, CSSUtils.parse_font(v), want)


@harness('C49', cases=[dict(n=4), dict(n=3), dict(n=4, m=2),
                       dict(n=4, m=3, _tier='thorough')])
def c49_features(t, n, m=1):
    """Each feature tag of four ASCII characters is on, off or has its
    number; the last of one tag counts; everything else is ignored."""
    text = ''
    want = {}
    for i in range(m):
        tag = t.text('tag%d' % i, n, 'a, 9\x7f\xe9' if m == 1 else 'a ,')
        q = t.choice('quote%d' % i, ['"', "'"])
        v = t.choice('value%d' % i, [('', 1), (' on', 1), (' off', 0),
                                     (' OFF', 0), ('on', 1), (' 3', 3),
                                     (' 0', 0), (' x', None),
                                     (' -1', None), (' 1 2', None)]
                     if m == 1 else [('', 1), (' off', 0), (' x', None)])
        if i:
            text += t.choice('comma%d' % i, [',', ', '])
        text += q + tag + q + v[0]
        if n == 4 and v[1] is not None and '\x7f' not in tag and \
                '\xe9' not in tag:
            want[tag] = v[1]
    got = CSSUtils.parse_font_feature_settings(text)
    t.eq(len(got), len(want), 'number of features')
    for k in want:
        t.check(k in got, 'the feature is there', k)
        t.eq(got[k], want[k], 'its value')


VARIANTS = {
    'small-caps': 'caps', 'unicase': 'caps', 'titling-caps': 'caps',
    'sub': 'position', 'super': 'position',
    'common-ligatures': 'ligatures', 'no-contextual': 'ligatures',
    'jis78': 'east-asian', 'ruby': 'east-asian', 'full-width': 'east-asian',
    'ordinal': 'numeric', 'tabular-nums': 'numeric',
    'slashed-zero': 'numeric',
    'historical-forms': 'alternates',
    'styleset(%s, %s)': 'alternates', 'swash( %s )': 'alternates',
    'character-variant(%s,%s)': 'alternates',
}


@harness('C49', cases=[dict(n=2, how='none'), dict(n=1, how='shorthand'),
                       dict(n=1, how='longhands'),
                       dict(n=2, how='shorthand', _tier='thorough'),
                       dict(n=2, how='longhands', _tier='thorough'),
                       dict(n=3, how='none', _tier='thorough')])
def c49_variants(t, n, how):
    """The keywords and functions of a font-variant value belong to their
    sub-properties, in order; the others are normal. The sub-properties of
    an element that declares it are the same."""
    want = {'caps': 'normal', 'position': 'normal', 'ligatures': [],
            'east-asian': [], 'numeric': [], 'alternates': []}
    text = ''
    for i in range(n):
        v = t.choice('v%d' % i, list(VARIANTS))
        k = VARIANTS[v]
        while '%s' in v:
            j = v.find('%s')
            c = t.text('a%d%d' % (i, j), 1, 'ab')
            v = v[:j] + c + v[j + 2:]
        if k in ('caps', 'position'):
            t.assume(want[k] == 'normal')
            want[k] = v
        else:
            want[k] = want[k] + [v]
        text += (t.choice('gap%d' % i, [' ', '\n ']) if i else '') + v
    for k in want:
        if want[k] == []:
            want[k] = ['normal']
    d = CSSUtils.parse_font_variant(text)
    t.eq(len(d), 6, 'sub-properties')
    for k in want:
        t.eq(d['font-variant-' + k], want[k], k)
    if how == 'none':
        return
    p = Page(t, '')
    if how == 'shorthand':
        p.nodes[2].set('style', 'font-variant: ' + text)
    else:
        s = ''
        for k in want:
            v = want[k]
            s += 'font-variant-' + k + ':' + (
                v if k in ('caps', 'position') else ' '.join(v)) + ';'
        p.nodes[2].set('style', s)
    s = p.computed(2)
    for k in want:
        t.eq(s['font-variant-' + k], want[k], 'computed ' + k)


@harness('C49')
def c49_variant_keywords(t):
    """normal resets everything, none turns the ligatures off."""
    v = t.choice('value', ['normal', 'none'])
    d = CSSUtils.parse_font_variant(v)
    for k in ('alternates', 'east-asian', 'numeric', 'ligatures'):
        t.eq(d['font-variant-' + k],
             ['none' if v == 'none' and k == 'ligatures' else 'normal'], k)
    t.eq(d['font-variant-caps'], 'normal', 'caps')
    t.eq(d['font-variant-position'], 'normal', 'position')


# ---------------------------------------------------------------- C36

LONGHANDS = ['font-size', 'font-style', 'font-variant-caps']
INITIAL = {'font-size': 'medium', 'font-style': 'normal',
           'font-variant-caps': 'normal', 'font-family': None}


def declare(t, tag):
    """One declaration: its text, and the longhands it sets."""
    k = t.choice('k' + tag, ['font', 'font-variant', 'font-size',
                             'font-variant-caps', 'reset'])
    c = t.text('c' + tag, 1, '123')
    if k == 'font':
        return k, 'small-caps ' + c + 'px a', {
            'font-size': c + 'px', 'font-style': 'normal',
            'font-variant-caps': 'small-caps'}
    if k == 'reset':
        return 'font', 'italic ' + c + 'em b', {
            'font-size': c + 'em', 'font-style': 'italic',
            'font-variant-caps': 'normal'}
    if k == 'font-variant':
        v = t.choice('v' + tag, ['unicase', 'sub'])
        return k, v, {'font-variant-caps':
                      v if v == 'unicase' else 'normal'}
    if k == 'font-size':
        return k, c + 'ex', {k: c + 'ex'}
    return k, 'titling-caps', {k: 'titling-caps'}


@harness('C36', cases=[dict(n=1, up=True), dict(n=2, up=False),
                       dict(n=2, up=True, _tier='thorough'),
                       dict(n=3, up=False, _tier='thorough')])
def c36_font_shorthands(t, n, up):
    """A shorthand sets all of its longhands, with the weight and in the
    place of its declaration; what the element does not declare comes from
    the parent."""
    want = dict(INITIAL)
    imp = {}
    rules = ''
    attr = {}
    style = ''
    if up:
        k, v, sets = declare(t, 'p')
        parent = (k, v)
        want.update(sets)
    layers = []
    for i in range(n):
        where = t.choice('where%d' % i, ['rule', 'style', 'rule!', 'style!']
                         if i or n < 3 else ['rule', 'style'])
        k, v, sets = declare(t, str(i))
        text = k + ':' + v + (' !important' if '!' in where else '') + ';'
        if 'rule' in where:
            rules += '.k {' + text + '}'
        else:
            style += text
        layers.append((['rule', 'style', 'rule!', 'style!'].index(where),
                       i, sets))
    for _, _, sets in sorted(layers, key=lambda x: x[:2]):
        want.update(sets)
    p = Page(t, rules)
    if up:
        p.nodes[1].set('style', parent[0] + ':' + parent[1])
    e = p.nodes[2]
    e.set('class', 'k')
    if style:
        e.set('style', style)
    s = p.computed(2)
    for k in LONGHANDS:
        t.eq(s[k], want[k], k)


WIDE = ['inherit', 'initial', 'unset', 'INHERIT', 'Initial']
FIRST = {'fill': 'black', 'stroke-width': '1', 'opacity': '1',
         'stop-color': 'black', 'font-size': 'medium',
         'font-family': ['sans-serif'], 'marker-end': 'none'}
NOT_INHERITED = ['opacity', 'stop-color']


@harness('C36', cases=[dict(name=x) if i < 4 else
                       dict(name=x, _tier='thorough')
                       for i, x in enumerate(sorted(FIRST))])
def c36_keywords(t, name):
    """inherit takes the value of the parent, initial the initial one, and
    unset one or the other; the keywords are read in any case."""
    p = Page(t, '.i {%s: inherit} .n {%s: Initial} .u {%s: unset}' % (
        name, name, name))
    first = FIRST[name]
    if name == 'font-family':
        first = CSSUtils.parse_font_family(Font.default_font_family)
    value = first
    for i in range(3):
        how = t.choice('how%d' % i, [
            ['none', 'value'], ['none', 'value', 'inherit', 'Initial'],
            ['none', 'value', 'rule'] + WIDE][i])
        e = p.nodes[i]
        up = value
        kw = how.lower()
        if how == 'value':
            v = t.text('v%d' % i, 1, 'xyz')
            e.set('style', name + ':' + v)
            value = [v] if name == 'font-family' else v
        else:
            if how == 'rule':
                kw = t.choice('rule%d' % i, ['inherit', 'initial', 'unset'])
                e.set('class', kw[0] if kw != 'initial' else 'n')
            elif how != 'none':
                e.set(name, how)
            if kw == 'none':
                kw = 'unset'
            if kw == 'initial' or kw == 'unset' and name in NOT_INHERITED:
                value = first
            else:
                value = up
    t.eq(p.computed(2)[name], value, 'computed value')


@harness('C36')
def c36_wide_shorthands(t):
    """A CSS-wide keyword for a shorthand is one for its longhands."""
    p = Page(t, '')
    p.nodes[1].set('style', 'font: italic small-caps 9px p; marker: url(#p)')
    e = p.nodes[2]
    kw = t.choice('keyword', WIDE)
    name = t.choice('name', ['font', 'font-variant', 'marker'])
    where = t.choice('where', ['attribute', 'style'])
    before = 'font-size: 1px; font-variant-caps: unicase; marker-end: x;'
    after = t.choice('after', ['', ';font-size: 2px', ';marker-mid: y',
                               ';font-variant-caps: titling-caps'])
    if where == 'attribute':
        e.set(name, kw)
        if after:
            e.set('style', after)
        s1 = {}
    else:
        e.set('style', before + name + ':' + kw + after)
        s1 = {'font-size': '1px', 'font-variant-caps': 'unicase',
              'marker-end': 'x'}
    want = {'font-size': '9px', 'font-style': 'italic',
            'font-variant-caps': 'small-caps', 'marker-end': 'url(#p)',
            'marker-mid': 'url(#p)', 'marker-start': 'url(#p)'}
    parent = dict(want)
    want.update(s1)
    if name == 'font':
        keys = ['font-size', 'font-style', 'font-variant-caps']
    elif name == 'marker':
        keys = ['marker-end', 'marker-mid', 'marker-start']
    else:
        keys = ['font-variant-caps']
    first = {'font-size': 'medium', 'font-style': 'normal',
             'font-variant-caps': 'normal', 'marker-end': 'none',
             'marker-mid': 'none', 'marker-start': 'none'}
    for k in keys:
        want[k] = first[k] if kw.lower() == 'initial' else parent[k]
    if after:
        k, v = after[1:].split(': ')
        want[k] = v
    s = p.computed(2)
    for k in want:
        t.eq(s[k], want[k], k)


@harness('C36')
def c36_marker(t):
    """marker sets its three longhands; later ones override it."""
    p = Page(t, '.m {marker: url(#r)}')
    want = dict.fromkeys(['marker-start', 'marker-mid', 'marker-end'], 'none')
    for i in (1, 2):
        e = p.nodes[i]
        k = t.choice('k%d' % i, ['none', 'rule', 'attribute', 'style',
                                 'long', 'before', 'after'])
        c = 'url(#' + t.text('c%d' % i, 1, 'ab') + ')'
        if k == 'rule':
            e.set('class', 'm')
            v = dict.fromkeys(want, 'url("#r")')
        elif k == 'attribute':
            e.set('marker', c)
            v = dict.fromkeys(want, c)
        elif k == 'style':
            e.set('style', 'marker: ' + c)
            v = dict.fromkeys(want, c)
        elif k == 'long':
            e.set('marker-mid', c)
            v = {'marker-mid': c}
        elif k == 'before':
            e.set('style', 'marker-mid: x; marker: ' + c)
            v = dict.fromkeys(want, c)
        elif k == 'after':
            e.set('style', 'marker: ' + c + '; marker-mid: x')
            v = dict.fromkeys(want, c)
            v['marker-mid'] = 'x'
        else:
            v = {}
        want.update(v)
        s = p.computed(i)
        for n in want:
            t.eq(s[n], want[n], n)
