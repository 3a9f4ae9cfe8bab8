"""Values a property supports: the types of its syntax and nothing else."""
PROPERTIES = ['C53']

from symx.api import harness
from svgpy import SVGParser
from svgpy.css import CSS
from svgpy.css.props import PropertyDescriptor, css_property_descriptor_map
from svgpy.css.types import CSSStyleValue

SVG = 'http://www.w3.org/2000/svg'
LENGTHS = ['em', 'ex', 'ch', 'ic', 'rem', 'lh', 'rlh', 'vw', 'vh',
           'vi', 'vb', 'vmin', 'vmax', 'cm', 'mm', 'q', 'in', 'pt', 'pc',
           'px']
ANGLES = ['deg', 'grad', 'rad', 'turn']
TIMES = ['s', 'ms']
RESOLUTIONS = ['dpi', 'dpcm', 'dppx']
OTHERS = ['hz', 'khz', 'fr', 'x', 'foo']
WIDE = ['inherit', 'initial', 'unset']
TYPES = ['length', 'number', 'percentage', 'length-percentage', 'color',
         'image', 'url', 'integer', 'angle', 'time', 'resolution',
         'transform-function', 'transform-list', 'custom-ident', 'string',
         'keywords']
COLORS = ['red', 'transparent', 'currentcolor', 'navy']
IMAGES = ['image', 'linear-gradient', 'repeating-radial-gradient']
TRANSFORMS = ['matrix', 'translate', 'scale', 'rotate', 'skewx']
KEYWORDS = ['ab', 'on', 'a-b']


def types_of(types):
    syntax = ' | '.join([' | '.join(KEYWORDS) if x == 'keywords'
                         else '<' + x + '>' for x in types])
    return syntax, PropertyDescriptor('--p', False, syntax)


def cased(t, s, name):
    return {'lower': s, 'upper': s.upper(),
            'mixed': s[:1].upper() + s[1:]}[
        t.choice(name, ['lower', 'upper', 'mixed'])]


def a_number(t, i):
    return t.choice('form' + i, ['%s', '-%s', '.%s', '%s.5', '+%se1'])\
        .replace('%s', t.text('v' + i, 1, '0123456789'))


def component(t, kind, types, i=''):
    """A component value and whether one of the types has it."""
    has = lambda *x: any([y in types for y in x])
    if kind == 'dimension':
        num = a_number(t, i)
        group = t.choice('units' + i, ['length', 'angle', 'time',
                                       'resolution', 'other'])
        unit = t.choice('unit' + i, {
            'length': LENGTHS, 'angle': ANGLES, 'time': TIMES,
            'resolution': RESOLUTIONS, 'other': OTHERS}[group])
        return num + cased(t, unit, 'case' + i), {
            'length': has('length', 'length-percentage'),
            'other': False}.get(group, has(group))
    if kind == 'integer':
        s = t.text('n' + i, 2, '0123456789')
        return s, has('integer', 'number', 'length', 'length-percentage',
                      'custom-ident', 'string')
    if kind == 'real':
        s = t.text('n' + i, 1, '0123456789') + '.' \
            + t.text('f' + i, 1, '0123456789')
        return s, has('number', 'length', 'length-percentage',
                      'custom-ident', 'string')
    if kind == 'percentage':
        return a_number(t, i) + '%', has('percentage', 'length-percentage')
    if kind == 'hash':
        n = t.choice('n' + i, [1, 2, 3, 4, 5, 6, 7, 8, 9])
        s = t.text('h' + i, n, '0aFgx')
        good = n in (3, 4, 6, 8) and all([c not in 'gx' for c in s])
        return '#' + s, has('color') and good
    if kind == 'ident':
        s = t.text('w' + i, t.choice('n' + i, [1, 2, 3]), 'abonABON-')
        t.assume(s[0] != '-')
        return s, has('custom-ident', 'string') or (
            has('keywords') and bool(s.lower() in KEYWORDS))
    if kind == 'color':
        s = cased(t, t.choice('w' + i, COLORS), 'case' + i)
        return s, has('color', 'custom-ident', 'string')
    if kind == 'wide':
        return cased(t, t.choice('w' + i, WIDE), 'case' + i), True
    if kind == 'string':
        s = t.text('s' + i, 2, 'abon ')
        q = t.choice('q' + i, ['"', "'"])
        return q + s + q, has('custom-ident', 'string')
    if kind == 'quoted':
        return '"' + t.choice('w' + i, COLORS + WIDE + KEYWORDS) + '"', \
            has('custom-ident', 'string')
    if kind == 'url':
        s = t.text('s' + i, 2, 'ab#/')
        q = t.choice('q' + i, ['"', ''])
        return 'url(' + q + s + q + ')', has('url', 'image')
    if kind == 'function':
        group = t.choice('group' + i, ['color', 'image', 'transform', 'math',
                                       'var', 'other'])
        name = t.choice('name' + i, {
            'color': ['rgb', 'rgba', 'hsl', 'hsla'], 'image': IMAGES,
            'transform': TRANSFORMS, 'math': ['calc', 'min', 'max', 'clamp'],
            'var': ['var'], 'other': ['foo', 'xrgb']}[group])
        s = cased(t, name, 'case' + i) + '(' \
            + t.choice('args' + i, ['1', '--a', '1px, 2']) + ')'
        return s, {'color': has('color'), 'image': has('image'),
                   'transform': has('transform-function', 'transform-list'),
                   'math': has('length-percentage'),
                   'var': True, 'other': False}[group]
    if kind == 'block':
        return t.choice('b' + i, ['[a]', '(a)', '{a}', '@a', '[]', '{}',
                                  ']', ')', '(1px)']), False
    raise ValueError(kind)


KINDS = ['dimension', 'integer', 'real', 'percentage', 'hash', 'ident',
         'color', 'wide', 'string', 'quoted', 'url', 'function', 'block']


@harness('C53', cases=[dict(kind=k) for k in KINDS], budget=(60, 300),
         max_paths=20000)
def c53_component(t, kind):
    """A value of one component is supported when a type of the syntax has
    it."""
    x = t.choice('type', TYPES if kind != 'hash' else
                 ['color', 'keywords', 'custom-ident', 'integer'])
    types = [x]
    if kind in ('block', 'wide', 'quoted', 'percentage') and t.bool('two'):
        types.append(t.choice('second', TYPES))
    syntax, desc = types_of(types)
    s, want = component(t, kind, types)
    t.check(desc.supports(s) is want, 'supports', syntax)
    if kind not in ('hash', 'dimension'):
        t.check(desc.supports(' ' + s + '/**/ ') is want,
                'whatever the white space', syntax)


@harness('C53', cases=[dict(kind=k) for k in KINDS if k != 'block'],
         budget=(60, 300), max_paths=20000)
def c53_registered(t, kind):
    """Values of a registered custom property are parsed by its syntax,
    those of others are anything."""
    doc = SVGParser().create_document(SVG)
    x = t.choice('type', ['color', 'keywords'] if kind == 'hash' else
                 ['length', 'number', 'color', 'keywords', 'angle'])
    syntax, desc = types_of([x])
    s, want = component(t, kind, [x])
    t.no_raise('any value before',
               lambda: CSSStyleValue.parse('--p', s, context=doc))
    CSS.register_property(desc, context=doc)
    t.check(doc.registered_property_set['--p'] is desc, 'registered')
    t.rejects('only once', ValueError, CSS.register_property,
              types_of(['number'])[1], context=doc)
    if kind == 'function' and 'var' in s.lower():
        return
    if want:
        t.no_raise('supported: ' + syntax,
                   lambda: CSSStyleValue.parse('--p', s, context=doc))
    else:
        t.rejects('not supported: ' + syntax, ValueError,
                  lambda: CSSStyleValue.parse('--p', s, context=doc))
    t.no_raise('any value of another',
               lambda: CSSStyleValue.parse('--q', s, context=doc))


@harness('C53')
def c53_names(t):
    """Only names of custom properties can be registered."""
    doc = SVGParser().create_document(SVG)
    n = t.text('name', 3, 'a-b')
    d = PropertyDescriptor(n, False, '<length>')
    if n.startswith('--'):
        CSS.register_property(d, context=doc)
        t.check(n in doc.registered_property_set, 'registered')
        t.eq(len(doc.registered_property_set), 1, 'only that')
    else:
        t.rejects('no custom property', ValueError, CSS.register_property, d,
                  context=doc)
        t.eq(len(doc.registered_property_set), 0, 'nothing registered')


PROPS = {'width': ['length-percentage', 'auto', 'min-content',
                   'max-content'],
         'color': ['color'], 'opacity': ['number', 'percentage'],
         'stroke-width': ['length-percentage'],
         'direction': ['ltr', 'rtl'],
         'isolation': ['auto', 'isolate'],
         'stroke-linecap': ['butt', 'round', 'square'],
         'fill-rule': ['nonzero', 'evenodd'],
         'stop-color': ['color'], 'fill-opacity': ['number', 'percentage'],
         'text-rendering': ['auto', 'optimizespeed', 'optimizelegibility',
                            'geometricprecision'],
         'pointer-events': ['auto', 'bounding-box', 'visiblepainted',
                            'visiblefill', 'visiblestroke', 'visible',
                            'painted', 'fill', 'stroke', 'all', 'none']}


@harness('C53', cases=[dict(name=n) for n in sorted(PROPS)], budget=(60, 300))
def c53_property(t, name):
    """CSS.supports says which values a property of CSS has, whatever the
    case of its name and of keywords."""
    types = PROPS[name]
    kind = t.choice('kind', ['dimension', 'percentage', 'word', 'any word',
                             'real', 'function'])
    if kind == 'word':
        w = t.choice('word', sorted(set([k for v in PROPS.values() for k in v
                                         if k not in TYPES])))
        s, want = cased(t, w, 'wcase'), w in types
    elif kind == 'any word':
        s = t.text('w', 4, 'autonelr')
        want = bool(s in types)
        t.assume(s != 'tan' and (want or 'color' not in types))
    else:
        s, want = component(t, kind, types)
    n = cased(t, name, 'pcase')
    t.check(CSS.supports(n, s) is want, 'supports')


@harness('C53')
def c53_unknown(t):
    """No value of an unknown property is supported."""
    n = t.text('name', 3, 'abx')
    t.assume(n not in css_property_descriptor_map)
    t.check(CSS.supports(n, t.choice('value', ['1px', 'auto', 'inherit',
                                               ''])) is False, 'unknown')


@harness('C53', cases=[dict(a=a, b=b) for a in ('wide', 'ident', 'percentage')
                       for b in ('wide', 'ident', 'percentage')],
         budget=(60, 300))
def c53_several(t, a, b):
    """CSS-wide keywords stand alone; commas are for lists."""
    types = [t.choice('type', ['keywords', 'percentage', 'number'])]
    many = t.bool('list')
    syntax, _ = types_of(types)
    if many:
        syntax = '[ ' + syntax + ' ]#'
    desc = PropertyDescriptor('--p', False, syntax)
    x, okx = component(t, a, types, 'a')
    y, oky = component(t, b, types, 'b')
    comma = t.bool('comma')
    both = okx and oky
    words = [w for w in (x, y) if w.lower() in WIDE]
    want = bool(both and len(words) == 0 and (many or not comma))
    t.check(desc.supports(x + (', ' if comma else ' ') + y) is want,
            'supports', syntax)
