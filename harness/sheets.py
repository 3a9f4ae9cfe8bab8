"""Style sheets: their rules, imports, edits, and how they are loaded."""
PROPERTIES = ['C47', 'C48']

import contextlib
from urllib.error import URLError

import svgpy.css
from symx.api import harness
from svgpy.css import CSSParser, CSSStyleSheet
from svgpy.style import flatten_css_rules
from svgpy.url import URL
from svgpy.utils import get_content_type, load, normalize_url
from svgpy.window import SVGDOMImplementation, Window

STYLE, IMPORT, MEDIA, FACE, NAMESPACE, FEATURES = 1, 3, 4, 5, 10, 14


@contextlib.contextmanager
def files(t, table, headers=None, seen=None):
    """Loading reads the table of (address, text) instead of the network."""
    def fake(url, encoding=None, **kwargs):
        for k, v in table:
            if k == url:
                if seen is not None:
                    seen.append(url)
                return v.encode('utf-8'), headers or {}
        raise URLError('not found')
    old = svgpy.css.load
    svgpy.css.load = fake
    try:
        yield
    finally:
        svgpy.css.load = old


# ---------------------------------------------------------------- C47: rules

def style_piece(t, a, b):
    def ok(r):
        t.eq(r.type, STYLE, 'a style rule')
        t.eq(r.selector_text, a + ' .' + b, 'selector')
        t.eq(list(r.style), ['fill', 'x-' + a], 'declared names')
        t.eq(r.style['fill'], b, 'declared value')
        t.eq(r.style.get_property_priority('fill'), '', 'no priority')
        t.eq(r.style.get_property_priority('x-' + a), 'important',
             'priority')
        t.check(r.style.parent_rule is r, 'declarations know their rule')
    return (a + ' .' + b + ' { fill:' + b + '; x-' + a + ': 1 !important }',
            [ok])


def media_piece(t, a, b):
    inner, oks = style_piece(t, b, a)
    face, fs = face_piece(t, a, b)

    def ok(r):
        t.eq(r.type, MEDIA, 'a media rule')
        t.eq(r.condition_text, a + ', print', 'condition')
        t.eq(list(r.media), [a, 'print'], 'media list')
        t.eq(len(r.css_rules), 2, 'rules in the block')
        for x, f in zip(r.css_rules, oks + fs):
            f(x)
            t.check(x.parent_rule is r, 'parent rule of a nested rule')
            t.check(x.parent_style_sheet is r.parent_style_sheet,
                    'sheet of a nested rule')
    return '@media ' + a + ',print{ ' + inner + '/**/' + face + '@x ;}', [ok]


def face_piece(t, a, b):
    def ok(r):
        t.eq(r.type, FACE, 'a font-face rule')
        t.eq(r.style['font-family'], a + b, 'descriptor')
        t.eq(len(r.style), 1, 'one descriptor')
    return '@Font-Face {font-family: ' + a + b + '}', [ok]


def namespace_piece(t, a, b, form=0):
    u = ['url(' + b + ':y)', '"' + b + ':y"', 'url( "' + b + ':y" )'][form]

    def ok(r):
        t.eq(r.type, NAMESPACE, 'a namespace rule')
        t.eq(r.prefix, a if form else '', 'prefix')
        t.eq(r.namespace_uri, b + ':y', 'namespace')
    return '@namespace ' + (a + ' ' if form else '') + u + ';', [ok]


def feature_piece(t, a, b):
    def ok(r):
        t.eq(r.type, FEATURES, 'a font-feature-values rule')
        t.eq(r.font_family, a + ' b', 'family')
        t.eq(list(r.styleset), [b], 'names')
        t.eq(r.styleset[b], [1, 2], 'values')
        t.eq(len(r.swash), 0, 'other features')
    return ('@font-feature-values ' + a + ' b { @styleset { ' + b +
            ': 1 2 } }', [ok])


def pieces(t, a, b):
    return [
        style_piece(t, a, b),
        media_piece(t, a, b),
        face_piece(t, a, b),
        namespace_piece(t, a, b, 0),
        namespace_piece(t, a, b, 1),
        namespace_piece(t, a, b, 2),
        feature_piece(t, a, b),
        ('/*' + a + '{}*/', []),
        ('@' + a + 'x ' + b + ' { c { d: e } }', []),
        ('@' + a + 'x ' + b + ';', []),
        ('@media ' + a + ';', []),
        ('@font-face ;', []),
        ('@font-feature-values ' + a + ';', []),
        ('@charset "utf-8";', []),
        ('<!--', []), ('-->', []), (' \n', []),
    ]


@harness('C47', cases=[dict(n=2), dict(n=3, _tier='thorough')],
         budget=(120, 800), max_paths=20000)
def c47_sequence(t, n):
    """The rules of a sheet are the ones of its text, in order; comments,
    unknown at-rules and at-rules that lack their block are none."""
    text, want = '', []
    for i in range(n):
        a = t.text('a%d' % i, 1, 'mn')
        b = t.text('b%d' % i, 1, 'pq')
        k = t.choice('k%d' % i, list(range(17)))
        s, oks = pieces(t, a, b)[k]
        text += s
        want += oks
    how = t.choice('how', ['string', 'bytes']) if n == 2 else 'string'
    if how == 'string':
        sheet = CSSStyleSheet()
        sheet.insert_rule(text)
    else:
        with files(t, [('http://h/a.css', text)]):
            sheet = CSSParser.parse('http://h/a.css')
    t.eq(len(sheet.css_rules), len(want), 'number of rules')
    for r, ok in zip(sheet.css_rules, want):
        ok(r)
        t.check(r.parent_style_sheet is sheet, 'parent sheet')
        t.check(r.parent_rule is None, 'no parent rule')


@harness('C47', cases=[dict(place=p, n=3) for p in ('sheet', 'media')] +
         [dict(place=p, n=4, _tier='thorough') for p in ('sheet', 'media')],
         budget=(120, 800), max_paths=20000)
def c47_edit(t, place, n):
    """Inserting and deleting rules is inserting into and deleting from
    the list of rules; the others stay as they are."""
    sheet = CSSStyleSheet()
    if place == 'sheet':
        box, parent = sheet, None
    else:
        sheet.insert_rule('@media print { x {} }')
        box = parent = sheet.css_rules[0]
    model = list(box.css_rules)
    t.eq(len(model), 0 if place == 'sheet' else 1, 'at first')
    for i in range(n):
        op = t.choice('op%d' % i, ['insert', 'two', 'delete'])
        at = t.choice('at%d' % i, list(range(len(model) + 1)))
        if op == 'delete':
            if at == len(model):
                t.rejects('no such rule', IndexError, box.delete_rule, at)
            else:
                box.delete_rule(at)
                del model[at]
        else:
            name = t.text('s%d' % i, 1, 'ab')
            text = '.' + name + '{fill: red}'
            if op == 'two':
                text += '@media all { x {} }'
            t.eq(box.insert_rule(text, at), at, 'returned index')
            new = box.css_rules[at]
            t.eq(new.selector_text, '.' + name, 'inserted rule')
            count = 2 if op == 'two' else 1
            for x in box.css_rules[at:at + count]:
                t.check(x.parent_rule is parent, 'its parent rule')
                t.check(x.parent_style_sheet is sheet, 'its sheet')
            model[at:at] = list(box.css_rules[at:at + count])
        t.eq(len(box.css_rules), len(model), 'number of rules')
        for x, y in zip(box.css_rules, model):
            t.check(x is y, 'the rule at its place')


FEATURE = ['annotation', 'character-variant', 'ornaments', 'styleset',
           'stylistic', 'swash']


@harness('C47', cases=[dict(n=2), dict(n=3, _tier='thorough')],
         budget=(120, 800), max_paths=20000)
def c47_features(t, n):
    """Each block of @font-feature-values maps names in any case to lists of
    integers; a later declaration of a name wins and invalid declarations
    are dropped."""
    ref = {k: [] for k in FEATURE}
    text = ''
    for i in range(n):
        name = t.text('name%d' % i, 1, 'aAb')
        d = t.text('d%d' % i, 1, '0123456789')
        form = t.choice('form%d' % i, [list(range(9)), [2, 3, 4], [0]][i])
        kind = t.choice('kind%d' % i, FEATURE if form == 0 else FEATURE[2:4])
        value = [d, ' ' + d + ' 7 ', d + '/**/0', '-' + d, d + '.5',
                 d + ' x', '', d + '!important', d + ',1'][form]
        end = t.choice('end%d' % i, [['', ';'], ['', ';', ' ; swash: 1;'], ['']][i])
        text += '@' + (kind.upper() if i else kind) + '{' + name + ':' + \
            value + end + '}'
        if form < 3:
            v = int(d)
            new = [[v], [v, 7], [v, 0]][form]
            ref[kind] = [x for x in ref[kind]
                         if x[0].lower() != name.lower()] + [(name, new)]
        elif form == 3:
            # minus zero is an integer that is not negative
            t.assume(int(d) != 0)
        if end.startswith(' '):
            ref[kind] = [x for x in ref[kind] if x[0].lower() != 'swash'] + \
                [('swash', [1])]
        if i == 1 and t.bool('broken'):
            text += '@' + kind + ' ;'
    sheet = CSSStyleSheet()
    sheet.insert_rule('@font-feature-values A B{' + text + '} p {}')
    t.eq(len(sheet.css_rules), 2, 'rules')
    r = sheet.css_rules[0]
    t.eq(r.font_family, 'A B', 'family')
    for k in FEATURE:
        got = getattr(r, k.replace('-', '_'))
        t.eq(len(got), len(ref[k]), 'number of names')
        for name, v in ref[k]:
            t.eq(got[name], v, 'values')
            t.eq(got[name.upper()], v, 'any case')


# ------------------------------------------------------------- C47: imports

def resolved(base, form, name):
    """The address of an import in the sheet at http://h/... (a list of the
    directories of the base)."""
    if form == 0:
        return base, name
    if form == 1:
        return base + ['s'], name
    if form == 2:
        return base[:-1], name
    if form == 3:
        return ['t'], name
    return None, name


WRITTEN = [lambda n: n, lambda n: 's/' + n, lambda n: '../' + n,
           lambda n: '/t/' + n, lambda n: 'http://o/' + n]


def address(where):
    dirs, name = where
    if dirs is None:
        return 'http://o/' + name
    return 'http://h/' + ''.join(d + '/' for d in dirs) + name


@harness('C47', cases=[dict(start=s) for s in ('parse', 'link', 'element')],
         budget=(120, 600), max_paths=20000)
def c47_import(t, start):
    """An import loads the sheet at the address it gives, relative to the
    sheet it stands in; so do the imports of that sheet."""
    a = t.text('a', 1, 'pq') + '.css'
    b = t.text('b', 1, 'rs') + '.css'
    f = t.choice('first', [0, 1, 2, 3, 4])
    g = t.choice('second', [0, 1, 2, 3])
    quote = t.choice('quote', [('"', '"'), ('url(', ')'), ('url("', '")')])
    media = t.choice('media', ['', ' print', ' print , All'])
    first = resolved(['x', 'y'], f, a)
    base = first[0] if first[0] is not None else []
    second = resolved(base, g, b)
    host = 'http://h/' if first[0] is not None else 'http://o/'
    u1 = address(first)
    u2 = host + address(second)[len('http://h/'):]
    text = '@import ' + quote[0] + WRITTEN[f](a) + quote[1] + media + ';.m{}'
    nested = '@IMPORT "' + WRITTEN[g](b) + '";.n{}'
    seen = []
    table = [(u1, nested), (u2, '.o { fill: red }')]
    if start == 'element':
        win = Window(SVGDOMImplementation())
        win.document._document_uri = None
    with files(t, [('http://h/x/y/main.css', text)] + table, seen=seen):
        if start == 'parse':
            sheet = CSSParser.parse('http://h/x/y/main.css')
        elif start == 'link':
            from svgpy import SVGParser
            e = SVGParser().create_element_ns(
                'http://www.w3.org/1999/xhtml', 'link',
                attrib={'rel': 'stylesheet', 'href': 'y/main.css'})
            sheet = CSSParser.parse('http://h/x/y/main.css', owner_node=e)
            t.check(sheet.owner_node is e, 'owner of the sheet')
            t.eq(sheet.href, 'y/main.css', 'href as given')
        else:
            sheet = CSSStyleSheet(href='http://h/x/y/main.css')
            sheet.insert_rule(text)
    t.eq(len(sheet.css_rules), 2, 'rules of the sheet')
    r = sheet.css_rules[0]
    t.eq(r.type, IMPORT, 'an import')
    t.eq(r.href, u1, 'address')
    t.eq(list(r.media), {'': [], ' print': ['print']}.get(
        media, ['print', 'All']), 'media')
    inner = r.style_sheet
    t.check(inner.owner_rule is r, 'owner rule')
    t.eq(len(inner.css_rules), 2, 'rules of the imported sheet')
    s = inner.css_rules[0]
    t.eq(s.href, u2, 'address of the nested import')
    t.check(s.parent_style_sheet is inner, 'sheet of the nested import')
    t.eq(inner.css_rules[1].selector_text, '.n', 'its other rule')
    t.eq(len(s.style_sheet.css_rules), 1, 'rules of the nested sheet')
    t.eq(s.style_sheet.css_rules[0].selector_text, '.o', 'nested rule')
    t.eq(len(seen), 2 if start == 'element' else 3, 'sheets loaded')


@harness('C47', cases=[dict(n=2), dict(n=3, _tier='thorough')],
         budget=(120, 800), max_paths=20000)
def c47_graph(t, n):
    """Whatever sheets import each other (themselves included), the rules
    are those of the imports that do not lead back to a sheet being
    imported."""
    names = ['a', 'b', 'c'][:n]
    links = {}
    for x in names:
        links[x] = [y for y in names if t.bool(x + y)]
    gone = t.choice('gone', [None] + names[1:])
    style = t.choice('style', ['@import "%s.css";', '@import url(../d/%s.css);'])
    table = [('http://h/d/%s.css' % x,
              ''.join(style % y for y in links[x]) + '.%s{}' % x)
             for x in names if x != gone]

    def expand(x, active):
        out = []
        if x == gone:
            return out
        for y in links[x]:
            if y not in active:
                out += expand(y, active + [y])
        return out + ['.' + x]

    win = Window(SVGDOMImplementation())
    with files(t, table):
        sheet = CSSParser.parse('http://h/d/a.css')
        rules = flatten_css_rules(win.document.document_element,
                                  sheet.css_rules)
    t.eq([r.selector_text for r in rules], expand('a', ['a']), 'rules')


@harness('C47', budget=(120, 600))
def c47_applies(t):
    """Of imports and blocks only those whose media match take part, in the
    order of the text."""
    win = Window(SVGDOMImplementation())
    w = win.inner_width = 600
    win.screen.media = 'screen'
    text = t.text('min', 3, '0123456789')
    x = int(text)
    kind = t.choice('kind', ['min', 'max', 'not', 'print', 'all', 'list'])
    query = {'min': '(min-width: ' + text + 'px)',
             'max': 'screen and (max-width: ' + text + 'px)',
             'not': 'not screen', 'print': 'print', 'all': 'all',
             'list': 'print, (min-width: ' + text + 'px)'}[kind]
    yes = {'min': w >= x, 'max': w <= x, 'not': False, 'print': False,
           'all': True, 'list': w >= x}[kind]
    where = t.choice('where', ['import', 'media', 'both', 'nested'])
    rule = '.b{}.c{}'
    main = {'import': '@import "b.css" ' + query + ';',
            'media': '@media ' + query + '{' + rule + '}',
            'both': '@import "c.css" ' + query + ';',
            'nested': '@media all{@media ' + query + '{' + rule + '}}'}[where]
    with files(t, [('http://h/a.css', '.a{}' + main + '.d{}'),
                   ('http://h/b.css', rule),
                   ('http://h/c.css', '@media ' + query + '{' + rule + '}')]):
        sheet = CSSParser.parse('http://h/a.css')
    got = [r.selector_text for r in flatten_css_rules(
        win.document.document_element, sheet.css_rules)]
    if yes:
        t.eq(got, ['.a', '.b', '.c', '.d'], 'matching media')
    else:
        t.eq(got, ['.a', '.d'], 'other media')


# ------------------------------------------------------------------ C48

SAFE = 'aZ1-{}:;,'


def percent(c):
    return '%%%02X' % ord(c)


@harness('C48', cases=[dict(n=3), dict(n=5, _tier='thorough')],
         budget=(120, 600))
def c48_text(t, n):
    """The data of a data: URL is what follows the first comma, its escapes
    decoded; its type is what stands before it."""
    body = t.text('body', n, SAFE)
    esc, plain = t.choice('escape', [('', ''), ('%20', ' '), ('%3F', '?'),
                                     ('%23', '#'), ('%25', '%'),
                                     ('%2c', ',')])
    kind = t.choice('type', ['', 'text/css', 'text/css;charset=utf-8',
                             'image/svg+xml;x=base64', ' text/css ',
                             ';charset=utf-8'])
    data, headers = load(t.choice('scheme', ['data:', 'DATA:']) + kind +
                         ',' + body + esc)
    want = kind.strip() or 'text/plain;charset=US-ASCII'
    t.eq(headers['content-type'], want, 'type')
    t.eq(data.decode('utf-8'), body + plain, 'data')
    text, headers = load('data:' + kind + ',' + body + esc,
                         encoding='utf-8')
    t.eq(text, body + plain, 'decoded data')


ENCODED = [('QQ==', b'A'), ('QQ%3D%3D', b'A'), ('YXtiOmN9', b'a{b:c}'),
           ('', b''), ('/+8=', b'\xff\xef')]


@harness('C48')
def c48_base64(t):
    """With base64 as the last parameter of its type the data is decoded;
    the parameter itself does not belong to the type."""
    src, want = t.choice('data', ENCODED)
    word = t.text('word', 2, 'bB')[0:1] + t.choice('rest', ['ase64', 'ASE64'])
    kind = t.choice('type', ['', 'text/css', 'text/css;a=b'])
    name = t.text('p', 1, 'xyz')
    if t.bool('parameter'):
        kind += ';' + name + '=1'
    space = t.choice('space', ['', ' '])
    data, headers = load('data:' + kind + ';' + space + word + ',' + src)
    t.eq(data, want, 'decoded')
    t.eq(headers['Content-Type'], kind or 'text/plain;charset=US-ASCII',
         'type')


@harness('C48', cases=[dict(n=2), dict(n=3, _tier='thorough')],
         budget=(120, 600))
def c48_content_type(t, n):
    """A content type is its type and its parameters: names in any case,
    values quoted or not, space around either."""
    ref = []
    text = t.choice('type', ['text/css', ' text/css', 'text/css '])
    for i in range(n):
        name = t.text('n%d' % i, 1, 'aAb')
        value = t.text('v%d' % i, 2, 'xY=')
        q = t.choice('q%d' % i, ['', '"'][i == 2:])
        s = t.choice('s%d' % i, ['', ' '][i == 2:])
        junk = t.choice('j%d' % i, ['', ';', '; novalue'][:1 if i == 2 else 3])
        text += junk + ';' + s + name + s + '=' + s + q + value + q + s
        ref = [x for x in ref if x[0].lower() != name.lower()] + \
            [(name, value)]
    got = get_content_type({t.choice('key', ['Content-Type',
                                             'content-type']): text})
    t.eq(got[None], 'text/css', 'type')
    t.eq(len(got), 1 + len(ref), 'number of parameters')
    for k, v in ref:
        t.eq(got[k], v, 'value')
        t.eq(got[k.upper()], v, 'any case')
    t.check(get_content_type({'Content-Length': text}) is None, 'no type')


@harness('C48')
def c48_sheet(t):
    """A sheet given as a data: URL has the rules of its text."""
    a = t.text('a', 2, 'ab')
    v = t.text('v', 2, 'xy')
    kind = t.choice('type', ['text/css', 'text/css;charset=utf-8',
                             'text/css;charset="UTF-8"', ''])
    url = 'data:' + kind + ',' + a + '{fill:' + v + '}.c{}'
    way = t.choice('way', ['parse', 'import'])
    if way == 'parse':
        sheet = CSSParser.parse(url)
    else:
        outer = CSSStyleSheet(href='http://h/a.css')
        outer.insert_rule("@import url('" + url + "');")
        sheet = outer.css_rules[0].style_sheet
    t.eq(len(sheet.css_rules), 2, 'rules')
    t.eq(sheet.css_rules[0].selector_text, a, 'selector')
    t.eq(sheet.css_rules[0].style['fill'], v, 'value')


CODES = [('utf-8', b'\xc3\xa9'), ('windows-1252', b'\xe9'),
         ('shift_jis', b'\x83\x8f'), ('iso-8859-5', b'\xd9')]


@harness('C48')
def c48_encoding(t):
    """The bytes of a sheet are read in the encoding that is asked for, else
    the one of its content type, else of its @charset, else UTF-8."""
    wanted = t.choice('argument', [None, 0, 1, 2])
    header = t.choice('header', [None, '', 1, 2, 3])
    rule = t.choice('rule', [None, 0, 1, 3])
    code = wanted if wanted is not None else \
        header if header not in (None, '') else \
        rule if rule is not None else 0
    name, raw = CODES[code]
    upper = t.bool('upper')
    data = b'' if rule is None else \
        b'@charset "' + CODES[rule][0].encode() + b'";'
    data += b'.k { x: "' + raw + b'" }'
    headers = {}
    if header == '':
        headers['Content-Type'] = 'text/css'
    elif header is not None:
        n = CODES[header][0]
        headers['content-type' if upper else 'Content-Type'] = \
            'text/css; charset=' + (n.upper() if upper else n)

    def fake(url, **kwargs):
        return data, headers
    old = svgpy.css.load
    svgpy.css.load = fake
    try:
        sheet = CSSParser.parse('http://h/a.css', encoding=None
                                if wanted is None else CODES[wanted][0])
    finally:
        svgpy.css.load = old
    t.eq(len(sheet.css_rules), 1, 'rules')
    t.eq(sheet.css_rules[0].style['x'], '"' + raw.decode(name) + '"',
         'decoded text')


@harness('C48')
def c48_normalize(t):
    """A relative address is resolved against the base, or the working
    directory when there is none."""
    import os
    from pathlib import PurePath
    a = t.text('a', 2, 'ab')
    base = t.choice('base', [None, 'about:blank', 'http://h/x/y'])
    src = t.choice('src', [a, 'z/../' + a, 'http://o/' + a])
    got = normalize_url(src, base)
    if src.startswith('http'):
        want = src
    elif base is not None and base.startswith('http'):
        want = 'http://h/x/' + a
    else:
        want = URL(a, base=PurePath(os.getcwd()).as_uri()).href
    t.eq(got.href, want, 'address')
    t.rejects('neither text nor location', TypeError, normalize_url, 1)
