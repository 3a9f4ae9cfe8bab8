"""Finding elements; attributes reflected as properties."""
PROPERTIES = ['C44', 'C45']

from symx.api import harness
from svgpy import SVGParser

SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
NS = {'s': SVG, 'h': XHTML}


class Tree(object):
    """A tree of elements given by the parent of each one; the first one
    is the root."""

    def __init__(self, names, parents):
        self.parser = SVGParser()
        self.nodes = []
        self.parents = list(parents)
        self.names = list(names)
        for n, p in zip(names, parents):
            ns, local = (XHTML, n[2:]) if n[1:2] == ':' else (SVG, n)
            e = self.parser.create_element_ns(
                ns, local, nsmap=None if n[1:2] == ':' else {None: SVG})
            if p is not None:
                if p == 0 and n == 'rect':
                    self.nodes[p].append(self.parser.create_comment('c'))
                self.nodes[p].append(e)
            self.nodes.append(e)

    def order(self, i=0):
        """Indices of the subtree in document order."""
        out = [i]
        for j, p in enumerate(self.parents):
            if p == i:
                out += self.order(j)
        return out

    def above(self, i):
        out, p = [], self.parents[i]
        while p is not None:
            out.append(p)
            p = self.parents[p]
        return out

    def siblings(self, i):
        return [j for j, p in enumerate(self.parents) if p == self.parents[i]]

    def attach(self):
        d = self.parser.create_document(SVG)
        d.append(self.nodes[0])
        return d


SHAPES = [[None, 0, 1, 1, 0], [None, 0, 0, 2, 2], [None, 0, 1, 2, 0]]
NAMES = ['svg', 'g', 'rect', 'g', 'svg']


def tree(t, names=NAMES):
    return Tree(names, t.choice('shape', SHAPES))


def found(t, got, tr, exp, label):
    """The nodes with these indices, in this order."""
    got = list(got)
    t.check(len(got) == len(exp), label + ': how many',
            '%d / %d' % (len(got), len(exp)))
    for g, i in zip(got, exp):
        t.check(g is tr.nodes[i], label)


@harness('C44')
def c44_id(t):
    """The first element in document order with the id, or none."""
    tr = tree(t)
    ids = []
    for i, e in enumerate(tr.nodes):
        if i == 2 and t.bool('no id'):
            ids.append(None)
            continue
        v = t.text('id%d' % i, 2, 'aA.b') if i in (1, 3) else \
            t.choice('same%d' % i, ['A.', 'b']) if i != 4 else ids[1]
        e.id = v
        ids.append(v)
    want = t.text('want', 2, 'aA.b')
    exp = None
    for i in tr.order():
        if ids[i] is not None and ids[i] == want:
            exp = i
            break
    d = tr.attach()
    for f, n in ((d.get_element_by_id, 'document'),
                 (tr.nodes[0].get_element_by_id, 'svg')):
        got = f(want)
        t.check(got is (None if exp is None else tr.nodes[exp]), n)
    sub = [i for i in tr.order() if tr.names[i] == 'svg'][-1]
    exp = None
    for i in tr.order(sub):
        if ids[i] is not None and ids[i] == want:
            exp = i
            break
    got = tr.nodes[sub].get_element_by_id(want)
    t.check(got is (None if exp is None else tr.nodes[exp]), 'inner svg')


@harness('C44')
def c44_class(t):
    """The elements that have all of the classes, in document order; no
    class of the name is special and part of a class is not a class."""
    tr = tree(t)
    have = []
    for i, e in enumerate(tr.nodes):
        if i in (1, 2):
            cs = [t.text('a%d' % i, 1, 'x.'), t.text('b%d' % i, 2, 'x.y')]
        else:
            cs = [[], ['x', 'y'], ['xx.'], ['x.', '.y', 'x'], ['yy']][i]
        have.append(cs)
        if cs:
            e.set('class', t.choice('sep', [' ', '\t', '  ']).join(cs)
                  if i == 1 else ' '.join(cs))
    want = [t.text('want', t.choice('length', [1, 2]), 'x.')]
    if t.bool('two'):
        want.append('x')
    text = '\n'.join(want) + t.choice('end', ['', ' '])

    def match(i):
        for w in want:
            hit = False
            for c in have[i]:
                if c == w:
                    hit = True
                    break
            if not hit:
                return False
        return True
    d = tr.attach()
    every = [i for i in tr.order() if match(i)]
    found(t, d.get_elements_by_class_name(text), tr, every, 'document')
    found(t, tr.nodes[0].get_elements_by_class_name(text), tr, every, 'svg')
    found(t, tr.nodes[1].get_elements_by_class_name(text), tr,
          [i for i in tr.order(1)[1:] if match(i)], 'group')


@harness('C44')
def c44_class_none(t):
    """No class names match nothing."""
    tr = tree(t)
    for e in tr.nodes:
        e.set('class', 'x')
    for w in ('', ' '):
        found(t, tr.nodes[0].get_elements_by_class_name(w), tr, [], 'none')
        found(t, tr.nodes[1].get_elements_by_class_name(w), tr, [], 'none')


@harness('C44')
def c44_tag(t):
    """Elements by qualified name, by local name and by namespace; '*'
    stands for all; comments do not count; only the svg element and the
    document count the root."""
    tr = tree(t, ['svg', 'h:g', 'rect', 'g', 'svg'])
    d = tr.attach()
    local = [n.split(':')[-1] for n in tr.names]
    ns = [XHTML if ':' in n else SVG for n in tr.names]
    qual = [e.node_name for e in tr.nodes]
    name = t.choice('name', ['*', 'svg', 'g', 'rect', 'G', 'html:g'])
    space = t.choice('space', ['*', SVG, XHTML, 'urn:x'])
    t.check([e.local_name for e in tr.nodes] == local, 'local names')
    t.check([e.namespace_uri for e in tr.nodes] == ns, 'namespaces')
    for root, node, self in ((0, d, True), (0, tr.nodes[0], True),
                             (1, tr.nodes[1], False)):
        nodes = tr.order(root)[0 if self else 1:]
        found(t, node.get_elements_by_tag_name(name), tr,
              [i for i in nodes if name in ('*', qual[i])], 'name')
        found(t, node.get_elements_by_tag_name_ns(space, name), tr,
              [i for i in nodes if name in ('*', local[i])
               and space in ('*', ns[i])], 'namespace')
    for root in (0, 1):
        found(t, tr.nodes[root].get_elements_by_local_name(name), tr,
              [i for i in tr.order(root)[1:] if name == local[i]], 'local')


@harness('C44', cases=[dict(n=n) for n in (1, 2, 3)])
def c44_any_name(t, n):
    """A name or namespace matches itself, whatever it is written with; only
    '*' stands for all."""
    tr = tree(t, ['svg', 'h:g', 'rect', 'g', 'svg'])
    tr.attach()
    local = [x.split(':')[-1] for x in tr.names]
    qual = [e.node_name for e in tr.nodes]
    name = t.text('name', n, '*gsv:')
    space = t.text('space', n, '*u:h')
    top = tr.nodes[0]
    nodes = tr.order(0)[0:]
    found(t, top.get_elements_by_tag_name(name), tr,
          [i for i in nodes if name == '*' or name == qual[i]], 'name')
    found(t, top.get_elements_by_tag_name_ns('*', name), tr,
          [i for i in nodes if name == '*' or name == local[i]],
          'name in any namespace')
    found(t, top.get_elements_by_tag_name_ns(space, 'g'), tr,
          [i for i in nodes if local[i] == 'g' and space == '*'],
          'namespace')
    found(t, tr.nodes[0].get_elements_by_local_name(name), tr,
          [i for i in tr.order(0)[1:] if name == local[i]], 'local')


def simple(tr, ids, cls):
    """Tests for the parts of selectors."""
    local = [n.split(':')[-1] for n in tr.names]
    return {
        '*': lambda i: True,
        'g': lambda i: local[i] == 'g',
        'rect': lambda i: local[i] == 'rect',
        '#ab': lambda i: ids[i] == 'ab',
        '.x': lambda i: 'x' in cls[i],
        'g.x': lambda i: local[i] == 'g' and 'x' in cls[i],
        ':first-child': lambda i: tr.siblings(i)[0] == i,
        ':last-child': lambda i: tr.siblings(i)[-1] == i,
        '[id]': lambda i: ids[i] is not None,
        '[id=ab]': lambda i: ids[i] == 'ab',
        ':not(.x)': lambda i: 'x' not in cls[i],
        ':not(#ab)': lambda i: ids[i] != 'ab',
    }


PARTS = ['*', 'g', 'rect', '#ab', '.x', 'g.x', ':first-child',
         ':last-child', '[id]', '[id=ab]', ':not(.x)', ':not(#ab)']


def scope(text):
    """Type selectors need the prefix of the namespace."""
    return 'svg|' + text if text[0] in 'gr' else text


@harness('C44', cases=[dict(parts=p) for p in (PARTS[:4], PARTS[4:8],
                                               PARTS[8:])])
def c44_query(t, parts):
    """query_selector_all gives the elements below that match the selector,
    in document order, combinators looking at the whole document."""
    tr = tree(t)
    ids, cls = [None] * 5, [[] for _ in range(5)]
    for i in (1, 3, 4):
        ids[i] = t.text('id%d' % i, 2, 'ab') if i == 3 else \
            ['', 'ab', '', '', 'ba'][i]
        tr.nodes[i].id = ids[i]
    for i in (1, 2):
        c = t.text('class%d' % i, 1, 'xy')
        cls[i] = [c, 'y' * i]
        tr.nodes[i].class_name = ' '.join(cls[i])
    tests = simple(tr, ids, cls)
    a = t.choice('a', parts)
    comb = t.choice('combinator', [None, ' ', ' > ', ' ~ ', ' + ', ', '])
    if comb is None:
        text = scope(a)
        want = tests[a]
    else:
        b = t.choice('b', ['*', 'g', '.x', '#ab', ':last-child'])
        text = scope(a) + comb + scope(b)
        f, g = tests[a], tests[b]

        def want(i):
            if comb == ', ':
                return f(i) or g(i)
            if not g(i):
                return False
            if comb == ' ':
                return any(f(j) for j in tr.above(i))
            if comb == ' > ':
                return any(f(j) for j in tr.above(i)[:1])
            before = [j for j in tr.siblings(i) if j < i]
            if comb == ' ~ ':
                return any(f(j) for j in before)
            return any(f(j) for j in before[-1:])
    d = tr.attach()
    hits = [i for i in tr.order() if want(i)]
    found(t, d.query_selector_all(text), tr, hits, 'document')
    got = d.query_selector(text)
    t.check(got is (tr.nodes[hits[0]] if hits else None), 'first')
    for root in (0, 1, 2):
        below = tr.order(root)[1:]
        got = [e for e in tr.nodes[root].query_selector_all(text)
               if e is not tr.nodes[root]]
        found(t, got, tr, [i for i in hits if i in below], 'element')


# ---------------------------------------------------------------- C45

LINK = [('as_', 'as', ''), ('cross_origin', 'crossorigin', None),
        ('href', 'href', ''), ('hreflang', 'hreflang', ''),
        ('integrity', 'integrity', ''), ('media', 'media', ''),
        ('referrer_policy', 'referrerpolicy', ''), ('rel', 'rel', ''),
        ('type', 'type', ''), ('lang', 'lang', ''), ('title', 'title', ''),
        ('id', 'id', ''), ('class_name', 'class', '')]
STYLE = [('media', 'media', 'all'), ('title', 'title', None),
         ('type', 'type', 'text/css'), ('id', 'id', ''),
         ('class_name', 'class', '')]


def made(name, ns=SVG):
    return SVGParser().create_element_ns(ns, name)


@harness('C45', cases=[dict(kind=k, part=p) for k in ('link', 'style', 'svg')
                       for p in (0, 1, 2)
                       if p == 0 or k == 'link'])
def c45_reflect(t, kind, part):
    """Each property reflects its own attribute: default when missing, set
    through either one and read through the other, no other attribute
    touched."""
    table = {'link': LINK, 'style': STYLE, 'svg': STYLE[3:]}[kind]
    table = table[part::3] if kind == 'link' else table
    e = made(kind, XHTML if kind == 'link' else SVG)
    a, b = t.choice('a', table), t.choice('b', table)
    v, w = t.text('v', 2, 'a B-'), t.text('w', 2, 'a B-')
    for prop, attr, default in table:
        t.check(getattr(e, prop) == default, 'default of ' + prop)
        t.check(not e.has_attribute(attr), 'no attribute')
    e.set(a[1], v)
    t.check(getattr(e, a[0]) == v, 'reads the attribute')
    setattr(e, b[0], w)
    t.check(e.get(b[1]) == w, 'sets the attribute')
    t.check(getattr(e, b[0]) == w, 'reads what was set')
    if a is not b:
        t.check(e.get(a[1]) == v, 'other attribute')
        t.check(getattr(e, a[0]) == v, 'other property')
    t.eq(len(e.attributes), 1 if a is b else 2, 'no further attribute')
    for prop, attr, default in table:
        if attr not in (a[1], b[1]):
            t.check(getattr(e, prop) == default, 'still default: ' + prop)
    e.remove_attribute(b[1])
    t.check(getattr(e, b[0]) == b[2], 'default again')


@harness('C45', cases=[dict(kind=k) for k in ('rel', 'sizes', 'class')])
def c45_tokens(t, kind):
    """Token lists show the words of their attribute and write to it."""
    e = made('link', XHTML)
    lists = {'rel': e.rel_list, 'sizes': e.sizes, 'class': e.class_list}
    for k in lists:
        t.eq(len(lists[k]), 0, 'empty')
    a, b = t.text('a', 2, 'aB'), t.text('b', 2, 'aB')
    e.set(kind, a + t.choice('sep', [' ', '\n', '  ']) + b)
    words = [a] if a == b else [a, b]
    got = lists[kind]
    t.eq(len(got), len(words), 'words')
    for x, y in zip(list(got), words):
        t.check(x == y, 'word')
    c = t.text('c', 2, 'aB')
    got.add(c)
    if all(not x == c for x in words):
        words.append(c)
    left = []
    for x in e.get(kind).split():
        if all(not x == y for y in left):
            left.append(x)
    t.check(' '.join(left) == ' '.join(words), 'written')
    for k in lists:
        if k != kind:
            t.eq(len(lists[k]), 0, 'others')
            t.check(not e.has_attribute(k), 'others')


@harness('C45')
def c45_reference(t):
    """href is the attribute href, else that of XLink, else empty."""
    e = made(t.choice('element', ['use', 'a', 'linearGradient']))
    v, w = t.text('v', 2, '#aB'), t.text('w', 2, '#aB')
    t.check(e.href == '', 'none')
    plain, link = t.bool('href'), t.bool('xlink')
    first = t.bool('order')
    for k in ((0, 1) if first else (1, 0)):
        if k == 0 and plain:
            e.set('href', v)
        if k == 1 and link:
            e.set_attribute_ns(XLINK, 'xlink:href', w)
    t.check(e.href == (v if plain else w if link else ''), 'href')


@harness('C45')
def c45_zoom(t):
    """zoomAndPan is disable or magnify; the setter writes the keyword."""
    e = made(t.choice('element', ['svg', 'view']))
    t.eq(e.zoom_and_pan, 1, 'default')
    words = {'disable': 1, 'magnify': 2}
    w = t.choice('word', ['disable', 'magnify', 'Disable', ''])
    e.set('zoomAndPan', w)
    t.eq(e.zoom_and_pan, words.get(w, 0), 'read')
    k = t.choice('k', [1, 2])
    e.zoom_and_pan = k
    t.check(e.get('zoomAndPan') == ['disable', 'magnify'][k - 1], 'written')
    t.eq(e.zoom_and_pan, k, 'read back')


ELEMENTS = ['a', 'circle', 'clipPath', 'defs', 'desc', 'ellipse',
            'foreignObject', 'g', 'image', 'line', 'linearGradient',
            'marker', 'mask', 'metadata', 'path', 'pattern', 'polygon',
            'polyline', 'radialGradient', 'rect', 'script', 'stop', 'style',
            'svg', 'switch', 'symbol', 'text', 'textPath', 'title', 'tspan',
            'use', 'view', 'unheard-of']


@harness('C45')
def c45_elements(t):
    """Every element can be made, has the name, namespace and attributes
    given, and takes part in a group without being drawn when empty."""
    name = t.choice('name', ELEMENTS)
    v = t.text('v', 2, 'aB')
    p = SVGParser()
    e = p.create_element_ns(SVG, name, attrib={'id': v})
    t.check(e.local_name == name, 'local name')
    t.check(e.namespace_uri == SVG, 'namespace')
    t.check(e.id == v, 'attribute')
    g = p.create_element_ns(SVG, 'g')
    g.append(e)
    t.check(g.first_child is e, 'child')
    t.check(e.parent_node is g, 'parent')
    t.check(g.get_bbox().isempty(), 'nothing drawn')
    t.check(g.get_path_data() == [], 'nothing drawn')
