"""Locations: the document shows the page its location names."""
PROPERTIES = ['C52']

from symx.api import harness, stub
from svgpy.dom import Element
from svgpy.url import URL
from svgpy.window import Document, SVGDOMImplementation, Window

SVG = Element.SVG_NAMESPACE_URI
PARTS = ('href', 'protocol', 'host', 'hostname', 'port', 'pathname',
         'search', 'hash', 'origin')


@stub
class Pages(SVGDOMImplementation):
    """Pages by address: every address has one, but the missing ones."""

    def __init__(self):
        super().__init__()
        self.asked = []
        self.missing = False
        self.page = None

    def parse(self, source):
        self.asked.append(source)
        if self.missing:
            raise OSError('no such page')
        p = self.parser
        root = p.create_element_ns(SVG, 'svg')
        g = p.create_element_ns(SVG, 'g')
        path = p.create_element_ns(SVG, 'path')
        inner = p.create_comment('inner')
        before = p.create_comment('before')
        after = p.create_processing_instruction('after', 'x')
        root.append_child(g)
        g.append_child(path)
        g.append_child(inner)
        root.addprevious(before)
        root.addnext(after)
        self.page = (root, g, path, inner, before, after)
        return root


def start(address='http://h.x/d/p.svg?k=v#f', window=False):
    pages = Pages()
    if window:
        w = Window(pages)
        doc = w.document
    else:
        doc = Document(implementation=pages)
    if address is not None:
        doc.location.href = address
    pages.asked.clear()
    return doc, pages


def state(doc):
    loc = doc.location
    return ([getattr(loc, p) for p in PARTS] + [loc.tostring()],
            doc.document_element, list(doc.child_nodes))


def unchanged(t, doc, old):
    new = state(doc)
    for p, x, y in zip(PARTS + ('tostring',), new[0], old[0]):
        t.eq(x, y, 'unchanged ' + p)
    t.check(new[1] is old[1], 'the page is the same')
    t.check(len(new[2]) == len(old[2])
            and all(x is y for x, y in zip(new[2], old[2])),
            'so are its nodes')


def shows(t, doc, pages, url):
    """The document shows the page of the url, loaded once."""
    loc = doc.location
    for p in PARTS:
        t.eq(getattr(loc, p), getattr(url, p), 'location.' + p)
    t.eq(loc.tostring(), url.href, 'text')
    t.eq(loc.tostring(exclude_fragment=True),
         url.tostring(exclude_fragment=True), 'text without fragment')
    t.eq(doc.url, url.href, 'url')
    t.eq(doc.document_uri, url.href, 'document_uri')
    t.eq(doc.origin, url.origin, 'origin')
    if url.protocol == 'about:':
        t.eq(len(pages.asked), 0, 'nothing loaded')
        t.check(doc.document_element is None, 'no page')
        t.eq(len(doc.child_nodes), 0, 'no nodes')
        return
    t.eq(len(pages.asked), 1, 'loaded once')
    t.eq(pages.asked[0], url.href, 'loaded from the address')
    root, g, path, inner, before, after = pages.page
    t.check(doc.document_element is root, 'its root is that of the document')
    kids = doc.child_nodes
    t.check(len(kids) == 3 and kids[0] is before and kids[1] is root
            and kids[2] is after, 'nodes of the document')
    for n in pages.page:
        t.check(n.owner_document is doc, 'nodes belong to the document')


def refused(url):
    """Addresses that name no page."""
    return bool((url.protocol == '' and url.host == '')
                or url.protocol in ('blob:', 'data:')
                or (url.protocol in ('about:', 'file:')
                    and url.pathname == ''))


def navigate(t, doc, pages, url, fn, change=None):
    """fn goes to what change makes of url."""
    old = state(doc)
    try:
        if change is not None:
            change(url)
    except ValueError:
        url = None
    if url is None or refused(url):
        t.rejects('no address of a page', ValueError, fn)
        t.eq(len(pages.asked), 0, 'nothing loaded')
        unchanged(t, doc, old)
    elif pages.missing and url.protocol != 'about:':
        t.rejects('no such page', OSError, fn)
        unchanged(t, doc, old)
    else:
        t.no_raise('goes there', fn)
        shows(t, doc, pages, url)


VALUES = {'hash': (2, '#a %'), 'host': (3, 'a.:8/'), 'hostname': (2, 'aB.'),
          'pathname': (3, '/z.%\\'), 'port': (2, '08a'),
          'protocol': (2, 'a:1'), 'search': (3, '?k=&')}


@harness('C52', cases=[dict(part=p, missing=m) for p in sorted(VALUES)
                       for m in (False, True)])
def c52_part(t, part, missing):
    """Setting a part of the location goes to the address with that part."""
    address = t.choice('address', ['http://h.x/d/p.svg?k=v#f',
                                   'file:///d/p.svg', 'about:blank'])
    doc, pages = start(address)
    n, alphabet = VALUES[part]
    if part == 'protocol' and t.bool('known'):
        v = t.choice('scheme', ['https', 'about:', 'blob', 'data:', 'file:',
                                'HTTP', ''])
    else:
        v = t.text('v', n, alphabet)
    pages.missing = missing
    navigate(t, doc, pages, URL(address),
             lambda: setattr(doc.location, part, v),
             lambda u: setattr(u, part, v))


def an_address(t, i=''):
    k = t.choice('kind' + i, ['http', 'file', 'about', 'data', 'blob',
                              'bare', 'port'])
    x = t.text('x' + i, 2, 'a/.')
    return {'http': 'http://h.x/' + x, 'file': 'file:///' + x,
            'about': 'about:' + x, 'data': 'data:,' + x,
            'blob': 'blob:' + x, 'bare': x,
            'port': 'http://h.x:' + x}[k]


@harness('C52', cases=[dict(how=h, missing=m) for h in ('href', 'assign')
                       for m in (False, True)])
def c52_href(t, how, missing):
    """Assigning an address goes there, or changes nothing."""
    doc, pages = start()
    pages.missing = missing
    s = an_address(t)
    loc = doc.location
    navigate(t, doc, pages, URL('about:blank'),
             (lambda: setattr(loc, 'href', s)) if how == 'href'
             else (lambda: loc.assign(s)),
             lambda u: setattr(u, 'href', s))
    t.check(doc.location is loc, 'the location is the same object')


@harness('C52', cases=[dict(owner=o) for o in ('document', 'window')])
def c52_relative(t, owner):
    """Setting the location of a document or window resolves the address
    against that of the document."""
    doc, pages = start(window=True)
    win = doc.default_view
    t.check(win.document is doc, 'document of the window')
    t.check(win.location is doc.location, 'one location for both')
    x = t.text('x', 2, 'ab')
    s = t.choice('pattern', ['%s', '../%s', '/%s', '?%s', '#%s', './d/%s',
                             '//%s/q', 'ftp://%s/'])
    s = s.replace('%s', x)
    y = URL(s, base='http://h.x/d/p.svg?k=v#f')
    if t.bool('location'):
        other = Document(implementation=Pages())
        other.location.href = y.href
        s = other.location
    o = doc if owner == 'document' else win

    def fn():
        o.location = s
    navigate(t, doc, pages, y, fn)
    t.check(win.location is doc.location, 'one location for both')


@harness('C52')
def c52_blank(t):
    """A new document is at about:blank."""
    doc, pages = start(None, window=t.bool('window'))
    for p, v in (('href', 'about:blank'), ('protocol', 'about:'),
                 ('pathname', 'blank'), ('search', ''), ('hash', ''),
                 ('host', ''), ('hostname', ''), ('port', ''),
                 ('origin', 'null')):
        t.eq(getattr(doc.location, p), v, p)
    t.eq(doc.url, 'about:blank', 'url')
    t.eq(len(pages.asked), 0, 'nothing loaded')


@harness('C52')
def c52_history(t):
    """Each of several navigations shows its page; reload loads it again."""
    doc, pages = start(t.choice('address', [None, 'http://h.x/d/p.svg']))
    for i in range(2):
        op = t.choice('op%d' % i, ['href', 'hash', 'pathname', 'reload',
                                   'missing'])
        x = t.text('x%d' % i, 1, 'ab')
        url = URL(doc.location.href)
        pages.asked.clear()
        pages.missing = op == 'missing'
        loc = doc.location
        if op == 'reload':
            navigate(t, doc, pages, url, loc.reload)
        elif op in ('href', 'missing'):
            v = t.choice('where%d' % i, ['http://' + x + '.x/y',
                                         'about:' + x, 'data:,' + x])
            navigate(t, doc, pages, url, lambda: setattr(loc, 'href', v),
                     lambda u: setattr(u, 'href', v))
        else:
            navigate(t, doc, pages, url, lambda: setattr(loc, op, x),
                     lambda u: setattr(u, op, x))


@harness('C52')
def c52_old_page(t):
    """The nodes of a page that is left are no nodes of the document."""
    doc, pages = start()
    root, g, path, inner, before, after = pages.page
    doc.location.href = t.choice('to', ['about:blank', 'http://h.x/other'])
    for n in (root, before, after):
        t.check(all(k is not n for k in doc.child_nodes), 'left')
        t.check(n not in doc, 'not in')
    t.check(root.first_child is g and g.first_child is path
            and g.last_child is inner, 'the old page is whole')
