"""Trees of nodes: every operation against a reference tree."""
PROPERTIES = ['C29']

from symx.api import harness
from svgpy import SVGParser
from svgpy.exception import HierarchyRequestError, NotFoundError

SVG = 'http://www.w3.org/2000/svg'
ELEMENTS = ['root', 'a', 'a1', 'b', 'x', 'x1']
LEAVES = ['c', 'p', 'd']
NAMES = ELEMENTS + LEAVES


class World(object):
    """Nodes by name and the reference tree {parent: [children]}.

        doc: root(a(a1 c) p b)    x(x1)    d
    """

    def __init__(self, with_document=True):
        p = self.parser = SVGParser()
        self.doc = p.create_document(SVG) if with_document else None
        mk = lambda n: p.create_element_ns(SVG, n)
        self.node = {'root': mk('svg'), 'a': mk('g'), 'a1': mk('rect'),
                     'b': mk('g'), 'x': mk('g'), 'x1': mk('path'),
                     'c': p.create_comment('c'), 'd': p.create_comment('d'),
                     'p': p.create_processing_instruction('p', 'q')}
        n = self.node
        n['root'].append_child(n['a'])
        n['a'].append_child(n['a1'])
        n['a'].append_child(n['c'])
        n['root'].append_child(n['p'])
        n['root'].append_child(n['b'])
        n['x'].append_child(n['x1'])
        self.kids = {'root': ['a', 'p', 'b'], 'a': ['a1', 'c'], 'x': ['x1']}
        if with_document:
            self.doc.append_child(n['root'])

    def children(self, name):
        return list(self.kids.get(name, []))

    def parent(self, name):
        for k, v in self.kids.items():
            if name in v:
                return k
        return None

    def ancestors(self, name):
        r = []
        while name is not None:
            r.append(name)
            name = self.parent(name)
        return r

    def detach(self, name):
        p = self.parent(name)
        if p is not None:
            self.kids[p] = [k for k in self.kids[p] if k != name]

    def place(self, parent, name, before=None):
        """before: a child of parent, name itself or None (at the end)."""
        if before == name:
            sib = self.kids[parent]
            i = sib.index(name) + 1
            before = sib[i] if i < len(sib) else None
        self.detach(name)
        kids = self.kids.setdefault(parent, [])
        i = len(kids) if before is None else kids.index(before)
        kids.insert(i, name)

    def name(self, node):
        if node is None:
            return None
        for k, v in self.node.items():
            if v is node:
                return k
        return '?'

    def names(self, nodes):
        return [self.name(n) for n in nodes]


def same_tree(t, w):
    """Every way to look at the tree agrees with the reference."""
    for k, n in w.node.items():
        kids = w.children(k)
        elems = [x for x in kids if x in ELEMENTS]
        t.eq(w.names(n.child_nodes), kids, 'child_nodes of ' + k)
        t.eq(w.name(n.first_child), kids[0] if kids else None, 'first_child')
        t.eq(w.name(n.last_child), kids[-1] if kids else None, 'last_child')
        t.check(n.has_child_nodes() is bool(kids), 'has_child_nodes')
        if k in ELEMENTS:
            t.eq(w.names(list(n)), kids, 'iteration')
            t.eq(len(n), len(kids), 'len')
            t.eq(w.names(n.children), elems, 'children')
            t.eq(n.child_element_count, len(elems), 'child_element_count')
            t.eq(w.name(n.first_element_child), elems[0] if elems else None,
                 'first_element_child')
            t.eq(w.name(n.last_element_child), elems[-1] if elems else None,
                 'last_element_child')
        p = w.parent(k)
        t.eq(w.name(n.parent_node), p, 'parent_node of ' + k)
        t.eq(w.name(n.parent_element), p, 'parent_element of ' + k)
        if p is None:
            if k != 'root':
                t.check(n.next_sibling is None and n.previous_sibling is None,
                        'no siblings')
        else:
            sib = w.children(p)
            i = sib.index(k)
            t.eq(w.name(n.previous_sibling), sib[i - 1] if i else None,
                 'previous_sibling')
            t.eq(w.name(n.next_sibling), (sib + [None])[i + 1],
                 'next_sibling')
            prev = [x for x in sib[:i] if x in ELEMENTS]
            nxt = [x for x in sib[i + 1:] if x in ELEMENTS]
            t.eq(w.name(n.previous_element_sibling),
                 prev[-1] if prev else None, 'previous_element_sibling')
            t.eq(w.name(n.next_element_sibling), nxt[0] if nxt else None,
                 'next_element_sibling')
        top = w.ancestors(k)[-1]
        t.eq(w.name(n.get_root_node()), top, 'get_root_node of ' + k)
        if top == 'root' and w.doc is not None:
            t.check(n.owner_document is w.doc, 'owner_document of ' + k)


def invalid(w, parent, name, ref=None):
    """The error DOM prescribes for an insertion, or None."""
    if parent in LEAVES or name in w.ancestors(parent):
        return (HierarchyRequestError, ValueError, NotFoundError)
    if ref is not None and w.parent(ref) != parent:
        return NotFoundError
    return None


def attempt(t, w, error, fn, change):
    """fn does change, or fails with error and does nothing."""
    if error is None:
        t.no_raise('allowed', fn)
        change()
    else:
        t.rejects('not allowed', error, fn)
    same_tree(t, w)


MOVERS = ['root', 'a', 'a1', 'c', 'p', 'b', 'x', 'x1', 'd']
PARENTS = ['root', 'a', 'a1', 'b', 'x', 'c']


def step(t, w, op, i=''):
    """One operation on any nodes."""
    N = w.node
    n = t.choice('node' + i, MOVERS)
    if op in ('append_child', 'append', 'prepend', 'extend'):
        p = t.choice('parent' + i, PARENTS)
        if p in LEAVES and op in ('prepend',):
            return
        f = {'append_child': lambda: N[p].append_child(N[n]),
             'append': lambda: N[p].append(N[n]),
             'prepend': lambda: N[p].prepend(N[n]),
             'extend': lambda: N[p].extend([N[n]])}[op]
        if op == 'prepend':
            kids = [k for k in w.children(p) if k != n]
            attempt(t, w, invalid(w, p, n), f, lambda: w.place(
                p, n, kids[0] if kids else None))
        else:
            attempt(t, w, invalid(w, p, n), f, lambda: w.place(p, n))
    elif op in ('insert_before', 'replace_child', 'replace'):
        p = t.choice('parent' + i, PARENTS)
        r = t.choice('ref' + i, ([None] if op == 'insert_before' else [])
                     + MOVERS)
        error = invalid(w, p, n, r)
        if op == 'insert_before':
            attempt(t, w, error, lambda: N[p].insert_before(
                N[n], r and N[r]), lambda: w.place(p, n, r))
        else:
            def change():
                if n != r:
                    w.place(p, n, r)
                    w.detach(r)
            f = (lambda: N[p].replace_child(N[n], N[r])) \
                if op == 'replace_child' else \
                (lambda: N[p].replace(N[r], N[n]))
            attempt(t, w, error, f, change)
    elif op == 'insert':
        p = t.choice('parent' + i, PARENTS)
        at = t.choice('at' + i, [0, 1, 2, 9, -1])
        kids = w.children(p)
        t.assume(n not in kids)
        before = kids[at] if -len(kids) <= at < len(kids) else (
            kids[0] if at < 0 and kids else None)
        attempt(t, w, invalid(w, p, n), lambda: N[p].insert(at, N[n]),
                lambda: w.place(p, n, before))
    elif op in ('addnext', 'addprevious'):
        r = t.choice('ref' + i, ['a', 'a1', 'c', 'p', 'b', 'x1'])
        p = w.parent(r)
        t.assume(p is not None)

        def change():
            if n == r:
                return
            w.detach(n)
            kids = w.kids[p]
            kids.insert(kids.index(r) + (op == 'addnext'), n)
        t.assume(n != r)
        attempt(t, w, invalid(w, p, n), lambda: getattr(N[r], op)(N[n]),
                change)
    elif op in ('remove', 'remove_child'):
        p = t.choice('parent' + i, PARENTS)
        error = None
        if p in LEAVES:
            error = HierarchyRequestError
        elif w.parent(n) != p:
            error = NotFoundError
        attempt(t, w, error, lambda: getattr(N[p], op)(N[n]),
                lambda: w.detach(n))
    elif op == 'remove self':
        t.assume(n in ELEMENTS and n != 'root')
        attempt(t, w, None, lambda: N[n].remove(), lambda: w.detach(n))


OPS = ['append_child', 'append', 'prepend', 'extend', 'insert_before',
       'replace_child', 'replace', 'insert', 'addnext', 'addprevious',
       'remove', 'remove_child', 'remove self']


@harness('C29', cases=[dict(op=o, document=d) for o in OPS
                       for d in (True, False)], budget=(60, 300))
def c29_step(t, op, document):
    """One operation on any nodes of the tree."""
    step(t, World(document), op)


@harness('C29', cases=[dict(first=f, then=g)
                       for f in ['remove', 'replace_child', 'insert_before']
                       for g in ['append_child', 'insert_before',
                                 'remove_child']] + [
    dict(first=f, then=g, _tier='thorough')
    for f in ['append', 'prepend', 'addnext', 'remove self']
    for g in ['insert_before', 'replace_child', 'prepend', 'addprevious',
              'remove']], budget=(60, 300), max_paths=4000)
def c29_history(t, first, then):
    """Two operations in a row."""
    w = World()
    N = w.node
    n = t.choice('moved', ['a', 'c', 'p', 'x'])
    p = w.parent(n)
    if first == 'remove':
        t.assume(p is not None)
        N[p].remove(N[n])
        w.detach(n)
    elif first == 'remove self':
        t.assume(p is not None and n in ELEMENTS)
        N[n].remove()
        w.detach(n)
    elif first == 'replace_child':
        t.assume(n != 'p')
        N['root'].replace_child(N[n], N['p'])
        w.place('root', n, 'p')
        w.detach('p')
    elif first == 'insert_before':
        N['b'].insert_before(N[n], None)
        w.place('b', n)
    elif first == 'append':
        N['b'].append(N[n])
        w.place('b', n)
    elif first == 'prepend':
        t.assume(n != 'a')
        N['root'].prepend(N[n])
        w.place('root', n, 'a')
    elif first == 'addnext':
        N['b'].addnext(N[n])
        w.place('root', n)
    step(t, w, then)


@harness('C29')
def c29_several(t):
    """append, prepend and extend with several nodes keep their order."""
    w = World()
    N = w.node
    p = t.choice('parent', ['root', 'a', 'b'])
    nodes = [t.choice('n%d' % i, ['a1', 'c', 'p', 'x', 'd'])
             for i in range(2)]
    t.assume(nodes[0] != nodes[1])
    op = t.choice('op', ['append', 'prepend', 'extend'])
    if op == 'append':
        N[p].append(*[N[n] for n in nodes])
    elif op == 'extend':
        N[p].extend([N[n] for n in nodes])
    else:
        N[p].prepend(*[N[n] for n in nodes])
    for n in nodes:
        w.detach(n)
    kids = w.kids.setdefault(p, [])
    w.kids[p] = kids + nodes if op != 'prepend' else nodes + kids
    same_tree(t, w)


def content(e):
    """Texts and nodes of an element in document order, texts joined."""
    r = ['' if e.text is None else e.text]
    for c in list(e):
        r.append(c)
        r.append('' if c.tail is None else c.tail)
    return r


def join(items):
    r = ['']
    for x in items:
        if isinstance(x, str):
            r[-1] = r[-1] + x
        else:
            r.append(x)
            r.append('')
    return r


@harness('C29', cases=[dict(op=o, items=i, kids=k)
                       for o in ('append', 'prepend')
                       for i in ('s', 'ss', 'sn', 'ns', 'sns', 'nsn', 'nn')
                       for k in (0, 1, 2)])
def c29_text(t, op, items, kids):
    """Texts and nodes given to append and prepend come after or before the
    content, in their order."""
    w = World()
    e = w.parser.create_element_ns(SVG, 'text')
    e.text = t.text('text', 1, 'ab')
    held = []
    for i in range(kids):
        k = w.parser.create_element_ns(SVG, 'tspan')
        e.append(k)
        k.tail = t.text('tail%d' % i, 1, 'ab')
        held.append(k)
    old = content(e)
    new, fresh = [], [w.node['x'], w.node['d']]
    for i, x in enumerate(items):
        new.append(t.text('s%d' % i, 1, 'xy') if x == 's' else fresh.pop(0))
    if op == 'append':
        e.append(*new)
        want = join(old + new)
    else:
        e.prepend(*new)
        want = join(new + old)
    got = content(e)
    t.eq(len(got), len(want), 'number of nodes')
    for g, x in zip(got, want):
        if isinstance(x, str):
            t.eq(g, x, 'text')
        else:
            t.check(g is x, 'node')


@harness('C29')
def c29_text_content(t):
    """Setting text_content replaces all children by the text."""
    w = World()
    e = t.choice('e', ['root', 'a', 'b', 'x'])
    s = t.text('s', 2, 'ab ')
    w.node[e].text_content = s
    t.eq(w.node[e].text, s, 'text')
    w.kids[e] = []
    same_tree(t, w)


@harness('C29')
def c29_rejected(t):
    """Attributes and documents are no children; a failing call changes
    neither nodes nor text."""
    w = World()
    p = t.choice('parent', ['root', 'a', 'b', 'c', 'p'])
    e = w.node[p]
    bad = w.parser.create_attribute('k') if t.bool('attribute') \
        else w.parser.create_document(SVG)
    first = w.node[p].first_child
    if p in ELEMENTS:
        e.text = s = t.text('text', 2, 'ab')
    op = t.choice('op', ['append', 'append_child', 'insert_before',
                         'insert', 'prepend', 'replace_child', 'extend'])
    t.assume(p in ELEMENTS or op != 'prepend')
    f = {'append': lambda: e.append(bad),
         'append_child': lambda: e.append_child(bad),
         'insert_before': lambda: e.insert_before(bad, first),
         'insert': lambda: e.insert(0, bad),
         'prepend': lambda: e.prepend(bad),
         'replace_child': lambda: e.replace_child(bad, first),
         'extend': lambda: e.extend([bad])}[op]
    if first is None and op == 'replace_child':
        return
    t.rejects('rejected', HierarchyRequestError, f)
    if p in ELEMENTS:
        t.eq(e.text, s, 'text')
    same_tree(t, w)


# a document: [comments and PIs] root [comments and PIs]

class Doc(object):

    def __init__(self, t, before, after):
        p = self.parser = SVGParser()
        self.doc = p.create_document(SVG)
        self.root = p.create_element_ns(SVG, 'svg')
        self.child = p.create_element_ns(SVG, 'g')
        self.inner = p.create_comment('inner')
        self.root.append(self.child)
        self.root.append(self.inner)
        self.doc.append(self.root)
        self.before = [self.make('b%d' % i) for i in range(before)]
        self.after = [self.make('a%d' % i) for i in range(after)]
        for n in self.before:
            self.doc.insert_before(n, self.root)
        for n in self.after:
            self.doc.append_child(n)
        self.kids = self.before + [self.root] + self.after
        self.new = self.make('new')

    def make(self, name):
        if name.endswith('1'):
            return self.parser.create_processing_instruction('pi', name)
        return self.parser.create_comment(name)


def same_doc(t, d):
    def same(got, want, label):
        t.check(len(got) == len(want) and all(
            [x is y for x, y in zip(got, want)]), label)
    doc, kids = d.doc, d.kids
    same(doc.child_nodes, kids, 'child_nodes')
    same(list(doc), kids, 'iteration')
    t.eq(len(doc), len(kids), 'len')
    t.check(doc.document_element is d.root, 'document_element')
    same(doc.children, [d.root], 'children')
    t.eq(doc.child_element_count, 1, 'child_element_count')
    t.check(doc.first_child is kids[0], 'first_child')
    t.check(doc.last_child is kids[-1], 'last_child')
    t.check(doc.first_element_child is d.root, 'first_element_child')
    t.check(doc.has_child_nodes() is True, 'has_child_nodes')
    for i, n in enumerate(kids):
        t.check(n in doc, 'contains')
        t.check(n.owner_document is doc, 'owner_document')
        t.check(n.parent_element is None, 'parent_element')
        t.check(n.previous_sibling is (kids[i - 1] if i else None),
                'previous_sibling')
        t.check(n.next_sibling is ((kids + [None])[i + 1]), 'next_sibling')
    for n in (d.child, d.inner):
        if n not in kids and n.parent_node is not None:
            t.check(n.owner_document is doc, 'owner_document')


DOC_OPS = ['append_child', 'append', 'prepend', 'insert_before', 'insert',
           'remove_child', 'replace_child', 'extend']


@harness('C29', cases=[dict(op=o, before=b, after=a) for o in DOC_OPS
                       for b in (0, 1, 2) for a in (0, 1, 2)])
def c29_document(t, op, before, after):
    """Comments and processing instructions beside the root element."""
    d = Doc(t, before, after)
    doc = d.doc
    same_doc(t, d)
    new = t.choice('node', [d.new, d.inner] + d.before[:1] + d.after[:1])
    if op in ('append_child', 'append', 'extend'):
        getattr(doc, op)([new] if op == 'extend' else new)
        d.kids = [k for k in d.kids if k is not new] + [new]
    elif op == 'prepend':
        doc.prepend(new)
        d.kids = [new] + [k for k in d.kids if k is not new]
    elif op == 'insert_before':
        ref = t.choice('ref', d.kids + [None])
        t.assume(ref is not new)
        doc.insert_before(new, ref)
        kids = [k for k in d.kids if k is not new]
        i = len(kids) if ref is None else kids.index(ref)
        d.kids = kids[:i] + [new] + kids[i:]
    elif op == 'insert':
        t.assume(all([k is not new for k in d.kids]))
        i = t.choice('i', list(range(len(d.kids) + 1)))
        doc.insert(i, new)
        d.kids = d.kids[:i] + [new] + d.kids[i:]
    elif op == 'remove_child':
        if any([k is new for k in d.kids]):
            t.check(doc.remove_child(new) is new, 'returns the node')
            d.kids = [k for k in d.kids if k is not new]
            t.check(new.next_sibling is None
                    and new.previous_sibling is None, 'no siblings')
        else:
            t.rejects('no child', NotFoundError, doc.remove_child, new)
    elif op == 'replace_child':
        olds = d.before + d.after
        t.assume(len(olds) > 0)
        old = t.choice('old', olds)
        t.assume(old is not new)
        t.check(doc.replace_child(new, old) is old, 'returns the old node')
        d.kids = [new if k is old else k for k in d.kids if k is not new]
    same_doc(t, d)


@harness('C29')
def c29_document_invalid(t):
    """A document takes one element, no text and no nodes that are no
    children; a failing call changes nothing."""
    d = Doc(t, t.choice('before', [0, 1]), t.choice('after', [0, 1]))
    doc = d.doc
    bad = t.choice('bad', ['text', 'attribute', 'document', 'element'])
    x = {'text': 'text', 'attribute': d.parser.create_attribute('k'),
         'document': d.parser.create_document(SVG),
         'element': d.parser.create_element_ns(SVG, 'g')}[bad]
    op = t.choice('op', ['append', 'prepend', 'insert_before', 'insert',
                         'append_child'])
    t.assume(bad != 'text' or op in ('append', 'prepend', 'append_child'))
    f = {'append': lambda: doc.append(x), 'prepend': lambda: doc.prepend(x),
         'append_child': lambda: doc.append_child(x),
         'insert_before': lambda: doc.insert_before(x, d.root),
         'insert': lambda: doc.insert(0, x)}[op]
    t.rejects('rejected', (HierarchyRequestError, TypeError), f)
    same_doc(t, d)


@harness('C29')
def c29_document_root(t):
    """Removing and replacing the root element (of a document without other
    nodes: replacing it drops what stands beside it)."""
    d = Doc(t, 0, 0)
    doc, old = d.doc, d.root
    new = d.parser.create_element_ns(SVG, 'svg')
    sub = d.parser.create_element_ns(SVG, 'g')
    new.append(sub)
    kind = t.choice('kind', ['replace', 'remove'])
    if kind == 'replace':
        t.check(doc.replace_child(new, old) is old, 'returns the old')
    else:
        t.check(doc.remove_child(old) is old, 'returns the root')
        t.check(doc.document_element is None, 'no root')
        t.eq(len(doc), 0, 'empty')
        t.check(doc.first_child is None and not doc.has_child_nodes(),
                'no children')
        doc.append_child(new)
    d.kids = [new]
    d.root = new
    t.check(sub.owner_document is doc, 'owner_document')
    same_doc(t, d)


@harness('C29')
def c29_document_moved(t):
    """An element of another tree that becomes the root leaves that tree;
    what stands beside a root comes with it."""
    w = World(False)
    doc = w.parser.create_document(SVG)
    op = t.choice('op', ['append', 'append_child', 'prepend', 'extend',
                         'insert', 'insert_before'])
    n = t.choice('node', ELEMENTS)
    e = w.node[n]
    beside = n in ('root', 'x') and t.bool('beside')
    if beside:
        e.addprevious(w.node['d'])
    if op == 'insert':
        doc.insert(0, e)
    elif op == 'insert_before':
        doc.insert_before(e, None)
    elif op == 'extend':
        doc.extend([e])
    else:
        getattr(doc, op)(e)
    w.detach(n)
    t.check(doc.document_element is e, 'root')
    kids = doc.child_nodes
    want = ([w.node['d']] if beside else []) + [e]
    t.check(len(kids) == len(want)
            and all([x is y for x, y in zip(kids, want)]), 'children')
    for k in NAMES:
        x = w.node[k]
        if e in [w.node[a] for a in w.ancestors(k)]:
            t.check(x.owner_document is doc, 'owner_document of ' + k)
        if k in ELEMENTS:
            t.eq(w.names(list(x)), w.children(k), 'children of ' + k)
        t.eq(w.name(x.parent_node if x is not e else None), w.parent(k),
             'parent of ' + k)
    if beside:
        t.check(w.node['d'].owner_document is doc, 'owner_document')


@harness('C29', cases=[dict(depth=d) for d in (1, 2, 3, 4)])
def c29_attach(t, depth):
    """attach_document and detach_document reach the whole subtree."""
    d = Doc(t, 0, 0)
    nodes = [d.parser.create_element_ns(SVG, 'g')]
    for i in range(depth):
        # anywhere below the first
        up = nodes[t.choice('up%d' % i, list(range(len(nodes))))]
        n = d.parser.create_element_ns(SVG, 'g')
        if t.bool('first%d' % i):
            up.insert(0, n)
        else:
            up.append_child(n)
        nodes.append(n)
    d.root.append(nodes[0])
    for n in nodes:
        t.check(n.owner_document is d.doc, 'owner of a subtree added')
    d.root.remove(nodes[0])
    t.check(nodes[0].detach_document() is d.doc, 'detach returns it')
    for n in nodes:
        t.check(n.owner_document is None, 'no owner once detached')
    k = t.choice('k', list(range(len(nodes))))
    nodes[k].attach_document(d.doc)
    below = [nodes[k]]
    for n in nodes[k + 1:]:
        if n.parent_node in below:
            below.append(n)
    for n in nodes:
        t.check((n.owner_document is d.doc) is (n in below),
                'attached below only')
