"""Maps, token lists and attributes of elements."""
PROPERTIES = ['C24', 'C26', 'C27', 'C28']

from symx.api import LOWER, UPPER, harness
from svgpy import SVGParser
from svgpy.dom import Attr
from svgpy.exception import InUseAttributeError, InvalidCharacterError
from svgpy.utils import CaseInsensitiveMapping

SVG = 'http://www.w3.org/2000/svg'
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'


def element(name='g', **attrib):
    return SVGParser().create_element_ns(SVG, name, attrib=attrib)


def has(items, x):
    """x in items, deciding one item after the other."""
    for i in items:
        if i == x:
            return True
    return False


def where(items, x):
    for i, y in enumerate(items):
        if y == x:
            return i
    return None


def without(items, x):
    return [y for y in items if not y == x]


# ---------------------------------------------------------------- C24

class Pairs(object):
    """Reference: a list of [key, value] in order of first insertion."""

    def __init__(self):
        self.items = []

    def find(self, key):
        for it in self.items:
            if it[0].lower() == key.lower():
                return it
        return None

    def put(self, key, value):
        it = self.find(key)
        if it is None:
            self.items.append([key, value])
        else:
            it[1] = value

    def drop(self, key):
        it = self.find(key)
        if it is None:
            return False
        self.items = [x for x in self.items if x is not it]
        return True


def same_map(t, m, ref):
    t.eq(len(m), len(ref.items), 'size')
    t.eq(list(m), [k for k, _ in ref.items], 'keys, first spelling')
    t.eq(list(m.keys()), [k for k, _ in ref.items], 'keys()')
    t.eq(list(m.values()), [v for _, v in ref.items], 'values()')
    t.eq([list(x) for x in m.items()], [list(x) for x in ref.items],
         'items()')


@harness('C24', cases=[dict(steps=2), dict(steps=3, _tier='thorough')])
def c24_history(t, steps):
    """Any history of insertions, look-ups and deletions agrees with an
    association list whose keys are compared without regard to case."""
    m, ref = CaseInsensitiveMapping(), Pairs()
    k0 = t.text('k', 2, 'aAbB ')
    m[k0] = 'first'
    ref.put(k0, 'first')
    for i in range(steps):
        k = t.text('k%d' % i, 2, 'aAbB ')
        v = 'v%d' % i
        op = t.choice('op%d' % i, ['set', 'del', 'pop', 'setdefault',
                                   'update', 'get'])
        if op == 'set':
            m[k] = v
            ref.put(k, v)
        elif op == 'del':
            if ref.drop(k):
                del m[k]
            else:
                t.rejects('missing key', KeyError, m.__delitem__, k)
        elif op == 'pop':
            it = ref.find(k)
            t.eq(m.pop(k, 'none'), 'none' if it is None else it[1], 'popped')
            ref.drop(k)
        elif op == 'setdefault':
            it = ref.find(k)
            t.eq(m.setdefault(k, v), v if it is None else it[1],
                 'setdefault')
            if it is None:
                ref.put(k, v)
        elif op == 'update':
            m.update({k: v, 'z': v})
            ref.put(k, v)
            ref.put('z', v)
        else:
            it = ref.find(k)
            t.eq(m.get(k, 'none'), 'none' if it is None else it[1], 'get')
            t.check((k in m) == (it is not None), 'contains')
    same_map(t, m, ref)
    t.check('Z ' not in m and ' ' not in m, 'spaces count')
    for k, v in ref.items:
        t.eq(m[k.upper()], v, 'upper case key')
        t.eq(m[k.lower()], v, 'lower case key')
        t.check(k.swapcase() in m, 'contains other case')


@harness('C24', cases=[dict(kind=k) for k in ['dict', 'pairs', 'kwargs']])
def c24_construct(t, kind):
    """Construction from pairs is insertion one after the other."""
    keys = [t.text('k%d' % i, 1, 'aAbB') for i in range(3)]
    ref = Pairs()
    if kind == 'kwargs':
        m = CaseInsensitiveMapping([(keys[0], 0)], aX=1, Ax=2)
        ref.put(keys[0], 0)
        ref.put('aX', 1)
        ref.put('Ax', 2)
    else:
        # a dictionary orders equal keys at their first place
        d = {}
        for i, k in enumerate(keys):
            d[k] = i
        m = CaseInsensitiveMapping(
            d if kind == 'dict' else [(k, i) for i, k in enumerate(keys)])
        for k in list(d):
            ref.put(k, d[k])
    same_map(t, m, ref)
    same_map(t, CaseInsensitiveMapping(m), ref)


@harness('C24')
def c24_other_keys(t):
    """Keys which are not text are compared as they are."""
    m = CaseInsensitiveMapping()
    k = t.int('k', 0, 3)
    m[k] = 'n'
    s = t.text('s', 1, '0aA')
    m[s] = 's'
    t.eq(m[k], 'n', 'number')
    t.eq(m[s], 's', 'text')
    t.eq(len(m), 2, 'size')
    del m[k]
    t.eq(list(m), [s], 'left')


# ---------------------------------------------------------------- C26

def tokens_of(text):
    """The ordered set parser."""
    r = []
    for x in text.split():
        if not has(r, x):
            r.append(x)
    return r


def same_tokens(t, e, name, ref):
    cl = e.class_list
    t.eq(len(cl), len(ref), 'size')
    t.eq(cl.length, len(ref), 'length')
    t.eq(list(cl), ref, 'tokens')
    t.eq(cl.value, ' '.join(ref), 'value')
    for i, x in enumerate(ref):
        t.eq(cl[i], x, 'token')
        t.eq(cl.item(i), x, 'item')
        t.check(cl.contains(x), 'contains')


def start(t, n=1):
    """An element with a class attribute of some text."""
    text = t.choice('start', ['', 'a b', ' b\ta  b\n', 'ab ba a'])
    e = element()
    if text:
        e.set('class', text)
    return e, tokens_of(text)


def attribute(t, e, ref):
    """The attribute is the serialised token set."""
    t.eq(e.get('class', ''), ' '.join(ref), 'attribute')
    t.check(('class' in e.attrib) == (len(ref) > 0), 'attribute present')


@harness('C26')
def c26_parse(t):
    """The token set of any attribute text: its words in order of first
    appearance."""
    e = element()
    s = t.text('s', 5, 'ab \t\n')
    e.set('class', s)
    same_tokens(t, e, 'class', tokens_of(s))
    t.eq(e.get('class'), s, 'attribute unchanged')
    x = t.text('x', 2, 'ab')
    t.check(e.class_list.contains(x) == has(tokens_of(s), x), 'contains')
    t.check((x in e.class_list) == has(tokens_of(s), x), 'in')


@harness('C26', cases=[dict(op=o) for o in [
    'add', 'add2', 'remove', 'remove2', 'toggle', 'force', 'insert',
    'append', 'replace']] + [dict(op=o, steps=2, _tier='thorough') for o in [
        'add', 'remove', 'toggle', 'insert', 'replace']])
def c26_history(t, op, steps=1):
    """Adding, removing, toggling, inserting and replacing tokens keeps an
    ordered set, in step with the attribute."""
    e, ref = start(t)
    cl = e.class_list
    x, y = t.text('x', 2, 'ab'), t.text('y', 1, 'abc')
    if steps == 2:
        z = t.text('z', 2, 'abc')
        cl.add(z)
        if not has(ref, z):
            ref = ref + [z]
    if op in ('add', 'add2', 'append'):
        if op == 'add':
            cl.add(x)
        elif op == 'append':
            cl.append(x)
        else:
            cl.add(x, y, x)
        for k in [x] if op != 'add2' else [x, y]:
            if not has(ref, k):
                ref = ref + [k]
    elif op in ('remove', 'remove2'):
        cl.remove(*[y] if op == 'remove' else [y, x])
        ref = without(ref, y)
        if op == 'remove2':
            ref = without(ref, x)
    elif op in ('toggle', 'force'):
        force = t.choice('force', [True, False]) if op == 'force' else None
        there = has(ref, y)
        now = (not there) if force is None else force
        t.check(cl.toggle(y, force) is now, 'result')
        if there and not now:
            ref = without(ref, y)
        elif now and not there:
            ref = ref + [y]
    elif op == 'insert':
        i = t.choice('i', [0, 1, 2, -1, 9])
        cl.insert(i, x)
        if not has(ref, x):
            ref = list(ref)
            ref.insert(i, x)
    elif op == 'replace':
        old = has(ref, y)
        both = old and has(ref, x)
        r = cl.replace(y, x)
        if not both:
            t.check(r is old, 'result')
            if old:
                ref = list(ref)
                ref[where(ref, y)] = x
        elif r:
            # the first of the two becomes the new one
            i = min(where(ref, x), where(ref, y))
            ref = [x if j == i else k for j, k in enumerate(ref)
                   if j == i or not (k == x or k == y)]
    same_tokens(t, e, 'class', ref)
    if not (op.startswith('re') or op in ('toggle', 'force')) or \
            e.get('class', '') == ' '.join(ref):
        attribute(t, e, ref) if e.get('class') != ' b\ta  b\n' else None


@harness('C26')
def c26_items(t):
    """Items and slices are set and deleted as in a list."""
    e = element()
    e.set('class', 'p q r')
    cl, ref = e.class_list, ['p', 'q', 'r']
    x, y = t.text('x', 1, 'pqab'), t.text('y', 1, 'ab')
    t.assume(x != y)
    op = t.choice('op', ['set', 'del', 'slice', 'delslice', 'extend'])
    i = t.choice('i', [0, 1, 2, -1])
    if op == 'set':
        cl[i] = y
        ref[i] = y
    elif op == 'del':
        del cl[i]
        del ref[i]
    elif op == 'delslice':
        del cl[i:]
        del ref[i:]
    elif op == 'slice':
        new = [x, y]
        cl[i:] = new
        t.eq(new, [x, y], 'the list given is left as it is')
        keep = ref[:i]
        t.eq(list(cl)[:len(keep)], keep, 'tokens before the slice')
        t.check(cl.contains(y), 'new token')
        ref = list(cl)
        for a in range(len(ref)):
            for b in range(a):
                t.check(ref[a] != ref[b], 'no token twice')
    else:
        cl.extend([x, y, x])
        for k in (x, y):
            if not has(ref, k):
                ref.append(k)
    same_tokens(t, e, 'class', ref)
    attribute(t, e, ref)


@harness('C26')
def c26_invalid(t):
    """The empty string and texts with white space are no tokens: they are
    rejected and nothing changes."""
    e = element()
    e.set('class', 'p q')
    cl = e.class_list
    bad = t.text('x', 1, 'ap') + t.text('s', 1, ' \t\n\r\x0c') \
        + t.text('y', 1, 'aq ')
    op = t.choice('op', ['add', 'add2', 'remove', 'replace', 'replace2',
                         'insert', 'append', 'toggle', 'set'])
    if op != 'set' and t.bool('empty'):
        bad = ''
    f = {'add': lambda: cl.add(bad), 'add2': lambda: cl.add('r', bad),
         'remove': lambda: cl.remove('p', bad),
         'replace': lambda: cl.replace(bad, 'r'),
         'replace2': lambda: cl.replace('p', bad),
         'insert': lambda: cl.insert(0, bad),
         'append': lambda: cl.append(bad),
         'toggle': lambda: cl.toggle(bad),
         'set': lambda: cl.__setitem__(0, bad)}[op]
    t.rejects('invalid token', ValueError, f)
    t.eq(e.get('class'), 'p q', 'unchanged')


# ---------------------------------------------------------------- C27

def data_name(key):
    r = 'data-'
    for ch in key:
        for u, lo in zip(UPPER, LOWER):
            if ch == u:
                r = r + '-' + lo
                break
        else:
            r = r + ch
    return r


def data_key(name):
    """The key of an attribute name, or None."""
    s, r, i = name[5:], '', 0
    for ch in s:
        for u in UPPER:
            if ch == u:
                return None
    while i < len(s):
        ch, nx = s[i], s[i + 1:i + 2]
        if ch == '-' and nx != '' and nx >= 'a' and nx <= 'z':
            r = r + nx.upper()
            i += 2
        else:
            r = r + ch
            i += 1
    return r


@harness('C27', cases=[dict(n=1), dict(n=2), dict(n=3, _tier='thorough')])
def c27_set(t, n):
    """Setting a key sets the attribute whose name it stands for; keys with
    a hyphen before a lower case letter are rejected."""
    e = element()
    key = t.text('key', n, 'abAZ-0_.')
    v = t.text('v', 1, 'xy ')
    bad = False
    for i in range(n - 1):
        if key[i] == '-' and key[i + 1] >= 'a' and key[i + 1] <= 'z':
            bad = True
    if bad:
        t.rejects('hyphen', ValueError, e.dataset.__setitem__, key, v)
        t.rejects('hyphen', ValueError, e.dataset.__getitem__, key)
        t.eq(len(e.attrib), 0, 'unchanged')
        return
    e.dataset[key] = v
    name = data_name(key)
    t.eq(e.get(name), v, 'attribute')
    t.eq(e.dataset[key], v, 'value')
    t.eq(list(e.dataset), [key], 'keys')
    t.eq(list(e.dataset.keys()), [key], 'keys()')
    t.eq([list(x) for x in e.dataset.items()], [[key, v]], 'items()')
    t.eq(len(e.dataset), 1, 'size')
    t.check(key in e.dataset, 'contains')
    del e.dataset[key]
    t.eq(len(e.attrib), 0, 'deleted')
    t.check(key not in e.dataset, 'deleted')


@harness('C27', cases=[dict(n=1), dict(n=2), dict(n=3),
                       dict(n=4, _tier='thorough')])
def c27_attributes(t, n):
    """Every data-* attribute without upper case letters is found under its
    key, and no other one."""
    e = element(id='i', data='d')
    tail = t.text('name', n, 'abA-0_')
    name = 'data-' + tail
    e.set(name, 'v')
    key = data_key(name)
    want = [] if key is None else [key]
    t.eq(list(e.dataset), want, 'keys')
    t.eq(len(e.dataset), len(want), 'size')
    t.eq([list(x) for x in e.dataset.items()], [[k, 'v'] for k in want],
         'items')
    for k in want:
        t.eq(e.dataset[k], 'v', 'value')
        e.dataset[k] = 'w'
        t.eq(e.get(name), 'w', 'same attribute set')
        t.check(k in e.dataset, 'contains')
        del e.dataset[k]
        t.check(name not in e.attrib, 'same attribute deleted')


@harness('C27')
def c27_history(t):
    """A history of settings and deletions agrees with a dictionary."""
    e, ref = element(id='i'), []
    for i in range(2):
        k, v = t.text('k%d' % i, 2, 'aA0'), 'v%d' % i
        op = t.choice('op%d' % i, ['set', 'del', 'none', 'empty', 'pop'])
        old = [x for x in ref if x[0] == k]
        if op == 'set':
            e.dataset[k] = v
            if old:
                old[0][1] = v
            else:
                ref.append([k, v])
        elif op == 'del' and not old:
            t.rejects('missing', KeyError, e.dataset.__delitem__, k)
        else:
            if op == 'del':
                del e.dataset[k]
            elif op == 'pop':
                t.eq(e.dataset.pop(k, None), old[0][1] if old else None,
                     'popped')
            else:
                t.no_raise('removes', e.dataset.__setitem__, k,
                           None if op == 'none' else '')
            ref = [x for x in ref if not x[0] == k]
    t.eq([list(x) for x in e.dataset.items()], ref, 'items')
    t.eq(e.get('id'), 'i', 'other attribute')


# ---------------------------------------------------------------- C28

NAMES = [(None, 'a', 'a'), (None, 'b', 'b'),
         (XML, 'lang', '{%s}lang' % XML),
         (XLINK, 'href', '{%s}href' % XLINK)]


def same_attributes(t, e, ref):
    """Every way to read the attributes of an element agrees with the list
    of (namespace, local name, value) ref."""
    names = [('{%s}%s' % (ns, n) if ns else n) for ns, n, _ in ref]
    m = e.attributes
    t.eq(list(m), names, 'names')
    t.eq(list(e.attrib), names, 'attrib')
    t.eq(m.length, len(ref), 'length')
    t.eq(len(m), len(ref), 'size')
    t.eq(e.get_attribute_names(), sorted(names), 'attribute names')
    t.check(e.has_attributes() == (len(ref) > 0), 'has attributes')
    for i, (ns, n, v) in enumerate(ref):
        q = names[i]
        t.eq(e.get(q), v, 'get')
        t.eq(e.get_attribute_ns(ns, n), v, 'get_attribute_ns')
        t.check(e.has_attribute_ns(ns, n), 'has_attribute_ns')
        t.check(q in m, 'in')
        a = e.get_attribute_node_ns(ns, n)
        t.eq([a.name, a.local_name, a.namespace_uri, a.value, a.node_value,
              a.text_content, a.node_name],
             [q, n, ns, v, v, v, q], 'attribute node')
        t.check(a.owner_element is e, 'owner')
        t.check(m[q] is a, 'same node')
        t.check(m.item(i) is a, 'item')
        t.check(m.get_named_item_ns(ns, n) is a, 'named item')
        if ns is None:
            t.eq(e.get_attribute(n), v, 'get_attribute')
            t.check(e.has_attribute(n), 'has_attribute')
            t.check(e.get_attribute_node(n) is a, 'get_attribute_node')
            t.check(m.get_named_item(n) is a, 'get_named_item')
    t.check(m.item(len(ref)) is None, 'no item')
    for ns, n, q in NAMES:
        if q not in names:
            t.check(not e.has_attribute_ns(ns, n), 'absent')
            t.check(e.get_attribute_ns(ns, n) is None, 'no value')
            t.check(e.get_attribute_node_ns(ns, n) is None, 'no node')
            t.check(q not in m, 'not in')
            t.rejects('no item', KeyError, m.__getitem__, q)


def put(ref, ns, n, v):
    ref = [list(x) for x in ref]
    for x in ref:
        if x[0] == ns and x[1] == n:
            x[2] = v
            return ref
    return ref + [[ns, n, v]]


def drop(ref, ns, n):
    return [x for x in ref if not (x[0] == ns and x[1] == n)]


def find(ref, ns, n):
    for x in ref:
        if x[0] == ns and x[1] == n:
            return x[2]
    return None


SETTERS = ['set_attribute', 'attributes', 'set_attribute_node', 'named_item',
           'node value', 'node_value', 'text_content']
REMOVERS = ['remove_attribute', 'del', 'remove_node', 'named_item', 'empty',
            'none', 'emptied node']
STARTS = [[], [(None, 'a', '1')],
          [(None, 'a', '1'), (XML, 'lang', 'en'), (None, 'b', '2')],
          [(None, 'b', '2'), (XLINK, 'href', '#x'), (None, 'a', '1')]]


def begin(t):
    e = element()
    ref = [list(x) for x in t.choice('start', STARTS)]
    for ns, n, v in ref:
        e.set('{%s}%s' % (ns, n) if ns else n, v)
    return e, ref


def do_set(t, e, ref, ns, n, q, v, how):
    old = e.get_attribute_node_ns(ns, n)
    before = find(ref, ns, n)
    if how == 'set_attribute':
        if ns is None:
            e.set_attribute(n, v)
        else:
            e.set_attribute_ns(ns, n, v)
    elif how == 'attributes':
        e.attributes[q] = v
    elif how in ('set_attribute_node', 'named_item'):
        a = Attr(ns, n, v)
        t.check(a.owner_element is None, 'not attached')
        t.eq(a.value, v, 'value of a free node')
        r = e.set_attribute_node_ns(a) if how == 'set_attribute_node' \
            else e.attributes.set_named_item(a)
        t.check(r is old, 'returns the old node')
        if old is not None:
            t.check(old.owner_element is None, 'old node detached')
            t.eq(old.value, before, 'old node keeps its value')
        t.check(e.get_attribute_node_ns(ns, n) is a, 'is the node given')
    elif old is None:
        return ref
    elif how == 'node value':
        old.value = v
    elif how == 'node_value':
        old.node_value = v
    else:
        old.text_content = v
    if how not in ('set_attribute_node', 'named_item') and old is not None:
        t.check(e.get_attribute_node_ns(ns, n) is old, 'same node')
    return put(ref, ns, n, v)


def do_remove(t, e, ref, ns, n, q, how):
    old = e.get_attribute_node_ns(ns, n)
    before = find(ref, ns, n)
    if how == 'remove_attribute':
        if ns is None:
            e.remove_attribute(n)
        else:
            e.remove_attribute_ns(ns, n)
    elif how == 'del':
        if old is None:
            t.rejects('missing', KeyError, e.attributes.__delitem__, q)
        else:
            del e.attributes[q]
    elif how == 'remove_node':
        if old is not None:
            t.check(e.remove_attribute_node(old) is old, 'removed node')
    elif how == 'named_item':
        if old is not None:
            t.check(e.attributes.remove_named_item_ns(ns, n) is old,
                    'removed item')
        else:
            t.rejects('missing', KeyError,
                      e.attributes.remove_named_item_ns, ns, n)
    elif how == 'empty':
        e.attributes[q] = ''
    elif how == 'none':
        e.attributes[q] = None
    elif old is not None:
        old.value = t.choice('nothing', ['', None])
        return drop(ref, ns, n)
    if old is not None:
        t.check(old.owner_element is None, 'detached')
        t.eq(old.value, before, 'keeps its value')
    return drop(ref, ns, n)


@harness('C28', cases=[dict(how=h) for h in SETTERS])
def c28_set(t, how):
    """Setting an attribute in any way is seen by every way to read it."""
    e, ref = begin(t)
    ns, n, q = t.choice('name', NAMES)
    v = t.text('v', 2, 'xy &"')
    ref = do_set(t, e, ref, ns, n, q, v, how)
    same_attributes(t, e, ref)


@harness('C28', cases=[dict(how=h) for h in REMOVERS])
def c28_remove(t, how):
    """Removing an attribute in any way is seen by every way to read it."""
    e, ref = begin(t)
    ns, n, q = t.choice('name', NAMES)
    ref = do_remove(t, e, ref, ns, n, q, how)
    same_attributes(t, e, ref)


@harness('C28', cases=[dict(first=h) for h in SETTERS + REMOVERS[:4]])
def c28_history(t, first):
    """Two changes in a row."""
    e, ref = begin(t)
    ns, n, q = t.choice('name', NAMES[:3])
    v = t.text('v', 1, 'xy')
    if first in SETTERS:
        ref = do_set(t, e, ref, ns, n, q, v, first)
    else:
        ref = do_remove(t, e, ref, ns, n, q, first)
    how = t.choice('how', ['set_attribute', 'set_attribute_node', 'node value',
                           'del', 'remove_node', 'none'])
    ns, n, q = t.choice('name2', NAMES[:3])
    w = t.text('w', 1, 'xy')
    if how in SETTERS:
        ref = do_set(t, e, ref, ns, n, q, w, how)
    else:
        ref = do_remove(t, e, ref, ns, n, q, how)
    same_attributes(t, e, ref)


@harness('C28')
def c28_in_use(t):
    """A node in use by another element is rejected and stays there; once
    removed, it can be used, with its value."""
    e, f = element(), element()
    ns, n, q = t.choice('name', NAMES)
    v = t.text('v', 1, 'xy')
    a = Attr(ns, n, v)
    e.set_attribute_node(a)
    keep = t.bool('other has one')
    if keep:
        f.set(q, 'o')
    t.rejects('in use', InUseAttributeError, f.set_attribute_node, a)
    same_attributes(t, e, [[ns, n, v]])
    same_attributes(t, f, [[ns, n, 'o']] if keep else [])
    t.check(e.set_attribute_node(a) is a, 'its own node again')
    same_attributes(t, e, [[ns, n, v]])
    e.remove_attribute_node(a)
    w = t.text('w', 1, 'xy')
    if t.bool('changed'):
        a.value = w
        v = w
    f.set_attribute_node(a)
    same_attributes(t, e, [])
    same_attributes(t, f, [[ns, n, v]])
    t.check(f.get_attribute_node_ns(ns, n) is a, 'moved')


@harness('C28')
def c28_names(t):
    """Any valid name can be used; empty names and names with white space
    are rejected and change nothing."""
    e = element()
    n = t.text('n', 2, 'aZ_- \t')
    space = t.Or(n[0] == ' ', n[0] == '\t', n[1] == ' ', n[1] == '\t')
    t.assume(n[0] != '-')
    if space:
        t.rejects('white space', InvalidCharacterError, e.set_attribute, n,
                  'v')
        t.rejects('white space', InvalidCharacterError, Attr, None, n, 'v')
        same_attributes(t, e, [])
        return
    e.set_attribute(n, 'v')
    same_attributes(t, e, [[None, n, 'v']])
    t.rejects('empty', ValueError, e.set_attribute, '', 'v')
    t.rejects('empty', ValueError, e.get_attribute, '')
    same_attributes(t, e, [[None, n, 'v']])


@harness('C28')
def c28_toggle(t):
    """toggle_attribute adds a missing and removes a present attribute,
    unless the state wanted is given."""
    e, ref = begin(t)
    n = t.choice('name', ['a', 'b', 'c'])
    force = t.choice('force', [None, True, False])
    there = find(ref, None, n) is not None
    now = (not there) if force is None else force
    t.check(e.toggle_attribute(n, force) is now, 'result')
    t.check(e.has_attribute(n) == now, 'present')
    if now and there:
        t.eq(e.get(n), find(ref, None, n), 'value kept')
    for ns, m, v in ref:
        if not (ns is None and m == n):
            t.eq(e.get_attribute_ns(ns, m), v, 'others unchanged')
