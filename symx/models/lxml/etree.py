"""A model of the tree of lxml.etree 6, as far as svgpy uses it.

Every other use raises core.Gap, which makes the path undecided.
"""
import re
from symx import reallxml
from symx.reallxml import gap

XML_NS = 'http://www.w3.org/XML/1998/namespace'
KNOWN_PREFIXES = {
    XML_NS: 'xml',
    'http://www.w3.org/1999/xhtml': 'html',
    'http://www.w3.org/1999/XSL/Transform': 'xsl',
    'http://www.w3.org/1999/02/22-rdf-syntax-ns#': 'rdf',
    'http://www.w3.org/2001/XMLSchema': 'xs',
    'http://www.w3.org/2001/XMLSchema-instance': 'xsi',
    'http://purl.org/dc/elements/1.1/': 'dc',
}

NAME_RE = re.compile('[A-Za-z_\u00c0-\uffff][-.A-Za-z0-9_\u00b7-\uffff]*')

LxmlError = reallxml.etree.LxmlError
XMLSyntaxError = reallxml.etree.XMLSyntaxError
XPathEvalError = reallxml.etree.XPathEvalError
ParserError = reallxml.etree.ParserError
LXML_VERSION = reallxml.etree.LXML_VERSION


class _Ns(object):
    def __init__(self, prefix, href):
        self.prefix = prefix
        self.href = href


class _Doc(object):
    """A document: the nodes at its top level and a prefix counter."""

    def __init__(self, lookup):
        self.nodes = []
        self.count = 0
        self.lookup = lookup

    def new_prefix(self):
        self.count += 1
        return 'ns%d' % (self.count - 1)

    def root(self):
        for x in self.nodes:
            if x._lx_kind == 'element':
                return x
        return None


def _text(value):
    if isinstance(value, str):
        for ch in value:
            if '\t' <= ch < ' ' and ch not in '\t\n\r' or ch < '\t':
                raise ValueError('All strings must be XML compatible: Unicode'
                                 ' or ASCII, no NULL bytes or control '
                                 'characters')
        return value
    if isinstance(value, bytes):
        gap('bytes as text')
    raise TypeError("Argument must be bytes or unicode, got '%s'"
                    % type(value).__name__)


def _split(name):
    """(namespace, local name) of a '{ns}name'."""
    if isinstance(name, QName):
        name = name.text
    name = _text(name)
    ns = None
    if name.startswith('{'):
        end = name.find('}')
        if end < 0:
            raise ValueError('Invalid tag name')
        ns = name[1:end] or None
        name = name[end + 1:]
    if len(name) == 0:
        raise ValueError('Empty tag name')
    return ns, name


def _join(ns, name):
    if ns is None:
        return name
    return '{' + ns + '}' + name


def _chain(node):
    """The list the node is a member of."""
    if node._lx_parent is not None:
        return node._lx_parent._lx_kids
    if node._lx_orphans is not None:
        return node._lx_orphans
    return node._lx_doc.nodes


def _place(chain, node):
    for i, x in enumerate(chain):
        if x is node:
            return i
    return -1


def _search_ns(node, prefix):
    while node is not None:
        for d in node._lx_nsdefs:
            if d.prefix == prefix:
                return d
        node = node._lx_parent
    return None


def _search_href(node, href, is_attribute):
    """lxml's _searchNsByHref."""
    if href == XML_NS:
        return _XML
    default = None
    start = node
    while node is not None:
        for d in node._lx_nsdefs:
            if d.href == href:
                if d.prefix is None and is_attribute:
                    if default is None:
                        default = d
                elif _search_ns(start, d.prefix) is d:
                    return d
        node = node._lx_parent
    if default is not None and _search_ns(start, None) is default:
        return default
    return None


def _find_or_build(doc, node, href, prefix, is_attribute):
    d = _search_href(node, href, is_attribute)
    if d is not None and not (is_attribute and d.prefix is None):
        return d
    if prefix is None:
        prefix = KNOWN_PREFIXES.get(href)
        if prefix is None:
            prefix = doc.new_prefix()
    while _search_ns(node, prefix) is not None:
        prefix = doc.new_prefix()
    d = _Ns(prefix, href)
    node._lx_nsdefs.append(d)
    return d


_XML = _Ns('xml', XML_NS)


def _moved(doc, node, top=None, cache=None):
    """lxml's moveNodeToDocument."""
    first = top is None
    if first:
        top, cache = node, []
    node._lx_doc = doc
    if node._lx_kind != 'element':
        return
    for d in list(node._lx_nsdefs):
        known = None
        if node._lx_parent is not None:
            known = _scope_href(node._lx_parent, d.href)
        if known is None:
            cache.append((d, d))
        else:
            cache.append((d, known))
            node._lx_nsdefs.remove(d)
    if node._lx_ns is not None:
        node._lx_ns = _fix(doc, top, node._lx_ns, False, cache)
    for key, d in list(node._lx_attr_ns.items()):
        node._lx_attr_ns[key] = _fix(doc, top, d, True, cache)
    for x in node._lx_kids:
        _moved(doc, x, top, cache)


def _scope_href(start, href):
    """libxml2's xmlSearchNsByHref for elements."""
    node = start
    while node is not None:
        for d in node._lx_nsdefs:
            if d.href == href and _search_ns(start, d.prefix) is d:
                return d
        node = node._lx_parent
    return None


def _fix(doc, top, ns, is_attribute, cache):
    if ns is _XML:
        return ns
    for old, new in cache:
        if old is ns and not (is_attribute and old.prefix is not None
                              and new.prefix is None):
            return new
    new = _find_or_build(doc, top, ns.href, ns.prefix, is_attribute)
    cache.append((ns, new))
    return new


def _is_within(node, top):
    while node is not None:
        if node is top:
            return True
        node = node._lx_parent
    return False


def _unlink(node):
    chain = _chain(node)
    i = _place(chain, node)
    if i >= 0:
        del chain[i]
    node._lx_parent = None
    node._lx_orphans = None


def _check_node(node):
    if not isinstance(node, _Element):
        raise TypeError("Argument 'element' has incorrect type (expected "
                        "lxml.etree._Element, got %s)" % type(node).__name__)


class _Attrib(object):
    """The attributes of an element."""

    def __init__(self, element):
        self._element = element

    def __getitem__(self, key):
        v = self._element.get(key)
        if v is None:
            raise KeyError(key)
        return v

    def __setitem__(self, key, value):
        self._element.set(key, value)

    def __delitem__(self, key):
        key = _join(*_split(key))
        d = self._element._lx_attrs
        if key not in d:
            raise KeyError(key)
        del d[key]
        self._element._lx_attr_ns.pop(key, None)

    def __contains__(self, key):
        return _join(*_split(key)) in self._element._lx_attrs

    def __iter__(self):
        return iter([k for k in self._element._lx_attrs.keys()])

    def __len__(self):
        return len(self._element._lx_attrs)

    def __bool__(self):
        return len(self._element._lx_attrs) > 0

    def __repr__(self):
        return repr(self._element._lx_attrs)

    def get(self, key, default=None):
        return self._element.get(key, default)

    def keys(self):
        return [k for k in self._element._lx_attrs.keys()]

    def values(self):
        return [v for v in self._element._lx_attrs.values()]

    def items(self):
        return [(k, v) for k, v in self._element._lx_attrs.items()]

    iterkeys, itervalues, iteritems = keys, values, items

    def has_key(self, key):
        return key in self

    def pop(self, key, *default):
        v = self._element.get(key)
        if v is None:
            if len(default) > 0:
                return default[0]
            raise KeyError(key)
        del self[key]
        return v

    def clear(self):
        for k in self.keys():
            del self[k]

    def update(self, other):
        pairs = other.items() if hasattr(other, 'items') else other
        for k, v in pairs:
            self[k] = v

    def __copy__(self):
        return dict(self._element._lx_attrs)

    def __eq__(self, other):
        if isinstance(other, _Attrib):
            other = other._element._lx_attrs
        return self._element._lx_attrs == other

    __hash__ = None


class _Kids(object):
    """Iterates like lxml: the successor is found when a node is returned."""

    def __init__(self, nodes, follow):
        self._next = nodes
        self._follow = follow

    def __iter__(self):
        return self

    def __next__(self):
        x = self._next
        if x is None:
            raise StopIteration
        self._next = self._follow(x)
        return x


def _matcher(tags):
    wanted = []
    for x in tags:
        if isinstance(x, (list, tuple, set)):
            wanted.extend(list(x))
        elif x is not None:
            wanted.append(x)
    if len(wanted) == 0:
        return lambda node: True
    tests = []
    for x in wanted:
        if x is Comment or x is ProcessingInstruction or x is PI:
            kind = 'comment' if x is Comment else 'pi'
            tests.append((kind, None, None))
        elif x is Element:
            tests.append(('element', '*', '*'))
        elif isinstance(x, str):
            if x == '*':
                tests.append(('element', '*', '*'))
            elif x.startswith('{'):
                end = x.find('}')
                tests.append(('element', x[1:end], x[end + 1:]))
            else:
                tests.append(('element', '', x))
        else:
            gap('tag filter ' + repr(x))

    def match(node):
        for kind, ns, name in tests:
            if node._lx_kind != kind:
                continue
            if kind != 'element':
                return True
            own, local = _split(node.tag)
            if ns != '*' and (own or '') != ns:
                continue
            if name == '*' or name == local:
                return True
        return False
    return match


def _descend(node, match, out, include):
    if include and match(node):
        out.append(node)
    for x in node._lx_kids:
        _descend(x, match, out, True)
    return out


class _Element(object):
    """What elements, comments and processing instructions share."""

    _lx_kind = 'element'

    # ------------------------------------------------------------- creation
    def _lx_setup(self, doc):
        self._lx_doc = doc
        self._lx_parent = None
        self._lx_orphans = None
        self._lx_kids = []
        self._lx_text = None
        self._lx_tail = None
        self._lx_attrs = {}
        self._lx_attr_ns = {}
        self._lx_nsdefs = []
        self._lx_ns = None
        self._lx_local = None
        self._lx_target = None

    def _init(self):
        pass

    def __getattr__(self, name):
        if not name.startswith('_') and name in reallxml.MEMBERS:
            gap('lxml member ' + name)
        raise AttributeError("'%s' object has no attribute '%s'"
                             % (type(self).__name__, name))

    def __copy__(self):
        return self.__deepcopy__(None)

    def __deepcopy__(self, memo):
        doc = _Doc(self._lx_doc.lookup)
        x = _copy(self, doc)
        doc.nodes.append(x)
        _moved(doc, x)
        return x

    def __repr__(self):
        return '<Element %s>' % (self._lx_local or self._lx_kind)

    # ----------------------------------------------------------- attributes
    @property
    def tag(self):
        if self._lx_kind == 'comment':
            return Comment
        if self._lx_kind == 'pi':
            return ProcessingInstruction
        return _join(None if self._lx_ns is None else self._lx_ns.href, self._lx_local)

    @tag.setter
    def tag(self, value):
        ns, name = _split(value)
        self._lx_local = name
        self._lx_ns = None if ns is None else _find_or_build(self._lx_doc, self, ns,
                                                          None, False)

    @property
    def prefix(self):
        return None if self._lx_ns is None else self._lx_ns.prefix

    @property
    def nsmap(self):
        out = {}
        node = self
        while node is not None:
            for d in node._lx_nsdefs:
                if d.prefix not in out:
                    out[d.prefix] = d.href
            node = node._lx_parent
        return out

    @property
    def attrib(self):
        return _Attrib(self)

    def get(self, key, default=None):
        return self._lx_attrs.get(_join(*_split(key)), default)

    def set(self, key, value):
        ns, name = _split(key)
        if NAME_RE.fullmatch(name) is None:
            raise ValueError('Invalid attribute name %r' % name)
        value = _text(value)
        full = _join(ns, name)
        if ns is not None and full not in self._lx_attr_ns:
            self._lx_attr_ns[full] = _find_or_build(self._lx_doc, self, ns, None,
                                                 True)
        self._lx_attrs[full] = value

    def keys(self):
        return self.attrib.keys()

    def values(self):
        return self.attrib.values()

    def items(self):
        return self.attrib.items()

    @property
    def text(self):
        return self._lx_text

    @text.setter
    def text(self, value):
        self._lx_text = None        # the old text goes first, even on errors
        if value is not None:
            self._lx_text = _text(value)

    @property
    def tail(self):
        return self._lx_tail

    @tail.setter
    def tail(self, value):
        self._lx_tail = None
        if value is not None:
            self._lx_tail = _text(value)

    # ------------------------------------------------------------- relations
    def getparent(self):
        return self._lx_parent

    def _lx_step(self, n):
        chain = _chain(self)
        i = _place(chain, self) + n
        return chain[i] if 0 <= i < len(chain) else None

    def getnext(self):
        return self._lx_step(1)

    def getprevious(self):
        return self._lx_step(-1)

    def itersiblings(self, tag=None, *tags, preceding=False):
        match = _matcher((tag,) + tags)
        n = -1 if preceding else 1
        return _filtered(_Kids(self._lx_step(n), lambda x: x._lx_step(n)), match)

    def iterancestors(self, tag=None, *tags):
        match = _matcher((tag,) + tags)
        return _filtered(_Kids(self._lx_parent, lambda x: x._lx_parent), match)

    def iterchildren(self, tag=None, *tags, reversed=False):
        match = _matcher((tag,) + tags)
        n = -1 if reversed else 1
        first = None
        if len(self._lx_kids) > 0:
            first = self._lx_kids[-1] if reversed else self._lx_kids[0]
        return _filtered(_Kids(first, lambda x: x._lx_step(n)), match)

    def iter(self, tag=None, *tags):
        return iter(_descend(self, _matcher((tag,) + tags), [], True))

    def iterdescendants(self, tag=None, *tags):
        return iter(_descend(self, _matcher((tag,) + tags), [], False))

    def itertext(self, *tags, with_tail=True):
        if len(tags) > 0:
            gap('itertext with tags')
        return iter(_texts(self, [], with_tail))

    def getroottree(self):
        return _ElementTree(self._lx_doc.root(), self._lx_doc)

    def getchildren(self):
        return list(self)

    def __len__(self):
        return len(self._lx_kids)

    def __bool__(self):
        return len(self._lx_kids) > 0

    def __iter__(self):
        return _Kids(self._lx_kids[0] if len(self._lx_kids) > 0 else None,
                     lambda x: x._lx_step(1))

    def __reversed__(self):
        return _Kids(self._lx_kids[-1] if len(self._lx_kids) > 0 else None,
                     lambda x: x._lx_step(-1))

    def __contains__(self, node):
        return isinstance(node, _Element) and node._lx_parent is self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._lx_kids[i]
        if not -len(self._lx_kids) <= i < len(self._lx_kids):
            raise IndexError('list index out of range')
        return self._lx_kids[i]

    def __setitem__(self, i, node):
        gap('item assignment')

    def __delitem__(self, i):
        if isinstance(i, slice):
            for x in self._lx_kids[i]:
                _unlink(x)
                _moved(self._lx_doc, x)
            return
        x = self[i]
        _unlink(x)
        x._lx_orphans = [x]
        _moved(self._lx_doc, x)

    def index(self, child, start=None, stop=None):
        if start is not None or stop is not None:
            gap('index with range')
        i = _place(self._lx_kids, child)
        if i < 0:
            raise ValueError('Element is not a child of this node.')
        return i

    # --------------------------------------------------------------- changes
    def _lx_adopt(self, node, at):
        """Puts an unlinked node among the children."""
        self._lx_kids.insert(at, node)
        node._lx_parent = self
        _moved(self._lx_doc, node)

    def append(self, element):
        _check_node(element)
        if _is_within(self, element):
            raise ValueError('cannot append parent to itself')
        _unlink(element)
        self._lx_adopt(element, len(self._lx_kids))

    def extend(self, elements):
        for x in elements:
            _Element.append(self, x)

    def insert(self, index, element):
        _check_node(element)
        n = len(self._lx_kids)
        at = index + n if index < 0 else index
        if not 0 <= at < n:
            _Element.append(self, element)
            return
        target = self._lx_kids[at]
        if target is element:
            return
        if _is_within(self, element):
            raise ValueError('cannot append parent to itself')
        _unlink(element)
        self._lx_adopt(element, _place(self._lx_kids, target))

    def _lx_beside(self, element, after):
        _check_node(element)
        if self._lx_parent is None and self._lx_orphans is None:
            if element._lx_kind == 'element':
                raise TypeError('Only processing instructions and comments '
                                'can be siblings of the root element')
            element._lx_tail = None
        if _is_within(self, element):
            if element is self:
                return
            raise ValueError('cannot add ancestor as sibling, please break '
                             'cycle first')
        _unlink(element)
        chain = _chain(self)
        chain.insert(_place(chain, self) + (1 if after else 0), element)
        element._lx_parent = self._lx_parent
        if self._lx_parent is None:
            element._lx_orphans = self._lx_orphans
        _moved(self._lx_doc, element)

    def addnext(self, element):
        _Element._lx_beside(self, element, True)

    def addprevious(self, element):
        _Element._lx_beside(self, element, False)

    def remove(self, element):
        _check_node(element)
        if element._lx_parent is not self:
            raise ValueError('Element is not a child of this node.')
        _unlink(element)
        element._lx_orphans = [element]
        _moved(self._lx_doc, element)

    def replace(self, old, new):
        _check_node(old)
        _check_node(new)
        if old._lx_parent is not self:
            raise ValueError('Element is not a child of this node.')
        if new is old:
            return
        if _is_within(self, new):
            raise ValueError('cannot append parent to itself')
        _unlink(new)
        at = _place(self._lx_kids, old)
        self._lx_kids[at] = new
        new._lx_parent = self
        old._lx_parent = None
        old._lx_orphans = [old]
        _moved(self._lx_doc, new)
        _moved(self._lx_doc, old)

    def clear(self, keep_tail=False):
        self._lx_text = None
        if not keep_tail:
            self._lx_tail = None
        for k in self.attrib.keys():
            del self.attrib[k]
        for x in list(self._lx_kids):
            _unlink(x)
            x._lx_orphans = [x]
            _moved(self._lx_doc, x)

    def makeelement(self, _tag, attrib=None, nsmap=None, **extra):
        return _make(self._lx_doc.lookup, _tag, attrib, nsmap, extra)

    # ---------------------------------------------------------------- search
    def xpath(self, expr, namespaces=None, **variables):
        return _xpath(self, expr, variables)


def _texts(node, out, with_tail):
    if node._lx_kind == 'element':
        if node._lx_text:
            out.append(node._lx_text)
        for x in node._lx_kids:
            _texts(x, out, True)
            if x._lx_tail:
                out.append(x._lx_tail)
    return out


def _filtered(it, match):
    for x in it:
        if match(x):
            yield x


class ElementBase(_Element):
    def __init__(self, *args, **kwargs):
        gap('direct construction of an element')


class _Data(_Element):
    @property
    def text(self):
        return self._lx_text

    @text.setter
    def text(self, value):
        self._lx_text = '' if value is None else _text(value)

    def get(self, key, default=None):
        return default

    def set(self, key, value):
        raise TypeError('this element does not have children or attributes')

    def append(self, node):
        raise TypeError('this element does not have children or attributes')

    def insert(self, index, node):
        raise TypeError('this element does not have children or attributes')

    @property
    def attrib(self):
        return {}


class CommentBase(_Data):
    _lx_kind = 'comment'


class PIBase(_Data):
    _lx_kind = 'pi'

    @property
    def target(self):
        return self._lx_target

    @target.setter
    def target(self, value):
        self._lx_target = _text(value)

    @property
    def attrib(self):
        return {k: a or b for k, a, b in re.findall(
            '\\s+(\\w+)\\s*=\\s*(?:\'([^\']*)\'|"([^"]*)")',
            ' ' + self._lx_text)}

    def get(self, key, default=None):
        return self.attrib.get(key, default)


class QName(object):
    def __init__(self, text, tag=None):
        if isinstance(text, _Element):
            text = text.tag
        if tag is not None:
            text = _join(text, tag)
        self.text = text
        self.namespace, self.localname = _split(text)

    def __str__(self):
        return self.text

    def __hash__(self):
        return hash(self.text)

    def __eq__(self, other):
        return self.text == (other.text if isinstance(other, QName)
                             else other)


class _ElementTree(object):
    def __init__(self, root, doc):
        self._root = root
        self._lx_doc = doc

    def getroot(self):
        return self._root

    def iter(self, tag=None, *tags):
        if self._root is None:
            return iter([])
        nodes = []
        for x in self._lx_doc.nodes:
            _descend(x, _matcher((tag,) + tags), nodes, True)
        return iter(nodes)

    def __getattr__(self, name):
        gap('lxml tree member ' + name)


class ElementClassLookup(object):
    pass


class CustomElementClassLookup(ElementClassLookup):
    def __init__(self, fallback=None):
        pass

    def lookup(self, node_type, document, namespace, name):
        return None


_DEFAULT = []


def _class_of(lookup, kind, ns, name):
    cls = None
    if lookup is not None:
        cls = lookup.lookup({'element': 'element', 'comment': 'comment',
                             'pi': 'PI'}[kind], None, ns, name)
    if cls is None:
        cls = {'element': ElementBase, 'comment': CommentBase,
               'pi': PIBase}[kind]
    return cls


def _create(doc, kind, ns=None, name=None):
    cls = _class_of(doc.lookup, kind, ns, name)
    if getattr(cls, '__abstractmethods__', None):
        cls.__abstractmethods__ = frozenset()
    x = object.__new__(cls)
    x._lx_setup(doc)
    x._lx_local = name
    return x


def _make(lookup, tag, attrib, nsmap, extra):
    ns, name = _split(tag)
    doc = _Doc(lookup)
    x = _create(doc, 'element', ns, name)
    doc.nodes.append(x)
    if nsmap:
        for p in sorted([k for k in nsmap if k is not None]):
            x._lx_nsdefs.append(_Ns(p, nsmap[p]))
        if None in nsmap:
            x._lx_nsdefs.append(_Ns(None, nsmap[None]))
    if ns is not None:
        x._lx_ns = _find_or_build(doc, x, ns, None, False)
    if attrib is not None:
        for k, v in dict(attrib).items():
            x.set(k, v)
    for k, v in extra.items():
        x.set(k, v)
    x._init()
    return x


def Element(_tag, attrib=None, nsmap=None, **extra):
    return _make(_DEFAULT[-1] if _DEFAULT else None, _tag, attrib, nsmap,
                 extra)


def Comment(text=None):
    text = '' if text is None else _text(text)
    if '--' in text or text.endswith('-'):
        raise ValueError("Comment may not contain '--' or end with '-'")
    doc = _Doc(_DEFAULT[-1] if _DEFAULT else None)
    x = _create(doc, 'comment')
    doc.nodes.append(x)
    x._lx_text = text
    x._init()
    return x


def ProcessingInstruction(target, text=None):
    target = _text(target)
    if NAME_RE.fullmatch(target) is None:
        raise ValueError('Invalid tag name %r' % target)
    if target.lower() == 'xml':
        raise ValueError('Invalid PI name %r' % target)
    text = '' if text is None else _text(text)
    if '?>' in text:
        raise ValueError("PI text must not contain '?>'")
    doc = _Doc(_DEFAULT[-1] if _DEFAULT else None)
    x = _create(doc, 'pi')
    doc.nodes.append(x)
    x._lx_target = target
    x._lx_text = text
    x._init()
    return x


PI = ProcessingInstruction


class XMLParser(object):
    def __init__(self, **kwargs):
        self._real = reallxml.etree.XMLParser(**kwargs)
        self._lookup = None

    def set_element_class_lookup(self, lookup=None):
        self._lookup = lookup

    setElementClassLookup = set_element_class_lookup

    def makeelement(self, _tag, attrib=None, nsmap=None, **extra):
        return _make(self._lookup, _tag, attrib, nsmap, extra)


def set_default_parser(parser=None):
    _DEFAULT.append(None if parser is None else parser._lookup)


def _convert(real, doc):
    """Turns a node of the real library into one of the model."""
    r = reallxml.etree
    if isinstance(real, r._Comment):
        x = _create(doc, 'comment')
    elif isinstance(real, r._ProcessingInstruction):
        x = _create(doc, 'pi')
        x._lx_target = real.target
    elif isinstance(real, r._Element) and isinstance(real.tag, str):
        q = r.QName(real)
        x = _create(doc, 'element', q.namespace, q.localname)
        up = real.getparent()
        above = {} if up is None else up.nsmap
        for p, href in real.nsmap.items():
            if above.get(p, 0) != href:
                x._lx_nsdefs.append(_Ns(p, href))
    else:
        gap('node ' + repr(real))
    x._lx_text, x._lx_tail = real.text, real.tail
    return x


def _fill(x, real):
    """The children and names of a converted element."""
    r = reallxml.etree
    if x._lx_kind == 'element':
        q = r.QName(real)
        if q.namespace is not None:
            x._lx_ns = _search_ns(x, real.prefix)
        for k, v in real.attrib.items():
            x._lx_attrs[k] = v
            ns = r.QName(k).namespace
            if ns is not None:
                x._lx_attr_ns[k] = _search_href(x, ns, True)
        for c in real:
            y = _convert(c, x._lx_doc)
            y._lx_parent = x
            x._lx_kids.append(y)
            _fill(y, c)
    x._init()


def fromstring(text, parser=None, base_url=None):
    p = parser._real if parser is not None else None
    try:
        real = reallxml.etree.fromstring(text, p)
    except TypeError as e:
        gap('parsing ' + str(e))
    doc = _Doc(parser._lookup if parser is not None else
               (_DEFAULT[-1] if _DEFAULT else None))
    nodes = [x for x in real.itersiblings(preceding=True)]
    nodes.reverse()
    nodes.append(real)
    nodes.extend([x for x in real.itersiblings()])
    root = None
    for n in nodes:
        x = _convert(n, doc)
        x._lx_tail = None
        doc.nodes.append(x)
        _fill(x, n)
        if n is real:
            root = x
    return root


XML = fromstring


def parse(source, parser=None, base_url=None):
    if not hasattr(source, 'read'):
        gap('parsing files')
    root = fromstring(source.read(), parser)
    return _ElementTree(root, root._lx_doc)


def tostring(node, **kwargs):
    gap('serialising nodes')


def _copy(node, doc):
    x = _create(doc, node._lx_kind, None if node._lx_ns is None else node._lx_ns.href,
                node._lx_local)
    x._lx_text, x._lx_tail, x._lx_target = node._lx_text, node._lx_tail, node._lx_target
    x._lx_attrs = dict(node._lx_attrs)
    x._lx_attr_ns = dict(node._lx_attr_ns)
    x._lx_nsdefs = [_Ns(d.prefix, d.href) for d in node._lx_nsdefs]
    x._lx_ns = node._lx_ns
    for c in node._lx_kids:
        y = _copy(c, doc)
        y._lx_parent = x
        x._lx_kids.append(y)
    x._init()
    return x


# -------------------------------------------------------------------- XPath
STEP_RE = re.compile(
    r'(descendant-or-self::|descendant::|\.//)\*(?:\[(.*)\])?')
TEST_RE = re.compile(
    r'(name\(\)|local-name\(\)|namespace-uri\(\)|@[\w-]+) *= *'
    r'(?:\$(\w+)|"([^"]*)"|\'([^\']*)\')')
HAVE_RE = re.compile(r'@[\w-]+')
REGEX_RE = re.compile(r're:(?:test)\((@[\w-]+), *"([^"]*)"\)')


def _xpath(node, expr, variables):
    m = STEP_RE.fullmatch(expr)
    if m is None:
        gap('XPath ' + expr)
    tests = []
    if m.group(2):
        for part in m.group(2).split(' and '):
            k = TEST_RE.fullmatch(part.strip())
            if k is not None:
                if k.group(2) is not None:
                    value = variables[k.group(2)]
                else:
                    value = k.group(3) or k.group(4) or ''
                tests.append((k.group(1), '=', value))
                continue
            if HAVE_RE.fullmatch(part.strip()):
                tests.append((part.strip(), '?', None))
                continue
            k = REGEX_RE.fullmatch(part.strip())
            if k is None:
                gap('XPath ' + expr)
            tests.append((k.group(1), '~', k.group(2)))
    out = []
    every = _descend(node, _matcher(('*',)), [],
                     m.group(1) == 'descendant-or-self::')
    for x in every:
        if _holds(x, tests):
            out.append(x)
    return out


def _holds(x, tests):
    for what, op, value in tests:
        ns, local = _split(x.tag)
        if what == 'name()':
            v = local if x.prefix is None else x.prefix + ':' + local
        elif what == 'local-name()':
            v = local
        elif what == 'namespace-uri()':
            v = ns or ''
        else:
            v = x.get(what[1:])
            if v is None:
                if op in ('=', '?'):
                    return False
                v = ''
        if op == '?':
            continue
        if op == '=':
            if value is None:
                gap('XPath variable None')
            if v != value:
                return False
        elif re.search(value, v) is None:
            return False
    return True
