"""A model of lxml.cssselect over the model of the tree."""
from symx import reallxml
from symx.reallxml import gap

from .etree import _descend, _matcher, _split

SelectorError = reallxml.cssselect.SelectorError
SelectorSyntaxError = reallxml.cssselect.SelectorSyntaxError
ExpressionError = reallxml.cssselect.ExpressionError
WS = ' \t\r\n'


class CSSSelector(object):
    def __init__(self, css, namespaces=None, translator='xml'):
        if not isinstance(css, str):
            gap('symbolic selector')
        # refuses what the real one refuses
        self.path = reallxml.cssselect.CSSSelector(css, namespaces).path
        self.css = css
        self._namespaces = dict(namespaces or {})
        self._trees = [s.parsed_tree for s in reallxml.parse_css(css)]

    def __call__(self, element):
        if element._lx_kind != 'element':
            raise ValueError('Input object is not an XML element: ' +
                             repr(element))
        out = []
        for x in _descend(element, _matcher(('*',)), [], True):
            for tree in self._trees:
                if self._match(tree, x, element):
                    out.append(x)
                    break
        return out

    def _match(self, s, x, top):
        """Whether the selector, anchored below `top`, selects x."""
        kind = type(s).__name__
        if kind == 'Element':
            return self._type(s, x)
        if kind == 'Hash':
            return self._match(s.selector, x, top) and x.get('id') == s.id
        if kind == 'Class':
            return self._match(s.selector, x, top) \
                and s.class_name in _words(x.get('class'))
        if kind == 'Attrib':
            return self._match(s.selector, x, top) and self._attrib(s, x)
        if kind == 'Negation':
            return self._match(s.selector, x, top) \
                and not self._match(s.subselector, x, None)
        if kind == 'Pseudo':
            return self._match(s.selector, x, top) and _pseudo(s.ident, x)
        if kind == 'CombinedSelector':
            return self._match(s.subselector, x, top) \
                and self._combine(s, x, top)
        gap('selector ' + kind)

    def _type(self, s, x):
        ns, local = _split(x.tag)
        if s.namespace is None:
            if s.element is None:
                return True
            return ns is None and local == s.element
        if s.namespace not in self._namespaces:
            raise reallxml.etree.XPathEvalError('Undefined namespace prefix')
        if ns != self._namespaces[s.namespace]:
            return False
        return s.element is None or local == s.element

    def _attrib(self, s, x):
        name = s.attrib
        if s.namespace is not None:
            if s.namespace == 'xml':
                uri = 'http://www.w3.org/XML/1998/namespace'
            else:
                uri = self._namespaces[s.namespace]
            name = '{' + uri + '}' + name
        v = x.get(name)
        op = s.operator
        if op == 'exists':
            return v is not None
        want = getattr(s.value, "value", s.value)
        if op == '!=':
            return v is None or v != want
        if v is None:
            return False
        if op == '=':
            return v == want
        if len(want) == 0:
            return False
        if op == '~=':
            return want in _words(v)
        if op == '|=':
            return v == want or v.startswith(want + '-')
        if op == '^=':
            return v.startswith(want)
        if op == '$=':
            return v.endswith(want)
        if op == '*=':
            return want in v
        gap('attribute operator ' + op)

    def _combine(self, s, x, top):
        c = s.combinator
        if c in (' ', '>'):
            y = x
            while y is not top and y._lx_parent is not None:
                y = y._lx_parent
                if self._match(s.selector, y, top):
                    return True
                if c == '>':
                    return False
            return False
        if c in ('~', '+'):
            if x is top:
                return False
            y = _before(x)
            while y is not None:
                if self._match(s.selector, y, top):
                    return True
                if c == '+':
                    return False
                y = _before(y)
            return False
        gap('combinator ' + c)


def _words(value):
    if value is None:
        return []
    return value.split()


def _before(x):
    x = x.getprevious()
    while x is not None and x._lx_kind != 'element':
        x = x.getprevious()
    return x


def _after(x):
    x = x.getnext()
    while x is not None and x._lx_kind != 'element':
        x = x.getnext()
    return x


def _pseudo(name, x):
    if name == 'root':
        return x._lx_parent is None
    if name == 'first-child':
        return _before(x) is None
    if name == 'last-child':
        return _after(x) is None
    if name == 'only-child':
        return _before(x) is None and _after(x) is None
    if name == 'empty':
        return len([k for k in x._lx_kids if k._lx_kind == 'element']) == 0 \
            and not x.text
    gap('pseudo-class ' + name)
