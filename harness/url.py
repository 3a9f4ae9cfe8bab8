PROPERTIES = ['C21', 'C22', 'C23', 'C42']

from symx.api import harness, LOWER, DIGITS, ALNUM
from svgpy.url import URL, URLSearchParams

PORTS = {'http': '80', 'https': '443', 'ftp': '21', 'ws': '80',
         'gopher': '70', 'wss': '443'}
PATH = 'ab0-_./~'
# characters of each part that are written as they are
USER = ALNUM + '-_.~'
PARTS = ('protocol', 'username', 'password', 'hostname', 'port', 'pathname',
         'search', 'hash')


def parts(u):
    return [getattr(u, p) for p in PARTS]


def same(t, u, v, label, skip=()):
    for p in PARTS + ('host', 'origin'):
        if p not in skip:
            t.eq(getattr(u, p), getattr(v, p), '%s: %s' % (label, p))


@harness('C21', cases=[dict(scheme=s) for s in ('http', 'wss', 'foo')])
def c21_parts(t, scheme):
    """The parts of an URL put together from parts are these parts."""
    host = t.text('host', 3, 'aZ0.-')
    t.assume(not host.startswith('.'))
    t.assume('..' not in host)
    port = t.choice('port', [None, '80', '8', '443'])
    user = t.choice('user', [None, 'name', 'both'])
    path = t.choice('path', ['', '/', '/a%20b', '/x/y.z'])
    query = t.choice('query', ['', '?k=v'])
    frag = t.choice('frag', [None, 'some'])
    s = scheme + '://'
    name = pw = ''
    if user:
        name = t.text('name', 2, USER)
        s += name
        if user == 'both':
            pw = t.text('pw', 1, USER)
            s += ':' + pw
        s += '@'
    s += host
    if port:
        s += ':' + port
    s += path + query
    fr = ''
    if frag:
        fr = t.text('fr', 2, 'a0/?:@!$&()*+,-.;=_~')
        s += '#' + fr
    u = URL(s)
    t.eq(u.protocol, scheme + ':', 'protocol')
    t.eq(u.hostname, host.lower(), 'hostname')
    t.eq(u.username, name, 'username')
    t.eq(u.password, pw, 'password')
    default = PORTS.get(scheme) == port
    t.eq(u.host, host.lower() if port is None or default
         else host.lower() + ':' + port, 'host')
    t.eq(u.pathname, path or '/', 'pathname')
    t.eq(u.search, query, 'search')
    t.eq(u.hash, '#' + fr if fr else '', 'hash')
    t.eq(u.origin, scheme + '://' + u.host if scheme in PORTS else 'null',
         'origin')
    want = scheme + '://'
    if name:
        want += name + (':' + pw if pw else '') + '@'
    t.eq(u.href, want + u.host + (path or '/') + query + (
        '#' + fr if fr else ''), 'href')
    t.eq(u.tostring(exclude_fragment=True) + (('#' + fr) if fr else ''),
         u.href, 'without the fragment')
    if not query and not user:
        b = URL('blob:' + s)
        t.eq(b.origin, u.origin, 'origin of a blob')
        t.eq(b.host, '', 'no host of a blob')


PREFIX = {'path': 'http://h/', 'hash': 'http://h/p#', 'query': 'http://h/p?',
          'user': 'http://', 'data': 'data:', 'file': 'file:///',
          'about': 'about:'}


@harness('C21', cases=[dict(part=p, pre=q, n=n) for p in PREFIX
                       for q, n in (('', 1), ('', 2), ('', 3), ('%25', 1),
                                    ('%25', 2))])
def c21_stable(t, part, pre, n):
    """Reading the serialisation of an URL again changes nothing."""
    x = t.text('x', n, 'gZ%25./#&=+?' if n == 3 else '2356'
               if pre else 'gZ%25f./?#&=+ ;:@\\"<')
    s = PREFIX[part] + pre + x
    if part == 'user':
        s += '@h/p'
    e, u = t.raises(lambda: URL(s))
    if e is not None:
        t.check(isinstance(e, ValueError), 'rejected with ValueError')
        return
    h = u.href
    v = t.no_raise('the serialisation is an URL', lambda: URL(h))
    t.eq(v.href, h, 'stable')
    same(t, u, v, 'same parts', ('port', ))


VALUES = {
    'protocol': ['http', 'https:', 'ftp', 'WS'],
    'port': None, 'username': None, 'password': None, 'host': None,
    'hostname': None, 'pathname': None, 'search': None, 'hash': None,
}
STARTS = ['http://h/', 'https://u:p@h.org:81/a/b?k=v#f', 'ws://h:80/a#f']


@harness('C22', cases=[dict(part=p, start=s) for p in VALUES
                       for s in range(len(STARTS))])
def c22_set(t, part, start):
    """A part set reads back as set, the other parts keep their values, and
    the serialisation has the part."""
    u, old = URL(STARTS[start]), URL(STARTS[start])
    changed = {part}
    if part == 'protocol':
        v = t.choice('v', VALUES[part])
        want = v.rstrip(':').lower() + ':'
        changed |= {'origin', 'host', 'port'}
    elif part == 'port':
        v = t.choice('none', ['', 'some'])
        if v:
            v = t.text('v', 2, '0123456789')
            t.assume(not v.startswith('0'))
        want = v
        changed |= {'host', 'origin'}
    elif part in ('username', 'password'):
        v = t.text('v', 2, "aZ09-_.~:/@?# ;=+'")
        want = ''.join([c if c in 'aZ09-_.~' else '%%%02X' % ord(c)
                        for c in v])
    elif part == 'host':
        v = t.text('v', 2, 'aZ0-')
        p = t.choice('port', ['', ':7', ':443', ':80'])
        v = v + p
        want = v.lower()
        if p and PORTS[old.protocol[:-1]] == p[1:]:
            want = want[:2]
        changed |= {'hostname', 'port', 'origin'}
    elif part == 'hostname':
        v = t.text('v', 2, 'aZ0-')
        want = v.lower()
        changed |= {'host', 'origin'}
    elif part == 'pathname':
        v = t.choice('slash', ['', '/']) + t.text('v', 2, 'aZ0-_~')
        want = v if v.startswith('/') else '/' + v
    elif part == 'search':
        v = t.choice('mark', ['', '?'])
        want = t.text('k', 1, 'aZ0') + '=' + t.text('v', 2, 'aZ0-_.*=%')
        v = v + want
        want = '?' + want
    else:
        v = t.choice('mark', ['', '#'])
        want = t.text('v', 2, 'aZ0-_.*=%?/:@')
        v = v + want
        want = '#' + want
    setattr(u, part, v)
    t.eq(getattr(u, part), want, 'set')
    same(t, u, old, 'other part', changed)
    if part == 'host':
        t.eq(u.port, p[1:], 'port of the host')
    r = URL(u.href)
    t.eq(getattr(r, part), want if part != 'port' or
         PORTS.get(u.protocol[:-1]) != want else '', 'serialised')
    t.eq(r.href, u.href, 'stable')
    t.eq(r.origin, u.origin, 'origin')


@harness('C22', cases=[dict(part=p) for p in ('protocol', 'port', 'host',
                                              'hostname', 'pathname')])
def c22_reject(t, part):
    """An invalid value is rejected with ValueError and changes nothing."""
    u, old = URL(STARTS[1]), URL(STARTS[1])
    v = t.text('v', 2, '1359ab:#@/\\ +-')
    if part == 'protocol':
        v = v + t.choice('more', ['', ':'])
        bad = t.Or(v[0] < 'a', v[0] > 'z', *[
            v[1] == c for c in '#@/\\ '])
    elif part == 'port':
        pre = t.choice('pre', ['', '655'])
        bad = t.Or(*[c < '0' for c in v], *[c > '9' for c in v])
        if pre:
            bad = t.Or(bad, v > '35')
        v = pre + v
    elif part == 'pathname':
        bad = '\\' in v
    else:
        bad = t.Or(*[c == x for c in v for x in '#@/\\ '])
    e, _ = t.raises(lambda: setattr(u, part, v))
    if part in ('protocol', 'port', 'pathname'):
        t.check(t.Or(t.And(bad, isinstance(e, ValueError)),
                     t.And(t.Not(bad), e is None)), 'accepted iff valid',
                detail=repr(e))
    else:
        t.check(t.Or(t.Not(bad), isinstance(e, ValueError)), 'rejected',
                detail=repr(e))
        t.check(e is None or isinstance(e, ValueError), 'ValueError')
    if e is not None:
        same(t, u, old, 'unchanged')


@harness('C23', cases=[dict(n=n) for n in (1, 2, 3)])
def c23_params(t, n):
    """Parameters set appear in the query, sorted by key, and reading the
    query gives the parameters again."""
    u = URL('http://h/')
    keys = []
    for i in range(n):
        k = t.text('k%d' % i, 1 if n > 1 else 2, 'abA*' if n > 1
                   else 'ab=&+# %*')
        v = t.text('v%d' % i, 1 if n > 1 else 2, 'a0* ' if n > 1
                   else 'ab=&+# %*?')
        t.assume(t.And(*[k != o for o, _ in keys]))
        keys.append((k, v))
        u.search_params[k] = v
    t.eq(len(u.search_params), n, 'number of parameters')
    for k, v in keys:
        t.eq(u.search_params[k], v, 'parameter')
    s = u.search_params.tostring()
    t.check('#' not in s and ' ' not in s, 'safe in a query')
    w = URL('http://h/?' + s)
    t.eq(len(w.search_params), n, 'parameters read')
    ks = list(w.search_params)
    for a, b in zip(ks, ks[1:]):
        t.check(a < b, 'sorted')
    if n > 1:
        for k, v in keys:
            t.eq(w.search_params.get(k), v, 'parameter read')
    t.eq(w.href, u.href if n > 1 else w.href, 'same URL')


@harness('C23')
def c23_query(t):
    """The parameters of a query are its pairs: '+' is a space, the value is
    all that follows the first '='."""
    x = t.text('x', 4, 'ab+=&')
    u = URL('http://h/')
    u.search = x
    want = {}
    for pair in x.split('&'):
        k, _, v = pair.partition('=')
        want[k.replace('+', ' ')] = v.replace('+', ' ')
    t.eq(len(u.search_params), len(want), 'number of parameters')
    for k in list(want):
        t.eq(u.search_params.get(k), want[k], 'parameter')


@harness('C23')
def c23_mapping(t):
    """Adding, replacing and removing parameters acts like on a mapping and
    is seen by the URL at once."""
    u = URL('http://h/?a=1')
    p, model = u.search_params, {'a': '1'}
    for i in range(3):
        k, v = t.text('k%d' % i, 1, 'ab'), t.text('v%d' % i, 1, 'xy')
        if t.bool('delete%d' % i):
            if k in model:
                del p[k], model[k]
            else:
                t.rejects('missing', KeyError, p.__delitem__, k)
        else:
            p[k] = v
            model[k] = v
    t.eq(len(p), len(model), 'size')
    for k in list(model):
        t.eq(p[k], model[k], 'value')
    t.check(u.search_params is p, 'same object')
    want = '&'.join(k + '=' + model[k] for k in sorted(model))
    t.eq(u.search, '?' + want if model else '', 'search')
    t.eq(p.tostring(), want, 'tostring')


BAD = ['', 'x', '//', 'http://h:99999/', 'http://a b/', 'http://:80/',
       'about:', 'data:', 'http://u@/p', 'http://h:x/']


@harness('C22')
def c22_href(t):
    """Setting href replaces every part; an invalid one changes nothing."""
    u, old = URL(STARTS[1]), URL(STARTS[1])
    s = 'ws://' + t.text('host', 2, 'aZ0') + '/' + t.text('path', 1, 'ab')
    u.href = s
    same(t, u, URL(s), 'as constructed')
    s = t.choice('bad', BAD)
    u.href = STARTS[1]
    same(t, u, old, 'set back')
    t.rejects('invalid URL', ValueError, setattr, u, 'href', s)
    same(t, u, old, 'unchanged')


KINDS = ['', 'x', './x', '../x', 'x/', '.', '..', '/x', '/', '?q', '#f',
         'x?q', 'x#f', '/x?q', '/x#f', '?q#f', '/x?q#f', 'x/../y', '//n/x']


@harness('C42', cases=[dict(kind=k, as_url=o) for k in KINDS
                       for o in (False, True)])
def c42_resolve(t, kind, as_url):
    """A relative URL is resolved against its base as RFC 3986 says; the base
    is not changed."""
    scheme = t.choice('scheme', ['http', 'wss', 'foo'])
    origin = scheme + '://' + t.choice('user', ['', 'u:p@']) + 'h:8'
    d = t.choice('dir', ['/', '/d/', '/d/e/'])
    name = t.choice('name', ['', 'n'])
    tail = t.choice('tail', ['', '?b=c', '#z', '?b=c#z'])
    base = origin + d + name + tail
    x = t.text('x', 2, 'ab0-_~')
    q = t.text('q', 1, 'ab0') + '=' + t.text('v', 1, 'ab0')
    f = t.text('f', 2, 'ab0-_~?/')
    rel = kind.replace('x', x).replace('q', q).replace('f', f)
    b = URL(base) if as_url else base
    u = t.no_raise('resolves', lambda: URL(rel, b))
    up = d[:-1].rpartition('/')[0] + '/' if d != '/' else '/'
    path, _, frag = kind.partition('#')
    path, mark, query = path.partition('?')
    if path.startswith('//'):
        origin = scheme + '://n'
        p = path[3:]
    elif path == '':
        p = d + name
        if not mark:
            query = tail.partition('#')[0][1:]
            mark = query and '?'
    elif path.startswith('/'):
        p = path
    elif path.startswith('../'):
        p = up + path[3:]
    elif path == '..':
        p = up
    elif path.startswith('./'):
        p = d + path[2:]
    elif path == '.':
        p = d
    else:
        p = d + path
    p = p.replace('x/../', '').replace('x', x)
    want = origin + p + mark + query.replace('q', q)
    if '#' in kind:
        want = want + '#' + f
    t.eq(u.href, want, 'resolved')
    if as_url:
        t.eq(b.href, URL(base).href, 'base unchanged')
        t.check(u is not b and u.search_params is not b.search_params,
                'not shared')


@harness('C42')
def c42_absolute(t):
    """An absolute URL does not depend on the base."""
    s = t.choice('scheme', ['http', 'foo', 'data', 'about']) + ':'
    s += (s in ('http:', 'foo:') and '//h/' or '') + t.text('x', 2, 'aZ0-_')
    base = t.choice('base', ['http://h/a/b?c=d#e', 'about:blank',
                             'data:,x', ''])
    same(t, URL(s, base), URL(s), 'as without a base')


@harness('C42')
def c42_no_base(t):
    """A relative URL without a usable base is rejected."""
    s = t.text('x', 2, 'aZ0-_./?#')
    t.assume(s != '//')
    base = t.choice('base', [None, '', 'about:blank', 'data:,x'])
    t.rejects('relative', ValueError, URL, s, base)
