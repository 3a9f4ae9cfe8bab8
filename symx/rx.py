"""Backtracking regular-expression matcher over symbolic strings.

Interprets the parse tree produced by CPython's own ``re._parser`` with the
same priority order as the C engine; every character test forks through the
execution context.
"""
import re
from re import _constants as K
from re import _parser

from .core import FULL, Unsupported, mask_of
from .values import (SymStr, _els, ch_in, ch_pred, is_sym, mk, seq_eq)

_tree_cache = {}
_single_cache = {}


def tree(pat):
    t = _tree_cache.get(pat)
    if t is None:
        if not isinstance(pat.pattern, str):
            raise Unsupported('bytes pattern')
        t = _parser.parse(pat.pattern, pat.flags & ~re.DEBUG)
        _tree_cache[pat] = t
    return t


def _node_pred(op, av, flags):
    """(mask, predicate) of a single-character node."""
    key = (op, repr(av), flags & (re.IGNORECASE | re.DOTALL | re.ASCII))
    r = _single_cache.get(key)
    if r is None:
        icase = bool(flags & re.IGNORECASE)
        ascii_ = bool(flags & re.ASCII)

        def base(ch):
            if op is K.LITERAL:
                return ord(ch) == av
            if op is K.NOT_LITERAL:
                return ord(ch) != av
            if op is K.ANY:
                return bool(flags & re.DOTALL) or ch != '\n'
            neg = False
            hit = False
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    hit = hit or ord(ch) == a
                elif o is K.RANGE:
                    hit = hit or a[0] <= ord(ch) <= a[1]
                elif o is K.CATEGORY:
                    hit = hit or _category(a, ch, ascii_)
                else:
                    raise Unsupported('regex set item %r' % (o,))
            return hit != neg

        def pred(ch):
            if not icase or op is K.ANY:
                return base(ch)
            if op is K.NOT_LITERAL:
                return all(ord(c) != av for c in (ch, ch.lower(), ch.upper())
                           if len(c) == 1)
            if op is K.IN and av and av[0][0] is K.NEGATE:
                rest = (K.IN, av[1:])
                inner = _node_pred(K.IN, av[1:], flags)[1]
                return not inner(ch)
            return any(base(c) for c in (ch, ch.lower(), ch.upper())
                       if len(c) == 1)

        r = (mask_of(pred), pred)
        _single_cache[key] = r
    return r


def _category(a, ch, ascii_):
    if a is K.CATEGORY_DIGIT:
        return ch.isdigit() and (not ascii_ or ch in '0123456789')
    if a is K.CATEGORY_NOT_DIGIT:
        return not _category(K.CATEGORY_DIGIT, ch, ascii_)
    if a is K.CATEGORY_SPACE:
        return ch.isspace() and (not ascii_ or ch in ' \t\n\r\f\v')
    if a is K.CATEGORY_NOT_SPACE:
        return not _category(K.CATEGORY_SPACE, ch, ascii_)
    if a is K.CATEGORY_WORD:
        return (ch.isalnum() or ch == '_') and (not ascii_ or ord(ch) < 128)
    if a is K.CATEGORY_NOT_WORD:
        return not _category(K.CATEGORY_WORD, ch, ascii_)
    raise Unsupported('regex category %r' % (a,))


_WORD = mask_of(lambda c: c.isalnum() or c == '_')


class _M(object):
    def __init__(self, pat, els, end):
        self.pat = pat
        self.els = els
        self.n = end
        self.groups = {}

    def seq(self, items, i, pos, flags, k):
        """Match items[i:] at pos then continue with k; end position or None."""
        if i == len(items):
            return k(pos)
        op, av = items[i]

        def rest(p):
            return self.seq(items, i + 1, p, flags, k)

        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if pos >= self.n:
                return None
            mask, pred = _node_pred(op, av, flags)
            if not ch_in(self.els[pos], mask, pred):
                return None
            return rest(pos + 1)
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, flags, rest)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            group, addf, delf, p = av
            fl = (flags | addf) & ~delf
            old = self.groups.get(group)

            def close(q):
                if group is None:
                    return rest(q)
                prev = self.groups.get(group)
                self.groups[group] = (pos, q)
                r = rest(q)
                if r is None:
                    if prev is None:
                        self.groups.pop(group, None)
                    else:
                        self.groups[group] = prev
                return r
            r = self.seq(list(p), 0, pos, fl, close)
            if r is None and group is not None:
                if old is None:
                    self.groups.pop(group, None)
                else:
                    self.groups[group] = old
            return r
        if op is K.MAX_REPEAT:
            lo, hi, p = av
            return self.rep(list(p), lo, hi, 0, pos, flags, rest, True, -1)
        if op is K.MIN_REPEAT:
            lo, hi, p = av
            return self.rep(list(p), lo, hi, 0, pos, flags, rest, False, -1)
        if op is K.POSSESSIVE_REPEAT:
            lo, hi, p = av
            end = self.rep(list(p), lo, hi, 0, pos, flags, lambda q: q,
                           True, -1)
            return None if end is None else rest(end)
        if op is K.ATOMIC_GROUP:
            end = self.seq(list(av), 0, pos, flags, lambda q: q)
            return None if end is None else rest(end)
        if op is K.AT:
            return rest(pos) if self.at(av, pos, flags) else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction < 0:
                lo, hi = av[1].getwidth()
                if lo != hi:
                    raise Unsupported('variable look-behind')
                start = pos - lo
                if start < 0:
                    hit = None
                else:
                    hit = self.seq(p, 0, start, flags,
                                   lambda q: q if q == pos else None)
            else:
                hit = self.seq(p, 0, pos, flags, lambda q: q)
            if (hit is not None) == (op is K.ASSERT):
                return rest(pos)
            return None
        if op is K.GROUPREF:
            g = self.groups.get(av)
            if g is None:
                return None
            s = self.els[g[0]:g[1]]
            t = self.els[pos:pos + len(s)]
            if pos + len(s) > self.n or not seq_eq(s, t):
                return None
            return rest(pos + len(s))
        raise Unsupported('regex op %r' % (op,))

    def rep(self, p, lo, hi, count, pos, flags, k, greedy, last):
        can_more = hi is K.MAXREPEAT or count < hi

        def more():
            if not can_more:
                return None
            if count >= lo and pos == last:
                return None          # empty iteration
            return self.seq(p, 0, pos, flags,
                            lambda q: self.rep(p, lo, hi, count + 1, q,
                                               flags, k, greedy, pos))
        if count < lo:
            return more()
        if greedy:
            # fast path: single-character body
            r = more()
            if r is not None:
                return r
            return k(pos)
        r = k(pos)
        if r is not None:
            return r
        return more()

    def at(self, av, pos, flags):
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_LINE):
            if pos == 0:
                return True
            if av is K.AT_BEGINNING_LINE or flags & re.MULTILINE:
                return ch_in(self.els[pos - 1], 1 << 10)
            return False
        if av is K.AT_BEGINNING_STRING:
            return pos == 0
        if av in (K.AT_END, K.AT_END_LINE):
            if pos == self.n:
                return True
            if av is K.AT_END_LINE or flags & re.MULTILINE:
                return ch_in(self.els[pos], 1 << 10)
            if pos == self.n - 1:
                return ch_in(self.els[pos], 1 << 10)
            return False
        if av is K.AT_END_STRING:
            return pos == self.n
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            def w(i):
                return 0 <= i < self.n and ch_in(
                    self.els[i], _WORD, lambda c: c.isalnum())
            b = w(pos - 1) != w(pos)
            return b if av is K.AT_BOUNDARY else not b
        raise Unsupported('regex anchor %r' % (av,))


class SymMatch(object):
    def __init__(self, pat, s, m, start, end):
        self.re = pat
        self.string = s
        self._g = dict(m.groups)
        self._g[0] = (start, end)
        self.pos, self.endpos = 0, len(_els(s))

    def _n(self, g):
        if isinstance(g, (str, SymStr)):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError('no such group')
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        x = self._g.get(self._n(g))
        if x is None:
            return default
        return mk(_els(self.string)[x[0]:x[1]])

    def group(self, *gs):
        if not gs:
            gs = (0,)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self.re.groupindex}

    def span(self, g=0):
        return self._g.get(self._n(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        # last closed outermost group; approximated as in the C engine only
        # for non-nested groups
        best = None
        for g, (a, b) in self._g.items():
            if g and (best is None or b >= self._g[best][1]):
                if best is None or b > self._g[best][1] or g < best:
                    best = g
        return best

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == i:
                return k
        return None

    def expand(self, t):
        raise Unsupported('match.expand')

    def __bool__(self):
        return True


def _try(pat, els, start, end, full=False):
    t = list(tree(pat))
    m = _M(pat, els, end)
    fl = tree(pat).state.flags | pat.flags
    if full:
        e = m.seq(t, 0, start, fl, lambda q: q if q == end else None)
    else:
        e = m.seq(t, 0, start, fl, lambda q: q)
    return m, e


def match(pat, s, pos=0, endpos=None, full=False):
    els = _els(s)
    end = len(els) if endpos is None else min(endpos, len(els))
    m, e = _try(pat, els, pos, end, full)
    return None if e is None else SymMatch(pat, s, m, pos, e)


def fullmatch(pat, s, pos=0, endpos=None):
    return match(pat, s, pos, endpos, True)


def search(pat, s, pos=0, endpos=None):
    els = _els(s)
    end = len(els) if endpos is None else min(endpos, len(els))
    for i in range(pos, end + 1):
        m, e = _try(pat, els, i, end)
        if e is not None:
            return SymMatch(pat, s, m, i, e)
    return None


def finditer(pat, s, pos=0, endpos=None):
    els = _els(s)
    end = len(els) if endpos is None else min(endpos, len(els))
    i = pos
    while i <= end:
        t = list(tree(pat))
        m = _M(pat, els, end)
        fl = tree(pat).state.flags | pat.flags
        e = m.seq(t, 0, i, fl, lambda q: q)
        if e is None:
            i += 1
            continue
        yield SymMatch(pat, s, m, i, e)
        if e == i:
            # retry a non-empty match at the same position
            m2 = _M(pat, els, end)
            e2 = m2.seq(t, 0, i, fl, lambda q, i=i: q if q != i else None)
            if e2 is not None:
                yield SymMatch(pat, s, m2, i, e2)
                i = e2
            else:
                i += 1
        else:
            i = e


def findall(pat, s, *a):
    out = []
    for m in finditer(pat, s, *a):
        if pat.groups == 0:
            out.append(m.group(0))
        elif pat.groups == 1:
            g = m.group(1)
            out.append('' if g is None else g)
        else:
            out.append(tuple('' if g is None else g for g in m.groups()))
    return out


def sub(pat, repl, s, count=0):
    els = _els(s)
    out = []
    i = 0
    n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(els[i:a])
        if callable(repl):
            out.extend(_els(repl(m)))
        else:
            out.extend(_template(pat, repl, m))
        i = b
        n += 1
    out.extend(els[i:])
    return mk(out), n


def _template(pat, repl, m):
    if is_sym(repl):
        if any(not isinstance(e, str) and ch_in(e, 1 << 92)
               for e in repl.els):
            raise Unsupported('symbolic regex template')
        return repl.els
    if '\\' not in repl:
        return tuple(repl)
    t = _parser.parse_template(repl, pat)
    out = []
    for x in (t if isinstance(t, list) else t[1]):
        if isinstance(x, int):
            g = m.group(x)
            out.extend(_els(g) if g is not None else ())
        else:
            out.extend(x)
    return out


def split(pat, s, maxsplit=0):
    els = _els(s)
    out = []
    i = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(mk(els[i:a]))
        for g in m.groups():
            out.append(g)
        i = b
        n += 1
    out.append(mk(els[i:]))
    return out
