"""Runtime hooks called by instrumented code (see loader.py)."""
import builtins
import collections
import copy
import functools
import itertools
import logging
import math
import numbers
import operator
import os
import re
import string
import sys
import types
import unicodedata
import urllib.parse
from decimal import Decimal
from fractions import Fraction

import z3

from . import core, rx, shadow
from .core import FULL, Unsupported, ctx, mask_chars
from .values import (SYM_TYPES, And, Not, Or, SymBool, SymBytes, SymChar,
                     SymNum, SymStr, _els, _is_array, _real, atan2, ch_in,
                     degrees, format_num, is_num, is_sym, join, mk, num,
                     parse_float, parse_int, radians, sbool, sincos, sqrt,
                     str_num, trunc, zn)

try:
    import numpy as np
except ImportError:              # pragma: no cover
    np = None

STR_KINDS = {'int': int, 'float': float, 'dec': Decimal, 'frac': Fraction}


def pytype(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymNum):
        return STR_KINDS[x.kind]
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, rx.SymMatch):
        return re.Match
    return type(x)


def shallow_sym(args):
    for a in args:
        if type(a) in SYM_TYPES:
            return True
    return False


def deep_sym(x, depth=3):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset) or t is collections.deque:
        return builtins.any(deep_sym(y, depth - 1) for y in x)
    if t is dict or t is collections.OrderedDict:
        return builtins.any(deep_sym(y, depth - 1) for y in x.values()) or \
            builtins.any(deep_sym(y, depth - 1) for y in x.keys())
    if np is not None and t is np.ndarray and x.dtype == object:
        return builtins.any(deep_sym(y, depth - 1) for y in x.flat)
    return False


# ---------------------------------------------------------------- dicts
# A dict may hold symbolic keys: they are wrapped so they hash by identity and
# every lookup goes through these helpers, which fork on key equality.

class KeyBox(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'KeyBox(%r)' % (self.k,)


def unbox(k):
    return k.k if type(k) is KeyBox else k


def _ksym(k):
    if type(k) in SYM_TYPES:
        return True
    return type(k) is tuple and builtins.any(_ksym(x) for x in k)


def has_boxes(d):
    return getattr(core.CURRENT, 'boxed', None) and id(d) in core.CURRENT.boxed


def _key_eq(a, b):
    if isinstance(a, SymStr):
        return isinstance(b, (str, SymStr)) and bool(a == b)
    if isinstance(b, SymStr):
        return isinstance(a, str) and bool(b == a)
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and builtins.all(
            _key_eq(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r)


_MISS = object()


def find_key(d, k):
    """The stored key of d equal to k, or _MISS (forks)."""
    if not _ksym(k):
        if not has_boxes(d):
            return k if k in d else _MISS
        if k in d:
            return k
        for x in list(dict.keys(d) if isinstance(d, dict) else d):
            if type(x) is KeyBox and _key_eq(x.k, k):
                return x
        return _MISS
    if isinstance(k, SymBool) or isinstance(k, SymNum):
        pass
    for x in list(dict.keys(d) if isinstance(d, dict) else d):
        if _key_eq(unbox(x), k):
            return x
    return _MISS


def _mark(d):
    c = ctx()
    if not hasattr(c, 'boxed') or c.boxed is None:
        c.boxed = {}
    c.boxed[id(d)] = d


def d_get(d, k, default=None):
    x = find_key(d, k)
    return default if x is _MISS else dict.__getitem__(d, x)


def d_getitem(d, k):
    x = find_key(d, k)
    if x is _MISS:
        m = getattr(type(d), '__missing__', None)
        if m is not None:
            return m(d, k)
        raise KeyError(k)
    return dict.__getitem__(d, x)


def d_setitem(d, k, v):
    x = find_key(d, k)
    if x is _MISS:
        if _ksym(k):
            _mark(d)
            x = KeyBox(k)
        else:
            x = k
    d[x] = v


def d_pop(d, k, *default):
    x = find_key(d, k)
    if x is _MISS:
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(x)


def d_setdefault(d, k, v=None):
    x = find_key(d, k)
    if x is _MISS:
        d_setitem(d, k, v)
        return v
    return dict.__getitem__(d, x)


def d_update(d, *a, **kw):
    if a:
        o = a[0]
        if isinstance(o, dict):
            for x in list(o):
                d_setitem(d, unbox(x), dict.__getitem__(o, x))
        elif hasattr(o, 'keys'):
            for x in dict_iter(o.keys()):
                d_setitem(d, x, o[x])
        else:
            for x, y in o:
                d_setitem(d, x, y)
    for x, y in kw.items():
        d_setitem(d, x, y)


class _Keys(object):
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return (unbox(k) for k in list(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return find_key(self.d, k) is not _MISS

    def __reversed__(self):
        return (unbox(k) for k in reversed(list(self.d)))


def d_items(d):
    return [(unbox(k), v) for k, v in dict.items(d)]


def d_new(cls, *a, **kw):
    d = cls()
    d_update(d, *a, **kw)
    return d


def s_add(s, k):
    if find_key(s, k) is _MISS:
        if _ksym(k):
            _mark(s)
            k = KeyBox(k)
        s.add(k)


def s_discard(s, k):
    x = find_key(s, k)
    if x is not _MISS:
        s.discard(x)


def s_remove(s, k):
    x = find_key(s, k)
    if x is _MISS:
        raise KeyError(k)
    s.discard(x)


def s_new(cls, it=()):
    s = set()
    for x in it:
        s_add(s, x)
    if cls is set:
        return s
    f = frozenset(s)
    if has_boxes(s):
        _mark(f)
    return f


def make_dict(pairs):
    if not builtins.any(_ksym(k) for k, _ in pairs if k is not _SPREAD):
        d = {}
        for k, v in pairs:
            if k is _SPREAD:
                if type(v) is dict and has_boxes(v):
                    d_update(d, v)
                else:
                    d.update(v)
            else:
                d[k] = v
        return d
    d = {}
    for k, v in pairs:
        if k is _SPREAD:
            d_update(d, v)
        else:
            d_setitem(d, k, v)
    return d


_SPREAD = object()


def make_set(items):
    if builtins.any(_ksym(k) for k in items):
        return s_new(set, items)
    return set(items)


def dict_iter(x):
    """Iteration target of a for loop / comprehension."""
    t = type(x)
    if t is dict or t is set or t is frozenset or t is collections.OrderedDict:
        if has_boxes(x):
            return [unbox(k) for k in x]
    return x


DICT_METHODS = {
    'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
    'update': d_update, '__getitem__': d_getitem, '__setitem__': d_setitem,
    '__contains__': lambda d, k: find_key(d, k) is not _MISS,
    'keys': lambda d: _Keys(d), 'items': d_items,
    'move_to_end': lambda d, k, last=True: collections.OrderedDict.move_to_end(
        d, find_key(d, k), last),
    '__iter__': lambda d: iter([unbox(k) for k in d]),
    '__delitem__': lambda d, k: d_delitem(d, k),
    'copy': lambda d: _copy_box(d),
    'popitem': lambda d, *a: (lambda r: (unbox(r[0]), r[1]))(
        type(d).popitem(d, *a)),
}


def _copy_box(d):
    r = type(d)(dict.items(d)) if isinstance(d, dict) else type(d)(d)
    if has_boxes(d):
        _mark(r)
    return r


def d_delitem(d, k):
    x = find_key(d, k)
    if x is _MISS:
        raise KeyError(k)
    dict.__delitem__(d, x) if type(d) is dict else type(d).__delitem__(d, x)


def s_update(s, *its):
    for it in its:
        for x in dict_iter(it):
            s_add(s, x)


def s_op(name):
    def f(s, *its):
        out = s_new(set, dict_iter(s))
        for it in its:
            it = list(dict_iter(it))
            if name == 'union':
                for x in it:
                    s_add(out, x)
            elif name == 'intersection':
                keep = [x for x in [unbox(y) for y in out]
                        if builtins.any(_key_eq(x, y) for y in it)]
                out = s_new(set, keep)
            elif name == 'difference':
                keep = [x for x in [unbox(y) for y in out]
                        if not builtins.any(_key_eq(x, y) for y in it)]
                out = s_new(set, keep)
        return out
    return f


SET_METHODS = {
    'add': s_add, 'discard': s_discard, 'remove': s_remove,
    'update': s_update, 'union': s_op('union'),
    'intersection': s_op('intersection'), 'difference': s_op('difference'),
    '__contains__': lambda s, k: find_key(s, k) is not _MISS,
    'copy': _copy_box,
    'issubset': lambda s, o: builtins.all(contains(o, unbox(x)) for x in s),
    'issuperset': lambda s, o: builtins.all(contains(s, x)
                                            for x in dict_iter(o)),
    'isdisjoint': lambda s, o: not builtins.any(contains(s, x)
                                                for x in dict_iter(o)),
}

# ------------------------------------------------------------ operators


def contains(c, x):
    """x in c"""
    t = type(c)
    if type(x) in SYM_TYPES or t in SYM_TYPES or type(x) is tuple:
        if t is str:
            if not isinstance(x, SymStr):
                return x in c
            if len(x.els) == 1:
                return ch_in(x.els[0], mask_chars(c), lambda ch: ch in c)
            return SymStr(tuple(c)).find(x) >= 0
        if t is SymStr:
            return c.find(x) >= 0 if isinstance(x, (str, SymStr)) else x in c
        if t in (list, tuple):
            if isinstance(x, SymStr):
                return _any_eq(x, c)
            return x in c
        if isinstance(c, (dict, set, frozenset)) and \
                t.__contains__ in (dict.__contains__, set.__contains__,
                                   frozenset.__contains__):
            if not _ksym(x) and not has_boxes(c):
                return x in c
            return find_key(c, x) is not _MISS
        if t in (type({}.keys()), type(collections.OrderedDict().keys())):
            if not _ksym(x):
                return x in c
            return _any_eq(x, [unbox(k) for k in c])
        return x in c
    if isinstance(c, (dict, set, frozenset)) and has_boxes(c):
        return find_key(c, x) is not _MISS
    return x in c


def _any_eq(x, seq):
    """One fork for membership of a symbolic string in a finite sequence."""
    conds = []
    for y in seq:
        y = unbox(y)
        if y is x:
            return True
        if not isinstance(y, (str, SymStr)):
            if x == y:
                return True
            continue
        r = x == y
        if r is True:
            return True
        if r is False:
            continue
        conds.append(r)
    if not conds:
        return False
    if len(conds) == 1:
        return bool(conds[0])
    # single-variable case: merge masks
    if builtins.all(c.unary is not None and len(c.unary) == 1 for c in conds):
        vs = {c.unary[0][0] for c in conds}
        if len(vs) == 1:
            m = 0
            for c in conds:
                m |= c.unary[0][1]
            return ctx().char_in(vs.pop(), m)
    return bool(Or(*conds))


def not_contains(c, x):
    return not contains(c, x)


def getitem(c, k):
    t = type(c)
    if t is dict or t is collections.OrderedDict:
        if _ksym(k) or has_boxes(c):
            return d_getitem(c, k)
        return c[k]
    if type(k) in SYM_TYPES:
        if isinstance(k, SymNum) and k.expr.sort() == z3.IntSort():
            if t in (list, tuple, str) or t is SymStr:
                return c[_index(k, len(c))]
            return c[k]
        if isinstance(k, SymBool):
            return c[int(k)]
        return c[k]
    if type(k) is slice and (shallow_sym((k.start, k.stop, k.step))):
        k = slice(*[x.__index__() if isinstance(x, SymNum) else x
                    for x in (k.start, k.stop, k.step)])
        return c[k]
    return c[k]


def _index(k, n):
    c = ctx()
    e = k.expr
    if c.decide(z3.Or(e >= n, e < -n)):
        raise IndexError('index out of range')
    return c.concretise_int(e)


def setitem(v, c, k):
    t = type(c)
    if t is dict or t is collections.OrderedDict:
        if _ksym(k) or has_boxes(c):
            return d_setitem(c, k, v)
    elif isinstance(k, SymNum) and t is list:
        k = _index(k, len(c))
    elif np is not None and t is np.ndarray and c.dtype != object \
            and deep_sym(v):
        raise Unsupported('store of a symbolic value in a float array')
    c[k] = v


def delitem(c, k):
    t = type(c)
    if t is dict or t is collections.OrderedDict:
        if _ksym(k) or has_boxes(c):
            return d_delitem(c, k)
    elif isinstance(k, SymNum) and t is list:
        k = _index(k, len(c))
    del c[k]


def mod(a, b):
    if type(a) is str and deep_sym(b):
        return percent_format(a, b)
    return a % b


def percent_format(fmt, b):
    out = []
    args = list(b) if type(b) is tuple else [b]
    i = 0
    n = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        m = re.compile(r'%(\(\w+\))?([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])'
                       ).match(fmt, i)
        if not m:
            raise Unsupported('percent format')
        i = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = b[m.group(1)[1:-1]]
        else:
            v = args[n]
            n += 1
        if not deep_sym(v):
            out.append(m.group(0).replace(m.group(1) or '', '') % (v,))
        elif m.group(5) == 's' and not m.group(2) and not m.group(3):
            out.append(to_str(v))
        elif m.group(5) in 'xX' and isinstance(v, SymNum):
            out.append(('%' + m.group(2) + m.group(3) + m.group(5))
                       % ctx().concretise_int(v.expr))
        elif m.group(5) == 'd' and isinstance(v, SymNum):
            out.append(str_num(trunc(v)))
        elif m.group(5) in 'fg' and isinstance(v, SymNum):
            out.append(format_num(v, ('.' + m.group(4) if m.group(4) else
                                      '.6' if m.group(5) == 'f' else '')
                                  + m.group(5)))
        else:
            raise Unsupported('percent format %r' % m.group(0))
    return join('', out)


def to_str(v):
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymNum):
        return str_num(v)
    if isinstance(v, SymBool):
        return 'True' if v else 'False'
    if isinstance(v, str):
        return v
    if deep_sym(v):
        raise Unsupported('str() of a container of symbolic values')
    # instances with a (possibly symbolic) __str__
    t = type(v)
    f = t.__str__
    if f is not object.__str__ and isinstance(f, types.FunctionType):
        return f(v)
    return str(v)


def to_repr(v):
    if is_sym(v):
        return '<symbolic>'
    if deep_sym(v):
        return '<container of symbolic>'
    f = type(v).__repr__
    if isinstance(f, types.FunctionType):
        try:
            return f(v)
        except Unsupported:
            return '<object>'
    try:
        return repr(v)
    except (Unsupported, TypeError):
        return '<object>'


def fmt_value(v, conv, spec):
    if conv == 'r' or conv == 'a':
        v = to_repr(v)
    elif conv == 's':
        v = to_str(v)
    if isinstance(v, SymStr):
        if spec in ('', 's'):
            return v
        raise Unsupported('format spec for a symbolic string')
    if isinstance(v, SymNum):
        return format_num(v, spec)
    if isinstance(v, SymBool):
        return to_str(v)
    if not spec:
        f = type(v).__format__
        if isinstance(f, types.FunctionType):
            return f(v, spec)
        if f is object.__format__ or type(v).__str__ is not object.__str__:
            return to_str(v)
    return format(v, spec)


def fmt_str(tmpl, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'[^.\[]*', field)
        first, rest = m.group(0), field[m.end():]
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = getitem(kwargs, first)
        for is_attr, nm in _field_rest(rest):
            v = getattr(v, nm) if is_attr else getitem(
                v, int(nm) if nm.isdigit() else nm)
        if spec and '{' in spec:
            # nested fields
            sub = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                sub.append(l2)
                if f2 is None:
                    continue
                if f2 == '':
                    x = args[auto]
                    auto += 1
                elif f2.isdigit():
                    x = args[int(f2)]
                else:
                    x = kwargs[f2]
                if isinstance(x, SymNum):
                    x = x.__index__()
                sub.append(format(x, s2 or ''))
            spec = ''.join(sub)
        out.append(fmt_value(v, conv, spec or ''))
    return join('', out)


def _field_rest(rest):
    for m in re.finditer(r'\.(\w+)|\[([^\]]*)\]', rest):
        if m.group(1):
            yield True, m.group(1)
        else:
            yield False, m.group(2)


def fstring(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(fmt_value(v, conv, spec))
        else:
            out.append(p)
    return join('', out)


# ------------------------------------------------------------- builtins

def b_isinstance(x, cls):
    if is_sym(x) or isinstance(x, rx.SymMatch):
        t = pytype(x)
        if type(cls) is tuple:
            return builtins.any(b_isinstance(x, c) for c in cls)
        try:
            return issubclass(t, cls)
        except TypeError:
            return isinstance(x, cls)
    return isinstance(x, cls)


def b_float(x=0.0):
    if isinstance(x, SymStr):
        return parse_float(x)
    if isinstance(x, SymNum):
        return num(_real(x.expr), 'float')
    if isinstance(x, SymBool):
        return float(x)
    return float(x)


def b_decimal(x='0', context=None):
    if isinstance(x, SymStr):
        return parse_float(x, 'dec')
    if isinstance(x, SymNum):
        return num(_real(x.expr), 'dec')
    return Decimal(x)


def b_fraction(x=0, y=None):
    if isinstance(x, SymStr):
        els = x.strip()
        if isinstance(els, SymStr) and els.find('/') >= 0:
            a, _, b = els.partition('/')
            a, b = parse_int(_s(a)), parse_int(_s(b))
            if b == 0:
                raise ZeroDivisionError('Fraction(%s, 0)')
            return num(_real(zn(a)) / _real(zn(b)), 'frac')
        v = parse_float(_s(els))
        return num(_real(zn(v)), 'frac')
    if isinstance(x, SymNum):
        return num(_real(x.expr), 'frac')
    return Fraction(x, y)


def _s(x):
    return x if isinstance(x, SymStr) else SymStr(tuple(x))


def b_int(x=0, base=None):
    if isinstance(x, SymStr):
        return parse_int(x, 10 if base is None else base)
    if isinstance(x, SymNum):
        return trunc(x)
    if isinstance(x, SymBool):
        return num(zn(x), 'int')
    return int(x) if base is None else int(x, base)


def b_str(x='', *a):
    if a:
        raise Unsupported('str(bytes, ...)')
    return to_str(x)


def b_bool(x=False):
    return bool(x)


def _minmax(pick):
    def f(*args, key=None, default=_MISS):
        if len(args) == 1:
            xs = list(dict_iter(args[0]))
        else:
            xs = list(args)
        if not xs:
            if default is not _MISS:
                return default
            raise ValueError('min()/max() arg is an empty sequence')
        if key is None and builtins.all(is_num(x) for x in xs) \
                and builtins.any(isinstance(x, SymNum) for x in xs) \
                and not builtins.any(isinstance(x, float) and
                                     math.isinf(x) for x in xs):
            best = xs[0]
            for x in xs[1:]:
                cond = (x < best) if pick == 'min' else (x > best)
                if isinstance(cond, SymBool):
                    a, b = zn(x), zn(best)
                    if a.sort() != b.sort():
                        a, b = _real(a), _real(b)
                    kx, kb = pyk(x), pyk(best)
                    if kx != kb:
                        best = x if bool(cond) else best
                    else:
                        best = num(z3.If(cond.z(), a, b), kx)
                elif cond:
                    best = x
            return best
        best = xs[0]
        bk = key(best) if key else best
        for x in xs[1:]:
            xk = key(x) if key else x
            if (xk < bk) if pick == 'min' else (xk > bk):
                best, bk = x, xk
        return best
    return f


def pyk(x):
    from .values import kind_of
    return kind_of(x)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_ord(c):
    if isinstance(c, SymStr):
        if len(c.els) != 1:
            raise TypeError('ord() expected a character')
        e = c.els[0]
        core.CURRENT.entangle(e.var)
        return num(e.z(), 'int')
    return ord(c)


def _char_table(f):
    """A function of a character: fork on the classes of its values."""
    def g(c, *args):
        if not isinstance(c, SymStr):
            return f(c, *args)
        if len(c.els) != 1:
            raise TypeError('expected a character')
        e = c.els[0]
        if isinstance(e, str):
            return f(e, *args)
        if type(e) is not SymChar:
            raise Unsupported('test on the digits of an opaque number')
        values = {}
        for i in range(128):
            if e.var.mask >> i & 1:
                v = f(chr(i) if e.fmap is None else e.fmap[i], *args)
                values[v] = values.get(v, 0) | 1 << i
        values = sorted(values.items(), key=str)
        for v, m in values[:-1]:
            if ctx().char_in(e.var, m):
                return v
        return values[-1][0]
    return g


def b_chr(n):
    if isinstance(n, SymNum):
        # inverse of ord() for a single character variable
        e = z3.simplify(n.expr)
        c = ctx()
        for v in c.chars:
            if z3.eq(v.z, e):
                return mk((SymChar(v),))
        if c.decide(z3.And(e >= 0, e < 128)):
            v = core.CharVar(c.fresh('chr'), FULL)
            v.entangled = True
            c.chars.append(v)
            c.add(v.z == e)
            return mk((SymChar(v),))
        return chr(c.concretise_int(e))
    return chr(n)


def b_round(x, n=None):
    return x.__round__(n)


def b_sorted(it, *, key=None, reverse=False):
    return sorted(list(dict_iter(it)), key=key, reverse=reverse)


def b_range(*a):
    return range(*[x.__index__() if isinstance(x, SymNum) else x for x in a])


def b_pow(a, b, *m):
    if m:
        raise Unsupported('3-argument pow')
    return a ** b


def m_pow(a, b):
    r = a ** b
    return num(_real(zn(r)), 'float')


def b_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    """math.isclose in exact arithmetic."""
    a, b = num(_real(zn(a)), 'float'), num(_real(zn(b)), 'float')
    d = abs(a - b)
    x, y = abs(a), abs(b)
    big = OVERRIDES[max](x, y)
    return bool(Or(d <= rel_tol * big, d <= abs_tol))


def m_floor(x):
    return x.__floor__()


def m_ceil(x):
    return x.__ceil__()


def m_hypot(*a):
    s = 0
    for x in a:
        s = s + x * x
    return sqrt(s) if isinstance(s, SymNum) else math.sqrt(s)


def m_fabs(x):
    return num(_real(zn(abs(x))), 'float')


def m_copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def m_fmod(a, b):
    q = trunc(num(_real(zn(a)) / _real(zn(b)), 'float'))
    return num(_real(zn(a)) - _real(zn(b)) * _real(q.expr), 'float')


def m_sin(x):
    return sincos(x)[0]


def m_cos(x):
    return sincos(x)[1]


def _opaque(name, *xs):
    f = z3.Function(name, *([z3.RealSort()] * (len(xs) + 1)))
    return num(f(*[z3.simplify(_real(zn(x))) for x in xs]), 'float')


def m_ellipeinc(phi, m):
    """The elliptic integral is an uninterpreted function."""
    xs = [z3.simplify(_real(zn(x))) for x in (phi, m)]
    if builtins.all(z3.is_rational_value(x) for x in xs):
        return builtins.float(scipy.special.ellipeinc(
            *[builtins.float(core.frac_of(x)) for x in xs]))
    return _opaque('ellipeinc', phi, m)


def callable_sym(f):
    """Does a function carry symbolic values of its own?"""
    if isinstance(f, types.MethodType):
        return True
    if isinstance(f, functools.partial):
        return deep_sym((f.args, f.keywords))
    return builtins.bool(getattr(f, '__closure__', None))


def m_quad(f, a, b, args=(), **kw):
    """An integral is an unknown value; t.integrals() tells of what."""
    if not deep_sym((a, b, args)) and not callable_sym(f):
        return scipy.integrate.quad(f, a, b, args=args, **kw)
    c = ctx()
    r = z3.Real(c.fresh('quad'))
    c.keep.append(r)
    r = num(r, 'float')
    args = args if isinstance(args, tuple) else (args,)
    c.integrals.append((r, a, b, lambda s: call(f, s, *args)))
    return r, 0.0


def m_tan(x):
    if ctx().opaque_trig:
        return _opaque('tan', x)
    s, c = sincos(x)
    if not is_sym(c) and not is_sym(s):
        return math.tan(zval(x))
    if ctx().decide(zn(c) == 0):
        raise Unsupported('tan at a pole')
    return s / c


def zval(x):
    return float(core.frac_of(z3.simplify(x.expr)))


def m_atan(x):
    if ctx().opaque_trig:
        return _opaque('atan', x)
    return atan2(x, num(z3.RealVal(1), 'float'))


def m_acos(x):
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    if c.decide(z3.Or(e < -1, e > 1)):
        raise ValueError('math domain error')
    s = sqrt(num(1 - e * e, 'float'))
    return atan2(s, num(e, 'float'))


def m_asin(x):
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    if c.decide(z3.Or(e < -1, e > 1)):
        raise ValueError('math domain error')
    k = sqrt(num(1 - e * e, 'float'))
    return atan2(num(e, 'float'), k)


def m_isfinite(x):
    return True


def m_isnan(x):
    return False


def q_quote(safe_default):
    always = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
              '0123456789_.-~')

    def f(s, safe=safe_default, encoding=None, errors=None):
        if isinstance(safe, (SymStr, SymBytes)):
            raise Unsupported('symbolic safe set')
        if isinstance(safe, bytes):
            safe = safe.decode('ascii')
        ok = mask_chars(always + safe)
        out = []
        for e in _els(s):
            if isinstance(e, str):
                out.extend(urllib.parse.quote(e, safe=safe))
            elif ch_in(e, ok):
                out.append(e)
            else:
                out.append('%')
                out.append(e.map(lambda c: '%X' % (ord(c) >> 4)))
                out.append(e.map(lambda c: '%X' % (ord(c) & 15)))
        return mk(out)
    return f


_q = q_quote('/')


def q_quote_plus(s, safe='', encoding=None, errors=None):
    if isinstance(safe, bytes):
        safe = safe.decode('ascii')
    r = _q(s, safe + ' ')
    return r.replace(' ', '+')


_HEX = mask_chars('0123456789abcdefABCDEF')
_HEX7 = mask_chars('01234567')


def q_unquote(s, encoding='utf-8', errors='replace'):
    els = _els(s)
    out = []
    i = 0
    n = len(els)
    while i < n:
        if ch_in(els[i], mask_chars('%')) and i + 2 < n + 0 + 0 and True \
                and i + 2 <= n - 1 and ch_in(els[i + 1], _HEX) \
                and ch_in(els[i + 2], _HEX):
            if not ch_in(els[i + 1], _HEX7):
                # collect a run of concrete escapes if possible
                hi = _single(els[i + 1])
                lo = _single(els[i + 2])
                if hi is None or lo is None:
                    raise Unsupported('symbolic non-ASCII percent escape')
                j = i
                txt = ''
                while j + 2 < n and isinstance(els[j], str) and \
                        els[j] == '%':
                    h, l = _single(els[j + 1]), _single(els[j + 2])
                    if h is None or l is None:
                        break
                    if h not in '0123456789abcdefABCDEF' or \
                            l not in '0123456789abcdefABCDEF':
                        break
                    txt += '%' + h + l
                    j += 3
                if not txt:
                    raise Unsupported('symbolic non-ASCII percent escape')
                out.extend(urllib.parse.unquote(txt, encoding, errors))
                i = j
                continue
            out.extend(_hexpair(els[i + 1], els[i + 2]))
            i += 3
        else:
            out.append(els[i])
            i += 1
    return mk(out)


def _single(e):
    return e if isinstance(e, str) else e.single()


def _hexpair(a, b):
    x, y = _single(a), _single(b)
    if x is not None and y is not None:
        return [chr(int(x + y, 16))]
    if not isinstance(a, str) and not isinstance(b, str) and a.var is b.var:
        # both digits derive from one character: compose the tables
        fa = a.fmap or tuple(map(chr, range(128)))
        fb = b.fmap or tuple(map(chr, range(128)))
        new = []
        for i in range(128):
            try:
                new.append(chr(int(fa[i] + fb[i], 16)))
            except ValueError:
                new.append('\0')
        e = SymChar(a.var, tuple(new))
        r = e.map(lambda c: c)
        return [r]
    if x is not None:
        return [b.map(lambda c: chr(int(x, 16) * 16 + int(c, 16))
                      if c in '0123456789abcdefABCDEF' else '\0')]
    if y is not None:
        return [a.map(lambda c: chr(int(c, 16) * 16 + int(y, 16))
                      if c in '01234567' else '\0')]
    # two independent symbolic digits
    c = ctx()
    v = core.CharVar(c.fresh('unq'), FULL)
    v.entangled = True
    c.chars.append(v)
    core.CURRENT.entangle(a.var, b.var)
    c.add(v.z == 16 * _hexval(a) + _hexval(b))
    return [SymChar(v)]


def _hexval(e):
    z = e.z()
    return z3.If(z <= 57, z - 48, z3.If(z >= 97, z - 87, z - 55))


def q_unquote_to_bytes(s):
    r = q_unquote(s, 'utf-8', 'strict')
    return r.encode('utf-8') if isinstance(r, str) else SymBytes(r, 'utf-8')


def q_b64decode(s, altchars=None, validate=False):
    raise Unsupported('base64 of symbolic text')


def q_web_decode(input, fallback_encoding, errors='replace'):
    s = input.s
    if len(s.els) and isinstance(s.els[0], str) and \
            s.els[0] in '\xef\xfe\xff\ufeff':
        raise Unsupported('byte order mark')
    enc = webencodings.lookup(fallback_encoding) \
        if isinstance(fallback_encoding, str) else fallback_encoding
    if input.enc != enc.name and not s.isascii():
        raise Unsupported('transcoding')
    return s, enc


def q_unquote_plus(s, encoding='utf-8', errors='replace'):
    return q_unquote(_s(s.replace('+', ' ')), encoding, errors)


def q_urlencode(query, doseq=False, safe='', encoding=None, errors=None,
                quote_via=None):
    if hasattr(query, 'items'):
        query = call(getattr(query, 'items'))
    via = quote_via or urllib.parse.quote_plus
    out = []
    for k, v in query:
        k = call(via, to_str(k), safe)
        v = call(via, to_str(v), safe)
        out.append(join('', [k, '=', v]))
    return join('&', out)


def nop(*a, **k):
    return None


def np_array(x, dtype=None, **k):
    if dtype is None and core.CURRENT is not None:
        dtype = object
    return np.array(x, dtype=dtype, **k)


def np_inv(a):
    """np.linalg.inv through its contract: a two-sided inverse, or
    LinAlgError when the determinant is zero."""
    if a.dtype != object:
        return np.linalg.inv(a)
    if not deep_sym(a):
        return np.array(np.linalg.inv(a.astype(float)).tolist(),
                        dtype=object)
    c = ctx()
    n = a.shape[0]
    A = [[z3.simplify(_real(zn(a[i, j]))) for j in range(n)]
         for i in range(n)]
    det = z3.simplify(_det(A), som=True)
    if c.decide(det == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    # entries that are structurally those of an affine 2d matrix stay
    # concrete in the inverse
    X = [[z3.Real(c.fresh('inv')) for _ in range(n)] for _ in range(n)]
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            cof = z3.simplify(_cofactor(A, j, i), som=True)
            if _isv(cof, 0):
                X[i][j] = z3.RealVal(0)
            elif z3.eq(cof, det):
                X[i][j] = z3.RealVal(1)
            else:
                c.add(X[i][j] * det == cof)
            r[i, j] = num(X[i][j], 'float')
    for i in range(n):
        for j in range(n):
            one = z3.RealVal(1 if i == j else 0)
            for P, Q in ((A, X), (X, A)):
                e = z3.simplify(z3.Sum([P[i][k] * Q[k][j] for k in range(n)]))
                if not z3.is_rational_value(e):
                    c.add(e == one)
                    c.lemmas = getattr(c, 'lemmas', []) + [(e, one)]
    return r


def _isv(e, n):
    return z3.is_rational_value(e) and core.frac_of(e) == n


def _minor(A, i, j):
    return [[A[r][c] for c in range(len(A)) if c != j]
            for r in range(len(A)) if r != i]


def _det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    t = z3.RealVal(0)
    for j in range(n):
        if _isv(A[0][j], 0):
            continue
        s = A[0][j] * _det(_minor(A, 0, j))
        t = t + s if j % 2 == 0 else t - s
    return t


def _cofactor(A, i, j):
    d = _det(_minor(A, i, j)) if len(A) > 1 else z3.RealVal(1)
    return d if (i + j) % 2 == 0 else -d


def np_interp(x, xp, fp):
    """Piecewise linear interpolation (contract of numpy.interp)."""
    if not is_sym(x):
        return np.interp(x, xp, fp)
    if x <= xp[0]:
        return fp[0]
    for i in range(1, len(xp)):
        if x <= xp[i]:
            t = (x - xp[i - 1]) * Fraction(1, 1) if False else (x - xp[i - 1])
            return fp[i - 1] + t * (fp[i] - fp[i - 1]) / (xp[i] - xp[i - 1])
    return fp[-1]


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    for x, y in zip(np.asarray(a, dtype=object).flat,
                    np.asarray(b, dtype=object).flat):
        if not (abs(x - y) <= atol + rtol * abs(y)):
            return False
    return True


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_filter(f, it):
    return filter(f, dict_iter(it))


def b_map(f, *its):
    for x in zip(*[iter(dict_iter(i)) for i in its]):
        yield call(f, *x)


def b_list(it=()):
    if type(it) is SymStr:
        return list(iter(it))
    return list(dict_iter(it))


def b_iter(*a):
    if len(a) == 1:
        return iter(dict_iter(a[0]))
    return iter(*a)


def b_hash(x):
    if type(x) is tuple or is_sym(x):
        raise Unsupported('hash of a symbolic value')
    return hash(x)


def c_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


OVERRIDES = {
    isinstance: b_isinstance, float: b_float, int: b_int, str: b_str,
    bool: b_bool, Decimal: b_decimal, Fraction: b_fraction,
    min: _minmax('min'), max: _minmax('max'), sum: b_sum, ord: b_ord,
    chr: b_chr, repr: to_repr, range: b_range, type: pytype, pow: b_pow,
    round: b_round, format: lambda v, s='': fmt_value(v, None, s),
    hash: b_hash, abs: abs,
    math.sqrt: sqrt, math.sin: m_sin, math.cos: m_cos, math.tan: m_tan,
    math.radians: radians, math.degrees: degrees, math.atan2: atan2,
    math.atan: m_atan, math.acos: m_acos, math.asin: m_asin,
    math.hypot: m_hypot, math.fabs: m_fabs, math.floor: m_floor,
    math.ceil: m_ceil, math.pow: m_pow, math.isclose: b_isclose,
    math.copysign: m_copysign, math.fmod: m_fmod, math.trunc: trunc,
    math.isfinite: m_isfinite, math.isnan: m_isnan, math.isinf: m_isnan,
    urllib.parse.quote: _q, urllib.parse.quote_plus: q_quote_plus,
    urllib.parse.unquote: q_unquote,
    urllib.parse.unquote_to_bytes: q_unquote_to_bytes,
    urllib.parse.unquote_plus: q_unquote_plus,
    urllib.parse.urlencode: q_urlencode,
    os.fspath: lambda p: p,
    unicodedata.east_asian_width: _char_table(unicodedata.east_asian_width),
    unicodedata.category: _char_table(unicodedata.category),
    unicodedata.bidirectional: _char_table(unicodedata.bidirectional),
}

# called even without symbolic arguments while a context is active
def _unboxed(f):
    def g(*args, **kw):
        return f(*[dict_iter(a) for a in args], **kw)
    return g


try:
    import base64
    import webencodings
    OVERRIDES[webencodings.decode] = q_web_decode
    OVERRIDES[base64.b64decode] = q_b64decode
except ImportError:              # pragma: no cover
    pass

ALWAYS = {
    urllib.parse.urlencode: q_urlencode,
    list: b_list, iter: b_iter, sorted: b_sorted, filter: b_filter,
    map: b_map, tuple: _unboxed(tuple), enumerate: _unboxed(enumerate),
    zip: _unboxed(zip), any: _unboxed(any), all: _unboxed(all),
}
if np is not None:
    ALWAYS[np.array] = np_array
    OVERRIDES[np.linalg.inv] = np_inv
    OVERRIDES[np.interp] = np_interp
    OVERRIDES[np.allclose] = np_allclose
    OVERRIDES[np.sqrt] = sqrt
    OVERRIDES[np.abs] = lambda x: abs(x)
try:
    import scipy.integrate
    import scipy.special
    OVERRIDES[scipy.integrate.quad] = m_quad
    OVERRIDES[scipy.special.ellipeinc] = m_ellipeinc
except ImportError:
    pass

DEEP = {min, max, sum, str, format, sorted, hash}
if np is not None:
    DEEP |= {np.linalg.inv, np.allclose, np.abs}

# uninstrumented callables that are safe with symbolic arguments
SAFE = {
    len, id, hex, getattr, setattr, hasattr, callable, enumerate, zip, map,
    filter, reversed, tuple, list, iter, next, any, all, abs, print, divmod,
    issubclass, super, property, staticmethod, classmethod, delattr,
    itertools.chain, itertools.islice, copy.copy, copy.deepcopy,
    operator.attrgetter, operator.itemgetter, bool, object, slice,
    functools.partial, vars, itertools.zip_longest, itertools.repeat,
    itertools.takewhile, itertools.dropwhile, operator.eq, operator.ne,
    operator.lt, operator.gt, operator.le, operator.ge, operator.add,
    operator.mul, operator.sub, functools.reduce, itertools.product,
    itertools.accumulate, itertools.starmap, BaseException,
}
if np is not None:
    SAFE |= {np.dot, np.matmul, np.asarray, np.zeros, np.copy}

INSTRUMENTED_PREFIXES = ('svgpy', 'tinycss2', 'harness', 'webencodings',
                         'cssselect', 'lxml')

_RE_FUNCS = {
    re.match: 'match', re.search: 'search', re.fullmatch: 'fullmatch',
    re.sub: 'sub', re.split: 'split', re.findall: 'findall',
    re.finditer: 'finditer',
}

_BMT = types.BuiltinMethodType
# methods taking their defining class (re.Pattern.finditer, ...)
_BMT2 = type(re.compile('').finditer)
_OD = collections.OrderedDict


def call(f, /, *args, **kw):
    if core.CURRENT is None:
        return f(*args, **kw)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        # Python-level code
        if t is types.MethodType and getattr(
                f.__func__, '__module__', '') == 'collections.abc':
            g = shadow.method(f.__func__)
            if g is not None:
                return g(f.__self__, *args, **kw)
        if shallow_sym(args) or (kw and shallow_sym(kw.values())):
            return _call_py(f, args, kw)
        if f in ALWAYS_PY:
            return ALWAYS_PY[f](*args, **kw)
        return f(*args, **kw)
    if t is _BMT or t is _BMT2 or t is types.MethodWrapperType:
        s = f.__self__
        ts = type(s)
        if ts is str:
            if f.__name__ in ('join', 'format') or deep_sym(args) \
                    or (kw and deep_sym(kw)):
                return _str_method(s, f.__name__, f, args, kw)
            return f(*args, **kw)
        if ts is re.Pattern:
            return _pat_method(s, f, args, kw)
        if ts is dict or ts is _OD:
            if (args and _ksym(args[0])) or has_boxes(s) or (
                    f.__name__ == 'update' and args
                    and isinstance(args[0], dict) and has_boxes(args[0])) \
                    or (f.__name__ == 'update' and args and deep_sym(args[0])):
                m = DICT_METHODS.get(f.__name__)
                if m is not None:
                    return m(s, *args, **kw)
            return f(*args, **kw)
        if ts is set or ts is frozenset:
            if builtins.any(_ksym(a) or deep_sym(a, 1)
                            or has_boxes(a) for a in args) or has_boxes(s):
                m = SET_METHODS.get(f.__name__)
                if m is not None:
                    return m(s, *args, **kw)
            return f(*args, **kw)
        if (s is dict or s is _OD) and f.__name__ == 'fromkeys':
            d = s()
            for k in dict_iter(args[0]):
                d_setitem(d, k, *(args[1:] or (None,)))
            return d
        if ts is list:
            if f.__name__ in ('insert', 'pop') and args \
                    and isinstance(args[0], SymNum):
                args = (args[0].__index__(),) + args[1:]
            elif f.__name__ == 'extend' and args:
                args = (dict_iter(args[0]),)
            return f(*args, **kw)
        if ts is tuple and f.__name__ in ('index', 'count'):
            return f(*args, **kw)
        if ts is tuple or ts is types.ModuleType or s is None:
            pass
        elif np is not None and ts is np.ndarray:
            return f(*args, **kw)
        elif not (ts is type):
            if shallow_sym(args):
                if ts.__module__.split('.')[0] in INSTRUMENTED_PREFIXES \
                        or ts in _SAFE_SELF:
                    return f(*args, **kw)
                return _unsupported(f, args, kw)
            return f(*args, **kw)
    try:
        g = ALWAYS.get(f)
    except TypeError:
        return f(*args, **kw)
    if g is not None:
        return g(*args, **kw)
    g = OVERRIDES.get(f)
    if g is not None:
        if shallow_sym(args) or (f in DEEP and deep_sym(args)):
            return g(*args, **kw)
        if f is type or f is isinstance:
            return g(*args, **kw)
        if (f is str or f is repr or f is format) and len(args):
            return g(*args, **kw)
        if kw and shallow_sym(kw.values()):
            return g(*args, **kw)
        return f(*args, **kw)
    if t is type or isinstance(f, type):
        if f is dict or f is _OD:
            if args and (deep_sym(args[0]) or has_boxes(args[0])
                         or type(args[0]) not in (dict, list, tuple)):
                return d_new(f, *args, **kw)
            return f(*args, **kw)
        if f is set or f is frozenset:
            if args:
                a = args[0]
                if not isinstance(a, (list, tuple, set, frozenset, str)):
                    a = list(dict_iter(a))
                if deep_sym(a) or has_boxes(a):
                    return s_new(f, dict_iter(a))
                return f(a)
            return f(*args, **kw)
        if f in SAFE or issubclass(f, BaseException) or \
                f.__module__.split('.')[0] in INSTRUMENTED_PREFIXES:
            return f(*args, **kw)
        if shallow_sym(args) or shallow_sym(kw.values()):
            return _unsupported(f, args, kw)
        return f(*args, **kw)
    if shallow_sym(args) or (kw and shallow_sym(kw.values())):
        try:
            if f in SAFE:
                return f(*args, **kw)
        except TypeError:
            return f(*args, **kw)
        if isinstance(f, types.BuiltinFunctionType) or isinstance(
                f, np.ufunc if np is not None else ()):
            return _unsupported(f, args, kw)
        if hasattr(f, 'cache_info'):
            g = shadow.lookup(f.__wrapped__)
            if g is not None:
                return g(*args, **kw)
            return _unsupported(f, args, kw)
        if isinstance(f, functools.partial):
            return call(f.func, *(f.args + args), **{**f.keywords, **kw})
    return f(*args, **kw)


ALWAYS_PY = {urllib.parse.urlencode: q_urlencode}
if 'scipy.integrate' in sys.modules:
    ALWAYS_PY[scipy.integrate.quad] = m_quad
_SAFE_SELF = {list, collections.deque, slice, types.GeneratorType}


def _call_py(f, args, kw):
    g = f.__func__ if type(f) is types.MethodType else f
    try:
        o = OVERRIDES.get(g)
    except TypeError:
        o = None
    if o is not None:
        return o(*args, **kw)
    mod_ = getattr(g, '__module__', None) or ''
    root = mod_.split('.')[0]
    if root == 'logging':
        return None
    if root in INSTRUMENTED_PREFIXES or root == 'symx' or root == '__main__':
        return f(*args, **kw)
    if type(f) is types.MethodType:
        st = type(f.__self__)
        if (st.__module__ or '').split('.')[0] in INSTRUMENTED_PREFIXES:
            return f(*args, **kw)
        if st in SYM_TYPES or isinstance(f.__self__, rx.SymMatch):
            return f(*args, **kw)
    if g in _RE_FUNCS:
        pat, rest = args[0], args[1:]
        flags = kw.pop('flags', 0)
        if is_sym(pat):
            return _unsupported(f, args, kw)
        if not isinstance(pat, re.Pattern):
            pat = re.compile(pat, flags)
        return call(getattr(pat, _RE_FUNCS[g]), *rest, **kw)
    if g is re.escape:
        out = []
        sp = mask_chars('()[]{}?*+-|^$\\.&~# \t\n\r\v\f')
        for e in _els(args[0]):
            if ch_in(e, sp, lambda c: False):
                out.append('\\')
            out.append(e)
        return mk(out)
    if root in ('collections', '_collections_abc', 'copy', 'abc', 'enum',
                'contextlib', 'functools', 'operator', 'typing'):
        return f(*args, **kw)
    return _unsupported(f, args, kw)


def _str_method(s, name, f, args, kw):
    if name == 'join':
        items = list(dict_iter(args[0]))
        if builtins.any(type(x) is SymStr for x in items):
            return join(s, items)
        if builtins.any(is_sym(x) for x in items):
            raise TypeError('sequence item: expected str instance')
        return f(items)
    if name == 'format':
        if deep_sym(args) or deep_sym(kw) or _any_instr(args) \
                or _any_instr(kw.values()):
            return fmt_str(s, args, kw)
        return f(*args, **kw)
    if not s and name in ('split',) and not args:
        return f()
    return getattr(SymStr(tuple(s)), name)(*args, **kw)


def _any_instr(xs):
    for x in xs:
        m = type(x).__module__
        if m != 'builtins' and m.split('.')[0] in INSTRUMENTED_PREFIXES:
            return True
    return False


def _pat_method(pat, f, args, kw):
    name = f.__name__
    if name in ('sub', 'subn'):
        names = ('repl', 'string', 'count')
        a = dict(zip(names, args))
        a.update(kw)
        if is_sym(a['string']) or is_sym(a['repl']):
            r, n = rx.sub(pat, a['repl'], a['string'], a.get('count', 0))
            return r if name == 'sub' else (r, n)
        if callable(a['repl']):
            r, n = rx.sub(pat, a['repl'], a['string'], a.get('count', 0))
            return r if name == 'sub' else (r, n)
        return f(*args, **kw)
    if args and type(args[0]) is SymStr or type(kw.get('string')) is SymStr:
        g = getattr(rx, name, None)
        if g is None:
            raise Unsupported('Pattern.' + name)
        args = tuple(a.__index__() if isinstance(a, SymNum) else a
                     for a in args)
        if 'string' in kw:
            kw = dict(kw)
            args = (kw.pop('string'),) + args
        r = g(pat, *args, **kw)
        return iter(list(r)) if False else r
    return f(*args, **kw)


def _unsupported(f, args, kw):
    g = f.__func__ if type(f) is types.MethodType else f
    if getattr(g, '__dict__', None) and '_sx_shadow_' in g.__dict__ \
            and not hasattr(f, 'cache_info'):
        return f(*args, **kw)
    if type(f) is types.MethodType and getattr(
            type(f.__self__), '_sx_shadow_', False):
        return f(*args, **kw)
    if isinstance(f, type) and getattr(f, '_sx_shadow_', False):
        return f(*args, **kw)
    g = shadow.lookup(f)
    if g is not None:
        return g(*args, **kw)
    raise Unsupported('call of %s with symbolic arguments' % (
        getattr(f, '__qualname__', repr(f)),))
