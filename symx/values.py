"""Symbolic proxies: booleans, numbers and strings."""
import builtins
import math
from decimal import Decimal
from fractions import Fraction

import z3

from . import core
from .core import (CharVar, FULL, Unsupported, ctx, mask_chars,
                   mask_of)

# ---------------------------------------------------------------- booleans


class SymBool(object):
    __slots__ = ('expr', 'unary')

    def __init__(self, expr, unary=None):
        self.expr = expr
        self.unary = unary     # optional [(CharVar, mask)] conjunction

    def __bool__(self):
        c = ctx()
        if self.unary is not None:
            live = []
            for v, m in self.unary:
                x = v.mask & m
                if x == 0:
                    return False
                if x != v.mask:
                    live.append((v, m))
            if not live:
                return True
            if len(live) == 1:
                return c.char_in(*live[0])
            e = z3.And(*[core.mask_constraint(v.z, m) for v, m in live])
            r = c.decide(e)
            if r:
                for v, m in live:
                    v.mask &= m
            else:
                c.entangle(*[v for v, _ in live])
            return r
        return c.decide(self.expr)

    def z(self):
        if self.unary is not None:
            if not self.unary:
                return z3.BoolVal(True)
            for v, _ in self.unary:
                v.entangled = True
            return z3.And(*[core.mask_constraint(v.z, m)
                            for v, m in self.unary])
        return self.expr

    def __and__(self, o):
        return SymBool(z3.And(self.z(), zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z(), zb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z(), zb(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z() == zb(o))
        if isinstance(o, (int, float, SymNum)):
            return SymNum(z3.If(self.z(), z3.IntVal(1), z3.IntVal(0)),
                          'int') == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z()))

    def __invert__(self):
        raise Unsupported('~bool')

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __deepcopy__(self, memo):
        return self


def zb(x):
    if isinstance(x, SymBool):
        return x.z()
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def sbool(e):
    """SymBool unless the expression is already a constant."""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def Not(x):
    if isinstance(x, SymBool):
        return sbool(z3.Not(x.z()))
    return not x


def And(*xs):
    return sbool(z3.And(*[zb(x) for x in xs])) if xs else True


def Or(*xs):
    return sbool(z3.Or(*[zb(x) for x in xs])) if xs else False


def Implies(a, b):
    return sbool(z3.Implies(zb(a), zb(b)))


# ----------------------------------------------------------------- numbers

_const_cache = {}


def zconst(x):
    """z3 Real/Int literal of a concrete python number."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, Decimal):
        if not x.is_finite():
            raise Unsupported('non-finite Decimal')
        return z3.RealVal(Fraction(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite float in symbolic arithmetic')
    r = _const_cache.get(x)
    if r is None:
        # shortest decimal text: 0.1 denotes 1/10 (rounding is outside the
        # claim, see DESIGN.md)
        r = z3.RealVal(Fraction(repr(x)))
        _const_cache[x] = r
    return r


def is_num(x):
    if isinstance(x, SymNum):
        return True
    if isinstance(x, (int, float, Decimal, Fraction)):
        return True
    return _np_number(x)


def _np_number(x):
    t = type(x)
    return t.__module__ == 'numpy' and hasattr(x, 'dtype') \
        and getattr(x, 'ndim', 1) == 0


def kind_of(x):
    if isinstance(x, SymNum):
        return x.kind
    if isinstance(x, bool):
        return 'int'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, Decimal):
        return 'dec'
    if isinstance(x, Fraction):
        return 'frac'
    return 'float'


def zn(x):
    if isinstance(x, SymNum):
        return x.expr
    if isinstance(x, SymBool):
        return z3.If(x.z(), z3.IntVal(1), z3.IntVal(0))
    return zconst(x)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _join(a, b, op):
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb:
        return ka
    s = {ka, kb}
    if 'dec' in s:
        if 'float' in s or 'frac' in s:
            raise TypeError("unsupported operand type(s) for %s: "
                            "'decimal.Decimal' and 'float'" % op)
        return 'dec'
    if 'float' in s:
        return 'float'
    if 'frac' in s:
        return 'frac'
    return 'int'


def num(e, kind):
    return SymNum(e, kind)


class SymNum(object):
    """A number denoted by an exact z3 Int/Real term."""
    __slots__ = ('expr', 'kind', 'angle')
    __array_priority__ = 1000

    def __init__(self, expr, kind):
        self.expr = expr
        self.kind = kind

    # arithmetic
    def _bin(self, o, op, fn, swap=False):
        if isinstance(o, SymBool):
            o = int(o)
        if not is_num(o):
            if _is_array(o):
                return _array_map(o, lambda x: fn_pair(self, x, fn, op, swap))
            return NotImplemented
        return fn_pair(self, o, fn, op, swap)

    def __add__(self, o):
        return self._bin(o, '+', _add)

    def __radd__(self, o):
        return self._bin(o, '+', _add, True)

    def __sub__(self, o):
        return self._bin(o, '-', _sub)

    def __rsub__(self, o):
        return self._bin(o, '-', _sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, '*', _mul)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, '*', _mul, True)

    def __truediv__(self, o):
        return self._bin(o, '/', _div)

    def __rtruediv__(self, o):
        return self._bin(o, '/', _div, True)

    def __floordiv__(self, o):
        return self._bin(o, '//', _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, '//', _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, '%', _mod)

    def __rmod__(self, o):
        return self._bin(o, '%', _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if isinstance(o, SymNum):
            v = z3.simplify(o.expr)
            if z3.is_int_value(v):
                o = v.as_long()
            elif z3.is_rational_value(v):
                o = float(core.frac_of(v))
            elif o.expr.sort() == z3.IntSort():
                o = ctx().concretise_int(o.expr)
            else:
                raise Unsupported('symbolic exponent')
        if isinstance(o, Decimal) and o == o.to_integral_value():
            o = int(o)
        if isinstance(o, (int, float)) and float(o) == int(o):
            n = int(o)
            k = self.kind
            if k == 'int' and (isinstance(o, float) or n < 0):
                k = 'float'
            if isinstance(o, float) and k == 'dec':
                raise TypeError('unsupported operand type(s) for **')
            if n < 0:
                return num(_real(zconst(1)), k) / (self ** -n)
            r = z3.IntVal(1) if k == 'int' else z3.RealVal(1)
            e = self.expr if k == 'int' else _real(self.expr)
            for _ in range(n):
                r = r * e
            return num(z3.simplify(r) if n < 2 else r, k)
        if isinstance(o, float) and o == 0.5:
            return sqrt(self)
        raise Unsupported('power %r' % (o,))

    def __rpow__(self, o):
        if self.expr.sort() == z3.IntSort():
            return o ** ctx().concretise_int(self.expr)
        raise Unsupported('symbolic exponent')

    def __neg__(self):
        return num(-self.expr, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.expr
        c = core.CURRENT
        if c is not None:
            s = z3.simplify(e >= 0)
            if z3.is_true(s):
                return self
            if z3.is_false(s):
                return -self
        return num(z3.If(e >= 0, e, -e), self.kind)

    # comparison
    def _cmp(self, o, f):
        if isinstance(o, SymBool):
            o = int(o)
        if not is_num(o):
            return NotImplemented
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return f(0, 1 if o > 0 else -1)
        if isinstance(o, float) and o != o:
            return f is _ne
        a, b = self.expr, zn(o)
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return sbool(f(a, b))

    def __eq__(self, o):
        r = self._cmp(o, _eq)
        return False if r is NotImplemented and not _is_array(o) else r

    def __ne__(self, o):
        r = self._cmp(o, _ne)
        return True if r is NotImplemented and not _is_array(o) else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().decide(self.expr != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    # conversion
    def __index__(self):
        if self.expr.sort() != z3.IntSort():
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return ctx().concretise_int(self.expr)

    def __int__(self):
        return ctx().concretise_int(trunc(self).expr)

    def __float__(self):
        v = z3.simplify(self.expr)
        if z3.is_int_value(v) or z3.is_rational_value(v):
            return float(core.frac_of(v))
        raise Unsupported('float() of a symbolic number at a C boundary')

    def __round__(self, n=None):
        if n is None:
            if self.expr.sort() == z3.IntSort():
                return self
            return round_half_even(self)
        if self.expr.sort() == z3.IntSort():
            return self
        m = 10 ** n
        r = round_half_even(self * m if self.kind != 'dec' else self * m)
        return num(_real(r.expr), self.kind) / m

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return num(z3.ToInt(_real(self.expr)), 'int')

    def __ceil__(self):
        return num(-z3.ToInt(-_real(self.expr)), 'int')

    def is_integer(self):
        if self.expr.sort() == z3.IntSort():
            return True
        return sbool(z3.IsInt(self.expr))

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def copy_abs(self):
        return abs(self)

    def sqrt(self):
        return sqrt(self)

    def normalize(self):
        return self

    def to_integral_value(self, *a, **k):
        return num(_real(round_half_even(self).expr), self.kind)

    def quantize(self, *a, **k):
        raise Unsupported('Decimal.quantize')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<SymNum %s>' % self.kind

    def __str__(self):
        raise Unsupported('str() of a symbolic number at a C boundary')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic number at a C boundary')


def _is_array(o):
    return type(o).__module__ == 'numpy' and getattr(o, 'ndim', 0) > 0


def _array_map(o, f):
    import numpy as np
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        r[i] = f(o[i])
    return r


def fn_pair(a, b, fn, op, swap):
    if swap:
        a, b = b, a
    k = _join(a, b, op)
    return fn(a, b, k)


def _coerce(a, b, k):
    x, y = zn(a), zn(b)
    if k != 'int' or x.sort() != y.sort():
        x, y = _real(x), _real(y)
    return x, y


def _isval(e, n):
    return (z3.is_int_value(e) or z3.is_rational_value(e)) \
        and core.frac_of(e) == n


def _add(a, b, k):
    x, y = _coerce(a, b, k)
    if _isval(x, 0):
        return num(y, k)
    if _isval(y, 0):
        return num(x, k)
    return num(x + y, k)


def _sub(a, b, k):
    x, y = _coerce(a, b, k)
    if _isval(y, 0):
        return num(x, k)
    return num(x - y, k)


def _mul(a, b, k):
    x, y = _coerce(a, b, k)
    if _isval(x, 0) or _isval(y, 0):
        return num(z3.IntVal(0) if k == 'int' else z3.RealVal(0), k)
    if _isval(x, 1):
        return num(y, k)
    if _isval(y, 1):
        return num(x, k)
    return num(x * y, k)


def _zero_div(k):
    if k == 'dec':
        from decimal import DivisionByZero
        return DivisionByZero()
    return ZeroDivisionError('division by zero')


def _div(a, b, k):
    x, y = _coerce(a, b, k)
    if k == 'int':
        k = 'float'
        x, y = _real(x), _real(y)
    if ctx().decide(y == 0):
        raise _zero_div(k)
    ys = z3.simplify(y)
    if z3.is_rational_value(ys):
        f = core.frac_of(ys)
        return num(x * z3.RealVal(1 / f), k)
    return num(x / y, k)


def _floordiv(a, b, k):
    x, y = _coerce(a, b, k)
    if ctx().decide(y == 0):
        raise _zero_div(k)
    if k == 'int':
        if z3.is_int_value(z3.simplify(y)):
            n = z3.simplify(y).as_long()
            if n > 0:
                return num(x / y, 'int')
            return num((-x) / z3.IntVal(-n), 'int')
        q = z3.ToInt(_real(x) / _real(y))
        return num(q, 'int')
    q = z3.ToReal(z3.ToInt(x / y))
    if k == 'dec':
        r = x / y
        q = z3.ToReal(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    return num(q, k)


def _mod(a, b, k):
    q = _floordiv(a, b, k)
    x, y = _coerce(a, b, k)
    return num(x - y * q.expr, k)


def _eq(a, b):
    return a == b


def _ne(a, b):
    return a != b


def trunc(x):
    e = x.expr
    if e.sort() == z3.IntSort():
        return num(e, 'int')
    return num(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)), 'int')


def round_half_even(x):
    e = _real(x.expr)
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    r = z3.If(d < half, f, z3.If(d > half, f + 1,
                                 z3.If(f % 2 == 0, f, f + 1)))
    return num(r, 'int')


def has_div(e):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_div(x):
            return True
        todo.extend(x.children())
    return False


def sqrt(x, kind=None):
    if not isinstance(x, SymNum):
        return math.sqrt(x)
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    k = kind or ('dec' if x.kind == 'dec' else 'float')
    if z3.is_rational_value(e):
        f = core.frac_of(e)
        if f < 0:
            raise ValueError('math domain error')
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return num(z3.RealVal(Fraction(n, d)), k)
    if c.raw_sqrt:
        r = z3.Real(c.fresh('sqrt'))
        c.keep.extend([r, e])
        c.radicands[r.get_id()] = e
        return num(r, k)
    u = c.unique(e) if has_div(e) else e
    if z3.is_rational_value(u) and not z3.is_rational_value(e):
        return sqrt(num(u, 'float'), k)
    if c.decide(e < 0):
        raise ValueError('math domain error')
    key = e.get_id()
    r = c.sqrt_memo.get(key)
    if r is None:
        r = z3.Real(c.fresh('sqrt'))
        c.add(z3.And(r >= 0, r * r == e))
        c.sqrt_memo[key] = r
        c.keep.append(e)
    return num(r, k)


# -------------------------------------------------------------------- trig
PI = Fraction(repr(math.pi))


def _neg_key(e):
    return z3.simplify(-e, som=True)


def sincos(x):
    """(sin, cos) of a symbolic angle in radians."""
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    if _isval(e, 0):
        return num(z3.RealVal(0), 'float'), num(z3.RealVal(1), 'float')
    if z3.is_rational_value(e):
        f = core.frac_of(e)
        q = f / (PI / 2)
        if q.denominator == 1:
            s, k = ((0, 1), (1, 0), (0, -1), (-1, 0))[q.numerator % 4]
            return num(z3.RealVal(s), 'float'), num(z3.RealVal(k), 'float')
        f = float(f)
        return math.sin(f), math.cos(f)
    t = c.trig.get(e.get_id())
    if t is None:
        n = _neg_key(e)
        t = c.trig.get(n.get_id())
        if t is not None:
            t = (-t[0], t[1])
        else:
            s = z3.Real(c.fresh('sin'))
            k = z3.Real(c.fresh('cos'))
            c.add(s * s + k * k == 1)
            c.add(z3.And(s >= -1, s <= 1, k >= -1, k <= 1))
            # angle 0 (and nothing else near it) pins sin/cos
            c.add(z3.Implies(e == 0, z3.And(s == 0, k == 1)))
            t = (s, k)
        c.trig[e.get_id()] = t
        c.keep.append(e)
    return num(t[0], 'float'), num(t[1], 'float')


def radians(x):
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    back = c.deg_of.get(e.get_id())
    if back is not None:
        return num(back, 'float')
    return num(e * z3.RealVal(PI / 180), 'float')


def degrees(x):
    c = ctx()
    e = z3.simplify(_real(x.expr), som=True)
    r = z3.simplify(e * z3.RealVal(180 / PI), som=True)
    c.deg_of[r.get_id()] = e
    c.keep.append(r)
    return num(r, 'float')


def atan2(y, x):
    """Fresh angle whose sine/cosine are y/h and x/h (0 when h == 0)."""
    c = ctx()
    y = y if isinstance(y, SymNum) else num(_real(zconst(y)), 'float')
    x = x if isinstance(x, SymNum) else num(_real(zconst(x)), 'float')
    ye = z3.simplify(_real(y.expr), som=True)
    xe = z3.simplify(_real(x.expr), som=True)
    key = ('atan2', ye.get_id(), xe.get_id())
    a = c.trig.get(key)
    if a is None:
        c.keep.extend([ye, xe])
        ye, xe = c.unique(ye), c.unique(xe)
        if z3.is_rational_value(ye) and z3.is_rational_value(xe):
            fy, fx = core.frac_of(ye), core.frac_of(xe)
            if fx and fy:
                return math.atan2(fy, fx)
            q = (0 if fx >= 0 else 2) if not fy else (1 if fy > 0 else -1)
            return num(z3.RealVal(PI / 2 * q), 'float')
        hp = Fraction(PI)
        if c.decide(ye == 0):
            # (0, 0) and the horizontal axis
            return num(z3.RealVal(0 if c.decide(xe >= 0) else hp), 'float')
        if c.decide(xe == 0):
            return num(z3.RealVal(hp / 2 if c.decide(ye > 0) else -hp / 2),
                       'float')
        h = sqrt(num(xe * xe + ye * ye, 'float'))
        a = z3.Real(c.fresh('atan2'))
        s = z3.Real(c.fresh('sin'))
        k = z3.Real(c.fresh('cos'))
        c.add(z3.And(s * h.expr == ye, k * h.expr == xe, h.expr > 0))
        c.add(s * s + k * k == 1)
        hp = z3.RealVal(PI)
        c.add(z3.And(a > -hp, a <= hp))
        c.add((a > 0) == (ye > 0))
        c.add(a != 0)
        c.add(a != hp)
        c.add(z3.If(xe > 0, z3.And(a < hp / 2, a > -hp / 2),
                    z3.Or(a > hp / 2, a < -hp / 2)))
        c.trig[a.get_id()] = (s, k)
        c.trig[key] = a
        c.keep.append(a)
    return num(a, 'float')


# ----------------------------------------------------------------- strings

class SymChar(object):
    """f(v) for a character variable v; fmap maps code -> character."""
    __slots__ = ('var', 'fmap')

    def __init__(self, var, fmap=None):
        self.var = var
        self.fmap = fmap

    def map(self, f):
        """Apply a unary character function."""
        if self.fmap is None:
            new = tuple(f(chr(i)) for i in range(128))
        else:
            new = tuple(f(x) for x in self.fmap)
        out = None
        m = self.var.mask
        const = True
        for i in range(128):
            if m >> i & 1:
                if out is None:
                    out = new[i]
                elif new[i] != out:
                    const = False
                    break
        if const and out is not None:
            return out
        ident = True
        for i in range(128):
            if new[i] != chr(i):
                ident = False
                break
        return SymChar(self.var, None if ident else new)

    def pre(self, pred):
        """Mask of variable codes whose image satisfies pred."""
        if self.fmap is None:
            return _pred_mask(pred)
        m = 0
        for i, ch in enumerate(self.fmap):
            if pred(ch):
                m |= 1 << i
        return m

    def premask(self, mask):
        if self.fmap is None:
            return mask
        m = 0
        for i, ch in enumerate(self.fmap):
            o = ord(ch)
            if o < 128 and mask >> o & 1:
                m |= 1 << i
        return m

    def z(self):
        v = self.var.z
        if self.fmap is None:
            return v
        # group consecutive codes with the same offset
        e = v
        i = 0
        groups = []
        while i < 128:
            off = ord(self.fmap[i]) - i
            j = i
            while j + 1 < 128 and ord(self.fmap[j + 1]) - (j + 1) == off:
                j += 1
            if off:
                groups.append((i, j, off))
            i = j + 1
        for lo, hi, off in groups:
            cond = v == lo if lo == hi else z3.And(v >= lo, v <= hi)
            e = z3.If(cond, v + off, e)
        return e

    def single(self):
        """The character if the domain admits only one, else None."""
        m = self.var.mask
        if m & (m - 1) == 0 and m:
            code = m.bit_length() - 1
            return chr(code) if self.fmap is None else self.fmap[code]
        return None


class DigitRun(SymChar):
    """One or more digits of the text of a number >= 0: its integer (part 0)
    or fractional (part 1) digits. Counts as one character that may be any
    digit; tests that tell digits apart are not supported."""
    __slots__ = ('n', 'part')

    def __init__(self, var, n, part):
        SymChar.__init__(self, var)
        self.n = n
        self.part = part

    def map(self, f):
        return self

    def pre(self, pred):
        hits = [bool(pred(c)) for c in '0123456789']
        if all(hits):
            return self.var.mask
        if any(hits):
            raise Unsupported('test on the digits of an opaque number')
        return 0

    def premask(self, mask):
        x = mask & self.var.mask
        if x not in (0, self.var.mask):
            raise Unsupported('test on the digits of an opaque number')
        return x

    def z(self):
        raise Unsupported('digits of an opaque number')

    def single(self):
        return None


def number_text(n, neg):
    """Elements of the text of a symbolic number (n >= 0)."""
    m = mask_chars('0123456789')
    els = [DigitRun(CharVar('#i', m), n, 0), '.',
           DigitRun(CharVar('#f', m), n, 1)]
    return mk((['-'] if neg else []) + els)


class NumTok(object):
    """Opaque canonical text of a symbolic number."""
    __slots__ = ('n', 'style')

    def __init__(self, n, style):
        self.n = n
        self.style = style


_pred_masks = {}


def _pred_mask(pred):
    m = _pred_masks.get(pred)
    if m is None:
        m = mask_of(pred)
        if pred in _STABLE:
            _pred_masks[pred] = m
    return m


_STABLE = {str.isspace, str.isdigit, str.isalpha, str.isalnum, str.isupper,
           str.islower, str.isdecimal, str.isnumeric, str.isprintable}


def ch_in(el, mask, pred=None):
    """Fork: is the character element in the ASCII mask (pred for others)."""
    if isinstance(el, str):
        o = ord(el)
        if o < 128:
            return bool(mask >> o & 1)
        return bool(pred(el)) if pred is not None else False
    if isinstance(el, NumTok):
        raise Unsupported('character test on an opaque number text')
    return ctx().char_in(el.var, el.premask(mask))


def ch_pred(el, pred):
    if isinstance(el, str):
        return pred(el)
    if isinstance(el, NumTok):
        raise Unsupported('character test on an opaque number text')
    return ctx().char_in(el.var, el.pre(pred))


def ch_eq_cond(a, b):
    """bool | ('u', var, mask) | z3 expr for a == b."""
    if a is b:
        return True
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(a, DigitRun) or isinstance(b, DigitRun):
        if not isinstance(a, DigitRun):
            a, b = b, a
        if isinstance(b, str):
            if b in '0123456789':
                raise Unsupported('comparison with digits of a number')
            return False
        if isinstance(b, DigitRun) and a.n is b.n and a.part == b.part:
            return True
        if not b.premask(a.var.mask) if isinstance(b, DigitRun) \
                else not b.var.mask & b.premask(a.var.mask):
            return False
        raise Unsupported('comparison with digits of a number')
    if isinstance(a, NumTok) or isinstance(b, NumTok):
        if isinstance(a, NumTok) and isinstance(b, NumTok) \
                and a.style == b.style:
            r = a.n == b.n
            return r if isinstance(r, bool) else r.z()
        raise Unsupported('comparison with an opaque number text')
    if isinstance(b, str):
        if ord(b) >= 128 and a.fmap is None:
            return False
        m = (1 << ord(b)) if a.fmap is None else a.pre(lambda c: c == b)
        x = a.var.mask & m
        if x == 0:
            return False
        if x == a.var.mask:
            return True
        return ('u', a.var, m)
    if a.var is b.var:
        if a.fmap == b.fmap:
            return True
        fa = a.fmap or tuple(map(chr, range(128)))
        fb = b.fmap or tuple(map(chr, range(128)))
        m = 0
        for i in range(128):
            if fa[i] == fb[i]:
                m |= 1 << i
        x = a.var.mask & m
        if x == 0:
            return False
        if x == a.var.mask:
            return True
        return ('u', a.var, m)
    # quick disjointness test of the image sets
    ia, ib = _image(a), _image(b)
    if not (ia & ib):
        return False
    core.CURRENT.entangle(a.var, b.var)
    return a.z() == b.z()


def _image(a):
    m = a.var.mask
    if a.fmap is None:
        return m
    r = 0
    for i in range(128):
        if m >> i & 1:
            r |= 1 << ord(a.fmap[i])
    return r


def _els(x):
    if isinstance(x, SymStr):
        return x.els
    return tuple(x)


def seq_eq(a, b):
    """Condition that two equally long element sequences are equal."""
    unary, exprs = [], []
    for x, y in zip(a, b):
        r = ch_eq_cond(x, y)
        if r is False:
            return False
        if r is True:
            continue
        if isinstance(r, tuple):
            unary.append((r[1], r[2]))
        else:
            exprs.append(r)
    if not unary and not exprs:
        return True
    if not exprs:
        merged = {}
        order = []
        for v, m in unary:
            if v not in merged:
                merged[v] = m
                order.append(v)
            else:
                merged[v] &= m
        if any(merged[v] & v.mask == 0 for v in order):
            return False
        return SymBool(None, [(v, merged[v]) for v in order])
    exprs = exprs + [core.mask_constraint(v.z, m) for v, m in unary]
    core.CURRENT.entangle(*[v for v, _ in unary])
    return SymBool(z3.And(*exprs))


def mk(els):
    els = tuple(els)
    for e in els:
        if not isinstance(e, str):
            return SymStr(els)
    return ''.join(els)


_WS = mask_of(str.isspace)


class SymStr(object):
    """A string of concrete length whose characters may be symbolic."""
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els

    def __len__(self):
        for e in self.els:
            if isinstance(e, NumTok):
                raise Unsupported('length of an opaque number text')
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __iter__(self):
        for e in self.els:
            if isinstance(e, NumTok):
                raise Unsupported('iteration over an opaque number text')
            yield mk((e,))

    def __reversed__(self):
        for e in reversed(self.els):
            yield mk((e,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            len(self)
            i = slice(_idx(i.start), _idx(i.stop), _idx(i.step))
            return mk(self.els[i])
        if isinstance(i, SymNum):
            i = i.__index__()
        len(self)
        if not isinstance(i, int):
            raise TypeError('string indices must be integers')
        return mk((self.els[i],))

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.els + _els(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk(tuple(o) + self.els)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SymNum):
            n = n.__index__()
        return mk(self.els * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('% formatting with a symbolic template')

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        b = _els(o)
        if len(self.els) != len(b):
            if any(isinstance(e, NumTok) for e in self.els + b):
                raise Unsupported('comparison with an opaque number text')
            return False
        return seq_eq(self.els, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, bool):
            return not r
        return not bool(r)

    def _order(self, o):
        """-1/0/1 by forking character by character."""
        b = _els(o)
        for x, y in zip(self.els, b):
            if seq_eq((x,), (y,)):
                continue
            if isinstance(y, str) and not isinstance(x, str):
                lt = ch_pred(x, lambda c: c < y)
            elif isinstance(x, str) and not isinstance(y, str):
                lt = ch_pred(y, lambda c: x < c)
            elif isinstance(x, str):
                lt = x < y
            else:
                core.CURRENT.entangle(x.var, y.var)
                lt = ctx().decide(x.z() < y.z())
            return -1 if lt else 1
        return (len(self.els) > len(b)) - (len(self.els) < len(b))

    def __lt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._order(o) < 0

    def __le__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._order(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._order(o) > 0

    def __ge__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._order(o) >= 0

    def __contains__(self, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(s) >= 0

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __repr__(self):
        return '<SymStr %s>' % ''.join(
            e if isinstance(e, str) else '?' for e in self.els)

    def __str__(self):
        raise Unsupported('str() of a symbolic string at a C boundary')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string at a C boundary')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- searching -------------------------------------------------------
    def _at(self, b, i):
        r = seq_eq(self.els[i:i + len(b)], b)
        return bool(r)

    def find(self, sub, start=None, end=None):
        b = _els(sub)
        n = len(self.els)
        lo, hi, _ = slice(_idx(start), _idx(end)).indices(n)
        if start is not None and _idx(start) > n:
            return -1
        for i in range(lo, hi - len(b) + 1):
            if self._at(b, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        b = _els(sub)
        n = len(self.els)
        lo, hi, _ = slice(_idx(start), _idx(end)).indices(n)
        for i in range(hi - len(b), lo - 1, -1):
            if self._at(b, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        b = _els(sub)
        n, i = 0, 0
        if not b:
            return len(self.els) + 1
        while True:
            j = self.find(sub, i) if not a else self.find(sub, i, *a[1:])
            if j < 0:
                return n
            n += 1
            i = j + len(b)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        s = self.els[_idx(start):_idx(end)]
        b = _els(p)
        if len(b) > len(s):
            return False
        r = seq_eq(s[:len(b)], b)
        return r

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        s = self.els[_idx(start):_idx(end)]
        b = _els(p)
        if len(b) > len(s):
            return False
        r = seq_eq(s[len(s) - len(b):], b)
        return r

    def removeprefix(self, p):
        if self.startswith(p):
            return mk(self.els[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk(self.els[:-len(p)])
        return self

    # -- predicates --------------------------------------------------------
    def _all(self, pred):
        if not self.els:
            return False
        for e in self.els:
            if not ch_pred(e, pred):
                return False
        return True

    def isspace(self):
        return self._all(str.isspace)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isprintable(self):
        return self._all(str.isprintable)

    def isascii(self):
        return all(ord(e) < 128 for e in self.els if isinstance(e, str))

    def isupper(self):
        seen = False
        for e in self.els:
            if ch_pred(e, str.islower):
                return False
            if ch_pred(e, str.isupper):
                seen = True
        return seen

    def islower(self):
        seen = False
        for e in self.els:
            if ch_pred(e, str.isupper):
                return False
            if ch_pred(e, str.islower):
                seen = True
        return seen

    def isidentifier(self):
        for i, e in enumerate(self.els):
            if i == 0:
                ok = ch_pred(e, lambda c: c.isidentifier())
            else:
                ok = ch_pred(e, lambda c: ('a' + c).isidentifier())
            if not ok:
                return False
        return bool(self.els)

    # -- mapping -------------------------------------------------------------
    def _map(self, f):
        out = []
        for e in self.els:
            if isinstance(e, str):
                out.extend(f(e))
            elif isinstance(e, NumTok):
                raise Unsupported('mapping an opaque number text')
            else:
                r = e.map(f)
                out.append(r)
        return mk(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    casefold = lower

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        if not self.els:
            return ''
        a = mk(self.els[:1])
        b = mk(self.els[1:])
        return a.upper() + b.lower()

    def title(self):
        out = []
        prev = False
        for e in self.els:
            s = mk((e,))
            if ch_pred(e, str.isalpha):
                out.append(s.lower() if prev else s.upper())
                prev = True
            else:
                out.append(s)
                prev = False
        return join('', out)

    def translate(self, table):
        out = []
        for e in self.els:
            if isinstance(e, str):
                out.extend(e.translate(table))
            else:
                done = False
                for k, v in table.items():
                    if k < 128 and ch_in(e, 1 << k):
                        if v is None:
                            pass
                        else:
                            out.extend(chr(v) if isinstance(v, int) else v)
                        done = True
                        break
                if not done:
                    out.append(e)
        return mk(out)

    # -- trimming and splitting ------------------------------------------
    def _strip_test(self, chars):
        if chars is None:
            return lambda e: ch_in(e, _WS, str.isspace)
        if isinstance(chars, SymStr):
            def f(e):
                for c in chars.els:
                    if seq_eq((e,), (c,)):
                        return True
                return False
            return f
        m = mask_chars(chars)
        return lambda e: ch_in(e, m, lambda c: c in chars)

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.els) and t(self.els[i]):
            i += 1
        return mk(self.els[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.els)
        while i > 0 and t(self.els[i - 1]):
            i -= 1
        return mk(self.els[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            i, n = 0, len(self.els)
            while i < n:
                while i < n and ch_in(self.els[i], _WS, str.isspace):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self.els[i:]).rstrip())
                    return out
                j = i
                while j < n and not ch_in(self.els[j], _WS, str.isspace):
                    j += 1
                out.append(mk(self.els[i:j]))
                i = j
            return out
        b = _els(sep)
        if not b:
            raise ValueError('empty separator')
        out, i, start = [], 0, 0
        while i <= len(self.els) - len(b):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(b, i):
                out.append(mk(self.els[start:i]))
                i += len(b)
                start = i
            else:
                i += 1
        out.append(mk(self.els[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        b = _els(sep)
        out = []
        end = len(self.els)
        i = end - len(b)
        while i >= 0 and len(out) < maxsplit:
            if self._at(b, i):
                out.append(mk(self.els[i + len(b):end]))
                end = i
                i -= len(b)
            else:
                i -= 1
        out.append(mk(self.els[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        out, start, i = [], 0, 0
        nl = mask_chars('\n\r\x0b\x0c\x1c\x1d\x1e')
        while i < len(self.els):
            if ch_in(self.els[i], nl, lambda c: c in '\x85\u2028\u2029'):
                j = i + 1
                if (ch_in(self.els[i], 1 << 13) and j < len(self.els)
                        and ch_in(self.els[j], 1 << 10)):
                    j += 1
                out.append(mk(self.els[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < len(self.els):
            out.append(mk(self.els[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return mk(self.els[:i]), sep, mk(self.els[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return mk(self.els[:i]), sep, mk(self.els[i + len(sep):])

    def replace(self, old, new, count=-1):
        b, r = _els(old), _els(new)
        out, i, n = [], 0, 0
        if not b:
            raise Unsupported('replace of an empty string')
        while i < len(self.els):
            if (count < 0 or n < count) and i + len(b) <= len(self.els) \
                    and self._at(b, i):
                out.extend(r)
                i += len(b)
                n += 1
            else:
                out.append(self.els[i])
                i += 1
        return mk(out)

    def join(self, it):
        return join(self, it)

    def ljust(self, w, fill=' '):
        return mk(self.els + tuple(fill) * max(0, w - len(self.els)))

    def rjust(self, w, fill=' '):
        return mk(tuple(fill) * max(0, w - len(self.els)) + self.els)

    def zfill(self, w):
        s = mk(self.els)
        if ch_in(self.els[0], mask_chars('+-')):
            return s[:1] + '0' * max(0, w - len(self.els)) + s[1:]
        return '0' * max(0, w - len(self.els)) + s

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def format(self, *a, **k):
        raise Unsupported('symbolic format template')

    def encode(self, *a, **k):
        enc = (a[0] if a else k.get('encoding', 'utf-8')).lower()
        if enc == 'idna':
            # encodings.idna on ASCII text: only label lengths are checked
            if not self.isascii():
                raise Unsupported('idna of non-ASCII text')
            labels = self.split('.')
            for x in labels[:-1]:
                if not 0 < len(x) < 64:
                    raise UnicodeError('label empty or too long')
            if len(labels[-1]) >= 64:
                raise UnicodeError('label too long')
            return SymBytes(self, 'utf-8')
        return SymBytes(self, a[0] if a else k.get('encoding', 'utf-8'))


class SymBytes(object):
    """The encoding of a string; only decodes back."""
    __slots__ = ('s', 'enc')

    def __init__(self, s, enc):
        self.s, self.enc = s, enc.lower().replace('_', '-')

    def decode(self, enc='utf-8', *a):
        if enc.lower().replace('_', '-') == self.enc:
            return self.s
        raise Unsupported('transcoding')

    def _case(self, name):
        # only ASCII letters have a case in bytes
        out = []
        for e in self.s.els:
            if isinstance(e, str):
                out.extend(getattr(e.encode(self.enc), name)()
                           .decode(self.enc))
            else:
                out.extend(_els(getattr(mk([e]), name)()))
        r = mk(out)
        return r.encode(self.enc) if isinstance(r, str) \
            else SymBytes(r, self.enc)

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def _ascii(self, b):
        if not isinstance(b, (bytes, bytearray)) or \
                any(x > 127 for x in b) or self.enc.startswith('utf-16') or \
                not self.s.isascii():
            raise Unsupported('search in encoded text')
        return b.decode('ascii')

    def startswith(self, b, *a):
        return self.s.startswith(self._ascii(b), *a)

    def find(self, b, *a):
        return self.s.find(self._ascii(b), *a)

    def __getitem__(self, i):
        if not isinstance(i, slice) or not self.s.isascii():
            raise Unsupported('item of encoded text')
        r = self.s[i]
        return r.encode(self.enc) if isinstance(r, str) \
            else SymBytes(r, self.enc)

    def __len__(self):
        n = 0
        for e in self.s.els:
            n += len(e.encode(self.enc)) if isinstance(e, str) else 1
        return n

    def __iter__(self):
        for e in self.s.els:
            if isinstance(e, str):
                for b in e.encode(self.enc):
                    yield b
            else:
                yield num(e.z(), 'int')


def _idx(i):
    if isinstance(i, SymNum):
        return i.__index__()
    return i


def join(sep, it):
    out = []
    s = _els(sep)
    for n, x in enumerate(it):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance, %s '
                            'found' % (n, type(x).__name__))
        if n:
            out.extend(s)
        out.extend(_els(x))
    return mk(out)


SYM = (SymBool, SymNum, SymStr, SymBytes)
SYM_TYPES = frozenset(SYM)


def is_sym(x):
    return type(x) in SYM_TYPES


_DEC = mask_chars('0123456789')


def digit_val(el):
    """z3 Int value of a digit element (already known to be a digit)."""
    if isinstance(el, str):
        return z3.IntVal(int(el))
    return el.z() - 48


def parse_float(s, kind='float'):
    """float(s) / Decimal(s) for a SymStr."""
    if len(s.els) == 1 and isinstance(s.els[0], NumTok):
        return num(_real(s.els[0].n.expr), kind)
    for e in s.els:
        if isinstance(e, NumTok):
            raise Unsupported('number text mixed with other characters')
    t = s.strip()
    err = ValueError('could not convert string to float: %r' % (s,))
    if kind == 'dec':
        from decimal import InvalidOperation
        err = InvalidOperation('ConversionSyntax')
    els = _els(t)
    n = len(els)
    i = 0
    neg = False
    if i < n and ch_in(els[i], mask_chars('+-')):
        neg = ch_in(els[i], mask_chars('-'))
        i += 1
    if any(isinstance(e, DigitRun) for e in els):
        a = els[i:]
        if len(a) == 3 and isinstance(a[0], DigitRun) and a[1] == '.' \
                and isinstance(a[2], DigitRun) and a[0].n is a[2].n \
                and (a[0].part, a[2].part) == (0, 1):
            v = a[0].n
            return num(_real((-v if neg else v).expr), kind)
        raise Unsupported('part of an opaque number text')
    if i < n and ch_in(els[i], mask_chars('iInN')):
        # inf / nan spellings
        w = mk(els[i:]).lower()
        for name in ('inf', 'infinity', 'nan'):
            if w == name:
                v = float(name)
                v = -v if neg else v
                return Decimal(str(v)) if kind == 'dec' else v
        raise err
    val = z3.IntVal(0)
    nd = 0
    scale = 0
    last_digit = False

    def digits(i, val, nd):
        cnt = 0
        while i < n:
            if ch_in(els[i], _DEC, lambda c: False):
                val = val * 10 + digit_val(els[i])
                nd += 1
                cnt += 1
                i += 1
            elif (cnt and i + 1 < n and ch_in(els[i], mask_chars('_'))
                  and ch_in(els[i + 1], _DEC)):
                i += 1
            else:
                break
        return i, val, nd

    i, val, nd = digits(i, val, nd)
    if i < n and ch_in(els[i], mask_chars('.')):
        i += 1
        before = nd
        i, val, nd = digits(i, val, nd)
        scale = nd - before
    if nd == 0:
        raise err
    exp = 0
    if i < n and ch_in(els[i], mask_chars('eE')):
        i += 1
        eneg = False
        if i < n and ch_in(els[i], mask_chars('+-')):
            eneg = ch_in(els[i], mask_chars('-'))
            i += 1
        ev = z3.IntVal(0)
        i, ev, ed = digits(i, ev, 0)
        if ed == 0:
            raise err
        exp = ctx().concretise_int(ev)
        if eneg:
            exp = -exp
    if i != n:
        raise err
    for e in els:
        if not isinstance(e, str):
            core.CURRENT.entangle(e.var)
    p = exp - scale
    r = z3.ToReal(val)
    if p > 0:
        r = r * z3.RealVal(10 ** p)
    elif p < 0:
        r = r * z3.RealVal(Fraction(1, 10 ** -p))
    if neg:
        r = -r
    r = z3.simplify(r)
    if z3.is_rational_value(r):
        f = core.frac_of(r)
        return Decimal(f.numerator) / Decimal(f.denominator) \
            if kind == 'dec' else float(f)
    return num(r, kind)


def parse_int(s, base=10):
    t = s.strip()
    els = _els(t)
    n = len(els)
    err = ValueError('invalid literal for int()')
    i = 0
    neg = False
    if i < n and ch_in(els[i], mask_chars('+-')):
        neg = ch_in(els[i], mask_chars('-'))
        i += 1
    val = z3.IntVal(0)
    cnt = 0
    while i < n:
        if base == 10:
            if ch_in(els[i], _DEC):
                d = digit_val(els[i])
            elif (cnt and i + 1 < n and ch_in(els[i], mask_chars('_'))
                  and ch_in(els[i + 1], _DEC)):
                i += 1
                continue
            else:
                raise err
        elif base == 16:
            if ch_in(els[i], _DEC):
                d = digit_val(els[i])
            elif ch_in(els[i], mask_chars('abcdef')):
                d = (z3.IntVal(ord(els[i]) - 87) if isinstance(els[i], str)
                     else els[i].z() - 87)
            elif ch_in(els[i], mask_chars('ABCDEF')):
                d = (z3.IntVal(ord(els[i]) - 55) if isinstance(els[i], str)
                     else els[i].z() - 55)
            else:
                raise err
        else:
            raise Unsupported('int base %r' % base)
        val = val * base + d
        cnt += 1
        i += 1
    if cnt == 0:
        raise err
    for e in els:
        if not isinstance(e, str):
            core.CURRENT.entangle(e.var)
    if neg:
        val = -val
    val = z3.simplify(val)
    if z3.is_int_value(val):
        return val.as_long()
    return num(val, 'int')


# -- number formatting ---------------------------------------------------
MAX_INT_DIGITS = 6
MAX_FRAC_DIGITS = 6


def _fresh_digits(value, n):
    """n digit characters spelling the Int term `value` (0 <= v < 10**n)."""
    c = ctx()
    out = []
    v = z3.simplify(value)
    if z3.is_int_value(v):
        return list(str(v.as_long()).zfill(n))
    total = z3.IntVal(0)
    for _ in range(n):
        cv = core.CharVar(c.fresh('dig'), _DEC)
        cv.entangled = True
        c.chars.append(cv)
        out.append(SymChar(cv))
        total = total * 10 + (cv.z - 48)
    c.add(total == value)
    return out


def decimal_shape(x, max_frac=MAX_FRAC_DIGITS):
    """Fork on the decimal shape of |x|; returns (neg, int_els, frac_els)
    with the shortest fraction that spells the value exactly."""
    c = ctx()
    e = x.expr
    neg = c.decide(e < 0)
    a = -e if neg else e
    k = 0
    if a.sort() == z3.IntSort():
        scaled = a
    else:
        while True:
            if k > max_frac:
                raise Unsupported('number needs more decimals than the bound')
            t = z3.simplify(a * z3.RealVal(10 ** k), som=True)
            if c.decide(z3.IsInt(t)):
                break
            k += 1
        scaled = z3.ToInt(t)
        iv = z3.Int(c.fresh('scaled'))
        c.add(z3.ToReal(iv) == t)
        c.add(iv >= 0)
        scaled = iv
    n = 1
    while not c.decide(scaled < z3.IntVal(10 ** (n + k))):
        n += 1
        if n > MAX_INT_DIGITS:
            raise Unsupported('number needs more digits than the bound')
    els = _fresh_digits(scaled, n + k)
    return neg, els[:n], els[n:]


def format_num(x, spec):
    """format(x, spec) for a SymNum."""
    if spec == '' or spec is None:
        return str_num(x)
    if spec in ('s', 'r'):
        return str_num(x)
    if spec == 'd' and x.kind == 'int':
        return str_num(x)
    if spec.startswith('.') and spec[-1] in 'fF':
        p = int(spec[1:-1])
        try:
            neg, ip, fp = decimal_shape(x, max_frac=p)
        except Unsupported:
            raise
        fp = list(fp) + ['0'] * (p - len(fp))
        return mk((['-'] if neg else []) + ip + (['.'] + fp if p else []))
    if spec in ('g', 'G') or (spec.startswith('.') and spec[-1] == 'g'):
        p = int(spec[1:-1]) if spec[0] == '.' else 6
        neg, ip, fp = decimal_shape(x)
        if len(ip) + len(fp) > p:
            raise Unsupported('%g rounding')
        if len(ip) == 1 and fp and not ctx().decide(
                z3.Or(x.expr >= z3.RealVal('1/10000'),
                      x.expr <= z3.RealVal('-1/10000'))):
            raise Unsupported('%g exponent form')
        return mk((['-'] if neg else []) + ip + (['.'] + fp if fp else []))
    if spec in ('x', 'X', '02x', '02X') and x.kind == 'int':
        v = ctx().concretise_int(x.expr)
        return format(v, spec)
    raise Unsupported('format spec %r' % spec)


def str_num(x):
    v = z3.simplify(x.expr)
    if z3.is_int_value(v) and x.kind == 'int':
        return str(v.as_long())
    if z3.is_rational_value(v):
        f = core.frac_of(v)
        return repr(float(f)) if x.kind == 'float' else str(
            Decimal(f.numerator) / Decimal(f.denominator))
    if x.kind == 'frac':
        raise Unsupported('str(Fraction)')
    neg, ip, fp = decimal_shape(x)
    if x.kind == 'float':
        if not fp:
            fp = ['0']
        elif len(fp) > 4:
            raise Unsupported('repr exponent form')
    return mk((['-'] if neg else []) + ip + (['.'] + list(fp) if fp else []))
