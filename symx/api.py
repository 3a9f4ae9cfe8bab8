"""The harness interface.

A harness is one Python function ``h(t)``; it is executed

* symbolically (``SymT``): inputs are solver variables, ``t.check``/``t.eq``
  become solver queries, or
* concretely (``ConT``) on the unmodified code, to replay a counterexample or
  to validate the executor on a path's model.
"""
import builtins
import math
import re
from decimal import Decimal
from fractions import Fraction

HARNESSES = []


def decimal_text(v):
    """Digits, a point and digits."""
    s = format(Decimal(repr(float(v))), 'f')
    return s if '.' in s else s + '.0'


class H(object):
    def __init__(self, prop, name, fn, tiers, kw, budget, doc, max_paths):
        self.prop, self.name, self.fn = prop, name, fn
        self.tiers, self.kw, self.budget = tiers, kw, budget
        self.doc = doc
        self.max_paths = max_paths


def harness(prop, name=None, tiers=('quick', 'thorough'), cases=None,
            budget=None, max_paths=None):
    """Register a harness; `cases` is a list of kwargs, one job each.

    A case may carry ``_tier='thorough'`` to restrict it to that tier.
    """
    def deco(fn):
        base = name or fn.__name__
        doc = (fn.__doc__ or '').strip()
        for i, kw in enumerate(cases if cases is not None else [{}]):
            kw = dict(kw)
            tr = tiers
            if '_tier' in kw:
                tr = (kw.pop('_tier'),)
            tag = ','.join('%s=%s' % (k, _short(v)) for k, v in kw.items())
            nm = base + ('[%s]' % tag if cases is not None else '')
            HARNESSES.append(H(prop, nm, fn, tr, kw, budget, doc, max_paths))
        return fn
    return deco


def _short(v):
    s = v if isinstance(v, str) else repr(v)
    s = s.replace('\n', '\\n').replace('\t', '\\t')
    return s if len(s) <= 40 else s[:37] + '...'


ASCII_PRINT = ''.join(map(chr, range(32, 127)))
DIGITS = '0123456789'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
ALPHA = LOWER + UPPER
ALNUM = ALPHA + DIGITS


class Gap(BaseException):
    """The code asked a harness stub for something it does not provide."""


def check_gap(e):
    """Raise Gap when exception e says that a stub of the harness lacks a
    member the code uses, or that a private name the harness uses is gone:
    this says nothing about the property."""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        k = o if isinstance(o, type) else type(o)
        if getattr(k, '__module__', '').startswith('harness.'):
            raise Gap(str(e))
    if isinstance(e, (AttributeError, TypeError, NameError)):
        tb = e.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        here = tb is not None and '/harness/' in tb.tb_frame.f_code.co_filename
        name = getattr(e, 'name', None) or ''
        if here and name.startswith('_') and not name.startswith('__'):
            raise Gap(str(e))
    if isinstance(e, TypeError):
        m = re.match(r"(\w+)\.\w+\(\) (got an unexpected|takes|missing)",
                     str(e))
        if m and m.group(1) in STUBS:
            raise Gap(str(e))


STUBS = set()


def stub(cls):
    """Mark a harness class as a stand-in for an object of the library."""
    STUBS.add(cls.__name__)
    return cls


class Skip(BaseException):
    """Concrete run: an assumption does not hold for these inputs."""


class ConcreteFailure(BaseException):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class Base(object):
    symbolic = False

    def __init__(self):
        self.obs = []
        self.reached = set()

    def opaque_trig(self):
        pass

    # derived helpers shared by both modes ------------------------------
    def raises(self, fn, *a, **k):
        """(exception or None, value)"""
        try:
            return None, fn(*a, **k)
        except Exception as e:
            check_gap(e)
            return e, None

    def no_raise(self, label, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:
            check_gap(e)
            self.check(False, label, 'raised %s: %s' % (type(e).__name__, e))

    def rejects(self, label, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc as e:
            check_gap(e)
            self.check(True, label)
            return
        except Exception as e:
            check_gap(e)
            self.check(False, label, 'raised %s: %s' % (type(e).__name__, e))
            return
        self.check(False, label, 'accepted')


TOL = 1e-6


class ConT(Base):
    """Concrete execution from a dictionary of inputs."""

    def __init__(self, inputs, tier='quick', findings=()):
        super().__init__()
        self.inputs = inputs
        self.tier = tier
        self.findings = set(findings)

    def _in(self, name):
        if name not in self.inputs:
            raise Skip('not asked for %s on this path' % name)
        return self.inputs[name]

    def _num(self, name, kind):
        v = Fraction(self._in(name))
        if kind == 'int':
            return int(v)
        if kind == 'dec':
            return Decimal(v.numerator) / Decimal(v.denominator)
        return float(v)

    def real(self, name, lo=None, hi=None, kind='float'):
        return self._num(name, kind)

    def int(self, name, lo=None, hi=None):
        return self._num(name, 'int')

    def number(self, name, lo=None, hi=None):
        v = self._num(name, 'float')
        return decimal_text(v), v

    def decimal(self, name, ints=2, frac=1, signed=True, kind='float'):
        return self._num(name, kind)

    def angle(self, name, kind='float'):
        return float(self._in(name))

    def text(self, name, n, alphabet=None):
        return self._in(name)

    def choice(self, name, options):
        return options[int(self._in(name))]

    def bool(self, name):
        return bool(int(self._in(name)))

    def excluding(self, kf, cond):
        """Skip the region of a listed known finding."""
        if kf in self.findings and cond:
            raise Skip()

    def assume(self, cond):
        if not cond:
            raise Skip()

    def observe(self, name, value):
        self.obs.append((name, _obs(value)))

    def check(self, cond, label, detail=None):
        self.reached.add(label)
        if not cond:
            raise ConcreteFailure(label, detail or '')

    def eq(self, a, b, label):
        self.reached.add(label)
        self.obs.append((label, _obs(a)))
        r = con_eq(a, b)
        if r is not None:
            raise ConcreteFailure(label, 'got %s, expected %s (%s)' % (
                _txt(a), _txt(b), r))

    def le(self, a, b, label):
        self.reached.add(label)
        if not (float(a) <= float(b) + TOL * max(1, abs(float(a)),
                                                 abs(float(b)))):
            raise ConcreteFailure(label, '%s <= %s does not hold' % (a, b))

    def near(self, a, b):
        return con_eq(a, b) is None

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b


def _txt(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def _isnum(x):
    return (isinstance(x, (int, float, Decimal, Fraction))
            and not isinstance(x, bool)) or (
        type(x).__module__ == 'numpy' and getattr(x, 'ndim', 1) == 0
        and hasattr(x, 'dtype') and x.dtype.kind in 'fiuO')


def con_eq(a, b):
    """None if equal up to rounding, else a reason."""
    if type(a).__module__ == 'numpy' and getattr(a, 'ndim', 0) > 0:
        a = a.tolist()
    if type(b).__module__ == 'numpy' and getattr(b, 'ndim', 0) > 0:
        b = b.tolist()
    if _isnum(a) and _isnum(b):
        x, y = float(a), float(b)
        if x == y or (x != x and y != y):
            return None
        if abs(x - y) <= TOL * max(1.0, abs(x), abs(y)):
            return None
        return '%r != %r' % (x, y)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 'length %d != %d' % (len(a), len(b))
        for x, y in zip(a, b):
            r = con_eq(x, y)
            if r is not None:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and set(a) != set(b):
            return 'keys differ'
        for k in a:
            r = con_eq(a[k], b[k])
            if r is not None:
                return r
        return None
    if isinstance(a, bool) != isinstance(b, bool):
        return '%r != %r' % (a, b)
    if a == b:
        return None
    return '%r != %r' % (a, b)


def _obs(v):
    if type(v).__module__ == 'numpy' and getattr(v, 'ndim', 0) > 0:
        v = v.tolist()
    if isinstance(v, bool) or v is None:
        return v
    if _isnum(v):
        return float(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return [_obs(x) for x in v]
    if isinstance(v, dict):
        return [[_obs(k), _obs(x)] for k, x in v.items()]
    return type(v).__name__
