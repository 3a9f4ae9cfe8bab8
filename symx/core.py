"""Execution context: decisions, path constraints, solver access.

A harness is executed once per feasible path.  Every branch on a symbolic value
goes through :meth:`Ctx.decide` (or the per-character variant), which asks z3
which outcomes are possible under the current path condition.  Both outcomes of
an undetermined branch are explored by re-executing the harness with a recorded
decision prefix, so at the end *every* value of every input inside the stated
domains is covered by exactly one explored path.
"""
import itertools
import time
from fractions import Fraction

import z3


class Abort(BaseException):
    """The current path is infeasible or excluded by an assumption."""


class Unsupported(BaseException):
    """The code asked for an operation the executor cannot encode."""


class Budget(BaseException):
    """Time or path budget exhausted."""


class Violation(BaseException):
    def __init__(self, label, detail, model):
        super().__init__(label)
        self.label = label
        self.detail = detail
        self.model = model


FULL = (1 << 128) - 1
_mask_cache = {}


def mask_of(pred):
    m = 0
    for c in range(128):
        if pred(chr(c)):
            m |= 1 << c
    return m


def mask_chars(chars):
    m = _mask_cache.get(chars)
    if m is None:
        m = 0
        for c in chars:
            if ord(c) < 128:
                m |= 1 << ord(c)
        _mask_cache[chars] = m
    return m


def mask_constraint(var, mask):
    """z3 constraint 'var is one of the codes in mask' as a union of ranges."""
    if mask == FULL:
        return z3.And(var >= 0, var <= 127)
    parts = []
    c = 0
    while c < 128:
        if mask >> c & 1:
            d = c
            while d + 1 < 128 and mask >> (d + 1) & 1:
                d += 1
            if c == d:
                parts.append(var == c)
            else:
                parts.append(z3.And(var >= c, var <= d))
            c = d + 1
        else:
            c += 1
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


class CharVar(object):
    __slots__ = ('name', 'z', 'mask', 'synced', 'entangled')

    def __init__(self, name, mask):
        self.name = name
        self.z = z3.Int(name)
        self.mask = mask
        self.synced = None
        self.entangled = False


CURRENT = None  # type: Ctx


def ctx():
    if CURRENT is None:
        raise Unsupported('no active symbolic context')
    return CURRENT


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_feas = 0
        self.unknown_assert = 0
        self.concretised = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.checks = 0
        self.assert_queries = 0
        self.trivial_checks = 0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx(object):
    feas_timeout = 3000
    assert_timeout = 30000
    max_concretise = 64

    def __init__(self, prefix, stats, deadline=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # decisions taken (value, is_forced)
        self.pending = []        # alternative prefixes discovered
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.chars = []
        self.known = {}
        self.keep = []
        self.counter = itertools.count()
        self.inputs = {}
        self.angles = {}
        self.trig = {}
        self.deg_of = {}
        # t.opaque_trig: tan and atan are uninterpreted functions
        self.opaque_trig = False
        # while set, sqrt does not ask for the sign of its argument
        self.raw_sqrt = False
        self.radicands = {}
        self.integrals = []
        self.sqrt_memo = {}
        self.notes = set()
        self.incomplete = []
        self.pc = []
        self.observations = []
        self.nonlinear = False

    # -- low level -----------------------------------------------------
    def fresh(self, prefix):
        return '%s!%d' % (prefix, next(self.counter))

    def _sync(self):
        for v in self.chars:
            if v.synced != v.mask:
                self.solver.add(mask_constraint(v.z, v.mask))
                v.synced = v.mask

    def add(self, expr):
        self.pc.append(expr)
        self.solver.add(expr)

    def check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        self._sync()
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, expr):
        self.solver.push()
        try:
            self.solver.add(expr)
            r = self.check()
        finally:
            self.solver.pop()
        if r == z3.unknown:
            self.stats.unknown_feas += 1
        return r != z3.unsat

    # -- decisions -----------------------------------------------------
    def _record(self, value, alternatives):
        """alternatives: other decision values still to be explored."""
        base = self.trace
        for a in alternatives:
            self.pending.append(list(base) + [a])
        self.trace.append(value)
        self.stats.decisions += 1

    def _replay(self):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return True, v
        self.pos += 1
        return False, None

    def decide(self, expr):
        """Fork on a z3 boolean."""
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        if key in self.known:
            return self.known[key]
        hit, v = self._replay()
        if not hit:
            self._sync()
            can_t = self.feasible(expr)
            can_f = self.feasible(z3.Not(expr)) if can_t else True
            if can_t and can_f:
                v = True
                self._record(True, [False])
            elif can_t:
                v = True
                self._record(True, [])
            else:
                v = False
                self._record(False, [])
        self.add(expr if v else z3.Not(expr))
        self.keep.append(expr)
        self.known[key] = v
        neg = z3.simplify(z3.Not(expr))
        self.keep.append(neg)
        self.known[neg.get_id()] = not v
        return v

    def char_in(self, var, mask):
        """Fork on membership of a character variable in a set of codes."""
        m = var.mask & mask
        if m == 0:
            return False
        if m == var.mask:
            return True
        hit, v = self._replay()
        if not hit:
            can_t = can_f = True
            if var.entangled:
                self._sync()
                can_t = self.feasible(mask_constraint(var.z, m))
                can_f = (self.feasible(mask_constraint(var.z, var.mask & ~mask))
                         if can_t else True)
            if can_t and can_f:
                v = True
                self._record(True, [False])
            elif can_t:
                v = True
                self._record(True, [])
            else:
                v = False
                self._record(False, [])
        var.mask = m if v else var.mask & ~mask
        return v

    def choose(self, n):
        """n-ary fork on a fresh unconstrained selector."""
        if n <= 0:
            raise Abort()
        if n == 1:
            return 0
        hit, v = self._replay()
        if not hit:
            v = 0
            self._record(0, list(range(n - 1, 0, -1)))
        return v

    def concretise_int(self, expr):
        """Fork an Int expression over all of its feasible values."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        hit, v = self._replay()
        if not hit:
            self._sync()
            vals = []
            self.solver.push()
            try:
                while True:
                    r = self.check()
                    if r == z3.unknown:
                        raise Unsupported('unknown while enumerating an index')
                    if r == z3.unsat:
                        break
                    m = self.solver.model()
                    x = m.eval(expr, model_completion=True).as_long()
                    vals.append(x)
                    self.solver.add(expr != x)
                    if len(vals) > self.max_concretise:
                        raise Unsupported('index has too many values')
            finally:
                self.solver.pop()
            if not vals:
                raise Abort()
            vals.sort()
            v = vals[0]
            self._record(v, vals[:0:-1])
        self.add(expr == v)
        return v

    def unique(self, expr):
        """The rational value of expr if the path leaves it no other."""
        expr = z3.simplify(expr)
        if z3.is_rational_value(expr) or z3.is_int_value(expr):
            return expr
        hit, v = self._replay()
        if not hit:
            self._sync()
            v = None
            if self.check() == z3.sat:
                x = self.solver.model().eval(expr, model_completion=True)
                if z3.is_rational_value(x):
                    self.solver.push()
                    try:
                        self.solver.add(expr != x)
                        if self.check() == z3.unsat:
                            v = frac_of(x)
                    finally:
                        self.solver.pop()
            self._record(v, [])
        return expr if v is None else z3.RealVal(v)

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise Abort()
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise Abort()
        self.add(expr)
        self.keep.append(expr)
        self.known[expr.get_id()] = True
        if self.pos >= len(self.prefix):
            if self.check() == z3.unsat:
                raise Abort()

    def entangle(self, *vs):
        for v in vs:
            v.entangled = True

    # -- models ----------------------------------------------------------
    def model(self, extra=(), nice=True):
        """A model of pc and extra (list of z3 exprs); None if unsat/unknown."""
        self._sync()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            self.solver.set('timeout', self.assert_timeout)
            r = self.check()
            if r != z3.sat:
                return r, None
            m = self.solver.model()
            if nice:
                m2 = self._nicer(m)
                if m2 is not None:
                    m = m2
            return z3.sat, m
        finally:
            self.solver.set('timeout', self.feas_timeout)
            self.solver.pop()

    def _nicer(self, m):
        """Try to find a model with small, exactly representable inputs."""
        nums = [p.expr for k, p in self.inputs.values()
                if k == 'num' and not isinstance(p, (int, float))]
        if not nums:
            return None
        best = None
        self.solver.set('timeout', 1500)
        for lo, hi, den in ((-100, 100, 4), (-100000, 100000, None)):
            self.solver.push()
            try:
                for i, e in enumerate(nums):
                    self.solver.add(e >= lo, e <= hi)
                    if den and e.sort() == z3.RealSort():
                        n = z3.Int('nice!%d' % i)
                        self.solver.add(e * den == z3.ToReal(n))
                if self.check() == z3.sat:
                    best = self.solver.model()
                    break
            except z3.Z3Exception:
                pass
            finally:
                self.solver.pop()
        return best


def frac_of(v):
    """Fraction (or float approximation) of a z3 model value."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('not a numeral: %r' % v)
