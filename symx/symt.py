"""Symbolic implementation of the harness interface."""
import math
from decimal import Decimal
from fractions import Fraction

import z3

from . import core
from .api import Base, _isnum, decimal_text
from .core import (Abort, CharVar, FULL, Unsupported, Violation, frac_of,
                   mask_chars)
from .values import (num, And, DigitRun, Not, NumTok, Or, SymBool, SymChar, SymNum,
                     SymStr, _real, is_num, is_sym, mk, num, number_text,
                     sbool, zb, zn)


class Inconclusive(BaseException):
    pass


class SymT(Base):
    symbolic = True

    def __init__(self, c, tier='quick', findings=()):
        super().__init__()
        self.c = c
        self.tier = tier
        self.findings = set(findings)
        self.inconclusive = []
        self.used_findings = set()

    def opaque_trig(self):
        self.c.opaque_trig = True

    def integrals(self):
        """(value, lower limit, upper limit, integrand) of every integral
        asked for so far."""
        return list(self.c.integrals)

    def squared(self, fn, *a):
        """The square of the value of fn, without asking whether the
        argument of a square root is negative."""
        self.c.raw_sqrt = True
        try:
            v = fn(*a)
        finally:
            self.c.raw_sqrt = False
        if isinstance(v, SymNum):
            e = self.c.radicands.get(v.expr.get_id())
            if e is not None:
                return num(e, 'float')
        return v * v

    # -- inputs -----------------------------------------------------------
    def _reg(self, name, kind, p):
        if name in self.c.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.c.inputs[name] = (kind, p)
        return p

    def real(self, name, lo=None, hi=None, kind='float'):
        v = z3.Real(name)
        p = self._reg(name, 'num', SymNum(v, kind))
        if lo is not None:
            self.c.add(v >= zn(lo))
        if hi is not None:
            self.c.add(v <= zn(hi))
        return p

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        p = self._reg(name, 'num', SymNum(v, 'int'))
        if lo is not None:
            self.c.add(v >= lo)
        if hi is not None:
            self.c.add(v <= hi)
        return p

    def decimal(self, name, ints=2, frac=1, signed=True, kind='float'):
        """A decimal number with at most `ints` integer and `frac`
        fractional digits."""
        n = z3.Int(name + '.n')
        m = 10 ** (ints + frac)
        self.c.add(n < m, ) if False else self.c.add(z3.And(n < m, n > -m
                                                            if signed
                                                            else n >= 0))
        e = z3.ToReal(n) * z3.RealVal(Fraction(1, 10 ** frac))
        return self._reg(name, 'num', SymNum(e, kind))

    def angle(self, name, kind='float'):
        v = z3.Real(name)
        return self._reg(name, 'angle', SymNum(v, kind))

    def text(self, name, n, alphabet=None):
        """A string of exactly n characters over the alphabet; characters
        beyond ASCII stand on codes the alphabet does not use."""
        m = FULL if alphabet is None else mask_chars(alphabet)
        fmap = None
        extra = [c for c in alphabet or () if ord(c) >= 128]
        if extra:
            fmap = [chr(i) for i in range(128)]
            free = (i for i in range(127, 0, -1) if not m >> i & 1)
            for c, i in list(zip(extra, free)):
                fmap[i] = c
                m |= 1 << i
            fmap = tuple(fmap)
        els = []
        for i in range(n):
            v = CharVar('%s[%d]' % (name, i), m)
            self.c.chars.append(v)
            els.append(SymChar(v, fmap))
        p = mk(els)
        return self._reg(name, 'str', p)

    def number(self, name, lo=None, hi=None):
        """A number and a text for it: digits, a point and digits."""
        v = self.real(name, lo, hi)
        neg = not (lo is not None and lo >= 0) and bool(v < 0)
        return number_text(-v if neg else v, neg), v

    def choice(self, name, options):
        i = self.c.choose(len(options))
        self._reg(name, 'choice', i)
        return options[i]

    def bool(self, name):
        i = self.c.choose(2)
        self._reg(name, 'choice', i)
        return bool(i)

    # -- constraints --------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, SymBool):
            if cond.unary is not None:
                for v, m in cond.unary:
                    v.mask &= m
                    if v.mask == 0:
                        raise Abort()
                return
            self.c.assume(cond.z())
        elif not cond:
            raise Abort()

    def excluding(self, kf, cond):
        if kf in self.findings:
            self.used_findings.add(kf)
            if isinstance(cond, SymBool):
                self.c.assume(z3.Not(cond.z()))
            elif cond:
                raise Abort()

    def observe(self, name, value):
        self.obs.append((name, value))

    # -- assertions -----------------------------------------------------------
    def check(self, cond, label, detail=None):
        self.reached.add(label)
        st = self.c.stats
        st.checks += 1
        if isinstance(cond, SymBool):
            cond = sbool(cond.z())
        elif not isinstance(cond, bool):
            cond = bool(cond)
        if cond is True:
            st.trivial_checks += 1
            return
        neg = [] if cond is False else [z3.Not(cond.z())]
        self._query(neg, label, detail, cond)

    def _query(self, neg, label, detail, cond, margin=None):
        st = self.c.stats
        st.assert_queries += 1
        r, m = self.c.model(neg, nice=False)
        if r == z3.unknown:
            r, m = self._retry(neg)
        if r == z3.unsat:
            if cond is False:
                raise Abort()          # the path itself is infeasible
            self.c.add(cond.z())
            return
        if r == z3.unknown:
            st.unknown_assert += 1
            self.inconclusive.append(label)
            raise Inconclusive(label)
        # look for a witness that is easy to reproduce in floating point
        for extra in ([margin] if margin is not None else []) + [None]:
            es = neg + ([extra] if extra is not None else [])
            r2, m2 = self.c.model(es, nice=True)
            if r2 == z3.sat:
                m = m2
                break
        raise Violation(label, detail or '', self.inputs_of(m))

    def _retry(self, neg):
        """One-shot solvers for nonlinear goals the incremental core left
        open."""
        self.c._sync()
        goals = list(self.c.solver.assertions()) + list(neg)
        import time
        for build in (lambda: z3.SolverFor('QF_NRA'),
                      lambda: z3.Then('simplify', 'purify-arith',
                                      'propagate-values', 'solve-eqs',
                                      'qfnra-nlsat').solver(),
                      lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            s = build()
            s.set('timeout', self.c.assert_timeout)
            s.add(*goals)
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.c.stats.queries += 1
            self.c.stats.solver_s += time.time() - t
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        return z3.unknown, None

    def eq(self, a, b, label):
        self.reached.add(label)
        self.obs.append((label, a))
        st = self.c.stats
        st.checks += 1
        diffs = []
        conds = []
        bad = self._eq(a, b, conds, diffs)
        if bad:
            self._query([], label, bad, False)
            return
        conds = [c for c in conds if c is not True]
        if any(c is False for c in conds):
            self._query([], label, 'values differ', False)
            return
        if not conds:
            st.trivial_checks += 1
            return
        # one query per component keeps nonlinear goals small
        for c in conds:
            d = diffs.pop(0) if False else None
            margin = None
            e = c.z()
            if e.decl().kind() == z3.Z3_OP_EQ and e.arg(0).sort() in (
                    z3.RealSort(), z3.IntSort()):
                x, y = e.arg(0), e.arg(1)
                margin = z3.Or(x - y > z3.RealVal('1/10'),
                               y - x > z3.RealVal('1/10'))
            self._query([z3.Not(e)], label, 'values differ', c, margin)

    def _eq(self, a, b, conds, diffs):
        if type(a).__module__ == 'numpy' and getattr(a, 'ndim', 0) > 0:
            a = a.tolist()
        if type(b).__module__ == 'numpy' and getattr(b, 'ndim', 0) > 0:
            b = b.tolist()
        if isinstance(a, bool) or isinstance(b, bool) or \
                isinstance(a, SymBool) or isinstance(b, SymBool):
            if not isinstance(a, (bool, SymBool)) or \
                    not isinstance(b, (bool, SymBool)):
                return 'types differ: %s / %s' % (type(a), type(b))
            conds.append(sbool(zb(a) == zb(b)))
            return None
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                x, y = float(a), float(b)
                if x == y or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)):
                    return None
                return '%r != %r' % (x, y)
            x, y = _real(zn(a)), _real(zn(b))
            d = z3.simplify(x - y, som=True)
            if z3.is_rational_value(d):
                if frac_of(d) == 0:
                    return None
                # constants coming from decimal float literals
                if abs(frac_of(d)) < Fraction(1, 10 ** 12):
                    return None
                return 'differs by %s' % frac_of(d)
            conds.append(SymBool(x == y))
            return None
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            r = a == b
            if r is False:
                return 'texts differ'
            if r is not True:
                conds.append(r)
            return None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return 'length %d != %d' % (len(a), len(b))
            for x, y in zip(a, b):
                r = self._eq(x, y, conds, diffs)
                if r:
                    return r
            return None
        if isinstance(a, dict) and isinstance(b, dict):
            from . import hooks
            if len(a) != len(b):
                return 'number of keys differs'
            for k, v in hooks.d_items(a):
                if hooks.find_key(b, k) is hooks._MISS:
                    return 'key missing'
                r = self._eq(v, hooks.d_getitem(b, k), conds, diffs)
                if r:
                    return r
            return None
        if a is b:
            return None
        r = a == b
        if isinstance(r, SymBool):
            conds.append(r)
            return None
        return None if r else 'values differ: %r / %r' % (a, b)

    def le(self, a, b, label):
        self.check(a <= b, label)

    def near(self, a, b):
        conds = []
        if self._eq(a, b, conds, []):
            return False
        return And(*conds) if conds else True

    def And(self, *xs):
        return And(*xs)

    def Or(self, *xs):
        return Or(*xs)

    def Not(self, x):
        return Not(x)

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            x, y = zn(a), zn(b)
            if x.sort() != y.sort():
                x, y = _real(x), _real(y)
            from .values import kind_of
            return num(z3.If(c.z(), x, y), kind_of(a))
        return a if c else b

    # -- models ---------------------------------------------------------------
    def inputs_of(self, m):
        out = {}
        for name, (kind, p) in self.c.inputs.items():
            if kind == 'num':
                v = m.eval(p.expr, model_completion=True)
                out[name] = str(frac_of(v))
            elif kind == 'angle':
                out[name] = repr(self._angle(m, p))
            elif kind == 'choice':
                out[name] = str(p)
            else:
                out[name] = self.str_of(m, p)
        return out

    def _angle(self, m, p):
        e = z3.simplify(_real(p.expr), som=True)
        f = math.pi / 180
        from .values import PI
        rad = z3.simplify(e * z3.RealVal(PI / 180), som=True)
        direct = float(frac_of(m.eval(e, model_completion=True)))
        t = self.c.trig.get(rad.get_id())
        if t is None:
            return direct
        s = float(frac_of(m.eval(t[0], model_completion=True)))
        k = float(frac_of(m.eval(t[1], model_completion=True)))
        a = math.degrees(math.atan2(s, k))
        a = round(a, 12)
        # keep the turn number of the solver's value
        turns = round((direct - a) / 360)
        turns = max(-3, min(3, turns))
        return a + 360 * turns

    def str_of(self, m, p):
        if isinstance(p, str):
            return p
        out = []
        for e in p.els:
            if isinstance(e, str):
                out.append(e)
            elif isinstance(e, NumTok):
                out.append('<num>')
            elif isinstance(e, DigitRun):
                v = frac_of(m.eval(zn(e.n), model_completion=True))
                out.append(decimal_text(float(v)).split('.')[e.part])
            else:
                code = m.eval(e.var.z, model_completion=True).as_long()
                if not (0 <= code < 128 and e.var.mask >> code & 1):
                    # unconstrained completion: any allowed code
                    mk_ = e.var.mask
                    code = (mk_ & -mk_).bit_length() - 1
                out.append(chr(code) if e.fmap is None else e.fmap[code])
        return ''.join(out)

    def eval_obs(self, m):
        return [(n, self._ev(m, v)) for n, v in self.obs]

    def _ev(self, m, v):
        from .hooks import unbox
        if type(v).__module__ == 'numpy' and getattr(v, 'ndim', 0) > 0:
            v = v.tolist()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.z(), model_completion=True))
        if isinstance(v, SymNum):
            e = v.expr
            sub = [(p.expr, z3.RealVal(Fraction(self._angle(m, p))))
                   for k, p in self.c.inputs.values() if k == 'angle']
            if sub:
                e = z3.substitute(e, *sub)
            return float(frac_of(m.eval(e, model_completion=True)))
        if isinstance(v, SymStr):
            return self.str_of(m, v)
        if isinstance(v, bool) or v is None:
            return v
        if _isnum(v):
            return float(v)
        if isinstance(v, str):
            return v
        if isinstance(v, (list, tuple)):
            return [self._ev(m, x) for x in v]
        if isinstance(v, dict):
            return [[self._ev(m, unbox(k)), self._ev(m, x)]
                    for k, x in v.items()]
        return type(v).__name__
