"""A model held as floating-point values of the inputs.

Roots, quotients, angles and logarithms introduced on a path are functions of what was there before:
their values follow from those of the inputs, so a satisfying assignment stays one when they are
introduced and the solver need not be asked again. Comparisons that are too close to tell return None.
"""
import math
from fractions import Fraction
import z3

REL = 1e-7


def from_z3(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return None


def exact(v):
    """python float of a rational value, also where numerator and denominator are huge"""
    try:
        return from_z3(v)
    except OverflowError:
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))


class Num:
    def __init__(self, eng, model=None, base=None):
        self.eng, self.m = eng, model
        self.base = dict(base or {})
        self.memo = {}

    def copy(self, eng=None):
        n = Num(eng or self.eng, self.m, self.base)
        return n

    # the interface of a z3 model, as far as it is used
    def eval(self, t, model_completion=True):
        v = self.value(t)
        if v is None:
            return t if not z3.is_const(t) else z3.RealVal(0)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v) if t.is_int() else z3.RealVal(v)
        return z3.RealVal(repr(v)) if math.isfinite(v) else z3.RealVal(0)

    def value(self, t):
        if t.get_id() in self.eng.unit_eqs:
            return True      # up to rounding: the pair was drawn as cosine and sine
        try:
            return self._v(t)
        except (RecursionError, OverflowError, ValueError, ZeroDivisionError):
            return None

    def _v(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        v = self.compute(t)
        self.memo[k] = (t, v)
        return v

    def const(self, t):
        n = t.decl().name()
        d = self.eng.defs.get(n)
        if d is not None:
            return d(self._v)
        if n in self.base:
            return self.base[n]
        if self.m is not None:
            v = exact(self.m.eval(t, model_completion=True))
            self.base[n] = v
            return v
        return None

    def compute(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t) or z3.is_algebraic_value(t):
            return exact(t)
        K = t.decl().kind()
        ch = t.children()
        if K == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.const(t)
            if t.decl().name() == "rpow":
                a, b = self._v(ch[0]), self._v(ch[1])
                return None if a is None or b is None or a <= 0 else a ** b
            return None
        if K == z3.Z3_OP_ITE:
            c = self._v(ch[0])
            return None if c is None else self._v(ch[1] if c else ch[2])
        if K == z3.Z3_OP_AND:
            r = True
            for c in ch:
                v = self._v(c)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if K == z3.Z3_OP_OR:
            r = False
            for c in ch:
                v = self._v(c)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if K == z3.Z3_OP_NOT:
            v = self._v(ch[0])
            return None if v is None else not v
        if K == z3.Z3_OP_IMPLIES:
            a, b = self._v(ch[0]), self._v(ch[1])
            if a is False or b is True:
                return True
            return None if a is None or b is None else False
        vs = [self._v(c) for c in ch]
        if any(v is None for v in vs):
            return None
        if K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if K == z3.Z3_OP_DISTINCT and len(vs) > 2:
                r = True
                for i in range(len(vs)):
                    for j in range(i):
                        e = self.eq(vs[i], vs[j])
                        if e is True:
                            return False
                        if e is None:
                            r = None
                return r
            e = self.eq(vs[0], vs[1])
            return e if K == z3.Z3_OP_EQ or e is None else not e
        if K == z3.Z3_OP_XOR:
            return vs[0] != vs[1]
        if K in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = vs
            if not (isinstance(a, int) and isinstance(b, int)):
                if abs(a - b) <= REL * max(1.0, abs(a), abs(b)):
                    if a == b == 0 and all(self.plain(c) for c in ch):
                        return K in (z3.Z3_OP_LE, z3.Z3_OP_GE)
                    return None
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[K]
        if K == z3.Z3_OP_ADD:
            r = vs[0]
            for v in vs[1:]:
                r = r + v
            return r
        if K == z3.Z3_OP_SUB:
            r = vs[0]
            for v in vs[1:]:
                r = r - v
            return r
        if K == z3.Z3_OP_MUL:
            r = vs[0]
            for v in vs[1:]:
                r = r * v
            return r
        if K == z3.Z3_OP_UMINUS:
            return -vs[0]
        if K == z3.Z3_OP_DIV:
            return None if abs(vs[1]) < 1e-12 else vs[0] / vs[1]
        if K == z3.Z3_OP_POWER:
            return vs[0] ** vs[1]
        if K == z3.Z3_OP_IDIV:
            a, b = vs
            return None if b == 0 else (a // b if b > 0 else -(a // -b))
        if K == z3.Z3_OP_MOD:
            return None if vs[1] == 0 else vs[0] % abs(vs[1])
        if K == z3.Z3_OP_TO_REAL:
            return float(vs[0]) if abs(vs[0]) < 2 ** 53 else None
        if K == z3.Z3_OP_TO_INT:
            v = vs[0]
            return None if abs(v - round(v)) < 1e-9 and v != round(v) else math.floor(v)
        return None

    def plain(self, t):
        """an input or a number, exact as it stands"""
        return z3.is_rational_value(t) or (z3.is_const(t) and t.decl().name() not in self.eng.defs)

    def eq(self, a, b):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if abs(a - b) <= REL * max(1.0, abs(a), abs(b)):
            return True if a == b else None
        return False


def search(eng, lits, start, rng, tries=80):
    """another assignment of the inputs under which all the conditions hold, or None"""
    base0 = dict(start.base) if start is not None else {}
    free = {**eng.drawn, **eng.inputs}
    names = [n for n in free if n not in eng.defs]
    for t in range(tries):
        base = {}
        for n in names:
            kind, lo, hi = free[n]
            old = base0.get(n)
            if old is not None and rng.random() < (0.6 if t % 2 else 0.25):
                base[n] = old
                continue
            if kind == "bool":
                base[n] = rng.random() < 0.5
            elif kind == "int":
                a, b = (lo if lo is not None else -100), (hi if hi is not None else 100)
                base[n] = rng.randint(a, b) if rng.random() < 0.5 else max(a, min(b, rng.randint(-4, 4)))
            else:
                a, b = (float(lo) if lo is not None else -64.0), (float(hi) if hi is not None else 64.0)
                r = rng.random()
                v = rng.uniform(a, b) if r < 0.4 else rng.gauss(0, 2) if r < 0.7 else rng.choice([0.0, 1.0, -1.0, 0.5, -2.0, 3.0, -0.25])
                base[n] = max(a, min(b, v))
        for c, s in eng.unit_inputs:
            if base.get(c) == base0.get(c) and base.get(s) == base0.get(s) and c in base0 and s in base0:
                continue
            a = rng.uniform(-math.pi, math.pi) if rng.random() < 0.8 else rng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi])
            base[c], base[s] = math.cos(a), math.sin(a)
        m = Num(eng, None, base)
        ok = True
        for e in lits:
            if m.value(e) is not True:
                ok = False
                break
        if ok:
            return m
    return None
