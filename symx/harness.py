"""The two faces of a check: symbolic (decided by z3) and real (a witness replayed on the real package).

A check is a function h(S, **params).  It builds inputs through S, calls the
code through S.gcl / S.np, and states the property with S.check & co.  The very
same function runs over proxies and, for every path's witness and every
counterexample, over the installed libraries and the real graphicle.
"""
import math
import numpy as np
from . import core, fjmodel
from .core import Skip, PathAbort


class Stop(BaseException):
    pass


def is_seq(x):
    return isinstance(x, (list, tuple))


class Base:
    sym = False

    def fail_text(self, msg):
        return str(msg)

    # ---- deep comparison, shared
    def same(self, a, b, msg="", tol=None):
        """a equals b: shapes, lengths and every element (floats as numbers, see close)"""
        self.check(self.eqv(a, b), msg)

    def eqv(self, a, b):
        a, b = self.plain(a), self.plain(b)
        return self._eq(a, b)

    def _eq(self, a, b):
        if is_seq(a) or is_seq(b):
            if not (is_seq(a) and is_seq(b)) or len(a) != len(b):
                return False
            return self.all([self._eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
                return False
            return self.all([self._eq(a[k], b[k]) for k in a])
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a is b or (type(a) is type(b) and a == b)
        return self.scalar_eq(a, b)

    def plain(self, x):
        """arrays and wrappers -> nested lists of scalars"""
        if x is None or isinstance(x, (str, bytes)):
            return x
        if isinstance(x, dict):
            return {k: self.plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, range)):
            return [self.plain(v) for v in x]
        if self.is_scalar(x):
            return x
        if self.is_array(x):
            v = x.tolist()
            return self.plain(v) if is_seq(v) else v
        for at in ("_data", "data"):
            v = getattr(x, at, None)
            if v is not None and self.is_array(v):
                return self.plain(v)
        v = x
        if hasattr(type(x), "__array__"):
            return self.plain(self.np.asarray(x))
        return v

    lst = plain

    def raises(self, kinds, f, msg=""):
        """f() raises one of kinds"""
        try:
            f()
        except Exception as ex:
            if self.modelgap(ex):
                raise
            self.check(isinstance(ex, kinds), msg or "raises %s" % (kinds,))
            return ex
        self.check(False, msg or "raises %s" % (kinds,))
        return None

    def outcome(self, f):
        """('ok', value) or ('raised', exception)"""
        try:
            return "ok", f()
        except Exception as ex:
            if self.modelgap(ex):
                raise
            return "raised", ex

    # ---- input shorthands
    def bools(self, name, n):
        return [self.bool("%s%d" % (name, i)) for i in range(n)]

    def ints(self, name, n, lo, hi, dtype=None):
        return [self.int("%s%d" % (name, i), lo, hi, dtype) for i in range(n)]

    def floats(self, name, n, lo=-64, hi=64):
        return [self.float("%s%d" % (name, i), lo, hi) for i in range(n)]

    def arr(self, vals, dtype):
        return self.np.array(vals, dtype=dtype)

    def mask(self, name, n):
        return self.gcl.MaskArray(self.arr(self.bools(name, n), "<?"))

    def cover(self, what):
        self.covered.add(what)

    def hashes_like(self, vals):
        """the code under test puts these integers in sets or dictionaries next to symbolic ones"""


class Sym(Base):
    sym = True

    def __init__(self, eng, gcl, np_, params):
        self.e, self.gcl, self.np, self.params = eng, gcl, np_, params
        self.inputs = []       # (name, kind, terms)
        self.names = set()
        self.fails = []        # candidates
        self.n_checks = self.n_proved = self.n_unknown = self.n_trivial = 0
        self.covered = set()
        self.calls = set()

    def modelgap(self, ex):
        from . import nd
        return isinstance(ex, nd.Unsupported)

    def _declare(self, name, kind, *terms, rng=(None, None)):
        if name in self.names:
            raise AssertionError("duplicate input " + name)
        self.names.add(name)
        self.inputs.append((name, kind, terms))
        for t in terms:
            self.e.inputs[t.decl().name()] = ({"bool": "bool", "int": "int"}.get(kind, "float"), *rng)

    def bool(self, name):
        import z3
        v = z3.Bool(name)
        self._declare(name, "bool", v)
        return core.SymBool(v)

    def int(self, name, lo, hi, dtype=None):
        import z3
        v = z3.Int(name)
        self._declare(name, "int", v, rng=(lo, hi))
        self.e.assume(z3.And(v >= lo, v <= hi))
        return core.SymInt(v, lo, hi)      # a Python int: the dtype comes with the array it is put in

    def float(self, name, lo=-64, hi=64):
        import z3
        v = z3.Real(name)
        self._declare(name, "float", v, rng=(lo, hi))
        if lo is not None:
            self.e.assume(v >= core.zr(float(lo)) if not isinstance(lo, int) else v >= lo)
        if hi is not None:
            self.e.assume(v <= core.zr(float(hi)) if not isinstance(hi, int) else v <= hi)
        if lo is not None and lo >= 0:
            self.e.ring.nonneg.add(self.e.ring.atom(v))
        return core.SymFloat(v)

    def angle(self, name):
        """any angle in (-pi, pi]"""
        import z3
        c, s = z3.Real(name + ".c"), z3.Real(name + ".s")
        self._declare(name, "angle", c, s)
        self.e.unit_circle(c, s)
        core._mark_unit(c, s)
        A = core.principal(c, s, name)
        return core.SymFloat(A.a, None, {A: core.Fraction(1)})

    def turn(self, c, s, r):
        """the angle with cosine c/r and sine s/r"""
        import z3
        assert c * c + s * s == r * r
        A = core.principal(z3.RealVal(core.Fraction(c, r)), z3.RealVal(core.Fraction(s, r)), "turn")
        return core.SymFloat(A.a, None, {A: core.Fraction(1)})

    def compare_angles(self):
        """cosine falls with the size of an angle: told to the solver for all pairs of angles met so far"""
        import z3
        sz = lambda a: z3.If(a >= 0, a, -a)
        known = self.e.angles
        for i, A in enumerate(known):
            for B in known[:i]:
                self.e.define((sz(A.a) < sz(B.a)) == (A.c > B.c))

    def logvar(self, name, lo=None, hi=None):
        """any real, known as the logarithm of a positive number (a rapidity)"""
        import z3
        x = z3.Real(name + ".x")
        self._declare(name, "log", x, rng=(lo or 0.05, hi or 20))
        self.e.assume(x > 0)
        self.e.ring.nonneg.add(self.e.ring.atom(x))
        if hi is not None:
            self.e.assume(x <= hi)
        if lo is not None:
            self.e.assume(x >= lo)
        L = core.log_base(x)
        return core.SymFloat(L.l, None, None, {L: core.Fraction(1)})

    def choose(self, name, options):
        import z3
        options = list(options)
        v = z3.Int(name)
        self._declare(name, "int", v, rng=(0, len(options) - 1))
        self.e.assume(z3.And(v >= 0, v < len(options)))
        return options[self.e.pick_int(v)]

    def hashes_like(self, vals):
        for v in list(vals) + (core.CODE_INTS if not vals else []):
            if type(v) is int and v not in self.e.universe:
                self.e.universe.append(v)

    # ---- scalars
    def is_scalar(self, x):
        return isinstance(x, core.Sym) or core.concrete_kind(x) is not None

    def is_array(self, x):
        from . import nd
        return isinstance(x, (nd.SymArray, np.ndarray))

    def scalar_eq(self, a, b):
        from . import nd
        if core.special(a) or core.special(b):
            if core.special(a) and core.special(b):
                return (a != a and b != b) or a == b
            return False
        return core.compare("eq", a, b)

    def all(self, xs):
        return core.mkb(core.And(*[core.zb(x) for x in xs]))

    def any(self, xs):
        return core.mkb(core.Or(*[core.zb(x) for x in xs]))

    def Not(self, x):
        return core.mkb(core.Not(core.zb(x)))

    def implies(self, a, b):
        return core.mkb(core.Or(core.Not(core.zb(a)), core.zb(b)))

    def iff(self, a, b):
        import z3
        return core.mkb(z3.simplify(core.zb(a) == core.zb(b)))

    def ite(self, c, a, b):
        return core.ite(core.zb(c), a, b)

    def eq(self, a, b):
        return core.compare("eq", a, b)

    def isum(self, xs):
        """integer sum of booleans/integers"""
        r = 0
        for x in xs:
            r = core.arith("add", r, core.SymInt(core.zi(x)) if isinstance(x, core.SymBool) else (int(x) if not isinstance(x, core.Sym) else x))
        return r

    def truth(self, x):
        """decide (fork)"""
        return bool(x)

    def pick(self, x):
        """fork over the values of an integer"""
        return self.e.pick_int(x.e) if isinstance(x, (core.SymInt,)) else int(x)

    def assume(self, c):
        z = core.zb(c)
        import z3
        z = z3.simplify(z)
        if z3.is_false(z):
            raise Skip()
        self.e.assume(z)
        if self.e.model is None and self.e.num is None and self.e.pos >= self.e.nreplay:
            self.e.need_model()

    # ---- assertions
    def check(self, cond, msg=""):
        import z3
        from . import nd
        self.n_checks += 1
        if isinstance(cond, nd.SymArray):
            cond = core.mkb(core.And(*[core.zb(x) for x in cond._elems().ravel()]))
        z = core.zb(cond)
        if self.e.pos < self.e.nreplay:
            self.n_checks -= 1
            self.e.add(z)       # settled on the path this one branched from
            return True
        neg = z3.simplify(core.Not(z))
        if z3.is_false(neg):
            self.n_proved += 1
            self.n_trivial += 1
            return True
        r = self.e.query(neg, timeout=self.e.check_timeout)
        if r == z3.unsat:
            self.n_proved += 1
            return True
        if r == z3.unknown:
            m = self._search(neg)
            if m is None:
                self.n_unknown += 1
                return None
        else:
            m = self.e.last.model()
        self._candidate(msg, m)
        if z3.is_false(z3.simplify(z)) or self.e.query(z) == z3.unsat:
            raise Stop()
        self.e.assume(z)
        return False

    def close(self, a, b, msg="", tol=1e-6):
        """equal real numbers (identical NaN/inf)"""
        a, b = self.plain(a), self.plain(b)
        if is_seq(a) or is_seq(b):
            if not (is_seq(a) and is_seq(b)) or len(a) != len(b):
                return self.check(False, msg + ": lengths differ")
            for x, y in zip(a, b):
                self.close(x, y, msg, tol)
            return
        if core.special(a) or core.special(b):
            return self.check(self.scalar_eq(a, b), msg)
        import z3
        if core.kind(a) == "c" or core.kind(b) == "c":
            a, b = core.to_c(a), core.to_c(b)
            self.close(a.re, b.re, msg, tol)
            return self.close(a.im, b.im, msg, tol)
        self.n_checks += 1
        ca = core.compare("eq", a, b)
        if self.e.pos < self.e.nreplay and isinstance(ca, core.Sym):
            self.n_checks -= 1
            self.e.add(ca.e)
            return True
        if not isinstance(ca, core.Sym):
            if ca or (not isinstance(a, core.Sym) and not isinstance(b, core.Sym) and math.isclose(a, b, rel_tol=tol, abs_tol=tol)):
                self.n_proved += 1
                self.n_trivial += 1
                return True
            self.n_checks -= 1
            return self.check(False, msg)
        neg = z3.simplify(core.Not(ca.e))
        if z3.is_false(neg):
            self.n_proved += 1
            self.n_trivial += 1
            return True
        if self.e.ring.is_zero(core.zr(a) - core.zr(b)):
            self.n_proved += 1     # equal modulo the equations of roots, quotients and angles
            self.n_normal = getattr(self, "n_normal", 0) + 1
            return True
        if self.e.ring.negligible(core.zr(a) - core.zr(b), 1e-7):
            self.n_proved += 1     # the constants of code and check differ by their rounding
            self.n_normal = getattr(self, "n_normal", 0) + 1
            return True
        r = self.e.query(neg, timeout=self.e.check_timeout)
        if r == z3.unsat:
            self.n_proved += 1
            return True
        # a witness beyond any rounding
        d = core.zr(a) - core.zr(b)
        g = z3.RealVal("1/100")
        r2 = self.e.query(z3.Or(d > g, d < -g), timeout=self.e.check_timeout)
        if r2 == z3.sat:
            self._candidate(msg, self.e.last.model())
        elif r2 == z3.unsat and r == z3.sat:
            self.n_proved += 1      # equal within 1/100 for all values, not exactly: constants of the code are rounded
            self.note("equality shown within 0.01 only")
            return True
        elif r == z3.sat:
            m = self.e.query(neg)
            if m == z3.sat:
                self._candidate(msg, self.e.last.model())
            else:
                self.n_unknown += 1
                return None
        else:
            m = self._search(z3.Or(d > g, d < -g))
            if m is None:
                self.n_unknown += 1
                return None
            self._candidate(msg, m)
        if self.e.query(ca.e) == z3.unsat:
            raise Stop()
        self.e.assume(ca.e)
        return False

    def _search(self, goal):
        """the solver gave no answer: try to refute the assertion by assigning values"""
        from . import num
        return num.search(self.e, self.e.lits + [goal], self.e.num, self.e.rng, 150)

    def note(self, s):
        self.e.degrade(s)

    def gap(self, a, b, g=1e-3):
        """keep away from a tie that rounding could break either way"""
        if core.special(a) or core.special(b) or not (isinstance(a, core.Sym) or isinstance(b, core.Sym)):
            return
        import z3
        d = core.zr(a) - core.zr(b)
        q = core.zr(float(g))
        self.assume(core.mkb(z3.Or(d > q, d < -q)))

    def _candidate(self, msg, m):
        self.fails.append({"msg": str(msg), "witness": self.witness(m), "draws": self.draws(m)})

    def witness(self, m):
        import z3
        out = {}
        for name, kind, terms in self.inputs:
            vs = [m.eval(t, model_completion=True) for t in terms]
            if kind == "bool":
                out[name] = bool(z3.is_true(vs[0]))
            elif kind == "int":
                out[name] = vs[0].as_long()
            elif kind == "float":
                out[name] = core.z3_to_float(vs[0])
            elif kind == "angle":
                out[name] = math.atan2(core.z3_to_float(vs[1]), core.z3_to_float(vs[0]))
            elif kind == "log":
                out[name] = math.log(max(core.z3_to_float(vs[0]), 1e-300))
        return out

    def draws(self, m):
        out = []
        for d in self.e.rng_draws:
            v = m.eval(d[1], model_completion=True)
            out.append(v.as_long() if d[0] == "integers" else core.z3_to_float(v))
        return out

    def variates(self):
        """the random numbers drawn so far: (kind, value, low, high)"""
        return [(d[0], d[4], d[2], d[3]) for d in self.e.rng_draws]

    # threads, schedules and minimisers
    def threads(self, n=None):
        """the thread setting of the parallel kernels; sets it if given"""
        from . import shims
        nb = shims.module("numba")
        if n is not None:
            nb.set_num_threads(n)
        return nb.get_num_threads()

    def schedule(self, order, f):
        """f() with the iterations of every parallel loop run in the order of these ranks"""
        old, self.e.par_order = self.e.par_order, list(order)
        try:
            return f()
        finally:
            self.e.par_order = old

    def conflicts(self, f):
        """number of elements which two iterations of a parallel loop touch, one of them writing; (number, f())"""
        old, self.e.races = self.e.races, []
        try:
            r = f()
            return sum(n for n, _ in self.e.races), r
        finally:
            self.e.races = old

    def optimise_at(self, xs):
        """minimisers return this point, and are recorded"""
        self.e.opt_inputs = list(xs)
        self.e.minimize_calls = []
        return self.e.minimize_calls

    def jets_found(self, jets):
        """FastJet finds these [(px, py, pz, E, [constituents])], and records what it was asked"""
        self.e.jets_found = fjmodel.Found(jets)
        return self.e.jets_found

    def tables(self):
        """the tables handed to tabulate from here on"""
        self.e.tables = []
        return self.e.tables

    def proves(self, cond):
        """is the condition true for all values on this path (no assertion)"""
        import z3
        neg = z3.simplify(core.Not(core.zb(cond)))
        return bool(z3.is_false(neg)) or self.e.query(neg) == z3.unsat

    def identical(self, a, b):
        """do two numbers have the same normal form, so that they are equal on this path (no assertion)"""
        c = core.compare("eq", a, b)
        if not isinstance(c, core.Sym):
            return bool(c)
        return self.e.ring.is_zero(core.zr(a) - core.zr(b))

    def normal(self, x):
        """the same number, simplified by the equations of roots, quotients and angles"""
        if not isinstance(x, core.Sym):
            return x
        nf = self.e.ring.of(core.zr(x))
        if nf is None:
            return x
        t = self.e.ring.term(nf[0])
        if nf[1] != {(): 1}:
            t = core.quotient(t, self.e.ring.term(nf[1]))
        return core.mkf(t)

    # ---- arithmetic helpers usable in both modes
    def square(self, r):
        """r * r, simplified by the equations of roots and quotients; the equation is told to the solver"""
        if not isinstance(r, core.Sym):
            return r * r
        e = core.zr(r)
        nf = self.e.ring.of(e * e)
        if nf is None:
            return r * r
        t = self.e.ring.term(nf[0])
        if nf[1] != {(): 1}:
            t = core.quotient(t, self.e.ring.term(nf[1]))
        self.e.add(e * e == t)
        return core.mkf(t)

    def sqrt(self, x):
        return core.fsqrt(x, None) if isinstance(x, core.Sym) else math.sqrt(x)

    def hypot(self, x, y):
        return core.hypot(x, y)

    def cos(self, x):
        return core.cos_sin(x)[0]

    def sin(self, x):
        return core.cos_sin(x)[1]

    def exp(self, x):
        return core.mkf(core.fexp(x))

    def log(self, x):
        return core.flog(x)

    def atan2(self, y, x):
        return core.arg(x, y)

    def abs(self, x):
        if isinstance(x, core.SymFloat):
            import z3
            return core.SymFloat(z3.If(x.e < 0, -x.e, x.e))
        return abs(x)

    @property
    def pi(self):
        return core.pi_float()

    def isnan(self, x):
        return core.special(x) and x != x


class Real(Base):
    sym = False

    def __init__(self, gcl, witness, draws, params):
        self.gcl, self.np, self.params = gcl, np, params
        self.w = witness
        self.draw_stream = list(draws or [])
        self.draw_log, self.seed_streams, self.draw_seeds = [], {}, []
        self.fails = []
        self.n_checks = 0
        self.covered = set()
        self.opt = None

    def modelgap(self, ex):
        return False

    def _get(self, name):
        if name not in self.w:
            # an input the symbolic run had not reached: any value of its kind
            self.w[name] = None
        return self.w[name]

    def bool(self, name):
        return bool(self._get(name))

    def int(self, name, lo, hi, dtype=None):
        v = self._get(name)
        v = (lo if lo > 0 else (0 if hi >= 0 else hi)) if v is None else int(v)
        return v

    def float(self, name, lo=-64, hi=64):
        v = self._get(name)
        if v is None:
            v = 1.0 if (lo is None or lo <= 1) and (hi is None or hi >= 1) else float(lo if lo is not None else hi)
        return float(v)

    def angle(self, name):
        v = self._get(name)
        return 0.5 if v is None else float(v)

    def turn(self, c, s, r):
        return math.atan2(s, c)

    def logvar(self, name, lo=None, hi=None):
        v = self._get(name)
        return 0.25 if v is None else float(v)

    def choose(self, name, options):
        options = list(options)
        v = self._get(name)
        return options[0 if v is None else int(v)]

    def is_scalar(self, x):
        return core.concrete_kind(x) is not None

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def scalar_eq(self, a, b):
        if core.concrete_kind(a) in "fc" or core.concrete_kind(b) in "fc":
            if a != a or b != b:
                return a != a and b != b
            return a == b or (abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)))
        return bool(a == b)

    def all(self, xs):
        return all(bool(x) for x in xs)

    def any(self, xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return bool(a == b)

    def isum(self, xs):
        return sum(int(x) for x in xs)

    def truth(self, x):
        return bool(x)

    def pick(self, x):
        return int(x)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, cond, msg=""):
        self.n_checks += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            self.fails.append(str(msg))
            raise Stop()
        return True

    def close(self, a, b, msg="", tol=1e-6):
        a, b = self.plain(a), self.plain(b)
        if is_seq(a) or is_seq(b):
            if not (is_seq(a) and is_seq(b)) or len(a) != len(b):
                return self.check(False, msg + ": lengths differ")
            for x, y in zip(a, b):
                self.close(x, y, msg, tol)
            return
        ok = (a != a and b != b) or a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return self.check(ok, "%s (%r against %r)" % (msg, a, b))

    def threads(self, n=None):
        import numba
        if n is not None:
            numba.set_num_threads(n)
        return numba.get_num_threads()

    def schedule(self, order, f):
        from . import replayd
        with replayd.schedule(self.gcl, list(order)):
            return f()

    def conflicts(self, f):
        from . import replayd
        with replayd.schedule(self.gcl, [0], log=True) as log:
            r = f()
        return log.conflicts(), r

    def optimise_at(self, xs):
        self.opt = dict(x=[float(x) for x in xs], calls=[])
        return self.opt["calls"]

    def jets_found(self, jets):
        self.jets = fjmodel.Found([tuple(float(x) for x in j[:4]) + ([int(x) for x in j[4]],) for j in jets])
        return self.jets

    def tables(self):
        self.tabulated = []
        return self.tabulated

    def note(self, s):
        pass

    def compare_angles(self):
        pass

    def normal(self, x):
        return x

    def variates(self):
        return list(self.draw_log)

    def proves(self, cond):
        return bool(cond)

    def identical(self, a, b):
        return bool(abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)))

    def gap(self, a, b, g=1e-3):
        if a == a and b == b and not math.isinf(a) and not math.isinf(b) and abs(a - b) < g / 2:
            raise Skip()

    sqrt = staticmethod(math.sqrt)
    hypot = staticmethod(math.hypot)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    exp = staticmethod(math.exp)
    atan2 = staticmethod(math.atan2)
    pi = math.pi

    def square(self, r):
        return r * r

    def log(self, x):
        with np.errstate(all="ignore"):
            return float(np.log(x))

    def abs(self, x):
        return abs(x)

    def isnan(self, x):
        return x != x
