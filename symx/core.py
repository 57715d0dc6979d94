"""Symbolic execution core: path engine, and symbolic scalars (bool/int/real/complex).

Paths are explored by re-execution: a path is the list of outcomes of its
decisions.  Every decision is put to z3; a branch is followed only if the path
condition together with it is satisfiable (an `unknown` counts as feasible).
"""
import sys, time, math, numbers, random
from fractions import Fraction
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
import numpy as np

NAN, INF = float("nan"), float("inf")
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


from .ring import Ring, TooBig, ONE
from . import num as nummod
from .num import Num


class PathAbort(BaseException):
    """the current path is over (infeasible, or out of budget)"""


class Skip(BaseException):
    """an assumption of the harness does not hold on this run"""


CODE_INTS = []


NOVARS = frozenset()


def _real(e):
    """does a formula compare real numbers"""
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        for c in t.children():
            k = c.sort_kind()
            if k == z3.Z3_REAL_SORT:
                return True
            if k == z3.Z3_BOOL_SORT:
                todo.append(c)
    return False


class Engine:
    def __init__(self, seed=1, timeout_ms=5000, max_decisions=4000, deadline=None):
        self.seed, self.timeout_ms = seed, timeout_ms
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.rng = random.Random(seed)
        self.n_queries = 0
        self.solver_s = 0.0
        self.n_unknown = 0
        self.n_decisions = 0
        self.n_paths = 0
        self.work = [((), None)]
        self.solver = None
        self.active = False

    # -- exploration
    def start(self, item):
        self.prefix, self.model = item
        if isinstance(self.model, Num):
            self.model = self.model.copy(self)
        self.trace = []
        self.pos = 0
        self.nreplay = len(self.prefix)
        self.unit_known = set()
        self.ring = Ring()
        self.num = None
        self.defs = {}
        self.inputs = {}
        self.unit_inputs, self.unit_eqs, self.drawn = [], {}, {}
        self.lits = []
        self.solver = z3.SolverFor("QF_NRA") if getattr(self, "nra", False) else z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.known = {}
        self.added, self.added_vars, self.var_memo, self.deps = [], [], {}, {}
        self.keep = []
        self.counter = {}
        self.cache = {}
        self.degraded = []
        self.uncertain = False
        self.dead = False
        self.angles = []
        self.logs = []
        self.hashes = []
        self.universe = []
        self.numba = 0
        self.par = None
        self.rng_draws = []
        self.rng_seeds = []
        self.seed_streams = {}
        self.races = []
        self.par_loops = 0
        self.nb_threads = 8
        self.in_parallel = False
        self.minimize_calls = []
        self.opt_inputs = None
        self.jets_found = None
        self.tables = None
        self.par_order = None
        self.hard = False
        self.n_paths += 1
        self.active = True

    def finish(self):
        self.active = False

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def add(self, e):
        self.solver.add(e)
        self.added.append(e)

    # the part of the path condition that can matter for a query: assertions over the variables of the
    # query and those they were defined from.  Unsatisfiable together with that part means unsatisfiable.
    def vars_of(self, e):
        """names of the variables of a term"""
        todo, memo = [e], self.var_memo
        while todo:
            t = todo[-1]
            k = t.get_id()
            if k in memo:
                todo.pop()
                continue
            ch = t.children()
            if not ch:
                memo[k] = frozenset([t.decl().name()]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else NOVARS
                self.keep.append(t)
                todo.pop()
                continue
            left = [c for c in ch if c.get_id() not in memo]
            if left:
                todo.extend(left)
                continue
            memo[k] = frozenset().union(*[memo[c.get_id()] for c in ch])
            self.keep.append(t)
            todo.pop()
        return memo[e.get_id()]

    def slice(self, e):
        for a in self.added[len(self.added_vars):]:
            if not z3.is_expr(a):
                a = z3.BoolVal(bool(a))
            vs = self.vars_of(a)
            self.added_vars.append(vs)
            for v in vs:
                if v not in self.deps:
                    self.deps[v] = vs
        want, todo = set(), list(self.vars_of(e))
        while todo:
            v = todo.pop()
            if v not in want:
                want.add(v)
                if "!" in v:
                    todo.extend(self.deps.get(v, ()))
        return [a for a, vs in zip(self.added, self.added_vars) if vs <= want]

    def sliced_unsat(self, e):
        if not _real(e):
            return False
        part = self.slice(e)
        if len(part) > 0.7 * len(self.added):
            return False
        sv = z3.Solver()
        sv.set("timeout", 1500)
        sv.add(*part)
        t = time.time()
        r = sv.check(e)
        self.solver_s += time.time() - t
        self.n_queries += 1
        return r == z3.unsat

    def table_unsat(self, e):
        """do bounds known for the same polynomials, in normal form, rule e out"""
        R = self.ring
        for a in self.lits[R.n_facts:]:
            if z3.is_expr(a):
                R.learn(a)
        R.n_facts = len(self.lits)
        return R.refuted(e)

    def query(self, *extra, timeout=None):
        if len(extra) == 1 and (self.table_unsat(extra[0]) or self.sliced_unsat(extra[0])):
            return z3.unsat
        t = time.time()
        timeout = timeout or self.timeout_ms
        self.last = self.solver
        self.solver.set("timeout", min(timeout, 1200))
        r = self.solver.check(*extra)
        if r == z3.unknown and timeout > 1200:
            # a solver without history is at times far quicker
            self.last = z3.Solver()
            self.last.set("timeout", timeout)
            self.last.add(*self.added)
            r = self.last.check(*extra)
        self.solver_s += time.time() - t
        self.n_queries += 1
        if r == z3.unknown:
            self.n_unknown += 1
        return r

    def define(self, e):
        """add what follows from the way a value was introduced: it holds under every assignment of the inputs"""
        self.add(e)
        if self.model is not None and self.pos >= self.nreplay and not isinstance(self.model, Num):
            self.num = Num(self, self.model)
            self.model = None

    def assume(self, e):
        """add to the path condition without deciding (definitions, assumptions)"""
        if e is True or z3.is_true(e):
            return
        if e is False:
            e = FALSE
        self.add(e)
        self.lits.append(e)
        if self.pos < self.nreplay:
            return  # model stored with the prefix already satisfies it or is refreshed below
        if self.model is not None and not isinstance(self.model, Num):
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.num = Num(self, self.model)
                self.model = None
        if isinstance(self.model, Num):
            self.num, self.model = self.model, None
        if self.model is None and self.num is not None and self.num.value(e) is not True:
            self.num = None

    def unit_circle(self, c, s):
        """c and s are the coordinates of any point of the unit circle"""
        self.unit_inputs.append((c.decl().name(), s.decl().name()))
        e = c * c + s * s == 1
        self.unit_eqs[e.get_id()] = e
        self.assume(e)

    def need_model(self):
        if isinstance(self.model, Num):
            self.num, self.model = self.model, None
        if self.model is None and self.num is not None:
            return self.num
        if self.model is None:
            if self.hard:
                self.num = nummod.search(self, self.lits, None, self.rng)
                if self.num is not None:
                    return self.num
            r = self.query()
            if r == z3.unknown:
                self.hard = True
                self.num = nummod.search(self, self.lits, None, self.rng)
                if self.num is not None:
                    return self.num
            if r == z3.sat:
                self.model = self.last.model()
            elif r == z3.unsat:
                self.dead = True
                raise PathAbort("infeasible")
            else:
                self.uncertain = True
                return None
        return self.model

    def decide(self, e):
        if e is True or e is False:
            return e
        k = e.get_id()
        if k in self.known:
            return self.known[k]
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        ks = s.get_id()
        if ks in self.known:
            return self.known[ks]
        if not self.active:
            raise RuntimeError("symbolic decision outside a path")
        v = self._decide(s, None)
        self.known[k] = self.known[ks] = v
        self.keep.append((e, s))
        if z3.is_not(s):
            self.known[s.arg(0).get_id()] = not v
        else:
            n = z3.simplify(z3.Not(s))
            self.known[n.get_id()] = not v
            self.keep.append((n, n))
        return v

    def _decide(self, s, tag):
        if self.dead:
            raise PathAbort("dead")
        if self.pos < self.nreplay:
            v = self.prefix[self.pos][1]
            self.trace.append(self.prefix[self.pos])
            self.pos += 1
            self.add(s if v else z3.Not(s))
            self.lits.append(s if v else z3.Not(s))
            return v
        if self.pos >= self.max_decisions or (self.deadline and time.time() > self.deadline):
            self.dead = True
            raise PathAbort("budget")
        self.n_decisions += 1
        no = self.table_unsat(s)
        if no or self.table_unsat(z3.Not(s)):
            self.trace.append((tag, not no))
            self.pos += 1
            self.add(z3.Not(s) if no else s)
            self.lits.append(z3.Not(s) if no else s)
            return not no
        m = self.need_model()
        if isinstance(m, Num) and m.value(s) is None:
            self.num = None      # too close to tell
            m = self.need_model()
            if isinstance(m, Num) and m.value(s) is None:
                m = None
        if m is None:
            # no model: ask both sides
            rt, rf = self.query(s), self.query(z3.Not(s))
            if rt == z3.unsat and rf == z3.unsat:
                self.dead = True
                raise PathAbort("infeasible")
            v = rt != z3.unsat
            other = rf if v else z3.unsat
            om = None
        else:
            ev = m.eval(s, model_completion=True)
            if z3.is_true(ev):
                v = True
            elif z3.is_false(ev):
                v = False
            else:
                self.model = None
                rt = self.query(s)
                v = rt != z3.unsat
                if rt == z3.sat:
                    self.model = self.last.model()
            neg = z3.Not(s) if v else s
            other = self.query(neg)
            om = self.last.model() if other == z3.sat else None
            if other == z3.unknown:
                om = nummod.search(self, self.lits + [neg], self.num, self.rng)
                if om is not None:
                    other = z3.sat
        if other == z3.unknown:
            # undecided branch: follow it too, its infeasibility only costs time
            self.uncertain = True
        if other != z3.unsat:
            self.work.append((tuple(self.trace) + ((tag, not v),), om))
        # implied outcomes are recorded too, so that re-execution stays aligned
        self.trace.append((tag, v))
        self.pos += 1
        self.add(s if v else z3.Not(s))
        self.lits.append(s if v else z3.Not(s))
        return v

    def pick_int(self, e, limit=70):
        """fork over the values of an integer expression"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        k = ("pick", e.get_id())
        if k in self.cache:
            return self.cache[k]
        self.keep.append((e, e))
        for _ in range(limit):
            if self.pos < self.nreplay:
                v = self.prefix[self.pos][0]
                assert v is not None and not isinstance(v, bool), "replay misaligned"
            else:
                m = self.need_model()
                if m is None:
                    self.dead = True
                    raise PathAbort("unknown")
                v = self.int_in(m, e)
            if self._decide(e == v, v):
                self.cache[k] = v
                return v
        v = self.int_in(self.need_model(), e)
        self.degrade("integer concretised")
        self.assume(e == v)
        self.cache[k] = v
        return v

    def int_in(self, m, e):
        """value of an integer expression in a model"""
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        # conditions over irrational numbers left open: follow the branches
        while z3.is_app_of(e, z3.Z3_OP_ITE):
            c = m.eval(e.arg(0), model_completion=True)
            if not (z3.is_true(c) or z3.is_false(c)):
                yes = self.query(e.arg(0)) == z3.sat
                e = e.arg(1) if yes else e.arg(2)
            else:
                e = e.arg(1) if z3.is_true(c) else e.arg(2)
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
        raise PathAbort("no value for an integer")

    def degrade(self, why):
        if why not in self.degraded:
            self.degraded.append(why)

    def concretise(self, x, why):
        """replace a symbolic scalar by its value in a model (loses completeness)"""
        if isinstance(x, SymComplex):
            return complex(self.concretise(x.re, why), self.concretise(x.im, why))
        if not is_sym(x):
            return x
        if isinstance(x, SymBool):
            return self.decide(x.e)
        self.degrade(why)
        m = self.need_model()
        if m is None:
            self.dead = True
            raise PathAbort("unknown")
        if isinstance(x, SymInt):
            v = self.int_in(m, x.e)
            self.assume(x.e == v)
            return v
        v = m.eval(x.e, model_completion=True)
        self.assume(x.e == v)
        return z3_to_float(v)

    def next_item(self):
        if not self.work:
            return None
        if len(self.work) > 1 and self.rng.random() < 0.15:
            i = self.rng.randrange(len(self.work))
            self.work[i], self.work[-1] = self.work[-1], self.work[i]
        return self.work.pop()


ENG = None


def set_engine(e):
    global ENG
    ENG = e
    return e


def eng():
    return ENG


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def z3_to_float(v):
    f = z3_to_fraction(v)
    if f is None:
        return 0.0
    try:
        return float(f)
    except OverflowError:
        return 1e308 if f > 0 else -1e308


# ---------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, Sym)


def zb(x):
    """z3 Bool of a scalar"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymFloat):
        return x.e != 0
    if z3.is_expr(x):
        return x
    return TRUE if bool(x) else FALSE


def zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def zr(x):
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    return z3.RealVal(repr(float(x)))


def mkb(e):
    if e is True or z3.is_true(e):
        return True
    if e is False or z3.is_false(e):
        return False
    return SymBool(e)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return FALSE
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if isinstance(x, (bool, np.bool_)):
            if x:
                return TRUE
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, (bool, np.bool_)):
        return FALSE if x else TRUE
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Ite(c, a, b):
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def concrete_kind(x):
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    return None


def kind(x):
    if isinstance(x, SymBool):
        return "b"
    if isinstance(x, SymInt):
        return "i"
    if isinstance(x, SymFloat):
        return "f"
    if isinstance(x, SymComplex):
        return "c"
    return concrete_kind(x)


_INFO = {}


def int_range(dt):
    dt = np.dtype(dt)
    r = _INFO.get(dt)
    if r is None:
        ii = np.iinfo(dt)
        r = _INFO[dt] = (int(ii.min), int(ii.max))
    return r


def dtype_of(x):
    """numpy dtype of a scalar, None for weak Python scalars"""
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    return None


class Sym:
    dtype = None
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 1000.0

    def item(self, *a):
        return self.py()

    def tolist(self):
        return self.py()

    def reshape(self, *shape, **kw):
        from . import nd
        return nd.asarr(self).reshape(*shape)

    def copy(self):
        return self

    def astype(self, dt, **kw):
        from . import nd
        return nd.cast(self, np.dtype(dt))

    def any(self, *a, **k):
        return mkb(zb(self))

    all = any

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    @property
    def T(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nd
        return nd.dispatch_real_ufunc(ufunc, method, inputs, kw)

    def __array__(self, dtype=None, copy=None):
        # only reached when unmodelled compiled code asks for numbers
        v = ENG.concretise(self, "array() of a symbolic scalar")
        return np.array(v, dtype=dtype)

    def __getitem__(self, key):
        from . import nd
        return nd.asarr(self)[key]

    def __len__(self):
        raise TypeError("object of type 'scalar' has no len()")

    def __iter__(self):
        raise TypeError("'scalar' object is not iterable")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym %s>" % getattr(self, "e", "?")

    __str__ = __repr__


def _bin(opname):
    def f(self, other):
        return arith(opname, self, other)

    def r(self, other):
        return arith(opname, other, self)
    return f, r


def _cmp(opname):
    def f(self, other):
        return compare(opname, self, other)
    return f


def _other_ok(x):
    return isinstance(x, Sym) or concrete_kind(x) is not None


def arith(opn, a, b):
    if not (_other_ok(a) and _other_ok(b)):
        return NotImplemented
    ka, kb = kind(a), kind(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return getattr(Py, opn)(a, b)
    if opn in ("and_", "or_", "xor"):
        if ka == "b" and kb == "b":
            x, y = zb(a), zb(b)
            if opn == "and_":
                return mkb(And(x, y))
            if opn == "or_":
                return mkb(Or(x, y))
            return mkb(z3.simplify(z3.Xor(x, y)))
        if ka in "bi" and kb in "bi":
            return getattr(Py, opn)(_conc_int(a), _conc_int(b))
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    if "c" in (ka, kb):
        return c_arith(opn, a, b)
    if "f" in (ka, kb) or opn == "truediv":
        return f_arith(opn, a, b)
    return i_arith(opn, a, b)


def _conc_int(x):
    if isinstance(x, SymInt):
        return ENG.pick_int(x.e)
    if isinstance(x, SymBool):
        return ENG.decide(x.e)
    return x


class Py:
    add = staticmethod(lambda a, b: a + b)
    sub = staticmethod(lambda a, b: a - b)
    mul = staticmethod(lambda a, b: a * b)
    truediv = staticmethod(lambda a, b: a / b)
    floordiv = staticmethod(lambda a, b: a // b)
    mod = staticmethod(lambda a, b: a % b)
    pow = staticmethod(lambda a, b: a ** b)
    and_ = staticmethod(lambda a, b: a & b)
    or_ = staticmethod(lambda a, b: a | b)
    xor = staticmethod(lambda a, b: a ^ b)
    lshift = staticmethod(lambda a, b: a << b)
    rshift = staticmethod(lambda a, b: a >> b)


def res_int_dtype(a, b):
    da, db = dtype_of(a), dtype_of(b)
    if da is not None and da.kind == "b" and (db is None and kind(b) == "i"):
        return np.dtype(np.int64)
    if db is not None and db.kind == "b" and (da is None and kind(a) == "i"):
        return np.dtype(np.int64)
    if da is None:
        return db if db is None or db.kind != "b" else np.dtype(np.int64)
    if db is None:
        return da if da.kind != "b" else np.dtype(np.int64)
    d = np.result_type(da, db)
    return d if d.kind in "iu" else np.dtype(np.int64)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


def mki(e, lo, hi, dt):
    """integer result, wrapped to dt"""
    if dt is not None and dt.kind in "iu":
        a, b = int_range(dt)
        if lo is None or hi is None or lo < a or hi > b:
            w = b - a + 1
            if lo is not None and hi is not None and lo >= a - w and hi <= b + w:
                if hi > b and lo < a:
                    e = z3.If(e > b, e - w, z3.If(e < a, e + w, e))
                elif hi > b:
                    e = z3.If(e > b, e - w, e)
                else:
                    e = z3.If(e < a, e + w, e)
            else:
                e = (e - a) % w + a
            lo, hi = a, b
    if lo is not None and lo == hi:
        v = lo
        return dt.type(v) if dt is not None else v
    if z3.is_int_value(e):
        v = e.as_long()
        return dt.type(v) if dt is not None else v
    return SymInt(e, lo, hi, dt)


def _ov(x, y, f):
    return None if x is None or y is None else f(x, y)


def i_arith(opn, a, b):
    dt = res_int_dtype(a, b)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    x, y = zi(a), zi(b)
    if opn == "add":
        return mki(x + y, _ov(la, lb, lambda p, q: p + q), _ov(ha, hb, lambda p, q: p + q), dt)
    if opn == "sub":
        return mki(x - y, _ov(la, hb, lambda p, q: p - q), _ov(ha, lb, lambda p, q: p - q), dt)
    if opn == "mul":
        if None in (la, ha, lb, hb):
            lo = hi = None
        else:
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        return mki(x * y, lo, hi, dt)
    if opn in ("floordiv", "mod"):
        if ENG.decide(y == 0):
            if dt is None or ENG.numba:
                raise ZeroDivisionError("integer division or modulo by zero")
            return dt.type(0)
        # z3 div is Euclidean; Python's is floor
        q = z3.If(y > 0, x / y, (-x) / (-y))
        if opn == "floordiv":
            return mki(q, None, None, dt)
        return mki(x - q * y, None, None, dt)
    if opn == "pow":
        if isinstance(b, Sym):
            b = ENG.pick_int(b.e)
        if b < 0:
            return f_arith("pow", a, b)
        r = 1
        for _ in range(int(b)):
            r = arith("mul", r, a)
        return r
    return getattr(Py, opn)(_conc_int(a), _conc_int(b))


# ------------------------------------------------------------------ reals
def ftype(a, b):
    da, db = dtype_of(a), dtype_of(b)
    ds = [d for d in (da, db) if d is not None]
    if not ds:
        return None
    if len(ds) == 1:
        return ds[0] if ds[0].kind == "f" else np.dtype(np.float64)
    d = np.result_type(*ds)
    return d if d.kind == "f" else np.dtype(np.float64)


def mkf(e, dt=None, ang=None, lg=None):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = z3_to_fraction(e)
        f = float(v)
        if Fraction(repr(f)) == v or Fraction(f) == v:
            return np.float64(f) if dt is not None else f
    return SymFloat(e, dt, ang, lg)


def special(x):
    """is x a concrete nan/inf"""
    return (not isinstance(x, Sym)) and isinstance(x, (float, np.floating)) and not math.isfinite(x)


def sign_of(x):
    """-1, 0 or 1, forking"""
    if not isinstance(x, Sym):
        return (x > 0) - (x < 0)
    e = zr(x)
    if ENG.decide(e > 0):
        return 1
    return 0 if ENG.decide(e == 0) else -1


def lin(d1, d2, k2):
    """sum of companion dictionaries"""
    out = dict(d1)
    for b, c in d2.items():
        c2 = out.get(b, 0) + c * k2
        if c2 == 0:
            out.pop(b, None)
        else:
            out[b] = c2
    return out


def exact(x):
    """Fraction of a concrete finite number"""
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def log_const(x):
    """companion of a concrete number seen as a logarithm (its exponential is rounded to a double)"""
    if isinstance(x, Sym) or not 0 < abs(float(x)) < 30:
        return None
    v = math.exp(float(x))
    f = Fraction(v).limit_denominator(1000)
    if abs(float(f) - v) > 4e-15 * v:
        f = Fraction(repr(v))
    return {log_base(z3.RealVal(f)): Fraction(1)}


def comp(x, which):
    """companion dictionary of a value ({} for 0), None if there is none"""
    if isinstance(x, SymFloat):
        return getattr(x, which)
    if not isinstance(x, Sym) and x == 0:
        return {}
    if which == "ang" and isinstance(x, (float, np.floating)):
        q = pi_multiple(x)
        if q is not None:
            return {"pi": q}
    return None


def f_arith(opn, a, b):
    dt = ftype(a, b)
    if special(a) or special(b):
        return f_special(opn, a, b, dt)
    x, y = zr(a), zr(b)
    if opn in ("add", "sub"):
        k = 1 if opn == "add" else -1
        ang = lg = None
        ca, cb = comp(a, "ang"), comp(b, "ang")
        if ca is not None and cb is not None:
            ang = lin(ca, cb, k)
        ca, cb = comp(a, "lg"), comp(b, "lg")
        if ca and cb is None:
            cb = log_const(b)
        elif cb and ca is None:
            ca = log_const(a)
        if ca is not None and cb is not None:
            lg = lin(ca, cb, k)
        if not isinstance(a, Sym) and a == 0:
            e = y if k == 1 else -y
        elif not isinstance(b, Sym) and b == 0:
            e = x
        else:
            e = x + y if k == 1 else x - y
        return mkf(e, dt, ang, lg)
    if opn == "mul":
        ang = lg = None
        for p, q in ((a, b), (b, a)):
            if not isinstance(q, Sym):
                f = exact(q)
                if f == 0:
                    return dt.type(0.0) if dt is not None else 0.0
                ca, cl = comp(p, "ang"), comp(p, "lg")
                if ca is not None:
                    ang = {k: c * f for k, c in ca.items()}
                if cl is not None:
                    lg = {k: c * f for k, c in cl.items()}
                if f == 1:
                    return mkf(zr(p), dt, ang, lg)
                if f == -1:
                    return mkf(-zr(p), dt, ang, lg)
                break
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            c, v = (a, b) if isinstance(a, SymBool) else (b, a)
            return mkf(Ite(c.e, zr(v), z3.RealVal(0)), dt)
        return mkf(x * y, dt, ang, lg)
    if opn == "truediv":
        if isinstance(b, Sym):
            if ENG.decide(is_null(y)):
                return div_zero(a, dt)
        elif b == 0:
            return div_zero(a, dt)
        else:
            return f_arith("mul", a, Fr(Fraction(1) / exact(b))) if isinstance(a, Sym) else a / b
        if not isinstance(a, Sym) and a == 0:
            return dt.type(0.0) if dt is not None else 0.0
        if x.eq(y):
            return dt.type(1.0) if dt is not None else 1.0
        return mkf(quotient(x, y), dt)
    if opn == "pow":
        return f_pow(a, b, dt)
    if opn in ("floordiv", "mod"):
        if opn == "mod" and not isinstance(b, Sym) and pi_multiple(b) == 2 and comp(a, "ang") is not None:
            # reduction around the circle
            c, s = cos_sin(a)
            A = principal(z3.simplify(zr(c)), z3.simplify(zr(s)))
            return SymFloat(z3.If(A.a >= 0, A.a, A.a + 2 * PI()), dt, dict(comp(a, "ang")))
        if ENG.decide(y == 0):
            if dt is None or ENG.numba:
                raise ZeroDivisionError("float modulo")
            return dt.type(NAN)
        q = z3.ToInt(quotient(x, y) if z3.is_expr(y) else x / y)
        if opn == "floordiv":
            return mkf(z3.ToReal(q), dt)
        r = x - y * z3.ToReal(q)
        out = mkf(r, dt)
        return out
    raise TypeError("unsupported operand types for float %s" % opn)


class Fr(float):
    """an exact rational constant that survives arithmetic with symbols"""
    def __new__(cls, f):
        o = float.__new__(cls, float(f))
        o.f = f
        return o


_old_exact, _old_zr = exact, zr


def exact(x):
    if isinstance(x, Fr):
        return x.f
    return _old_exact(x)


def zr(x):
    if isinstance(x, Fr):
        return z3.RealVal(x.f)
    if isinstance(x, (float, np.floating)):
        q = pi_multiple(x)
        if q is not None:
            return PI() * z3.RealVal(q)
    return _old_zr(x)


def pi_multiple(x):
    """x as a rational multiple of pi, where it was obviously meant as one"""
    q = float(x) / (math.pi / 4)
    if ENG is None or not ENG.active or not 0.5 < abs(q) < 16.5:
        return None
    r = round(q)
    return Fraction(r, 4) if abs(q - r) <= 1e-15 * abs(q) else None


def _div(a, b):
    return None if a is None or b is None or abs(b) < 1e-12 else a / b


def _sqrt(a):
    return None if a is None or a < -1e-9 else math.sqrt(max(a, 0.0))


def _atan2(s, c):
    if s is None or c is None:
        return None
    if abs(s) < 1e-12 and c < 0:
        return math.pi
    return math.atan2(s, c)


def _log(a):
    return None if a is None or a <= 0 else math.log(a)


def _app(f, a):
    return None if a is None else f(a)


def quotient(x, y):
    """x / y, y known not to be zero"""
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_rational_value(y):
        return x / y
    k = ("div", x.get_id(), y.get_id())
    q = ENG.cache.get(k)
    if q is None:
        ENG.keep.append((x, y))
        R = ENG.ring
        k2 = None
        a, b = R.of(x), R.of(y)
        if a is not None and b is not None:
            try:
                r = R.rnorm(R.mul(a[0], b[1]), R.mul(a[1], b[0]))
                if r[1] == ONE:
                    ENG.cache[k] = q = R.term(r[0])
                    return q
                k2 = ("divn", R.key(r))
                q = ENG.cache.get(k2)
                if q is not None:
                    ENG.cache[k] = q
                    return q
            except TooBig:
                pass
        q = z3.Real(ENG.fresh("q"))
        ENG.cache[k] = q
        if k2 is not None:
            ENG.cache[k2] = q
        ENG.defs[q.decl().name()] = lambda v, x=x, y=y: _div(v(x), v(y))
        ENG.define(q * y == x)
        R.define_quotient(q, x, y)
    return q


def div_zero(a, dt):
    # numba compiles the bodies of parallel loops without checks for division by zero
    par = ENG.numba == 1 and getattr(ENG, "in_parallel", False) and ENG.par is not None and ENG.par.it is not None
    if (dt is None or ENG.numba == 1) and not par:
        raise ZeroDivisionError("division by zero")
    s = sign_of(a)
    return (dt.type if dt is not None else float)(NAN if s == 0 else s * INF)


def f_special(opn, a, b, dt):
    T = dt.type if dt is not None else float
    if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
        return T(NAN)
    if opn == "pow":
        if special(a):
            return T(a ** ENG.concretise(b, "inf power"))
        s = sign_of(arith("sub", abs(a), 1.0))
        base = {1: 2.0, 0: 1.0, -1: 0.5}[s]
        return T(base ** b)
    # stand-in for the finite operand with the right sign
    fa = float(a) if not isinstance(a, Sym) else None
    fb = float(b) if not isinstance(b, Sym) else None
    if opn in ("add", "sub"):
        fa = 0.0 if fa is None else fa
        fb = 0.0 if fb is None else fb
        return T(fa + fb if opn == "add" else fa - fb)
    if fa is None:
        fa = float(sign_of(a))
    if fb is None:
        fb = float(sign_of(b))
    if opn == "mul":
        return T(NAN) if 0.0 in (fa, fb) else T(fa * fb)
    if opn == "truediv":
        if math.isinf(fb):
            return T(NAN) if math.isinf(fa) else T(0.0)
        if fb == 0.0:
            if dt is None or ENG.numba == 1:
                raise ZeroDivisionError("division by zero")
            return T(fa)
        return T(fa / fb)
    if opn in ("mod", "floordiv"):
        return T(NAN) if math.isinf(fa) else T(np.mod(fa, fb))
    raise TypeError(opn)


def f_pow(a, b, dt):
    if not isinstance(b, Sym):
        f = exact(b)
        if f.denominator == 1 and abs(f) <= 8:
            n = int(f)
            if n == 0:
                return mkf(z3.RealVal(1), dt)
            r = a
            for _ in range(abs(n) - 1):
                r = f_arith("mul", r, a)
            return r if n > 0 else f_arith("truediv", 1.0 if dt is None else dt.type(1.0), r)
        if f == Fraction(1, 2):
            return fsqrt(a, dt)
    # general power: positive monotone function of the base for a fixed exponent
    if isinstance(a, Sym) and ENG.decide(zr(a) < 0):
        return dt.type(NAN) if dt is not None else NAN
    if isinstance(a, Sym) and not isinstance(b, Sym) and ENG.decide(zr(a) == 0):
        if b > 0:
            return dt.type(0.0) if dt is not None else 0.0
        return dt.type(INF) if dt is not None else INF
    ea, eb = z3.simplify(zr(a)), z3.simplify(zr(b))
    r = z3.Function("rpow", z3.RealSort(), z3.RealSort(), z3.RealSort())(ea, eb)
    ENG.define(r > 0)
    return mkf(r, dt)


def fsqrt(a, dt=None, mode="np"):
    if special(a):
        return np.sqrt(a)
    if not isinstance(a, Sym):
        if a < 0:
            return neg_sqrt(dt, mode)
        return np.sqrt(np.float64(a)) if perfect(a) is None else (np.float64(perfect(a)))
    x = z3.simplify(zr(a))
    if not sum_of_squares(zr(a)) and ENG.decide(x < 0):
        return neg_sqrt(dt, mode)
    return mkf(root(x), dt)


def perfect(a):
    return float(math.sqrt(a)) if math.sqrt(a) ** 2 == a else None


def neg_sqrt(dt, mode):
    if mode == "math" and not ENG.numba:
        raise ValueError("math domain error")
    import warnings
    if not ENG.numba:
        warnings.warn("invalid value encountered in sqrt", RuntimeWarning, stacklevel=4)
    return np.float64(NAN)


def root(x):
    """s >= 0 with s*s == x, x known to be non-negative"""
    x = z3.simplify(x, som=True)
    k = ("sqrt", x.get_id())
    s = ENG.cache.get(k)
    if s is not None:
        return s
    ENG.keep.append((x, x))
    R = ENG.ring
    r = R.of(x)
    if r is not None:
        s = exact_root(R, r)
        if s is not None:
            ENG.cache[k] = s
            return s
        s = partial_root(R, r)
        if s is not None:
            ENG.cache[k] = s
            return s
        k2 = ("sqrtn", R.key(r))
        s = ENG.cache.get(k2)
        if s is not None:
            ENG.cache[k] = s
            return s
        ENG.cache[k2] = s = z3.Real(ENG.fresh("s"))
    else:
        s = z3.Real(ENG.fresh("s"))
    ENG.cache[k] = s
    ENG.defs[s.decl().name()] = lambda v, x=x: _sqrt(v(x))
    ENG.define(z3.And(s >= 0, s * s == x))
    R.define_root(s, x)
    return s


def exact_root(R, r):
    """the root of a perfect square as a term"""
    try:
        n, d = r
        q = R.perfect_square(R.mul(n, d))
        if q is None:
            return None
        c, fs = q
        num = z3.RealVal(c)
        for f, e in fs:
            t = R.term(f)
            if e % 2:
                t = absolute(t)
            for _ in range(e):
                num = num * t
        if d == ONE:
            return z3.simplify(num)
        return quotient(num, absolute(R.term(d)))
    except TooBig:
        return None


def partial_root(R, r):
    """the root of a product as a product of roots: sqrt(a^2 b c / d) = |a| sqrt|b| sqrt|c| sqrt|d| / |d|"""
    try:
        n, d = r
        p = R.mul(n, d)
        if not any(p):
            return None
        fs = R.factors(p, True)
        if fs is None:
            if d == ONE or len(d) > 1:
                return None
            fs = Fraction(1), [(p, 1)]
        c, fs = fs
        if d == ONE and len(fs) == 1 and fs[0][1] == 1 and abs(c) == 1:
            return None
        out = z3.RealVal(1)
        if abs(c) != 1:
            out = root(z3.RealVal(abs(c)))
        for f, e in fs:
            t = absolute(R.term(f))
            for _ in range(e // 2):
                out = out * t
            if e % 2:
                out = out * root(t)
        return z3.simplify(out) if d == ONE else quotient(z3.simplify(out), absolute(R.term(d)))
    except TooBig:
        return None


def plain_term(t):
    """a constant, a variable or a multiple of one: merging on its sign costs the solver little"""
    if not z3.is_app(t):
        return False
    if t.num_args() == 0:
        return not t.decl().name().startswith(("s!", "q!"))
    kd = t.decl().kind()
    if kd in (z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return sum(not z3.is_rational_value(c) for c in t.children()) <= 1 and all(plain_term(c) for c in t.children())
    if kd == z3.Z3_OP_ITE:
        return plain_term(t.arg(1)) and plain_term(t.arg(2))
    return False


def magnitude(t):
    """|t|, merged for plain terms, otherwise forked on the sign"""
    if z3.is_rational_value(t) or not plain_term(t):
        return absolute(t)
    k = ENG.ring.sign(t)
    if k:
        return t if k > 0 else z3.simplify(-t)
    return z3.simplify(z3.If(t < 0, -t, t))


def signed(m, t):
    """m with the sign of t"""
    if z3.is_rational_value(t) or not plain_term(t):
        if z3.is_rational_value(t):
            return m if z3_to_fraction(t) >= 0 else z3.simplify(-m)
        return m if ENG.decide(t >= 0) else z3.simplify(-m)
    return z3.simplify(z3.If(t < 0, -m, m))


def absolute(t):
    """|t|, plain where the sign is known"""
    if z3.is_rational_value(t):
        return t if z3_to_fraction(t) >= 0 else z3.simplify(-t)
    k = ENG.ring.sign(t)
    if k:
        return t if k > 0 else z3.simplify(-t)
    return t if ENG.decide(t >= 0) else z3.simplify(-t)


# ------------------------------------------------------------ comparisons
_SW = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def pycmp(opn, a, b):
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[opn]


def compare(opn, a, b):
    if not (_other_ok(a) and _other_ok(b)):
        return NotImplemented
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(getattr(Cmp, opn)(a, b))
    ka, kb = kind(a), kind(b)
    if "c" in (ka, kb):
        a, b = to_c(a), to_c(b)
        e = And(zb(compare("eq", a.re, b.re)), zb(compare("eq", a.im, b.im)))
        if opn == "eq":
            return mkb(e)
        if opn == "ne":
            return mkb(Not(e))
        raise TypeError("complex ordering")
    if ka == "b" and kb == "b" and opn in ("eq", "ne"):
        x, y = zb(a), zb(b)
        e = z3.simplify(x == y)
        return mkb(e if opn == "eq" else Not(e))
    if "f" in (ka, kb):
        if special(a) or special(b):
            if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
                return opn == "ne"
            fa = 0.0 if isinstance(a, Sym) else float(a)
            fb = 0.0 if isinstance(b, Sym) else float(b)
            return bool(getattr(Cmp, opn)(fa, fb))
        ga, gb = comp(a, "lg"), comp(b, "lg")
        if ga and gb is None and not isinstance(b, Sym):
            gb = log_const(b)
        elif gb and ga is None and not isinstance(a, Sym):
            ga = log_const(a)
        if ga is not None and gb is not None:
            return lg_compare(opn, ga, gb)
        x, y = zr(a), zr(b)
    else:
        x, y = zi(a), zi(b)
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if None not in (la, ha, lb, hb):
            if ha < lb:
                return opn in ("lt", "le", "ne")
            if la > hb:
                return opn in ("gt", "ge", "ne")
    if x.eq(y):
        return opn in ("eq", "le", "ge")
    e = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
         "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[opn]()
    return mkb(e)


class Cmp:
    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)
    gt = staticmethod(lambda a, b: a > b)
    ge = staticmethod(lambda a, b: a >= b)
    eq = staticmethod(lambda a, b: a == b)
    ne = staticmethod(lambda a, b: a != b)


class SymBool(Sym):
    __slots__ = ("e",)
    dtype = np.dtype(np.bool_)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def py(self):
        return self

    def __invert__(self):
        return mkb(Not(self.e))

    def __hash__(self):
        return hash(ENG.decide(self.e))

    def __index__(self):
        return int(ENG.decide(self.e))

    __int__ = __index__

    def __float__(self):
        return float(ENG.decide(self.e))

    def __neg__(self):
        return arith("sub", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return self


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi", "dtype")

    def __init__(self, e, lo=None, hi=None, dtype=None):
        if isinstance(e, (Sym, int, float)):  # type(x)(y) in the code
            e = zr(e) if isinstance(e, (SymFloat, float)) else zi(e)
            if e.is_real():
                e = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        self.e, self.lo, self.hi, self.dtype = e, lo, hi, dtype

    def py(self):
        return SymInt(self.e, self.lo, self.hi, None) if self.dtype is not None else self

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def __index__(self):
        return ENG.pick_int(self.e)

    __int__ = __trunc__ = __index__

    def __float__(self):
        return float(ENG.pick_int(self.e))

    def __neg__(self):
        return arith("sub", 0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return arith("sub", -1, self)

    def __abs__(self):
        lo, hi = self.lo, self.hi
        if lo is not None and lo >= 0:
            return self
        nlo = 0
        nhi = None if None in (lo, hi) else max(abs(lo), abs(hi))
        return mki(z3.If(self.e < 0, -self.e, self.e), nlo, nhi, self.dtype)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def bit_length(self):
        return int(self).bit_length()

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self

    def __hash__(self):
        for c in ENG.universe:
            if ENG.decide(self.e == c):
                return hash(c)
        for e, h in ENG.hashes:
            if ENG.decide(self.e == e):
                return h
        h = 7_000_000_001 + len(ENG.hashes)
        ENG.hashes.append((self.e, h))
        return h


def sum_of_squares(t):
    """is the term plainly a sum of squares"""
    if z3.is_rational_value(t):
        return z3_to_fraction(t) >= 0
    if not z3.is_app(t):
        return False
    kd = t.decl().kind()
    if kd == z3.Z3_OP_ADD:
        return all(sum_of_squares(c) for c in t.children())
    if kd == z3.Z3_OP_POWER:
        e = t.arg(1)
        return z3.is_rational_value(e) and e.as_fraction().denominator == 1 and e.as_fraction().numerator % 2 == 0
    if kd == z3.Z3_OP_MUL:
        sign, odd = 1, {}

        def walk(u):
            nonlocal sign
            for c in u.children():
                if z3.is_rational_value(c):
                    sign = sign if z3_to_fraction(c) >= 0 else -sign
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                    walk(c)
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS:
                    sign = -sign
                    odd[c.arg(0).get_id()] = not odd.get(c.arg(0).get_id())
                elif not sum_of_squares(c):
                    odd[c.get_id()] = not odd.get(c.get_id())
        walk(t)
        return sign > 0 and not any(odd.values())
    return False


def _largest(a):
    return None if None in a else max(map(abs, a))


def largest(ts):
    """the largest of |t|: an opaque number, tied to the terms by what defines it"""
    ts = [z3.simplify(t) for t in ts]
    k = ("mx", tuple(sorted({t.get_id() for t in ts})))
    m = ENG.cache.get(k)
    if m is None:
        R = ENG.ring
        m = ENG.cache[k] = z3.Real(ENG.fresh("mx"))
        ENG.keep.append((ts, ts))
        ENG.defs[m.decl().name()] = lambda v, ts=ts: _largest([v(t) for t in ts])
        ENG.define(z3.And(m >= 0, *[z3.And(m >= t, m >= -t) for t in ts], z3.Or(*[z3.Or(m == t, m == -t) for t in ts])))
        R.nonneg.add(R.atom(m))
        q = z3.RealVal(0)
        for t in ts:
            q = q + t * t
        r = R.of(q)
        if r is not None and r[1] == ONE:
            q = R.term(r[0])
        ENG.define(z3.And(m * m <= q, q <= len(ts) * m * m))
        if r is not None and r[1] == ONE:
            R.largest[R.atom(m)] = r[0]
    return m


class SymFloat(Sym):
    """a finite real; NaN and infinities are concrete floats produced by forking"""
    __slots__ = ("e", "dtype", "ang", "lg")

    def __init__(self, e, dtype=None, ang=None, lg=None):
        if isinstance(e, (Sym, int, float)):  # type(x)(y) in the code
            e = zr(e)
        self.e, self.dtype, self.ang, self.lg = e, dtype, ang, lg

    def py(self):
        return SymFloat(self.e, None, self.ang, self.lg) if self.dtype is not None else self

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def __neg__(self):
        return arith("mul", -1.0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if ENG.decide(zb(compare("lt", self, 0.0))):
            return -self
        return self

    def __float__(self):
        return float(ENG.concretise(self, "float() of a symbolic real"))

    def __int__(self):
        return ENG.pick_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = __int__

    def __round__(self, n=None):
        return round(float(self), n) if n is not None else round(float(self))

    def __hash__(self):
        return hash(float(self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        return mkb(z3.IsInt(self.e))


def is_null(y):
    """y == 0, over the factors of y where its normal form has one term"""
    if not z3.is_const(y):
        r = ENG.ring.of(y)
        if r is not None and len(r[0]) == 1:
            (m, c), = r[0].items()
            return z3.Or(*[ENG.ring.atoms[i] == 0 for i, _ in m]) if m else z3.BoolVal(False)
    return y == 0


class LazyAbs(SymFloat):
    """|t|, forked on the sign when it is used other than in max()"""
    __slots__ = ("of", "val")

    def __init__(self, t, dtype=None):
        self.of, self.val = t, None
        self.dtype, self.ang, self.lg = dtype, None, None

    @property
    def e(self):
        if self.val is None:
            self.val = magnitude(self.of)
        return self.val


class SymComplex(Sym):
    __slots__ = ("re", "im")
    dtype = np.dtype(np.complex128)

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def py(self):
        return self

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return cabs(self)

    def __bool__(self):
        return bool(compare("ne", self, 0))

    def __complex__(self):
        return ENG.concretise(self, "complex()")

    def __hash__(self):
        return hash(complex(self))

    def __repr__(self):
        return "<symc %r %r>" % (self.re, self.im)


for _n, _o in dict(add="add", sub="sub", mul="mul", truediv="truediv", floordiv="floordiv", mod="mod",
                   pow="pow", lshift="lshift", rshift="rshift").items():
    f, r = _bin(_o)
    for cl in (SymBool, SymInt, SymFloat, SymComplex):
        setattr(cl, "__%s__" % _n, f)
        setattr(cl, "__r%s__" % _n, r)
for _n, _o in {"and": "and_", "or": "or_", "xor": "xor"}.items():
    f, r = _bin(_o)
    for cl in (SymBool, SymInt, SymFloat, SymComplex):
        setattr(cl, "__%s__" % _n, f)
        setattr(cl, "__r%s__" % _n, r)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    for cl in (SymBool, SymInt, SymFloat, SymComplex):
        setattr(cl, "__%s__" % _n, _cmp(_n))
for cl in (SymBool, SymInt, SymFloat, SymComplex):
    numbers.Number.register(cl)


def to_c(x):
    if isinstance(x, SymComplex):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return SymComplex(float(x.real), float(x.imag))
    return SymComplex(x, 0.0)


def is_zero(x):
    return not isinstance(x, Sym) and not special(x) and x == 0


def c_arith(opn, a, b):
    if opn == "pow":
        if not isinstance(b, Sym) and b == 2:
            return c_arith("mul", a, a)
        raise TypeError("complex power")
    if opn in ("add", "sub"):
        a, b = to_c(a), to_c(b)
        return SymComplex(arith(opn, a.re, b.re), arith(opn, a.im, b.im))
    if opn == "mul":
        if kind(a) != "c":
            b = to_c(b)
            return SymComplex(arith("mul", a, b.re), arith("mul", a, b.im))
        if kind(b) != "c":
            a = to_c(a)
            return SymComplex(arith("mul", a.re, b), arith("mul", a.im, b))
        a, b = to_c(a), to_c(b)
        m = lambda p, q: arith("mul", p, q)
        return SymComplex(arith("sub", m(a.re, b.re), m(a.im, b.im)),
                          arith("add", m(a.re, b.im), m(a.im, b.re)))
    if opn == "truediv":
        if kind(b) != "c":
            a = to_c(a)
            return SymComplex(arith("truediv", a.re, b), arith("truediv", a.im, b))
        b = to_c(b)
        n = arith("add", arith("mul", b.re, b.re), arith("mul", b.im, b.im))
        num = c_arith("mul", a, b.conjugate())
        num = to_c(num)
        return SymComplex(arith("truediv", num.re, n), arith("truediv", num.im, n))
    raise TypeError("complex " + opn)


def hypot(x, y, dt=np.dtype(np.float64)):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return np.hypot(float(x), float(y))
    if special(x) or special(y):
        if any(special(v) and math.isinf(v) for v in (x, y)):
            return np.float64(INF)
        return np.float64(NAN)
    if is_zero(x):
        return abs(y)
    if is_zero(y):
        return abs(x)
    x, y = zr(x), zr(y)
    return mkf(root(x * x + y * y), dt)


def cabs(c):
    c = to_c(c)
    return hypot(c.re, c.im)


# --------------------------------------------------- angles and logarithms
class Angle:
    """an angle a known through c = cos a, s = sin a"""
    def __init__(self, a, c, s):
        self.a, self.c, self.s = a, c, s


def PI():
    p = ENG.cache.get("pi")
    if p is None:
        p = ENG.cache["pi"] = z3.Real("pi")
        ENG.defs["pi"] = lambda v: math.pi
        e = z3.And(p > z3.RealVal("3.141592653589"), p < z3.RealVal("3.141592653590"))
        ENG.define(e)
        ENG.ring.nonneg.add(ENG.ring.atom(p))
        ENG.ring.learn(e)
    return p


def pi_float():
    return SymFloat(PI(), None, {"pi": Fraction(1)})


def principal(c, s, hint="ang"):
    """the angle in (-pi, pi] with cosine c and sine s (unit vector given)"""
    c, s = z3.simplify(c), z3.simplify(s)
    k = ("ang", c.get_id(), s.get_id())
    r = ENG.cache.get(k)
    if r is not None:
        return r
    nc, ns = ENG.ring.of(c), ENG.ring.of(s)
    if nc is not None and ns is not None:
        kn = ("angn", ENG.ring.key(nc), ENG.ring.key(ns))
        r = ENG.cache.get(kn)
        if r is not None:
            ENG.cache[k] = r
            return r
        r = ENG.cache.get(("angn", ENG.ring.key(nc), ENG.ring.key(({m: -v for m, v in ns[0].items()}, ns[1]))))
        if r is not None:
            # the mirrored angle is known: this one is its negative, except at pi
            if not ENG.decide(s == 0):
                r = Angle(z3.simplify(-r.a), c, s)
            ENG.cache[k] = ENG.cache[kn] = r
            return r
    else:
        kn = k
    a = z3.Real(ENG.fresh(hint))
    p = PI()
    ENG.defs[a.decl().name()] = lambda v, c=c, s=s: _atan2(v(s), v(c))
    ENG.define(z3.And(a > -p, a <= p))
    ENG.define(z3.Implies(s > 0, z3.And(a > 0, a < p)))
    ENG.define(z3.Implies(s < 0, a < 0))
    ENG.define(z3.Implies(z3.And(s == 0, c > 0), a == 0))
    ENG.define(z3.Implies(z3.And(s == 0, c < 0), a == p))
    ENG.define(z3.Implies(z3.And(s > 0, c > 0), 2 * a < p))
    ENG.define(z3.Implies(z3.And(s > 0, c < 0), 2 * a > p))
    ENG.define(z3.Implies(z3.And(s > 0, c == 0), 2 * a == p))
    ENG.define(z3.Implies(z3.And(s < 0, c > 0), 2 * a > -p))
    ENG.define(z3.Implies(z3.And(s < 0, c < 0), 2 * a < -p))
    ENG.define(z3.Implies(z3.And(s < 0, c == 0), 2 * a == -p))
    A = Angle(a, c, s)
    for B in ENG.angles:
        ENG.define(z3.Implies(z3.And(c == B.c, s == B.s), a == B.a))
        ENG.define(z3.Implies(z3.And(c == B.c, s == -B.s, s != 0), a == -B.a))
    ENG.angles.append(A)
    ENG.cache[k] = ENG.cache[kn] = A
    ENG.keep.append((c, s))
    return A


def arg(re, im, dt=np.dtype(np.float64)):
    """principal argument of re + i im, forking on the origin"""
    if not isinstance(re, Sym) and not isinstance(im, Sym):
        return np.float64(math.atan2(float(im), float(re)))
    if special(re) or special(im):
        if any(special(v) and math.isnan(v) for v in (re, im)):
            return np.float64(NAN)
        raise NotImplementedError("argument of an infinite number")
    x, y = z3.simplify(zr(re)), z3.simplify(zr(im))
    if z3.is_rational_value(y) and z3_to_fraction(y) == 0:
        if ENG.decide(x >= 0):
            return np.float64(0.0)
        return SymFloat(PI(), dt, {"pi": Fraction(1)})
    if ENG.decide(z3.And(x == 0, y == 0)):
        return np.float64(0.0)
    if (x.get_id(), y.get_id()) in ENG.unit_known:
        c, s = x, y
    else:
        r = root(x * x + y * y)
        k = ("unit", x.get_id(), y.get_id())
        if k in ENG.cache:
            c, s = ENG.cache[k]
        else:
            ENG.define(r > 0)
            c, s = unit_vector(x, y, r)
            ENG.cache[k] = (c, s)
            ENG.keep.append((x, y))
    A = principal(c, s)
    return SymFloat(A.a, dt, {A: Fraction(1)})


def unit_vector(x, y, r):
    """(x/r, y/r) for the norm r > 0"""
    R = ENG.ring
    a, b, m = R.of(x), R.of(y), R.of(r)
    k = None
    if a is not None and b is not None and m is not None:
        try:
            c, s = [R.rnorm(R.mul(v[0], m[1]), R.mul(v[1], m[0])) for v in (a, b)]
            k = ("unitn", R.key(c), R.key(s))
            if k in ENG.cache:
                return ENG.cache[k]
            if c[1] == ONE and s[1] == ONE:
                c, s = R.term(c[0]), R.term(s[0])
                _mark_unit(c, s)
                ENG.cache[k] = c, s
                return c, s
        except TooBig:
            pass
    c, s = quotient(x, r), quotient(y, r)
    ENG.define(c * c + s * s == 1)
    _mark_unit_only(c, s)
    if k is not None:
        ENG.cache[k] = c, s
    return c, s


def cos_sin(x):
    """(cos, sin) of a real as values"""
    if not isinstance(x, Sym):
        if not math.isfinite(x):
            return NAN, NAN
        q = x / (math.pi / 2)
        if abs(q - round(q)) < 1e-12 and abs(q) < 100:
            return [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][int(round(q)) % 4]
        c, s = z3.Real(ENG.fresh("cc")), z3.Real(ENG.fresh("cs"))
        k = ("ccs", float(x))
        if k not in ENG.cache:
            ENG.defs[c.decl().name()] = lambda v, x=float(x): math.cos(x)
            ENG.defs[s.decl().name()] = lambda v, x=float(x): math.sin(x)
            ENG.define(z3.And(c * c + s * s == 1, c > z3.RealVal(repr(math.cos(x) - 1e-12)), c < z3.RealVal(repr(math.cos(x) + 1e-12)),
                              s > z3.RealVal(repr(math.sin(x) - 1e-12)), s < z3.RealVal(repr(math.sin(x) + 1e-12))))
            ENG.cache[k] = (c, s)
        c, s = ENG.cache[k]
        return mkf(c), mkf(s)
    if isinstance(x, (SymInt, SymBool)):
        x = SymFloat(zr(x))
    d = x.ang
    if d is not None and all(v.denominator == 1 for k, v in d.items() if k != "pi") and d.get("pi", Fraction(0)) * 2 == int(d.get("pi", Fraction(0)) * 2):
        c, s = z3.RealVal(1), z3.RealVal(0)
        for A, n in d.items():
            n2 = n
            if A == "pi":
                q = int(n * 2) % 4
                c1, s1 = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
                c, s = c * c1 - s * s1, s * c1 + c * s1
                continue
            for _ in range(abs(int(n2))):
                s1 = A.s if n2 > 0 else -A.s
                if z3.is_rational_value(z3.simplify(c)) and z3.is_rational_value(z3.simplify(s)) and z3_to_fraction(z3.simplify(s)) == 0 and z3_to_fraction(z3.simplify(c)) == 1:
                    c, s = A.c, s1
                else:
                    c, s = c * A.c - s * s1, s * A.c + c * s1
        c, s = z3.simplify(c), z3.simplify(s)
        _mark_unit(c, s)
        return mkf(c), mkf(s)
    e = z3.simplify(x.e)
    k = ("trig", e.get_id())
    if k not in ENG.cache:
        c, s = z3.Real(ENG.fresh("tc")), z3.Real(ENG.fresh("ts"))
        ENG.defs[c.decl().name()] = lambda v, e=e: _app(math.cos, v(e))
        ENG.defs[s.decl().name()] = lambda v, e=e: _app(math.sin, v(e))
        ENG.define(c * c + s * s == 1)
        ENG.cache[k] = (c, s)
        ENG.keep.append((e, e))
        _mark_unit(c, s)
    c, s = ENG.cache[k]
    # where the real is itself within (-pi, pi] it is the principal angle
    A = principal(c, s, "pa")
    p = PI()
    ENG.define(z3.Implies(z3.And(e > -p, e <= p), A.a == e))
    return mkf(c), mkf(s)


def _mark_unit(c, s):
    ENG.unit_known.add((c.get_id(), s.get_id()))
    ENG.keep.append((c, s))
    ENG.ring.define_unit(c, s)


def _mark_unit_only(c, s):
    ENG.unit_known.add((c.get_id(), s.get_id()))
    ENG.keep.append((c, s))


class LogBase:
    def __init__(self, x, l):
        self.x, self.l = x, l  # l = log x, x > 0


def log_base(x):
    x = z3.simplify(x, som=True)
    k = ("log", x.get_id())
    L = ENG.cache.get(k)
    if L is None:
        r = ENG.ring.of(x)
        k = k if r is None else ("logn", ENG.ring.key(r))
        L = ENG.cache.get(k)
        ENG.cache[("log", x.get_id())] = L
    if L is None:
        l = z3.Real(ENG.fresh("l"))
        ENG.defs[l.decl().name()] = lambda v, x=x: _log(v(x))
        ENG.define(z3.And((x > 1) == (l > 0), (x == 1) == (l == 0)))
        L = LogBase(x, l)
        for M in ENG.logs:
            ENG.define(z3.And((x == M.x) == (l == M.l), (x > M.x) == (l > M.l)))
        ENG.logs.append(L)
        ENG.cache[k] = ENG.cache[("log", x.get_id())] = L
        ENG.keep.append((x, x))
    return L


def settle(R, r):
    """a normal form with the conditions inside it decided"""
    try:
        for _ in range(40):
            i = R.conditional(r)
            if i is None:
                return r
            t = R.atoms[i]
            by = R.of(t.arg(1) if ENG.decide(t.arg(0)) else t.arg(2))
            if by is None:
                return r
            r = R.substitute(r, i, by)
    except TooBig:
        pass
    return r


def log_terms(x):
    """(term, companion) of log x for x > 0: the sum of the logarithms of its factors"""
    R = ENG.ring
    r = R.of(z3.simplify(x))
    if r is not None:
        r = settle(R, r)
    lg, c0 = {}, Fraction(1)
    if r is not None:
        try:
            for p, sg in ((r[0], 1), (r[1], -1)):
                f = R.factors(p)
                if f is None:
                    raise TooBig()
                c, fs = f
                c0 *= abs(c) ** sg
                for g, e in fs:
                    t = absolute(R.term(g))
                    L = log_base(t)
                    lg[L] = lg.get(L, Fraction(0)) + e * sg
        except TooBig:
            lg = {}
            c0 = Fraction(1)
            r = None
    if r is None:
        L = log_base(x)
        return L.l, {L: Fraction(1)}
    lg = {L: e for L, e in lg.items() if e}
    if c0 != 1:
        L = log_base(z3.RealVal(c0))
        lg[L] = lg.get(L, Fraction(0)) + 1
    t = None
    for L, e in lg.items():
        u = L.l if e == 1 else L.l * z3.RealVal(e)
        t = u if t is None else t + u
    return (z3.RealVal(0) if t is None else t), lg


def flog(a, dt=None, mode="np"):
    if not isinstance(a, Sym):
        if mode == "math":
            if not special(a) and a == 1:
                return 0.0
            if a <= 0:
                if ENG.numba:
                    return -INF if a == 0 else NAN
                raise ValueError("math domain error")
        with np.errstate(all="ignore"):
            return np.log(np.float64(a))
    x = zr(a)
    if ENG.decide(x > 0):
        e, lg = log_terms(x)
        return mkf(e, dt, None, lg)
    if mode == "math" and not ENG.numba:
        raise ValueError("math domain error")
    return np.float64(-INF) if ENG.decide(x == 0) else np.float64(NAN)


def lg_sides(d):
    """exp(sum coef*log x) scaled to integer powers: returns (num, den, k) with exp(v)**k == num/den"""
    k = 1
    for c in d.values():
        k = k * c.denominator // math.gcd(k, c.denominator)
    num = den = z3.RealVal(1)
    for L, c in d.items():
        n = int(c * k)
        for _ in range(abs(n)):
            if n > 0:
                num = num * L.x
            else:
                den = den * L.x
    return num, den, k


def lg_compare(opn, ga, gb):
    d = lin(ga, gb, -1)
    if not d:
        return opn in ("eq", "le", "ge")
    num, den, _ = lg_sides(d)
    x, y = z3.simplify(num), z3.simplify(den)
    e = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[opn]
    return mkb(e)


def fexp(x):
    """exp of a real as a positive z3 real"""
    if not isinstance(x, Sym):
        return z3.RealVal(repr(math.exp(x))) if x != 0 else z3.RealVal(1)
    if isinstance(x, SymFloat) and x.lg is not None:
        num, den, k = lg_sides(x.lg)
        num, den = z3.simplify(num), z3.simplify(den)
        v = num if z3.is_rational_value(den) and z3_to_fraction(den) == 1 else quotient(num, den)
        while k > 1:
            if k % 2:
                break
            ENG.define(v > 0)
            v = root(v)
            k //= 2
        if k == 1:
            return v
        r = z3.Real(ENG.fresh("xp"))
        pw = r
        for _ in range(k - 1):
            pw = pw * r
        ENG.defs[r.decl().name()] = lambda ev, v=v, k=k: _app(lambda z: z ** (1.0 / k), ev(v))
        ENG.define(z3.And(r > 0, pw == v))
        return r
    e = z3.simplify(zr(x))
    k = ("exp", e.get_id())
    r = ENG.cache.get(k)
    if r is None:
        for (e2, r2) in ENG.cache.get("exps", ()):
            if ENG.ring.is_zero(e - e2):
                ENG.cache[k] = r2       # the same exponent, written another way
                ENG.keep.append((e, e))
                return r2
        r = z3.Real(ENG.fresh("ex"))
        ENG.defs[r.decl().name()] = lambda v, e=e: _app(math.exp, v(e))
        ENG.define(z3.And(r > 0, (e > 0) == (r > 1), (e == 0) == (r == 1)))
        for (e2, r2) in ENG.cache.setdefault("exps", []):
            ENG.define(z3.And((e == e2) == (r == r2), (e > e2) == (r > r2)))
        ENG.cache["exps"].append((e, r))
        ENG.cache[k] = r
        ENG.keep.append((e, e))
    return r


def ite(c, a, b):
    """merge two scalars under a condition (z3 Bool)"""
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if a is b:
        return a
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None or special(a) or special(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) == type(b):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        return a if ENG.decide(c) else b
    if not isinstance(a, Sym) and not isinstance(b, Sym) and ka == kb and a == b:
        return a
    if "c" in (ka, kb):
        a, b = to_c(a), to_c(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if "f" in (ka, kb):
        if any(getattr(v, w, None) for v in (a, b) for w in ("ang", "lg")):
            return a if ENG.decide(c) else b      # keep what is known of angles and logarithms
        return mkf(Ite(c, zr(a), zr(b)), dtype_of(a) or dtype_of(b))
    if ka == "b" and kb == "b":
        return mkb(z3.simplify(z3.If(c, zb(a), zb(b))))
    la, ha = bounds(a)
    lb, hb = bounds(b)
    return mki(Ite(c, zi(a), zi(b)), _ov(la, lb, min), _ov(ha, hb, max), dtype_of(a) if dtype_of(a) == dtype_of(b) else (dtype_of(a) or dtype_of(b)))
