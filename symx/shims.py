"""Stand-ins for the libraries the code under test imports (other than numpy)."""
import builtins, cmath as _cmath, importlib, math as _math, operator, sys, types, warnings, itertools
from fractions import Fraction
import numpy as np
import z3
from . import core, nd, npshim
from .core import (Sym, SymBool, SymInt, SymFloat, SymComplex, And, Or, Not, Ite, mkb, mki, mkf, zb, zi, zr,
                   special, kind, ite, arith, compare, NAN, INF)
from .nd import (SymArray, LazyArray, asarr, cast, typed, from_elems, map_obj, mats, E, B_, I8, F8, C16, Unsupported,
                 wrap, unwrap, pyc, as_dt)
from .npshim import Ns, np_, GENERIC

MODULES = {}


def module(name):
    return MODULES.get(name)


# ------------------------------------------------------------- builtins
class _M(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(DT_BACK.get(c, c), cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __repr__(cls):
        return repr(cls.real)

    def __or__(cls, o):
        return cls.real | DT_BACK.get(o, o)

    def __ror__(cls, o):
        return DT_BACK.get(o, o) | cls.real

    def __getattr__(cls, n):
        return getattr(cls.real, n)


def _one(x):
    """value of a size-one array or wrapper"""
    if isinstance(x, SymArray):
        if x.size != 1 or x.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return x.item()
    return x


class IntShim(metaclass=_M):
    real = int

    def __new__(cls, x=0, *a):
        x = _one(x)
        if isinstance(x, SymInt):
            return x.py()
        if isinstance(x, SymBool):
            return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, None)
        if isinstance(x, SymFloat):
            e = z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))
            return mki(e, None, None, None)
        return int(x, *a)


class FloatShim(metaclass=_M):
    real = float

    def __new__(cls, x=0.0):
        x = _one(x)
        if isinstance(x, SymFloat):
            return x.py()
        if isinstance(x, (SymInt, SymBool)):
            return SymFloat(zr(x))
        if isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, core.Fr):
            return x
        return float(x)


class BoolShim(metaclass=_M):
    real = bool

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return mkb(npshim.tb(x))
        if isinstance(x, SymArray) and x.size == 1:
            return mkb(npshim.tb(x._elems().ravel()[0]))
        return bool(x)


class ComplexShim(metaclass=_M):
    real = complex

    def __new__(cls, re=0, im=None):
        re, im = _one(re), _one(im)
        if isinstance(re, Sym) or isinstance(im, Sym):
            if im is None:
                return core.to_c(re)
            if kind(re) == "c" or kind(im) == "c":
                return arith("add", core.to_c(re), arith("mul", 1j, im))
            f = lambda v: v if isinstance(v, SymFloat) else (SymFloat(zr(v)) if isinstance(v, Sym) else float(v))
            return SymComplex(f(re), f(im))
        return complex(re) if im is None else complex(re, im)


DT_BACK = {IntShim: int, FloatShim: float, BoolShim: bool, ComplexShim: complex}
nd._DTMAP.update(DT_BACK)
_isinstance, _issubclass, _type = builtins.isinstance, builtins.issubclass, builtins.type


def _flat(cls):
    if _type(cls) is tuple:
        for c in cls:
            yield from _flat(c)
    elif _isinstance(cls, types.UnionType):
        yield from _flat(cls.__args__)
    else:
        yield DT_BACK.get(cls, cls)


def sym_class(x):
    """the class a scalar proxy would have in a real run"""
    if x.dtype is None:
        return {"b": np.bool_, "i": int, "f": float, "c": np.complex128}[kind(x)]
    return x.dtype.type


def b_isinstance(x, cls):
    if _isinstance(x, Sym):
        c = sym_class(x)
        return any(_issubclass(c, k) for k in _flat(cls))
    if _type(x) is tuple or _type(cls) is tuple or _isinstance(cls, types.UnionType) or cls in DT_BACK:
        return _isinstance(x, tuple(_flat(cls)))
    return _isinstance(x, cls)


def b_type(*a, **k):
    if len(a) == 1 and not k:
        if _isinstance(a[0], Sym):
            return sym_class(a[0])
        if _isinstance(a[0], SymArray):
            return nd.NdShim
    return _type(*a, **k)


def b_minmax(op, real):
    def f(*args, key=None, **k):
        vals = list(args[0]) if len(args) == 1 else list(args)
        if key is None and vals and any(_isinstance(v, Sym) for v in vals) and all(core.concrete_kind(v) or _isinstance(v, Sym) for v in vals) \
                and not any(special(v) for v in vals):
            if op == "gt" and len(vals) > 1 and any(type(v) is core.LazyAbs for v in vals) and \
                    all(type(v) is core.LazyAbs or _isinstance(v, SymFloat) and E().ring.sign(v.e) > 0 or not _isinstance(v, Sym) and v >= 0 for v in vals):
                return SymFloat(core.largest([v.of if type(v) is core.LazyAbs else zr(v) for v in vals]), vals[0].dtype if _isinstance(vals[0], Sym) else None)
            r = vals[0]
            for v in vals[1:]:
                r = ite(zb(compare(op, v, r)), v, r)
            return r
        if len(args) == 1:
            return real(vals, key=key, **k)
        return real(*args, key=key, **k)
    return f


def b_abs(x):
    if _isinstance(x, SymFloat) and E().numba:
        t = z3.simplify(x.e)
        if E().numba == 1 and not core.plain_term(t) and not E().ring.sign(t):
            return core.LazyAbs(t, x.dtype)
        return SymFloat(core.magnitude(t), x.dtype)
    return abs(x)


def b_round(x, n=None):
    if _isinstance(x, SymFloat) and n is None:
        return mki(z3.ToInt(npshim.k_rint(x).e), None, None, None)
    return round(x, n) if n is not None else round(x)


def b_divmod(a, b):
    return (a // b, a % b)


def b_pow(a, b, *m):
    return pow(a, b, *m) if m else a ** b


def make_builtins(imp):
    d = dict(vars(builtins))
    d.update(int=IntShim, float=FloatShim, bool=BoolShim, complex=ComplexShim, isinstance=b_isinstance,
             max=b_minmax("gt", max), min=b_minmax("lt", min), abs=b_abs, round=b_round, divmod=b_divmod,
             __import__=imp)
    return d


# ------------------------------------------------------------------- math
def _m1(symf, real, numba=None):
    def f(x):
        x = _one(x)
        if not _isinstance(x, Sym):
            if E() is not None and E().numba:
                with np.errstate(all="ignore"):
                    return float((numba or (lambda v: getattr(np, real.__name__)(v)))(float(x)))
            return real(x)
        if _isinstance(x, (SymInt, SymBool)):
            x = SymFloat(zr(x))
        r = symf(x)
        return r.item() if _isinstance(r, np.generic) else (r.py() if _isinstance(r, Sym) else r)
    f.__name__ = real.__name__
    return f


def _m2(symf, real, npn):
    def f(x, y):
        x, y = _one(x), _one(y)
        if not _isinstance(x, Sym) and not _isinstance(y, Sym):
            if E() is not None and E().numba:
                with np.errstate(all="ignore"):
                    return float(getattr(np, npn)(float(x), float(y)))
            return real(x, y)
        r = symf(x, y)
        return r.item() if _isinstance(r, np.generic) else (r.py() if _isinstance(r, Sym) else r)
    f.__name__ = real.__name__
    return f


def _m_log(x, *base):
    x = _one(x)
    if not _isinstance(x, Sym):
        r = core.flog(x, None, "math")
        r = float(r)
    else:
        r = core.flog(x if _isinstance(x, SymFloat) else SymFloat(zr(x)), None, "math")
        r = r.item() if _isinstance(r, np.generic) else r
    return r / _math.log(base[0]) if base else r


def _m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not (_isinstance(a, Sym) or _isinstance(b, Sym)):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if special(a) or special(b):
        return False
    x, y = zr(a), zr(b)
    if rel_tol == 0.0 and (getattr(a, "lg", None) or getattr(b, "lg", None)):
        d, t = arith("sub", a, b), float(abs_tol)
        return mkb(core.And(zb(compare("le", d, t)), zb(compare("ge", d, -t))))
    ab = lambda e: z3.If(e < 0, -e, e)
    mx = z3.If(ab(x) > ab(y), ab(x), ab(y))
    tol = core.zr(float(rel_tol)) * mx
    return mkb(Or(x == y, ab(x - y) <= tol, ab(x - y) <= core.zr(float(abs_tol))))


def _special1(f):
    def g(x):
        x = _one(x)
        if _isinstance(x, Sym):
            return {"isnan": False, "isinf": False, "isfinite": True}[f.__name__]
        return f(x)
    g.__name__ = f.__name__
    return g


def _m_hypot(*xs):
    xs = [_one(x) for x in xs]
    if not any(_isinstance(x, Sym) for x in xs):
        return _math.hypot(*xs)
    r = 0.0
    for x in xs:
        r = core.hypot(r, x, None)
    return r


def _m_fsum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


def _m_prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def _m_copysign(a, b):
    a, b = _one(a), _one(b)
    if not _isinstance(a, Sym) and not _isinstance(b, Sym):
        return _math.copysign(a, b)
    if E().numba and not special(a) and not special(b) and not getattr(a, "ang", None) and not getattr(a, "lg", None):
        # merged instead of forked
        m = core.magnitude(z3.simplify(zr(a)))
        if not _isinstance(b, Sym):
            return mkf(m if _math.copysign(1.0, b) > 0 else -m)
        return mkf(core.signed(m, z3.simplify(zr(b))))
    r = npshim.k_copysign(a if _isinstance(a, Sym) else float(a), b)
    return r


def _m_int(f, real):
    def g(x):
        x = _one(x)
        if _isinstance(x, (SymInt, SymBool)):
            return IntShim(x)
        if _isinstance(x, SymFloat):
            return f(x)
        return real(x)
    g.__name__ = real.__name__
    return g


_KT = npshim.KERNELS
MATH = dict(
    sqrt=_m1(lambda x: core.fsqrt(x, None, "math"), _math.sqrt), log=_m_log, cos=_m1(_KT["cos"], _math.cos), sin=_m1(_KT["sin"], _math.sin),
    tan=_m1(_KT["tan"], _math.tan), exp=_m1(_KT["exp"], _math.exp), acos=_m1(_KT["arccos"], _math.acos, np.arccos), asin=_m1(_KT["arcsin"], _math.asin, np.arcsin),
    atan=_m1(_KT["arctan"], _math.atan, np.arctan), sinh=_m1(_KT["sinh"], _math.sinh), cosh=_m1(_KT["cosh"], _math.cosh),
    tanh=_m1(_KT["tanh"], _math.tanh), asinh=_m1(_KT["arcsinh"], _math.asinh, np.arcsinh), atanh=_m1(_KT["arctanh"], _math.atanh, np.arctanh),
    log1p=_m1(_KT["log1p"], _math.log1p), expm1=_m1(_KT["expm1"], _math.expm1), log2=_m1(_KT["log2"], _math.log2), log10=_m1(_KT["log10"], _math.log10),
    fabs=_m1(lambda x: b_abs(x), _math.fabs), degrees=_m1(_KT["degrees"], _math.degrees), radians=_m1(_KT["radians"], _math.radians),
    atan2=_m2(lambda y, x: core.arg(x, y, None), _math.atan2, "arctan2"), copysign=_m_copysign, hypot=_m_hypot,
    pow=_m2(lambda a, b: core.f_pow(a, b, None), _math.pow, "power"), fmod=_m2(lambda a, b: a % b, _math.fmod, "fmod"),
    isnan=_special1(_math.isnan), isinf=_special1(_math.isinf), isfinite=_special1(_math.isfinite), isclose=_m_isclose,
    fsum=_m_fsum, prod=_m_prod,
    floor=_m_int(lambda x: mki(z3.ToInt(x.e), None, None, None), _math.floor),
    ceil=_m_int(lambda x: mki(-z3.ToInt(-x.e), None, None, None), _math.ceil),
    trunc=_m_int(lambda x: IntShim(x), _math.trunc),
)
MODULES["math"] = Ns("math", _math, MATH)


def c_phase(z):
    z = _one(z)
    if not _isinstance(z, Sym):
        return _cmath.phase(z)
    z = core.to_c(z)
    r = core.arg(z.re, z.im, None)
    return float(r) if _isinstance(r, np.generic) else r


def c_rect(r, phi):
    r, phi = _one(r), _one(phi)
    if not _isinstance(r, Sym) and not _isinstance(phi, Sym):
        return _cmath.rect(r, phi)
    if special(phi) or special(r):
        return _cmath.rect(1.0 if _isinstance(r, Sym) else r, 1.0 if _isinstance(phi, Sym) else phi)
    c, s = core.cos_sin(phi)
    return SymComplex(arith("mul", r, c), arith("mul", r, s))


def c_polar(z):
    return abs(core.to_c(z)) if _isinstance(z, Sym) else abs(z), c_phase(z)


def c_exp(z):
    return npshim.k_exp(core.to_c(z)) if _isinstance(z, Sym) else _cmath.exp(z)


def c_fin(n):
    real = getattr(_cmath, n)

    def f(z):
        if _isinstance(z, Sym):
            z = core.to_c(z)
            v = complex(0.0 if _isinstance(z.re, Sym) else z.re, 0.0 if _isinstance(z.im, Sym) else z.im)
            return real(v)
        return real(z)
    return f


MODULES["cmath"] = Ns("cmath", _cmath, dict(phase=c_phase, rect=c_rect, polar=c_polar, exp=c_exp, isnan=c_fin("isnan"),
                                             isinf=c_fin("isinf"), isfinite=c_fin("isfinite")))

# ------------------------------------------------------------------- numba
import numba as _nb
from numba.core import sigutils as _sig, types as _nt
MAX_THREADS = 8


class Par:
    """accesses to shared memory by the iterations of one parallel loop"""
    def __init__(self):
        self.it = None
        self.log = {}
        self.priv = []

    def touch(self, addr, mode):
        if self.it is None:
            return
        d = self.log.setdefault(addr, {})
        d[self.it] = max(d.get(self.it, "r"), mode)

    def conflicts(self):
        out = []
        for a, d in self.log.items():
            if len(d) > 1 and "w" in d.values():
                out.append(a)
        return out


class prange:
    def __new__(cls, *a):
        return _prange(*a)


def reorder(r, order):
    """the iterations of a parallel loop in another order: ranks are repeated as often as needed"""
    if not order:
        return r
    k = len(order)
    return [x for _, x in sorted(enumerate(r), key=lambda t: (order[t[0] % k], t[0] // k))]


def _prange(*a):
    e = E()
    r = range(*[operator.index(x) for x in a])
    if e is None or not e.numba or not getattr(e, "in_parallel", False) or e.par is not None:
        yield from r
        return
    e.par = Par()
    keep0 = e.par_keep = []
    try:
        r = list(r)
        for i in reorder(r, e.par_order):
            e.par.it = i
            yield i
        e.par.it = None
        c = e.par.conflicts()
        # arrays born inside one iteration have addresses of their own for as long as they are kept alive
        e.races = getattr(e, "races", [])
        if c:
            e.races.append((len(c), len(r)))
        e.par_loops = getattr(e, "par_loops", 0) + 1
    finally:
        e.par = None
        e.par_keep = None


def _match(t, v):
    """does a value fit a numba argument type (exact arrays, convertible scalars)"""
    if _isinstance(t, (_nt.Optional,)):
        return v is None or _match(t.type, v)
    if _isinstance(t, _nt.Omitted):
        return v is None or v is _OMIT
    if _isinstance(t, _nt.Array):
        if _isinstance(v, np.ndarray):
            v = wrap(v)
        if not _isinstance(v, SymArray):
            return False
        mats(v)
        if v.ndim != t.ndim:
            return False
        if _isinstance(t.dtype, _nt.Record):
            if v._dt.names is None:
                return False
            try:
                same = _nb.from_dtype(v._dt) == t.dtype
            except Exception:
                same = False
            if not same:
                return False
        elif v._dt.names is not None or _nb.from_dtype(v._dt) != t.dtype:
            return False
        if t.layout == "C":
            s = v._s
            if v.size and not s.flags.c_contiguous:
                return False
        return True
    if _isinstance(t, (_nt.Float,)):
        return kind(v) in ("b", "i", "f")
    if _isinstance(t, _nt.Complex):
        return kind(v) is not None
    if _isinstance(t, (_nt.Integer,)):
        return kind(v) in ("b", "i", "f")
    if _isinstance(t, _nt.Boolean):
        return kind(v) in ("b", "i", "f")
    return True


_OMIT = object()


def _conv(t, v):
    if _isinstance(t, _nt.Optional):
        return None if v is None else _conv(t.type, v)
    if _isinstance(t, _nt.Float):
        return typed(cast(pyc(v), F8), F8) if _isinstance(v, Sym) else float(v)
    if _isinstance(t, _nt.Boolean):
        return cast(v, B_)
    if _isinstance(t, _nt.Integer) and _isinstance(v, SymFloat):
        return IntShim(v)
    return v


class Dispatcher:
    def __init__(self, f, sigs, parallel, **k):
        self.py_func = f
        self.parallel = parallel
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__
        self.__wrapped__ = f
        self.sigs = []
        for s in sigs or []:
            a, r = _sig.normalize_signature(s)
            self.sigs.append((a, r))
        import inspect
        self.defaults = {n: p.default for n, p in inspect.signature(f).parameters.items() if p.default is not inspect._empty}
        self.names = list(inspect.signature(f).parameters)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kw):
        e = E()
        args = list(args)
        for n in self.names[len(args):]:
            if n in kw:
                args.append(kw.pop(n))
            elif n in self.defaults:
                args.append(_OMIT)
            else:
                raise TypeError("not enough arguments: expected %d, got %d" % (len(self.names), len(args)))
        if kw or len(args) > len(self.names):
            raise TypeError("too many arguments: expected %d, got %d" % (len(self.names), len(args)))
        if e.numba == 1:
            return self._run(args)
        conv = None
        if self.sigs:
            for a, r in self.sigs:
                if len(a) == len(args) and all(_match(t, v) for t, v in zip(a, args)):
                    conv, ret = [_conv(t, v) for t, v in zip(a, args)], r
                    break
            else:
                raise TypeError("No matching definition for argument type(s) %s" % ", ".join(str(getattr(v, "dtype", type(v))) for v in args))
        else:
            for v in args:
                if v is not _OMIT and not _isinstance(v, (Sym, SymArray, np.ndarray, np.generic, nd.SymRecord, tuple, list, str, type(None))) and core.concrete_kind(v) is None:
                    raise TypeError("cannot determine Numba type of %s" % type(v))
            conv, ret = args, None
        conv = [wrap(v) if _isinstance(v, np.ndarray) else v for v in conv]
        # the compiled function sees the arrays it was given, without their lazy length
        conv = [SymArray(v._s, v._dt) if _isinstance(v, LazyArray) else v for v in conv]
        old = e.numba, getattr(e, "in_parallel", False)
        e.numba, e.in_parallel = 1, self.parallel
        try:
            r = self._run(conv)
        finally:
            e.numba, e.in_parallel = old
        return self._ret(r, ret)

    def _run(self, args):
        kw = {}
        pos = []
        for n, v in zip(self.names, args):
            pos.append(self.defaults[n] if v is _OMIT else v)
        e = E()
        e.njit_called = getattr(e, "njit_called", set())
        e.njit_called.add(self.__name__)
        return self.py_func(*pos)

    def _ret(self, r, t):
        if r is None or _isinstance(r, SymArray):
            if _isinstance(r, SymArray) and _isinstance(t, _nt.Array) and _nb.from_dtype(r._dt) != t.dtype:
                raise TypeError("njit return type %s is not %s" % (r._dt, t))
            return r
        if _isinstance(r, tuple):
            ts = getattr(t, "types", None) or [None] * len(r)
            return tuple(self._ret(x, q) for x, q in zip(r, ts))
        if _isinstance(t, _nt.Float) and kind(r) in ("b", "i", "f"):
            return SymFloat(zr(r)) if _isinstance(r, (SymInt, SymBool)) else (r.py() if _isinstance(r, Sym) else float(r))
        if _isinstance(r, Sym):
            return r.py()
        if _isinstance(r, np.generic):
            return r.item()
        return r


def njit(*args, **kw):
    sigs = None
    par = kw.get("parallel", False)
    if args and callable(args[0]) and not _isinstance(args[0], (str, _nt.Type)) and not hasattr(args[0], "return_type"):
        return Dispatcher(args[0], None, par)
    if args:
        sigs = args[0] if _isinstance(args[0], list) else [args[0]]

    def deco(f):
        return Dispatcher(f, sigs, par)
    return deco


class NbVectorize(npshim.UF):
    def __init__(self, f, sigs):
        self.py_func = f
        self.__doc__ = f.__doc__
        import inspect
        n = len(inspect.signature(f).parameters)
        self.__name__ = f.__name__
        self.nin, self.nout, self.nargs = n, 1, n + 1
        self.identity = self.signature = None
        self.types = []
        self.real = self
        self.kernel = self._kern
        sg = [_sig.normalize_signature(s) for s in (sigs or [])]
        self.out = {_nt.float64: F8, _nt.boolean: B_, _nt.int64: I8, _nt.complex128: C16}.get(sg[0][1] if sg else _nt.float64, F8)
        self.ins = [t for t in sg[0][0]] if sg else [_nt.float64] * n

    def _kern(self, *a):
        e = E()
        old = e.numba
        e.numba = 1
        try:
            e.njit_called = getattr(e, "njit_called", set())
            e.njit_called.add(self.__name__)
            a = [_conv(t, v) for t, v in zip(self.ins, a)]
            return self.py_func(*[v if _isinstance(v, Sym) else v for v in a])
        finally:
            e.numba = old

    def _one(self, args, odt, ldt, dtype):
        return self._kern(*args)

    def _dtypes(self, dums, dtype, casting, arrs):
        return [self.out], None

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return o is self


def vectorize(*args, **kw):
    if args and callable(args[0]) and not _isinstance(args[0], (str, list, _nt.Type)):
        return NbVectorize(args[0], None)
    sigs = args[0] if args else None
    sigs = [sigs] if _isinstance(sigs, str) or sigs is not None and not _isinstance(sigs, (list, tuple)) else sigs
    return lambda f: NbVectorize(f, sigs)


THREADS = [MAX_THREADS]


def set_num_threads(n):
    if not b_isinstance(n, (int, np.integer)):
        raise TypeError("The number of threads specified must be an integer")
    bad = compare("lt", n, 1) | compare("gt", n, MAX_THREADS) if _isinstance(n, Sym) else not 1 <= n <= MAX_THREADS
    if bad:
        raise ValueError("The number of threads must be between 1 and %d" % MAX_THREADS)
    E().nb_threads = n


def get_num_threads():
    return getattr(E(), "nb_threads", MAX_THREADS)


def nb_typeof(x):
    if _isinstance(x, SymArray):
        x = np.empty((1,) * x.ndim, dtype=x._dt)
    return _nb.typeof(x)


MODULES["numba"] = Ns("numba", _nb, dict(njit=njit, jit=lambda *a, **k: njit(*a, **{q: v for q, v in k.items() if q != "nopython"}),
                                           vectorize=vectorize, prange=prange, set_num_threads=set_num_threads,
                                           get_num_threads=get_num_threads, typeof=nb_typeof), wrapall=False)

# ------------------------------------------------------------------- scipy
import scipy as _sp, scipy.sparse as _sps, scipy.optimize as _spo, scipy.sparse.csgraph as _csg


class Sparse:
    """coo_array / csr_array holding explicit entries (row, col, data)"""
    fmt = "coo"
    ndim = 2
    _pend = False

    def _canon(self):
        """sum_duplicates was called: sort and merge the entries once somebody looks at them"""
        self._pend = False
        out = []
        for k in range(self._d.size):
            i, j, v = self._r._s[k], self._c._s[k], typed(self._d._s[k], self._d._dt)
            at = 0
            while at < len(out):
                a, b, w = out[at]
                ei, ej = zb(compare("eq", i, a)), zb(compare("eq", j, b))
                if E().decide(And(ei, ej)):
                    out[at] = (a, b, mkb(Or(zb(w), zb(v))) if self._d._dt.kind == "b" else arith("add", w, v))
                    break
                if E().decide(Or(zb(compare("lt", i, a)), And(ei, zb(compare("lt", j, b))))):
                    out.insert(at, (i, j, v))
                    break
                at += 1
            else:
                out.append((i, j, v))
        cols = []
        for q in range(3):
            o = np.empty(len(out), dtype=object)
            for k in range(len(out)):
                o[k] = pyc(out[k][q])
            cols.append(o)
        self._r, self._c, self._d = SymArray(cols[0], self._r._dt), SymArray(cols[1], self._c._dt), SymArray(cols[2], self._d._dt)

    def sum_duplicates(self):
        if self.fmt == "coo":
            self._pend = True

    def _get(n):
        def g(self):
            if self._pend:
                self._canon()
            return self.__dict__[n]

        def s(self, v):
            if self._pend:
                self._canon()
            self.__dict__[n] = v
        return property(g, s)

    row, col, data = _get("_r"), _get("_c"), _get("_d")

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if _isinstance(arg, Sparse):
            self.row, self.col, self.data, self.shape = arg.row, arg.col, arg.data, arg.shape
            if copy:
                self.row, self.col, self.data = self.row.copy(), self.col.copy(), self.data.copy()
        elif _isinstance(arg, tuple) and len(arg) == 2 and _isinstance(arg[1], (tuple, list, SymArray, np.ndarray)):
            data, (row, col) = arg
            data, row, col = asarr(data), asarr(row), asarr(col)
            mats(data), mats(row), mats(col)
            if row._dt.kind not in "iu":
                row, col = row.astype(I8), col.astype(I8)
            if data.ndim != 1 or row.shape != data.shape or col.shape != data.shape:
                raise ValueError("all index and data arrays must have the same length")
            if shape is None:
                if data.size == 0:
                    raise ValueError("cannot infer dimensions from zero sized index arrays")
                shape = (E_idx(row), E_idx(col))
            self.shape = tuple(operator.index(x) for x in shape)
            for ix, n, nm in ((row, self.shape[0], "row"), (col, self.shape[1], "column")):
                for v in ix._s:
                    if _isinstance(v, Sym):
                        if E().decide(Or(v.e < 0, v.e >= n)):
                            raise ValueError("%s index out of bounds" % nm)
                    elif not 0 <= v < n:
                        raise ValueError("%s index exceeds matrix dimensions" % nm if v >= n else "negative %s index found" % nm)
            self.row, self.col, self.data = row, col, data
        elif _isinstance(arg, tuple) and len(arg) == 2 and all(core.concrete_kind(x) == "i" for x in arg):
            self.shape = tuple(arg)
            self.row = self.col = nd.zeros(0, np.int64)
            self.data = nd.zeros(0, dtype or float)
        else:
            a = asarr(arg)
            mats(a)
            if a.ndim == 1:
                a = a.reshape(1, -1)
            self.shape = a.shape
            # stored entries are the nonzero ones
            idx = npshim.np_.nonzero(a)
            self.row, self.col = (x.astype(np.int32) for x in idx)
            self.data = a[(SymArray(idx[0]._s, I8), SymArray(idx[1]._s, I8))]
        if dtype is not None:
            self.data = self.data.astype(as_dt(dtype))
        mats(self.row)

    @property
    def coords(self):
        return (self.row, self.col)

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def nnz(self):
        return self.data.size

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        o = self._new()
        o.row, o.col, o.shape = self.col, self.row, self.shape[::-1]
        return o

    def _new(self, data=None):
        o = object.__new__(type(self))
        o.row, o.col, o.data, o.shape = self.row, self.col, self.data if data is None else data, self.shape
        return o

    def copy(self):
        o = self._new(self.data.copy())
        o.row, o.col = self.row.copy(), self.col.copy()
        return o

    def tocoo(self, copy=False):
        return self._as(coo_array)

    def tocsr(self, copy=False):
        return self._as(csr_array)

    def tocsc(self, copy=False):
        return self._as(csr_array)

    def _as(self, cls):
        o = object.__new__(cls)
        o.row, o.col, o.data, o.shape = self.row, self.col, self.data, self.shape
        return o

    def astype(self, dt, **k):
        return self._new(self.data.astype(as_dt(dt)))

    def getformat(self):
        return self.fmt

    @property
    def format(self):
        return self.fmt

    def todense(self, order=None, out=None):
        n, m = self.shape
        dt = self._d._dt
        r = nd.zeros((n, m), dt)
        for k in range(self._d.size):
            for i in range(n):
                for j in range(m):
                    c = And(zb(compare("eq", self._r._s[k], i)), zb(compare("eq", self._c._s[k], j)))
                    if z3.is_false(c):
                        continue
                    cur, v = typed(r._s[i, j], dt), typed(self._d._s[k], dt)
                    new = mkb(Or(zb(cur), zb(v))) if dt.kind == "b" else arith("add", cur, v)
                    r._s[i, j] = ite(c, pyc(new), pyc(cur))
        return r

    toarray = todense

    def __array__(self, *a, **k):
        raise TypeError("sparse array has no __array__")

    def sum(self, axis=None, dtype=None, out=None):
        dt = self.data._dt
        rd = as_dt(dtype) if dtype is not None else np.zeros(1, dt).sum().dtype
        vals = [typed(cast(v, rd), rd) for v in self.data._s]
        if axis is None:
            acc = typed(0, rd)
            for v in vals:
                acc = arith("add", acc, v)
            return acc
        keep, n = (self.row, self.shape[0]) if axis in (1, -1) else (self.col, self.shape[1])
        o = np.empty(n, dtype=object)
        for i in range(n):
            acc = typed(cast(0, rd), rd)
            for k, v in enumerate(vals):
                c = zb(compare("eq", keep._s[k], i))
                if z3.is_false(c):
                    continue
                acc = arith("add", acc, typed(pyc(ite(c, v, typed(cast(0, rd), rd))), rd))
            o[i] = pyc(acc)
        return SymArray(o, rd)

    def setdiag(self, values, k=0):
        if k != 0 or self.fmt != "coo":
            raise Unsupported("setdiag off the main diagonal")
        M, N = self.shape
        v = asarr(values)
        if v.ndim and not v.size:
            return
        mx = min(M, N) if v.ndim == 0 else min(M, N, v.size)
        keep = []
        for q in range(self.data.size):
            c = Or(Not(zb(compare("eq", self.row._s[q], self.col._s[q]))), zb(compare("ge", self.row._s[q], mx)))
            if E().decide(c):
                keep.append(q)
        idx = np.arange(mx).astype(object)
        new = np.empty(mx, dtype=object)
        for i in range(mx):
            new[i] = cast(v._s[()] if v.ndim == 0 else v._s[i], self.data._dt)
        self.row = SymArray(np.concatenate([self.row._s[keep], idx]), self.row._dt)
        self.col = SymArray(np.concatenate([self.col._s[keep], idx]), self.col._dt)
        self.data = SymArray(np.concatenate([self.data._s[keep], new]), self.data._dt)

    def eliminate_zeros(self):
        keep = [q for q in range(self.data.size) if E().decide(zb(compare("ne", typed(self._d._s[q], self._d._dt), 0)))]
        self.row, self.col, self.data = self.row[keep], self.col[keep], self.data[keep]

    @property
    def size(self):
        return self.data.size

    def diagonal(self, k=0):
        return npshim.np_.diagonal(self.todense(), k)

    def __getattr__(self, n):
        raise Unsupported("sparse array attribute %s" % n) if not n.startswith("__") else AttributeError(n)


def E_idx(ix):
    """max(ix) + 1 as an integer, forking"""
    m = ix._s[0]
    for v in ix._s[1:]:
        m = ite(zb(compare("gt", v, m)), v, m)
    return (E().pick_int(m.e) if _isinstance(m, SymInt) else int(m)) + 1


class coo_array(Sparse):
    fmt = "coo"


class csr_array(Sparse):
    fmt = "csr"


class BFT:
    """breadth-first tree: only the set of reached nodes is specified, not their order"""
    def __init__(self, reached, n):
        b = np.empty(n, dtype=object)
        for i in range(n):
            b[i] = i
        self.indices = LazyArray(b, reached, as_dt(np.int32))
        self.shape = (n, n)

    @property
    def nnz(self):
        return self.indices.size


def reach(csgraph, start, directed=True):
    g = csgraph
    if not _isinstance(g, Sparse):
        g = coo_array(g)
    n = g.shape[0]
    if g.shape[0] != g.shape[1]:
        raise ValueError("compressed-sparse graph must be shape (N, N)")
    start = start.py() if _isinstance(start, Sym) else int(start)
    m = g.data.size
    edge = [[[] for _ in range(n)] for _ in range(n)]
    for k in range(m):
        for i in range(n):
            ci = zb(compare("eq", g.row._s[k], i))
            if z3.is_false(ci):
                continue
            for j in range(n):
                cj = zb(compare("eq", g.col._s[k], j))
                if z3.is_false(cj):
                    continue
                edge[i][j].append(And(ci, cj))
                if not directed:
                    edge[j][i].append(And(ci, cj))
    edge = [[Or(*c) if c else z3.BoolVal(False) for c in r] for r in edge]
    st = [zb(compare("eq", start, i)) for i in range(n)]
    cur = list(st)
    for _ in range(n - 1):
        cur = [z3.simplify(Or(cur[j], *[And(cur[i], edge[i][j]) for i in range(n) if i != j])) for j in range(n)]
    return cur, st


def breadth_first_tree(csgraph, i_start, directed=True):
    cur, st = reach(csgraph, i_start, directed)
    n = len(cur)
    return BFT([z3.simplify(And(cur[j], Not(st[j]))) for j in range(n)], n)


def breadth_first_order(csgraph, i_start, directed=True, return_predecessors=True):
    cur, st = reach(csgraph, i_start, directed)
    n = len(cur)
    b = np.empty(n, dtype=object)
    for i in range(n):
        b[i] = i
    order = LazyArray(b, cur, as_dt(np.int32))
    if not return_predecessors:
        return order
    raise Unsupported("breadth_first_order predecessors")


def linear_sum_assignment(cost_matrix, maximize=False):
    c = asarr(cost_matrix)
    mats(c)
    if c.ndim != 2:
        raise ValueError("expected a matrix (2-D array), got a %d array" % c.ndim)
    if maximize:
        c = -c
    n, m = c.shape
    el = [[typed(c._s[i, j], c._dt) for j in range(m)] for i in range(n)]
    tr = n > m
    if tr:
        el = [list(r) for r in zip(*el)]
        n, m = m, n
    for r in el:
        for v in r:
            if special(v) and (v != v or v == -INF):
                raise ValueError("matrix contains invalid numeric entries")
    if not any(_isinstance(v, Sym) for r in el for v in r):
        import scipy.optimize
        r, q = scipy.optimize.linear_sum_assignment(np.array([[float(v) for v in r] for r in el]).reshape(n, m))
        if tr:
            r, q = zip(*sorted(zip(q.tolist(), r.tolist()))) if len(q) else ((), ())
        return wrap(np.array(r, dtype=np.int64)), wrap(np.array(q, dtype=np.int64))
    perms = list(itertools.permutations(range(m), n))

    def total(p):
        s = 0.0
        for i, j in enumerate(p):
            s = s + el[i][j]
        return s
    tots = [total(p) for p in perms]
    if all(special(t) for t in tots) and perms:
        raise ValueError("cost matrix is infeasible")
    pick = None
    for p, t in zip(perms, tots):
        if special(t):
            continue
        ok = And(*[zb(compare("le", t, u)) for u in tots if u is not t])
        if E().decide(ok):
            pick = p
            break
    if pick is None:
        E().dead = True
        raise core.PathAbort("infeasible")
    rows, cols = list(range(n)), list(pick)
    if tr:
        z = sorted(zip(cols, rows))
        rows, cols = [a for a, _ in z], [b for _, b in z]
    return wrap(np.array(rows, dtype=np.int64)), wrap(np.array(cols, dtype=np.int64))


class OptResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **k):
    """a local minimiser: some point within the bounds, with the function's value there"""
    e = E()
    args = args if _isinstance(args, tuple) else (args,)
    x0 = asarr(x0)
    mats(x0)
    e.minimize_calls = getattr(e, "minimize_calls", [])
    vals = np.empty(x0.size, dtype=object)
    pts = e.opt_inputs
    for i in range(x0.size):
        if pts is not None and i < len(pts):
            vals[i] = pts[i]
            continue
        c, s = z3.Real(e.fresh("optc")), z3.Real(e.fresh("opts"))
        e.unit_circle(c, s)
        core._mark_unit(c, s)
        A = core.principal(c, s, "opt")
        if bounds is not None:
            lo, hi = list(bounds)[i]
            if lo is not None:
                e.assume(A.a >= zr(lo))
            if hi is not None:
                e.assume(A.a <= zr(hi))
        vals[i] = SymFloat(A.a, F8, {A: Fraction(1)})
        e.opt_points = getattr(e, "opt_points", [])
        e.opt_points.append(A.a)
    x = SymArray(vals, F8)
    r = fun(x, *args)
    f = r[0] if jac is True else r
    g = r[1] if jac is True else jac(x, *args) if callable(jac) else None
    bounds = None if bounds is None else (list(zip(bounds.lb, bounds.ub)) if hasattr(bounds, "lb") else [tuple(b) for b in bounds])
    e.minimize_calls.append(dict(x0=x0, x=x, fun=f, jac=g, bounds=bounds, f=fun, args=args))
    return OptResult(x=x, fun=f, success=True, status=0, message="", nit=1, nfev=1, jac=g)


def _sp_generic(n):
    def f(*a, **k):
        return GENERIC(n, getattr(_spo, n))(*a, **k)
    return f


MODULES["scipy.optimize"] = Ns("scipy.optimize", _spo, dict(linear_sum_assignment=linear_sum_assignment, minimize=minimize,
                                                             OptimizeResult=OptResult))
_SPOVER = dict(coo_array=coo_array, coo_matrix=coo_array, csr_array=csr_array, csr_matrix=csr_array, csc_array=csr_array,
               issparse=lambda x: _isinstance(x, Sparse), sparray=Sparse, spmatrix=Sparse)
MODULES["scipy.sparse"] = Ns("scipy.sparse", _sps, _SPOVER)
MODULES["scipy.sparse.csgraph"] = Ns("scipy.sparse.csgraph", _csg, dict(breadth_first_tree=breadth_first_tree, breadth_first_order=breadth_first_order))
MODULES["scipy"] = Ns("scipy", _sp, dict(sparse=MODULES["scipy.sparse"], optimize=MODULES["scipy.optimize"]))
MODULES["scipy.sparse"]._over["csgraph"] = MODULES["scipy.sparse.csgraph"]

# ------------------------------------------------------------------ pandas
_pd = None


def _pandas():
    global _pd
    if _pd is not None:
        return _pd
    import pandas as real

    def obj(v):
        if _isinstance(v, SymArray):
            mats(v)
            o = v._elems()
            out = np.empty(len(o), dtype=object)
            for i in range(len(o)):
                x = typed(o[i], v._dt)
                out[i] = x.py() if _isinstance(x, Sym) else (x.item() if _isinstance(x, np.generic) else x)
            return out
        if nd.has_iface(v) and not _isinstance(v, (np.ndarray, np.generic, real.Series, real.Index, real.DataFrame)):
            return obj(asarr(v))
        if _isinstance(v, list) and any(_isinstance(x, Sym) for x in v):
            out = np.empty(len(v), dtype=object)
            out[:] = v
            return out
        return v

    class DataFrame(real.DataFrame):
        def __init__(self, data=None, *a, **k):
            if _isinstance(data, SymArray):
                if data._dt.names is not None:
                    data = {n: obj(data[n]) for n in data._dt.names}
                else:
                    data = {i: obj(data[:, i]) for i in range(data.shape[1])} if data.ndim == 2 else {0: obj(data)}
                    if k.get("columns") is not None:
                        data = dict(zip(k.pop("columns"), data.values()))
            elif _isinstance(data, dict):
                data = {q: obj(v) for q, v in data.items()}
            super().__init__(data, *a, **k)

        @property
        def _constructor(self):
            return DataFrame

        def __setitem__(self, key, val):
            super().__setitem__(key, obj(val))

    def Series(data=None, *a, **k):
        return real.Series(obj(data), *a, **k)
    _pd = Ns("pandas", real, dict(DataFrame=DataFrame, Series=Series), wrapall=False)
    return _pd


class LazyNs(types.ModuleType):
    def __init__(self, name, make):
        super().__init__(name)
        self.__dict__["_make"] = make
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        return getattr(self.__dict__["_make"](), n)


MODULES["pandas"] = LazyNs("pandas", _pandas)


# ------------------------------------------------------------------ mcpid
PALETTE = [1, 2, 6, 11, 12, 21, 22, 24, 25, 111, 211, 2212, -1, -2, -6, -11, -12, -24, -211, -2212]


class PdgRecords:
    """the lookup table, over the codes of a palette; a code outside it raises KeyError"""
    _real = None

    def __init__(self, frac_obj=False):
        from mcpid.lookup import PdgRecords as R
        if PdgRecords._real is None:
            PdgRecords._real = R()
        self.r = PdgRecords._real

    @property
    def table(self):
        return self.r.table

    def properties(self, pdgs, props):
        a = asarr(pdgs)
        mats(a)
        props = list(props)
        flat = list(a._elems().ravel())
        if not any(_isinstance(v, Sym) for v in flat):
            r = self.r.properties(np.array([int(v) for v in flat], dtype=a._dt).reshape(a.shape), props)
            return Records(wrap_mixed(np.asarray(r)))
        e = E()
        pal = e.palette if getattr(e, "palette", None) else PALETTE
        tbl = np.asarray(self.r.properties(np.array(pal), props))
        for v in flat:
            if _isinstance(v, Sym):
                if e.decide(Not(Or(*[v.e == p for p in pal]))):
                    raise KeyError("not in index")
            elif int(v) not in pal:
                tbl = None
        if tbl is None:
            raise Unsupported("code outside the palette")
        fd = [tbl.dtype.fields[p][0] for p in props]
        s = np.empty((len(flat), len(props)), dtype=object)
        for n, v in enumerate(flat):
            for j, (p, d) in enumerate(zip(props, fd)):
                col = [tbl[p][q] for q in range(len(pal))]
                if not _isinstance(v, Sym):
                    s[n, j] = pyc(col[pal.index(int(v))])
                elif d.kind == "f" and all(np.isfinite(c) for c in col) or d.kind in "iu":
                    x = pyc(col[-1])
                    for q in range(len(pal) - 2, -1, -1):
                        x = ite(v.e == pal[q], typed(pyc(col[q]), d), typed(x, d) if not _isinstance(x, Sym) else x)
                        x = pyc(x)
                    s[n, j] = x
                else:
                    s[n, j] = pyc(col[pal.index(e.pick_int(v.e))])
        dt = np.dtype([(p, d) for p, d in zip(props, fd)])
        return Records(SymArray(s.reshape(a.shape + (len(props),)), dt))


def wrap_mixed(r):
    return wrap(r)


class Records(SymArray):
    def __init__(self, a):
        super().__init__(a._s, a._dt)

    def __getattr__(self, n):
        if n.startswith("_") or n not in (self._dt.names or ()):
            raise AttributeError(n)
        return self[n]


import mcpid.lookup as _mcl
MODULES["mcpid.lookup"] = Ns("mcpid.lookup", _mcl, dict(PdgRecords=PdgRecords), wrapall=False)


# ------------------------------------------------- out of the model's reach
class Missing(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported("%s.%s" % (self.__name__, n))
        return f


class AkArray:
    """an awkward array of numbers, lists or records: one Python object per row"""
    def __init__(self, rows, names=None, dts=None):
        if _isinstance(rows, AkArray):
            rows, names, dts = rows.v, rows.fields, rows.dts
        elif _isinstance(rows, dict):
            names, cols = list(rows), [_ak_rows(c) for c in rows.values()]
            rows = [dict(zip(names, r)) for r in zip(*cols)]
        elif _isinstance(rows, SymArray) or _isinstance(rows, np.ndarray):
            o = ak_from_numpy(rows)
            rows, names, dts = o.v, o.fields, o.dts
        rows = list(rows)
        if names is None and rows and _isinstance(rows[0], dict):
            names = list(rows[0])
        self.v, self.fields, self.dts = rows, list(names or []), dts

    def _col(self, n):
        i = self.fields.index(n)
        return AkArray([r[n] for r in self.v], None, self.dts[i] if self.dts else None)

    def __getattr__(self, n):
        if n.startswith("__") or n not in self.__dict__.get("fields", ()):
            raise AttributeError(n)
        return self._col(n)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        for r in self.v:
            yield AkArray(r) if _isinstance(r, list) else r

    def __getitem__(self, k):
        if _isinstance(k, str):
            if k not in self.fields:
                raise IndexError("no field %r" % k)
            return self._col(k)
        if _isinstance(k, slice):
            q = [None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)]
            return AkArray(self.v[slice(*q)], self.fields, self.dts)
        if _isinstance(k, AkArray):
            k = ak_to_numpy(k)
        if _isinstance(k, (list, SymArray, np.ndarray)):
            a = asarr(k) if not _isinstance(k, list) or k else asarr(np.zeros(0, np.int64))
            if a.ndim == 1:
                vals = list(a._elems())
                if a._dt.kind == "b":
                    if len(vals) != len(self.v):
                        raise ValueError("cannot fit jagged slice of length %d into %d" % (len(vals), len(self.v)))
                    return AkArray([r for r, b in zip(self.v, vals) if bool(b)], self.fields, self.dts)
                if a._dt.kind in "iu":
                    pos = [E().pick_int(x.e) if _isinstance(x, Sym) else int(x) for x in vals]
                    if any(not -len(self.v) <= x < len(self.v) for x in pos):
                        raise IndexError("index out of range")
                    return AkArray([self.v[x] for x in pos], self.fields, self.dts)
            raise Unsupported("awkward subscript")
        i = operator.index(k)
        r = self.v[i]
        return AkArray(r) if _isinstance(r, list) else r

    def to_list(self):
        return [dict(r) if _isinstance(r, dict) else list(r) if _isinstance(r, list) else r for r in self.v]

    tolist = to_list

    def to_numpy(self, allow_missing=True):
        return ak_to_numpy(self)


def _ak_rows(x):
    return list(x.v) if _isinstance(x, AkArray) else list(asarr(x)._elems()) if not _isinstance(x, list) else list(x)


def ak_from_numpy(a, *args, **k):
    a = asarr(a)
    mats(a)
    if a._dt.names:
        fd = [a._dt.fields[n][0] for n in a._dt.names]
        return AkArray([dict(zip(a._dt.names, r)) for r in a._s.copy()], a._dt.names, fd)
    if a.ndim == 1:
        return AkArray(list(a._elems()), None, a._dt)
    return AkArray([[x for x in r] for r in a._s])


def ak_to_numpy(x, allow_missing=True):
    if not _isinstance(x, AkArray):
        return asarr(x)
    if x.fields:
        fd = x.dts or [F8] * len(x.fields)
        s = np.empty((len(x.v), len(x.fields)), dtype=object)
        for i, r in enumerate(x.v):
            for j, n in enumerate(x.fields):
                s[i, j] = cast(r[n], fd[j])
        return SymArray(s, np.dtype(list(zip(x.fields, fd))))
    if any(_isinstance(r, list) for r in x.v):
        if len({len(r) for r in x.v}) > 1:
            raise ValueError("cannot convert to RegularArray because subarray lengths are not regular")
    if not x.v:
        return asarr(np.zeros(0, x.dts if x.dts is not None else np.float64))
    return asarr(list(x.v), x.dts) if x.dts is not None else asarr(list(x.v))


def ak_zip(d, *a, **k):
    return AkArray(d)


import awkward as _ak
MODULES["awkward"] = Ns("awkward", _ak, dict(from_numpy=ak_from_numpy, to_numpy=ak_to_numpy, to_list=lambda x: AkArray(x).to_list(), zip=ak_zip,
                                             Array=AkArray, num=lambda x, axis=1: asarr(np.array([len(r) for r in x.v], dtype=np.int64))), wrapall=False)


def _missing(n):
    if n.startswith("__"):
        raise AttributeError(n)
    raise Unsupported("fastjet." + n)


def _fj_fields(x):
    x = AkArray(x) if not _isinstance(x, list) else AkArray(x)
    return {n: [r[n] for r in x.v] for n in x.fields}


from . import fjmodel
MODULES["fastjet"] = fjmodel.make(lambda: E().jets_found, _fj_fields, lambda rows: AkArray([dict(zip(fjmodel.NAMES, r)) for r in rows], fjmodel.NAMES, [F8] * 4),
                                  AkArray, _missing)

def _tabulate(*a, **k):
    t = E().tables
    if t is None:
        raise Unsupported("tabulate.tabulate")
    return fjmodel.record_table(t, *a, **k)


import tabulate as _tb
MODULES["tabulate"] = Ns("tabulate", _tb, dict(tabulate=_tabulate), wrapall=False)

# ------------------------------------------------------------------- numpy
class _DtMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, np.dtype)

    def __call__(cls, *a, **k):
        return as_dt(*a, **k)

    def __getitem__(cls, i):
        return np.dtype[i]


class DtypeShim(metaclass=_DtMeta):
    pass


npshim.OVERRIDES["dtype"] = DtypeShim
import numpy.lib.recfunctions as _rfn, numpy.lib as _nl, numpy.random as _nr, numpy.linalg as _nla
MODULES["numpy"] = np_
MODULES["numpy.lib.recfunctions"] = Ns("numpy.lib.recfunctions", _rfn, npshim.RFN)
MODULES["numpy.lib"] = Ns("numpy.lib", _nl, dict(recfunctions=MODULES["numpy.lib.recfunctions"]), wrapall=False)
MODULES["numpy.linalg"] = Ns("numpy.linalg", _nla, npshim.LINALG)
MODULES["numpy.random"] = Ns("numpy.random", _nr, npshim.RANDOM)
npshim.OVERRIDES.update(lib=MODULES["numpy.lib"], linalg=MODULES["numpy.linalg"], random=MODULES["numpy.random"])
