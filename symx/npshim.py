"""The numpy namespace seen by the code under test."""
import functools, math, operator, types, warnings
import numpy as np
import z3
from . import core, nd
from .core import (Sym, SymBool, SymInt, SymFloat, SymComplex, And, Or, Not, Ite, mkb, mki, mkf, zb, zi, zr,
                   special, kind, ite, arith, compare, NAN, INF)
from .nd import (SymArray, LazyArray, UF, UF_TABLE, asarr, asarray, cast, typed, from_elems, map_obj, mats, E,
                 B_, I8, F8, C16, Unsupported, wrap, unwrap, pyc, as_dt)

F = as_dt(np.float64)


# ------------------------------------------------------------ ufunc kernels
def k2(op):
    return lambda a, b: arith(op, a, b)


def kc(op):
    return lambda a, b: compare(op, a, b)


def k_div(a, b):
    e = E()
    old = e.numba
    if old == 1:
        e.numba = 2
    try:
        a = typed(pyc(a), F8) if kind(a) in "bi" and not isinstance(a, Sym) else a
        b = typed(pyc(b), F8) if kind(b) in "bi" and not isinstance(b, Sym) else b
        if isinstance(b, Sym) and kind(b) == "f" and b.dtype is None:
            b = SymFloat(b.e, F8, b.ang, b.lg)
        if isinstance(b, SymInt):
            b = cast(b, F8)
        if kind(a) == "f" or kind(a) == "i":
            a = cast(pyc(a), F8)
            a = typed(a, F8)
        if not isinstance(b, Sym) and kind(b) == "f" and b == 0 or isinstance(b, Sym) and kind(b) == "f":
            if isinstance(b, Sym):
                z = e.decide(b.e == 0)
            else:
                z = True
            if z:
                if special(a):
                    return a
                s = core.sign_of(a) if kind(a) != "c" else 1
                if not e.numba:
                    warnings.warn("divide by zero encountered in divide" if s else "invalid value encountered in divide",
                                  RuntimeWarning, stacklevel=5)
                return np.float64(NAN if s == 0 else s * INF)
        return arith("truediv", a, b)
    finally:
        e.numba = old


def k_abs(a):
    if isinstance(a, SymComplex):
        return core.cabs(a)
    return abs(a)


def k_sign(a):
    if isinstance(a, SymInt):
        return mki(z3.If(a.e > 0, z3.IntVal(1), z3.If(a.e < 0, z3.IntVal(-1), z3.IntVal(0))), -1, 1, a.dtype)
    if isinstance(a, SymBool):
        raise TypeError("sign of bool")
    return np.float64(core.sign_of(a))


def k_log(f):
    return lambda a: core.flog(a, F) if not special(a) else f(a)


def k_exp(a):
    if isinstance(a, SymComplex):
        c, s = core.cos_sin(a.im)
        m = k_exp(a.re) if isinstance(a.re, Sym) or a.re != 0 else 1.0
        return SymComplex(arith("mul", m, c), arith("mul", m, s))
    return mkf(core.fexp(a), F)


def k_expm1(a):
    return arith("sub", k_exp(a), 1.0)


def k_log1p(a):
    return core.flog(arith("add", a, 1.0), F)


def k_cos(a):
    return core.cos_sin(a)[0]


def k_sin(a):
    return core.cos_sin(a)[1]


def k_tan(a):
    c, s = core.cos_sin(a)
    return arith("truediv", s, c)


def k_sinh(a):
    x = k_exp(a)
    return arith("mul", 0.5, arith("sub", x, arith("truediv", 1.0, x)))


def k_cosh(a):
    x = k_exp(a)
    return arith("mul", 0.5, arith("add", x, arith("truediv", 1.0, x)))


def k_tanh(a):
    x = k_exp(a)
    y = arith("truediv", 1.0, x)
    return arith("truediv", arith("sub", x, y), arith("add", x, y))


def k_arctanh(a):
    x = zr(a)
    e = E()
    if e.decide(z3.And(x > -1, x < 1)):
        return arith("mul", 0.5, core.flog(arith("truediv", arith("add", 1.0, a), arith("sub", 1.0, a)), F))
    if e.decide(x == 1):
        return np.float64(INF)
    if e.decide(x == -1):
        return np.float64(-INF)
    return np.float64(NAN)


def k_arcsinh(a):
    r = core.fsqrt(arith("add", arith("mul", a, a), 1.0), F)
    return core.flog(arith("add", a, r), F)


def k_arccos(a):
    x = zr(a)
    if E().decide(z3.Or(x < -1, x > 1)):
        return np.float64(NAN)
    s = core.root(1 - x * x)
    x = z3.simplify(x)
    core._mark_unit(x, s)
    A = core.principal(x, s)
    return SymFloat(A.a, F, {A: core.Fraction(1)})


def k_arcsin(a):
    x = zr(a)
    if E().decide(z3.Or(x < -1, x > 1)):
        return np.float64(NAN)
    c = core.root(1 - x * x)
    x = z3.simplify(x)
    core._mark_unit(c, x)
    A = core.principal(c, x)
    return SymFloat(A.a, F, {A: core.Fraction(1)})


def k_arctan(a):
    return core.arg(1.0, a)


def k_max(a, b):
    for v in (a, b):
        if special(v) and math.isnan(v):
            return v
    c = compare("ge", a, b)
    return ite(zb(c), a, b)


def k_min(a, b):
    for v in (a, b):
        if special(v) and math.isnan(v):
            return v
    c = compare("le", a, b)
    return ite(zb(c), a, b)


def k_fmax(a, b):
    if special(a) and math.isnan(a):
        return b
    if special(b) and math.isnan(b):
        return a
    return k_max(a, b)


def k_fmin(a, b):
    if special(a) and math.isnan(a):
        return b
    if special(b) and math.isnan(b):
        return a
    return k_min(a, b)


def tb(a):
    """truth value as a z3 Bool"""
    if special(a):
        return z3.BoolVal(True)
    if isinstance(a, SymComplex):
        return zb(compare("ne", a, 0))
    return zb(a)


def k_invert(a):
    return ~a


def k_copysign(a, b):
    m = abs(a)
    neg = (math.copysign(1.0, b) < 0) if not isinstance(b, Sym) else bool(compare("lt", b, 0.0))
    return -m if neg else m


def k_floor(a):
    if isinstance(a, (SymInt, SymBool)):
        return a
    return mkf(z3.ToReal(z3.ToInt(zr(a))), F)


def k_ceil(a):
    if isinstance(a, (SymInt, SymBool)):
        return a
    return mkf(-z3.ToReal(z3.ToInt(-zr(a))), F)


def k_trunc(a):
    if isinstance(a, (SymInt, SymBool)):
        return a
    return k_floor(a) if bool(compare("ge", a, 0.0)) else k_ceil(a)


def k_rint(a):
    if isinstance(a, (SymInt, SymBool)):
        return a
    x = zr(a)
    f = z3.ToInt(x + z3.RealVal("1/2"))
    tie = z3.ToReal(f) - x == z3.RealVal("1/2")
    return mkf(z3.ToReal(z3.If(z3.And(tie, f % 2 != 0), f - 1, f)), F)


def k_neg(a):
    if isinstance(a, SymBool):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return -a


def k_sub(a, b):
    return arith("sub", a, b)


def k_add(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return mkb(Or(zb(a), zb(b)))
    return arith("add", a, b)


def k_mul(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return mkb(And(zb(a), zb(b)))
    return arith("mul", a, b)


KERNELS = dict(
    add=k_add, subtract=k_sub, multiply=k_mul, divide=k_div, true_divide=k_div, floor_divide=k2("floordiv"),
    remainder=k2("mod"), mod=k2("mod"), fmod=None, power=k2("pow"), float_power=k2("pow"),
    negative=k_neg, positive=lambda a: a, absolute=k_abs, fabs=k_abs, sign=k_sign, conjugate=lambda a: a.conjugate(),
    sqrt=lambda a: core.fsqrt(a, F), square=lambda a: arith("mul", a, a), reciprocal=lambda a: k_div(np.float64(1.0), a),
    cbrt=None, exp=k_exp, exp2=None, expm1=k_expm1, log=k_log(np.log),
    log2=lambda a: arith("mul", core.flog(a, F), 1 / math.log(2)), log10=lambda a: arith("mul", core.flog(a, F), 1 / math.log(10)),
    log1p=k_log1p, sin=k_sin, cos=k_cos, tan=k_tan, arcsin=k_arcsin, arccos=k_arccos, arctan=k_arctan,
    arctan2=lambda y, x: core.arg(x, y), hypot=lambda a, b: core.hypot(a, b), sinh=k_sinh, cosh=k_cosh, tanh=k_tanh,
    arcsinh=k_arcsinh, arccosh=None, arctanh=k_arctanh,
    deg2rad=lambda a: arith("mul", a, math.pi / 180), radians=lambda a: arith("mul", a, math.pi / 180),
    rad2deg=lambda a: arith("mul", a, 180 / math.pi), degrees=lambda a: arith("mul", a, 180 / math.pi),
    maximum=k_max, minimum=k_min, fmax=k_fmax, fmin=k_fmin,
    less=kc("lt"), less_equal=kc("le"), greater=kc("gt"), greater_equal=kc("ge"), equal=kc("eq"), not_equal=kc("ne"),
    logical_and=lambda a, b: mkb(And(tb(a), tb(b))), logical_or=lambda a, b: mkb(Or(tb(a), tb(b))),
    logical_xor=lambda a, b: mkb(z3.simplify(z3.Xor(tb(a), tb(b)))), logical_not=lambda a: mkb(Not(tb(a))),
    bitwise_and=k2("and_"), bitwise_or=k2("or_"), bitwise_xor=k2("xor"), invert=k_invert, bitwise_not=k_invert,
    left_shift=k2("lshift"), right_shift=k2("rshift"),
    isnan=lambda a: False, isinf=lambda a: False, isfinite=lambda a: True, signbit=lambda a: compare("lt", a, 0.0),
    copysign=k_copysign, floor=k_floor, ceil=k_ceil, trunc=k_trunc, rint=k_rint,
    matmul=None, isnat=None, nextafter=None, spacing=None, modf=None, ldexp=None, frexp=None, gcd=None, lcm=None,
    heaviside=lambda a, b: ite(zb(compare("gt", a, 0.0)), 1.0, ite(zb(compare("lt", a, 0.0)), 0.0, b)),
    divmod=lambda a, b: (arith("floordiv", a, b), arith("mod", a, b)), logaddexp=None, logaddexp2=None,
)
for _n, _k in KERNELS.items():
    _r = getattr(np, _n, None)
    if isinstance(_r, np.ufunc):
        u = UF(_n, _r, _k)
        UF_TABLE[_n] = u
        UF_TABLE.setdefault(_r.__name__, u)
for _a, _b in dict(true_divide="divide", abs="absolute", conj="conjugate", acos="arccos", asin="arcsin", atan="arctan",
                   atan2="arctan2", sinh="sinh", acosh="arccosh", asinh="arcsinh", atanh="arctanh", pow="power",
                   bitwise_invert="invert", bitwise_left_shift="left_shift", bitwise_right_shift="right_shift").items():
    if _b in UF_TABLE:
        UF_TABLE.setdefault(_a, UF_TABLE[_b])


# complex absolute value etc. keep working for complex isnan
def _cx(f, comb):
    def g(a):
        if isinstance(a, SymComplex):
            return mkb(comb(zb(bool(getattr(np, f)(a.re)) if not isinstance(a.re, Sym) else f == "isfinite"),
                            zb(bool(getattr(np, f)(a.im)) if not isinstance(a.im, Sym) else f == "isfinite")))
        return f == "isfinite"
    return g


UF_TABLE["isnan"].kernel = _cx("isnan", Or)
UF_TABLE["isinf"].kernel = _cx("isinf", Or)
UF_TABLE["isfinite"].kernel = _cx("isfinite", And)

OVERRIDES = {}


def shim(*names):
    def deco(f):
        for n in names or (f.__name__,):
            OVERRIDES[n] = f
        return f
    return deco


NOV = np._NoValue


# ---------------------------------------------------------------- creation
def _creation():
    OVERRIDES.update(array=nd.array, asarray=nd.asarray, zeros=nd.zeros, ones=nd.ones, empty=nd.empty,
                     ndarray=nd.NdShim)


_creation()


@shim("full")
def full(shape, fill_value, dtype=None, order="C", **k):
    return nd.full(shape, fill_value, dtype)


@shim("asanyarray")
def asanyarray(x, dtype=None, **k):
    return asarray(x, dtype)


@shim("asarray_chkfinite")
def asarray_chkfinite(x, dtype=None, **k):
    return asarray(x, dtype)


@shim("ascontiguousarray")
def ascontiguousarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    if a.ndim == 0:
        return a.reshape(1)
    if isinstance(a, LazyArray) and not a.materialised:
        return a
    if a._s.flags.c_contiguous:
        return a
    return SymArray(np.ascontiguousarray(a._s), a._dt)


@shim("asfortranarray")
def asfortranarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    if a._t:
        s = np.moveaxis(np.asfortranarray(np.moveaxis(a._s, -1, 0)), 0, -1)
        return SymArray(s, a._dt)
    return SymArray(np.asfortranarray(a._s), a._dt)


@shim("require")
def require(a, dtype=None, requirements=None, **k):
    return ascontiguousarray(a, dtype)


@shim("copy")
def copy(a, order="K", subok=False):
    return asarr(a).copy()


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = asarr(a)
        mats(a)
        return f(a.shape if shape is None else shape, dtype or a._dt)
    return g


OVERRIDES["zeros_like"] = _like(nd.zeros)
OVERRIDES["ones_like"] = _like(nd.ones)
OVERRIDES["empty_like"] = _like(nd.empty)


@shim()
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    a = asarr(a)
    mats(a)
    return nd.full(a.shape if shape is None else shape, fill_value, dtype or a._dt)


@shim("frombuffer", "fromiter")
def fromiter(it, dtype, count=-1, **k):
    return asarray(list(it), dtype)


@shim()
def arange(*a, dtype=None, **k):
    a = [operator.index(x) if isinstance(x, (SymInt, SymBool)) else unwrap(x, "arange") for x in a]
    return wrap(np.arange(*a, dtype=dtype))


@shim()
def eye(N, M=None, k=0, dtype=float, **kw):
    return wrap(np.eye(operator.index(N), None if M is None else operator.index(M), operator.index(k), dtype=dtype))


@shim()
def identity(n, dtype=None, **k):
    return wrap(np.identity(operator.index(n), dtype=dtype))


# -------------------------------------------------------------- attributes
@shim()
def shape(a):
    try:
        return a.shape
    except AttributeError:
        return asarr(a).shape


@shim()
def ndim(a):
    try:
        return a.ndim
    except AttributeError:
        return asarr(a).ndim


@shim()
def size(a, axis=None):
    if axis is None:
        try:
            return a.size
        except AttributeError:
            return asarr(a).size
    return shape(a)[axis]


@shim()
def result_type(*a):
    return np.result_type(*[x._dt if isinstance(x, SymArray) else (nd.leaf_dtype(x) if isinstance(x, Sym) else x) for x in a])


@shim()
def can_cast(a, b, casting="safe"):
    return np.can_cast(a._dt if isinstance(a, SymArray) else a, b, casting)


@shim()
def iscomplexobj(x):
    return asarr(x)._dt.kind == "c"


@shim()
def isrealobj(x):
    return asarr(x)._dt.kind != "c"


@shim()
def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


@shim()
def shares_memory(a, b, *k, **kw):
    return np.shares_memory(asarr(a)._s, asarr(b)._s)


@shim()
def may_share_memory(a, b, *k, **kw):
    return np.may_share_memory(asarr(a)._s, asarr(b)._s)


# -------------------------------------------------------- views / reshaping
@shim()
def reshape(a, shape=None, order="C", copy=None, newshape=None):
    return asarr(a).reshape(shape if shape is not None else newshape, order=order)


@shim()
def ravel(a, order="C"):
    return asarr(a).reshape(-1)


@shim("transpose", "permute_dims")
def transpose(a, axes=None):
    return asarr(a).transpose(axes)


@shim("matrix_transpose")
def matrix_transpose(a):
    return asarr(a).swapaxes(-1, -2)


@shim()
def swapaxes(a, x, y):
    return asarr(a).swapaxes(x, y)


@shim()
def squeeze(a, axis=None):
    return asarr(a).squeeze(axis)


@shim()
def moveaxis(a, source, destination):
    a = asarr(a)
    order = np.moveaxis(np.empty((1,) * 0 + tuple(range(1, a.ndim + 1))), source, destination).shape
    return a.transpose([x - 1 for x in order])


@shim()
def expand_dims(a, axis):
    a = asarr(a)
    mats(a)
    return a.reshape(np.expand_dims(np.empty(a.shape), axis).shape)


@shim()
def atleast_1d(*arys):
    r = [asarr(a) if asarr(a).ndim else asarr(a).reshape(1) for a in arys]
    return r[0] if len(r) == 1 else tuple(r)


@shim()
def atleast_2d(*arys):
    r = []
    for a in arys:
        a = asarr(a)
        mats(a)
        r.append(a if a.ndim >= 2 else a.reshape(1, -1))
    return r[0] if len(r) == 1 else tuple(r)


@shim()
def broadcast_to(a, shape, subok=False):
    a = asarr(a)
    mats(a)
    shape = nd.norm_shape(shape)
    return SymArray(np.broadcast_to(a._s, shape + (a._s.shape[-1:] if a._t else ())), a._dt)


@shim()
def broadcast_arrays(*a, subok=False):
    a = [asarr(x) for x in a]
    s = np.broadcast_shapes(*[x.shape for x in a])
    return tuple(broadcast_to(x, s) for x in a)


@shim()
def flip(a, axis=None):
    a = asarr(a)
    mats(a)
    axes = range(a.ndim) if axis is None else ((axis,) if isinstance(axis, int) else axis)
    axes = [x % a.ndim for x in axes]
    return a[tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim))]


@shim()
def flipud(a):
    return flip(a, 0)


@shim()
def fliplr(a):
    return flip(a, 1)


@shim()
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    mats(a)
    s = a._s.diagonal(offset, axis1 % a.ndim, axis2 % a.ndim)
    if a._t:
        s = np.moveaxis(s, -2, -1)
    return SymArray(s, a._dt)


@shim()
def split(a, ind, axis=0):
    a = asarr(a)
    mats(a)
    ind = unwrap(ind, "split") if not isinstance(ind, int) else ind
    return [SymArray(s, a._dt) for s in np.split(a._s, ind, axis % a.ndim)]


@shim()
def array_split(a, ind, axis=0):
    a = asarr(a)
    mats(a)
    return [SymArray(s, a._dt) for s in np.array_split(a._s, ind, axis % a.ndim)]


@shim()
def hsplit(a, ind):
    a = asarr(a)
    return split(a, ind, 1 if a.ndim > 1 else 0)


@shim()
def vsplit(a, ind):
    return split(a, ind, 0)


# -------------------------------------------------- structural (copying)
def structural(real, listarg=True, dtypes=None):
    """a function that only moves elements around: run it on indices, gather afterwards"""
    def f(arrs, *a, **k):
        single = not listarg
        seq = [arrs] if single else list(arrs)
        seq = [asarr(x) for x in seq]
        for x in seq:
            mats(x)
        dt = k.pop("dtype", None)
        dt = as_dt(dt) if dt is not None else nd.result_type([x._dt for x in seq])
        if len(seq) > 1:
            seq = [x if x._dt == dt else x.astype(dt) for x in seq]
        elif dt != seq[0]._dt:
            seq = [seq[0].astype(dt)]
        pool, ids, n = [], [], 1
        for x in seq:
            e = x._elems()
            ids.append(np.arange(n, n + e.size).reshape(e.shape))
            pool.extend(e.ravel().tolist() if e.dtype == object else list(e.ravel()))
            n += e.size
        r = real(ids[0] if single else ids, *a, **k)
        z = nd.zeros((), dt)._elems()[()]

        def back(r):
            o = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                o[i] = pool[r[i] - 1] if r[i] else z
            return from_elems(o, dt)
        if isinstance(r, (list, tuple)):
            return type(r)(back(x) for x in r)
        return back(np.asarray(r))
    return f


for _n in ("concatenate", "concat", "stack", "hstack", "vstack", "dstack", "column_stack"):
    if hasattr(np, _n):
        OVERRIDES[_n] = structural(getattr(np, _n))
for _n in ("tril", "triu", "diag", "diagflat", "rot90", "roll", "resize", "trim_zeros", "repeat", "tile", "delete", "take"):
    if hasattr(np, _n) and _n not in ("trim_zeros", "take"):
        _f = structural(getattr(np, _n), listarg=False)
        OVERRIDES[_n] = (lambda g: lambda a, *x, **k: g(a, *[unwrap(conc(v), "structural argument") for v in x],
                                                          **{q: unwrap(conc(v), "structural argument") for q, v in k.items()}))(_f)


def conc(v):
    """fork over integer arguments"""
    if isinstance(v, SymInt):
        return E().pick_int(v.e)
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymArray):
        mats(v)
        if v._dt.kind == "b":
            return wrap(np.array([bool(x) for x in v._s.ravel()]).reshape(v.shape))
        if v._dt.kind in "iu":
            return nd.concrete_index(v)
    if isinstance(v, (list, tuple)):
        return type(v)(conc(x) for x in v)
    return v


@shim()
def append(arr, values, axis=None):
    arr, values = asarr(arr), asarr(values)
    if axis is None:
        arr, values = arr.reshape(-1), values.reshape(-1)
        axis = 0
    return OVERRIDES["concatenate"]([arr, values], axis=axis)


@shim()
def insert(arr, obj, values, axis=None):
    arr, v = asarr(arr), asarr(values)
    mats(arr), mats(v)
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    obj = unwrap(conc(obj), "insert")
    ids = np.arange(1, arr.size + 1).reshape(arr.shape)
    vid = np.arange(arr.size + 1, arr.size + 1 + v.size).reshape(v.shape)
    r = np.insert(ids, obj, vid, axis=axis)
    pool = list(arr._elems().ravel()) + [cast(x, arr._dt) for x in v._elems().ravel()]
    return from_elems(map_obj(lambda i: pool[i - 1], r.astype(object)), arr._dt)


@shim()
def pad(a, pad_width, mode="constant", **k):
    cv = k.pop("constant_values", 0)
    if mode != "constant" or not (isinstance(cv, (int, float)) and cv == 0):
        return GENERIC("pad", np.pad)(a, pad_width, mode=mode, constant_values=cv, **k)
    return structural(lambda x, w: np.pad(x, w), listarg=False)(a, unwrap(conc(pad_width), "pad"))


@shim()
def take(a, indices, axis=None, out=None, mode="raise"):
    a, ix = asarr(a), asarr(indices)
    mats(a)
    if axis is None:
        r = a.reshape(-1)[ix if ix.ndim else ix[()]]
    else:
        axis %= a.ndim
        r = a[(slice(None),) * axis + (ix if ix.ndim else ix[()],)]
    if out is not None:
        out[...] = r
        return out
    return r


@shim()
def block(arrays):
    def go(x):
        return [go(i) for i in x] if isinstance(x, list) else asarr(x)
    a = go(arrays)

    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0

    def join(x, d, D):
        if not isinstance(x, list):
            return x
        return OVERRIDES["concatenate"]([join(i, d + 1, D) for i in x], axis=-(D - d))
    return join(a, 0, depth(a))


@shim()
def compress(condition, a, axis=None, out=None):
    a = asarr(a)
    c = asarr(condition).astype(B_)
    if axis is None:
        return a.reshape(-1)[c]
    return a[(slice(None),) * axis + (c,)]


@shim()
def extract(condition, arr):
    return asarr(arr).reshape(-1)[asarr(condition).reshape(-1).astype(B_)]


# ----------------------------------------------------------- object-eval
def objeval(real, name):
    """arithmetic functions numpy can evaluate over object arrays"""
    def f(*args, **k):
        dums, objs = [], []

        def conv(x):
            if isinstance(x, (SymArray, np.ndarray)) or (nd.has_iface(x) and not isinstance(x, (Sym, np.generic))) or isinstance(x, Sym) \
                    or isinstance(x, (list, tuple)) and _hassym(x):
                a = asarr(x)
                mats(a)
                if a._dt.names is not None:
                    raise TypeError("structured array in %s" % name)
                return map_obj(lambda v: typed(v, a._dt), a._elems()), np.ones(a.shape, a._dt)
            return x, x
        for a in args:
            o, d = conv(a)
            objs.append(o), dums.append(d)
        ko, kd = {}, {}
        for q, v in k.items():
            ko[q], kd[q] = conv(v)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            ref = real(*dums, **kd)
        dt = np.asarray(ref).dtype
        r = real(*objs, **ko)
        if isinstance(r, np.ndarray):
            r = map_obj(lambda v: cast(pyc(v), dt), r)
            r = from_elems(r, dt)
            return r if r.ndim else typed(r._elems()[()], dt)
        return typed(cast(pyc(r), dt), dt)
    return f


def _hassym(x):
    for v in x:
        if isinstance(v, (Sym, SymArray, nd.SymRecord)) or nd.has_iface(v) and not isinstance(v, np.generic):
            return True
        if isinstance(v, (list, tuple)) and _hassym(v):
            return True
    return False


for _n in ("inner", "tensordot", "kron", "trace", "einsum", "diff", "ediff1d", "cross", "convolve", "correlate", "polyval", "vander", "gradient", "trapezoid", "vecdot"):
    if hasattr(np, _n):
        OVERRIDES[_n] = objeval(getattr(np, _n), _n)


@shim()
def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        r = UF_TABLE["multiply"](a, b)
    elif a.ndim <= 2 and b.ndim <= 2:
        r = nd.matmul(a, b)
    else:
        r = objeval(np.dot, "dot")(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


@shim()
def vdot(a, b):
    return nd.matmul(UF_TABLE["conjugate"](asarr(a).reshape(-1)), asarr(b).reshape(-1))


@shim()
def outer(a, b, out=None):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    mats(a), mats(b)
    return UF_TABLE["multiply"](a.reshape(-1, 1), b.reshape(1, -1))


# ------------------------------------------------------------- reductions
def _wrapred(obj, uf, method, axis, dtype, out, **kw):
    kw = {k: v for k, v in kw.items() if v is not NOV}
    if not isinstance(obj, (SymArray, np.ndarray)):
        m = getattr(obj, method, None)
        if m is not None and not isinstance(obj, (Sym, np.generic)):
            if dtype is not None:
                return m(axis=axis, dtype=dtype, out=out, **kw)
            return m(axis=axis, out=out, **kw)
    if isinstance(obj, (list, tuple)) and not obj:
        obj = asarr(obj)
    return UF_TABLE[uf].reduce(obj, axis, dtype, out, **{k: v for k, v in kw.items()})


@shim()
def sum(a, axis=None, dtype=None, out=None, keepdims=NOV, initial=NOV, where=NOV):
    if isinstance(a, types.GeneratorType):
        r = 0
        for x in a:
            r = r + x
        return r
    return _wrapred(a, "add", "sum", axis, dtype, out, keepdims=keepdims, initial=initial, where=where)


@shim()
def prod(a, axis=None, dtype=None, out=None, keepdims=NOV, initial=NOV, where=NOV):
    return _wrapred(a, "multiply", "prod", axis, dtype, out, keepdims=keepdims, initial=initial, where=where)


@shim()
def any(a, axis=None, out=None, keepdims=NOV, where=NOV):
    return _wrapred(a, "logical_or", "any", axis, None, out, keepdims=keepdims, where=where)


@shim()
def all(a, axis=None, out=None, keepdims=NOV, where=NOV):
    return _wrapred(a, "logical_and", "all", axis, None, out, keepdims=keepdims, where=where)


@shim("max", "amax")
def max_(a, axis=None, out=None, keepdims=NOV, initial=NOV, where=NOV):
    return _wrapred(a, "maximum", "max", axis, None, out, keepdims=keepdims, initial=initial, where=where)


@shim("min", "amin")
def min_(a, axis=None, out=None, keepdims=NOV, initial=NOV, where=NOV):
    return _wrapred(a, "minimum", "min", axis, None, out, keepdims=keepdims, initial=initial, where=where)


@shim()
def ptp(a, axis=None, out=None, keepdims=NOV):
    return max_(asarr(a), axis, keepdims=keepdims) - min_(asarr(a), axis, keepdims=keepdims)


def _count(a, axis):
    mats(a)
    if axis is None:
        return a.size
    ax = axis if isinstance(axis, tuple) else (axis,)
    n = 1
    for x in ax:
        n *= a.shape[x]
    return n


@shim()
def mean(a, axis=None, dtype=None, out=None, keepdims=NOV, where=NOV):
    if not isinstance(a, (SymArray, np.ndarray, list, tuple, Sym, np.generic)) and hasattr(a, "mean"):
        return a.mean(axis=axis, dtype=dtype, out=out)
    a = asarr(a)
    if where is not NOV and where is not True:
        n = sum(broadcast_to(asarr(where), a.shape), axis=axis)
        s = UF_TABLE["add"].reduce(a, axis, F8 if a._dt.kind in "biu" else dtype, None, where=where)
        return UF_TABLE["true_divide"](s, n)
    n = _count(a, axis)
    if n == 0:
        warnings.warn("Mean of empty slice", RuntimeWarning, stacklevel=2)
    dt = dtype or (F8 if a._dt.kind in "biu" else None)
    s = UF_TABLE["add"].reduce(a, axis, dt, None, **({} if keepdims is NOV else {"keepdims": keepdims}))
    r = UF_TABLE["true_divide"](s, n)
    if out is not None:
        out[...] = r
        return out
    return r


@shim()
def average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a)
    if weights is None:
        r = mean(a, axis)
        return (r, _count(a, axis)) if returned else r
    w = asarr(weights)
    s = sum(w, axis=axis)
    if isinstance(s, Sym) and not isinstance(s, SymComplex):
        if E().decide(zr(s) == 0):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = UF_TABLE["true_divide"](sum(UF_TABLE["multiply"](a, w), axis=axis), s)
    return (r, s) if returned else r


@shim()
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=NOV, where=NOV, mean=NOV, correction=NOV):
    a = asarr(a)
    n = _count(a, axis)
    m = OVERRIDES["mean"](a, axis, keepdims=True) if axis is not None else OVERRIDES["mean"](a)
    d = UF_TABLE["subtract"](a, m)
    if a._dt.kind == "c":
        d = UF_TABLE["absolute"](d)
    s = UF_TABLE["add"].reduce(UF_TABLE["multiply"](d, d), axis)
    k = n - ddof
    if k <= 0:
        warnings.warn("Degrees of freedom <= 0 for slice", RuntimeWarning, stacklevel=2)
        k = 0
    return UF_TABLE["true_divide"](s, k)


@shim()
def std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return UF_TABLE["sqrt"](var(a, axis, dtype, None, ddof))


def _cum(name):
    def f(a, axis=None, dtype=None, out=None):
        a = asarr(a)
        mats(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        if dtype is None and a._dt.kind == "b":
            dtype = I8
        return UF_TABLE[name].accumulate(a, axis, dtype, out)
    return f


OVERRIDES["cumsum"], OVERRIDES["cumprod"] = _cum("add"), _cum("multiply")


@shim()
def count_nonzero(a, axis=None, keepdims=False):
    return sum(asarr(a) != 0 if asarr(a)._dt.kind != "b" else asarr(a), axis=axis)


def _nanred(name):
    def f(a, axis=None, **k):
        a = asarr(a)
        mats(a)
        o = a._elems()
        if not isinstance(o, np.ndarray) or not _anyspecial(o):
            return OVERRIDES[name](a, axis=axis, **k)
        fill = {"sum": 0.0, "max": -INF, "min": INF, "prod": 1.0}.get(name)
        if fill is None:
            if axis is None:
                keep = [v for v in o.ravel() if not (special(v) and math.isnan(v))]
                return OVERRIDES[name](asarr(keep))
            raise Unsupported("nan%s" % name)
        return OVERRIDES[name](from_elems(map_obj(lambda v: fill if special(v) and math.isnan(v) else v, o), a._dt), axis=axis, **k)
    return f


def _anyspecial(o):
    for v in o.ravel():
        if special(v) and math.isnan(v):
            return True
    return False


for _n in ("sum", "max", "min", "prod", "mean", "var", "std"):
    OVERRIDES["nan" + _n] = _nanred(_n)


@shim()
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    big = np.finfo(float).max

    def g(v):
        if special(v):
            if math.isnan(v):
                return nan
            return (big if posinf is None else posinf) if v > 0 else (-big if neginf is None else neginf)
        return v
    if not copy and isinstance(x, SymArray):
        for i in np.ndindex(*a._s.shape):
            a._s[i] = g(a._s[i])
        return a
    r = SymArray(map_obj(g, a._s), a._dt)
    return r if r.ndim else r[()]


@shim()
def clip(a, a_min=None, a_max=None, out=None, min=NOV, max=NOV, **k):
    lo = a_min if min is NOV else min
    hi = a_max if max is NOV else max
    r = a if isinstance(a, Sym) else asarr(a)
    if lo is not None:
        r = UF_TABLE["maximum"](r, lo)
    if hi is not None:
        r = UF_TABLE["minimum"](r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@shim("round", "around", "round_")
def round_(a, decimals=0, out=None):
    a = asarr(a)
    if a._dt.kind in "iub":
        return a.copy()
    f = 10.0 ** decimals
    return UF_TABLE["true_divide"](UF_TABLE["rint"](UF_TABLE["multiply"](a, f)), f)


# ------------------------------------------------------ search and sorting
def _argbest(vals, op):
    """index (possibly symbolic) of the first best value"""
    for i, v in enumerate(vals):
        if special(v) and math.isnan(v):
            return i
    best, idx = vals[0], 0
    for i in range(1, len(vals)):
        c = zb(compare(op, vals[i], best))
        best = ite(c, vals[i], best)
        idx = ite(c, typed(i, I8), typed(idx, I8) if not isinstance(idx, Sym) else idx)
    return pyc(idx)


def _argred(op, nm):
    def f(a, axis=None, out=None, keepdims=NOV):
        a = asarr(a)
        mats(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        if a.shape[axis] == 0:
            raise ValueError("attempt to get %s of an empty sequence" % nm)
        el = np.moveaxis(map_obj(lambda v: typed(v, a._dt), a._elems()), axis, -1)
        o = np.empty(el.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = _argbest(list(el[i]), op)
        r = SymArray(o, I8)
        return typed(o[()], I8) if r.ndim == 0 else r
    return f


OVERRIDES["argmin"], OVERRIDES["argmax"] = _argred("lt", "argmin"), _argred("gt", "argmax")


def _along(a, axis, f, dt):
    mats(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    el = np.moveaxis(map_obj(lambda v: typed(v, a._dt), a._elems()), axis, -1)
    o = np.empty(el.shape, dtype=object)
    for i in np.ndindex(*el.shape[:-1]):
        r = f(list(el[i]))
        for j, v in enumerate(r):
            o[i + (j,)] = pyc(v)
    return from_elems(np.moveaxis(o, -1, axis), dt)


@shim()
def sort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    return _along(a, axis, lambda v: nd.sort_vals(v, a._dt), a._dt)


@shim()
def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    return _along(a, axis, nd.argsort_vals, I8)


def _part(f):
    """only what numpy promises: the kth element in place, the others on their side of it (here: backwards)"""
    def g(a, kth, axis=-1, kind="introselect", order=None):
        a = asarr(a)
        mats(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        n = a.shape[axis]
        ks = kth if isinstance(kth, (list, tuple)) else [kth]
        for k in ks:
            k = operator.index(k)
            if not -n <= k < n:
                raise ValueError("kth(=%d) out of bounds (%d)" % (k, n))
        out = f(a, axis)
        at = sorted({operator.index(k) % n for k in ks}) if n else []
        order, lo = [], 0
        for k in at + [n]:
            order += list(range(lo, k))[::-1] + ([k] if k < n else [])
            lo = k + 1
        key = [slice(None)] * a.ndim
        key[axis] = order
        return out[tuple(key)]
    return g


OVERRIDES["argpartition"], OVERRIDES["partition"] = _part(lambda a, x: argsort(a, x)), _part(lambda a, x: sort(a, x))


@shim()
def sort_complex(a):
    raise Unsupported("sort_complex")


@shim()
def lexsort(keys, axis=-1):
    ks = [asarr(k) for k in keys]
    for k in ks:
        mats(k)
    n = ks[0].shape[0]
    out = []
    for i in range(n):
        j = len(out)
        while j > 0:
            lt = False
            for k in reversed(ks):
                x, y = typed(k._s[i], k._dt), typed(k._s[out[j - 1]], k._dt)
                if nd.less(x, y):
                    lt = True
                    break
                if nd.less(y, x):
                    break
            if not lt:
                break
            j -= 1
        out.insert(j, i)
    return asarr(out)


@shim()
def searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    mats(a)
    if sorter is not None:
        a = a[sorter]
    va = asarr(v)
    mats(va)
    op = "lt" if side == "left" else "le"
    al = [typed(x, a._dt) for x in a._elems()]

    def one(x):
        r = typed(0, I8)
        for y in al:
            r = arith("add", r, typed(cast(mkb(zb(compare(op, y, x))), I8), I8))
        return pyc(r)
    o = map_obj(lambda x: one(typed(x, va._dt)), va._elems())
    r = SymArray(o, I8)
    return r if r.ndim else typed(o[()], I8)


@shim()
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@shim()
def nonzero(a):
    a = asarr(a)
    if isinstance(a, LazyArray):
        mats(a)
    if a.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed. Use np.atleast_1d(scalar).nonzero() instead.")
    if a._dt.names is not None:
        raise Unsupported("nonzero of structured")
    el = a._elems()
    idx = list(np.ndindex(*el.shape))
    conds = [tb(el[i]) for i in idx]
    if not [c for c in conds if not (z3.is_true(c) or z3.is_false(c))]:
        keep = [i for i, c in zip(idx, conds) if z3.is_true(c)]
        return tuple(wrap(np.array([i[k] for i in keep], dtype=np.int64)) for k in range(a.ndim))
    out = []
    for k in range(a.ndim):
        b = np.empty(len(idx), dtype=object)
        for n, i in enumerate(idx):
            b[n] = i[k]
        out.append(LazyArray(b, conds, I8))
    return tuple(out)


@shim()
def flatnonzero(a):
    return nonzero(asarr(a).reshape(-1))[0]


@shim()
def argwhere(a):
    t = nonzero(asarr(a))
    for x in t:
        mats(x)
    return OVERRIDES["stack"](t, axis=-1)


@shim()
def where(cond, x=None, y=None):
    if x is None and y is None:
        return nonzero(cond)
    c = asarr(cond)
    mats(c)
    xa, ya = asarr(x), asarr(y)
    mats(xa), mats(ya)
    dt = np.where(np.ones((1,) * c.ndim, dtype=bool), nd.dummy_scalar(x) if isinstance(x, Sym) or core.concrete_kind(x) else np.ones((1,) * xa.ndim, xa._dt),
                  nd.dummy_scalar(y) if isinstance(y, Sym) or core.concrete_kind(y) else np.ones((1,) * ya.ndim, ya._dt)).dtype
    ce, xe, ye = c._elems(), xa._elems(), ya._elems()
    shp = np.broadcast_shapes(ce.shape, xe.shape, ye.shape)
    ce, xe, ye = (np.broadcast_to(q, shp) for q in (ce, xe, ye))
    if dt.names is not None:
        o = np.empty(shp + xa._s.shape[-1:], dtype=object)
        for i in np.ndindex(*shp):
            o[i] = nd.ite_obj(tb(ce[i]), xe[i]._s, ye[i]._s)
        return SymArray(o, dt)
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        o[i] = ite(tb(ce[i]), cast(xe[i], dt), cast(ye[i], dt))
    return from_elems(o, dt)


@shim()
def select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@shim()
def choose(a, choices, out=None, mode="raise"):
    a = asarr(a)
    chs = [asarr(c) for c in choices]
    r = chs[0]
    for i in range(1, len(chs)):
        r = where(UF_TABLE["equal"](a, i), chs[i], r)
    return r


@shim()
def piecewise(x, condlist, funclist, *a, **k):
    return GENERIC("piecewise", np.piecewise)(x, condlist, funclist, *a, **k)


@shim()
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, sorted=True):
    a = asarr(ar)
    mats(a)
    if axis is not None or a._dt.names is not None:
        return _unique_rows(a, return_index, return_inverse, return_counts, axis)
    shp = a.shape
    el = [typed(v, a._dt) for v in a._elems().ravel()]
    n = len(el)
    first = []
    for i in range(n):
        first.append(And(*[Not(zb(_same(el[j], el[i]))) for j in range(i)]))
    b = np.empty(n, dtype=object)
    for i in range(n):
        b[i] = pyc(el[i])
    if return_index or return_counts:
        order = nd.argsort_vals(el)
        groups = []
        for i in order:
            if groups and bool(_same(el[groups[-1][0]], el[i])):
                groups[-1].append(i)
            else:
                groups.append([i])
        res = [from_elems(np.array([None] + [b[g[0]] for g in groups], dtype=object)[1:], a._dt)]
        if return_index:
            res.append(wrap(np.array([min_py(g) for g in groups], dtype=np.int64)))
        if return_inverse:
            inv = np.empty(n, dtype=np.int64)
            for q, g in enumerate(groups):
                inv[g] = q
            res.append(wrap(inv.reshape(shp)))
        if return_counts:
            res.append(wrap(np.array([len(g) for g in groups], dtype=np.int64)))
        return tuple(res)
    if not [c for c in first if not (z3.is_true(c) or z3.is_false(c))] and not [v for v in el if isinstance(v, Sym)]:
        u = wrap(np.unique(np.array([pyc(v) for v in el], dtype=a._dt) if a._dt.kind != "c" else np.array(el)))
    else:
        u = LazyArray(b, first, a._dt, "sorted")
    if not return_inverse:
        return u
    inv = np.empty(n, dtype=object)
    for i in range(n):
        r, lo = z3.IntVal(0), 0
        for j in range(n):
            if j == i:
                continue
            c = And(first[j], zb(_less(el[j], el[i])))
            if z3.is_true(c):
                lo += 1
            elif not z3.is_false(c):
                r = r + z3.If(c, z3.IntVal(1), z3.IntVal(0))
        v = mki(z3.simplify(r + lo), 0, min_py([n - 1]), I8)
        inv[i] = pyc(v)
    return u, SymArray(inv.reshape(shp), I8)


min_py = __builtins__["min"] if isinstance(__builtins__, dict) else __builtins__.min


def _less(a, b):
    if special(a) or special(b):
        return nd.less(a, b)
    if kind(a) == "b":
        return mkb(And(Not(zb(a)), zb(b)))
    return compare("lt", a, b)


def _same(a, b):
    if special(a) and special(b) and math.isnan(a) and math.isnan(b):
        return True
    return compare("eq", a, b)


def _unique_rows(a, ri, rv, rc, axis):
    rows = a if axis in (0, None) else a.swapaxes(0, axis)
    flat = rows._s.reshape(rows._s.shape[0], -1)
    dt = nd.field_dts(a._dt)[0] if nd.composite(a._dt) else a._dt
    R = [[typed(v, dt) for v in r] for r in flat]

    def lt(p, q):
        for x, y in zip(p, q):
            if nd.less(x, y):
                return True
            if nd.less(y, x):
                return False
        return False
    order = []
    for i in range(len(R)):
        j = len(order)
        while j > 0 and lt(R[i], R[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    groups = []
    for i in order:
        if groups and not lt(R[groups[-1][0]], R[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = [SymArray(rows._s[[g[0] for g in groups]], a._dt)]
    if axis not in (0, None):
        res[0] = res[0].swapaxes(0, axis)
    if ri:
        res.append(wrap(np.array([min_py(g) for g in groups])))
    if rv:
        inv = np.empty(len(R), dtype=np.int64)
        for q, g in enumerate(groups):
            inv[g] = q
        res.append(wrap(inv))
    if rc:
        res.append(wrap(np.array([len(g) for g in groups])))
    return res[0] if len(res) == 1 else tuple(res)


@shim("unique_values")
def unique_values(x):
    return unique(x)


@shim()
def isin(element, test_elements, assume_unique=False, invert=False, *, kind=None):
    a = asarr(element)
    t = asarr(test_elements)
    mats(a)
    if assume_unique and isinstance(t, LazyArray):
        mats(t)
    if isinstance(t, LazyArray) and not t.materialised:
        base = [typed(v, t._dt) for v in t._base.ravel()]
        pres = list(t._pres) if t._base.ndim == 1 else None
        if pres is None:
            base, pres = [typed(v, t._dt) for v in t._elems().ravel()], None
    else:
        base, pres = [typed(v, t._dt) for v in t._elems().ravel()], None
    if pres is None:
        pres = [z3.BoolVal(True)] * len(base)

    if assume_unique and a.size and len(base) >= 10 * a.size ** 0.145:
        ints = all(x.dtype.kind in "uib" for x in (a, t))
        table = False
        if ints and kind in (None, "table"):
            cap = 6 * (a.size + len(base))
            fixed = [int(b) for b in base if not isinstance(b, Sym)]
            if not fixed or max(fixed) - min(fixed) <= cap:
                table = bool(mkb(And(*[And(zi(b) - zi(c) <= cap, zi(c) - zi(b) <= cap)
                                       for k, b in enumerate(base) for c in base[:k]])))
        if not table:
            # numpy sorts both together: an element counts as found when its
            # successor equals it, which may be a later repetition of itself
            el = [typed(v, a._dt) for v in a._elems().ravel()]
            o = np.empty(len(el), dtype=object)
            for i, v in enumerate(el):
                e = Or(*[zb(compare("eq", v, b)) for b in el[i + 1:] + base])
                o[i] = mkb(Not(e) if invert else e)
            return SymArray(o.reshape(a.shape), B_)

    def one(v):
        v = typed(v, a._dt)
        cs = []
        for p, b in zip(pres, base):
            c = compare("eq", v, b) if not isinstance(b, (str, set, frozenset)) and b is not None else (v == b)
            cs.append(And(p, zb(bool(c) if not isinstance(c, Sym) else c)))
        e = Or(*cs)
        return mkb(Not(e) if invert else e)
    o = map_obj(one, a._elems())
    r = SymArray(o, B_)
    return r if r.ndim else SymArray(o, B_)


@shim()
def union1d(a, b):
    return unique(OVERRIDES["concatenate"]((asarr(a).reshape(-1), asarr(b).reshape(-1))))


@shim()
def intersect1d(a, b, assume_unique=False, return_indices=False):
    u = unique(a)
    mats(u)
    return u[isin(u, asarr(b))]


@shim()
def setdiff1d(a, b, assume_unique=False):
    u = unique(a) if not assume_unique else asarr(a).reshape(-1)
    mats(u)
    return u[isin(u, asarr(b), invert=True)]


@shim()
def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    mats(x)
    xs = [typed(v, x._dt) for v in x._elems()]
    for v in xs:
        if bool(compare("lt", v, 0)):
            raise ValueError("'list' argument must have no negative elements")
    n = 0
    if xs:
        m = max_(asarr(xs))
        n = operator.index(arith("add", m, 1))
    n = n if n > minlength else minlength
    out = np.empty(n, dtype=object)
    w = [1] * len(xs) if weights is None else [typed(v, asarr(weights)._dt) for v in asarr(weights)._elems()]
    dt = I8 if weights is None else F8
    for k in range(n):
        acc = typed(0, dt)
        for v, q in zip(xs, w):
            acc = arith("add", acc, ite(zb(compare("eq", v, k)), typed(pyc(q), dt), typed(0, dt)))
        out[k] = pyc(acc)
    return from_elems(out, dt)


# --------------------------------------------------------------- comparing
@shim()
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    sc = [isinstance(q, Sym) or core.concrete_kind(q) is not None for q in (a, b)]
    x, y = asarr(a), asarr(b)
    mats(x), mats(y)
    shp = np.broadcast_shapes(x.shape, y.shape)
    xe = np.broadcast_to(x._elems(), shp)
    ye = np.broadcast_to(y._elems(), shp)
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        o[i] = _close(typed(xe[i], x._dt), typed(ye[i], y._dt), rtol, atol, equal_nan)
    r = SymArray(o, B_)
    return typed(o[()], B_) if r.ndim == 0 else r


def _close(p, q, rtol, atol, equal_nan):
    if not isinstance(p, Sym) and not isinstance(q, Sym):
        return bool(np.isclose(p, q, rtol, atol, equal_nan))
    if special(p) or special(q):
        return False
    if kind(p) == "c" or kind(q) == "c":
        d, m = core.cabs(arith("sub", p, q)), (core.cabs(q) if isinstance(q, SymComplex) else abs(q))
        t = arith("add", atol, arith("mul", rtol, m))
        return mkb(zb(compare("le", d, t)))
    zp, zq = zr(p), zr(q)
    d = zp - zq
    if not isinstance(q, Sym):
        t = zr(arith("add", atol, arith("mul", rtol, abs(float(q)))))
    else:
        t = zr(atol) + zr(rtol) * z3.If(zq >= 0, zq, -zq)
    return mkb(z3.simplify(z3.And(d <= t, -d <= t)))


@shim()
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(all(asarr(isclose(a, b, rtol, atol, equal_nan))))


@shim()
def array_equal(a1, a2, equal_nan=False):
    try:
        x, y = asarr(a1), asarr(a2)
    except Exception:
        return False
    mats(x), mats(y)
    if x.shape != y.shape:
        return False
    return bool(all(asarr(x == y)))


@shim()
def array_equiv(a1, a2):
    x, y = asarr(a1), asarr(a2)
    mats(x), mats(y)
    try:
        np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        return False
    return bool(all(asarr(x == y)))


# ------------------------------------------------------------------ complex
@shim()
def angle(z, deg=False):
    sc = isinstance(z, Sym) or core.concrete_kind(z) is not None
    a = asarr(z)
    mats(a)

    def one(v):
        v = typed(v, a._dt)
        if not isinstance(v, Sym):
            r = np.angle(v)
        elif isinstance(v, SymComplex):
            r = core.arg(v.re, v.im)
        else:
            r = core.arg(v, 0.0)
        return arith("mul", r, 180 / math.pi) if deg else r
    o = map_obj(lambda v: pyc(one(v)), a._elems())
    if sc or a.ndim == 0:
        return typed(o[()], F8)
    return SymArray(o, F8)


@shim()
def real(val):
    if isinstance(val, Sym):
        return val.real
    return asarr(val).real


@shim()
def imag(val):
    if isinstance(val, Sym):
        return val.imag
    return asarr(val).imag


# ---------------------------------------------------------------- in place
@shim()
def fill_diagonal(a, val, wrap=False):
    if a.ndim < 2:
        raise ValueError("array must be at least 2-d")
    mats(a) if isinstance(a, SymArray) else None
    if a.ndim > 2 and len(set(a.shape)) != 1:
        raise ValueError("All dimensions of input must be of equal length")
    n = min_py(a.shape)
    if wrap and a.ndim == 2 and a.shape[0] > a.shape[1]:
        raise Unsupported("fill_diagonal wrap")
    v = asarr(val)
    mats(v)
    fl = v.reshape(-1)
    for i in range(n):
        a[(i,) * a.ndim] = val if v.ndim == 0 and not isinstance(val, SymArray) else fl[i % fl.size]


@shim()
def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = OVERRIDES["where"](where, src, dst)


@shim()
def put(a, ind, v, mode="raise"):
    f = a.reshape(-1)
    ix = asarr(ind).reshape(-1)
    vv = asarr(v).reshape(-1)
    for n in range(ix.size):
        f[ix[n]] = vv[n % vv.size]


@shim()
def place(arr, mask, vals):
    v = asarr(vals)
    m = asarr(mask)
    n = 0
    for i in np.ndindex(*arr.shape):
        if bool(m[i]):
            arr[i] = v[n % v.size]
            n += 1


@shim()
def putmask(a, mask, values):
    m, v = asarr(mask), asarr(values)
    for n, i in enumerate(np.ndindex(*a.shape)):
        src = v.reshape(-1)[n % v.size]
        a[i] = ite(zb(m[i]), src, a[i])


def _along_key(arr, idx, axis):
    keys = []
    for d in range(arr.ndim):
        if d == axis:
            keys.append(idx)
        else:
            sh = [1] * arr.ndim
            sh[d] = arr.shape[d]
            keys.append(wrap(np.arange(arr.shape[d]).reshape(sh)))
    return tuple(keys)


@shim()
def put_along_axis(arr, indices, values, axis):
    ix = nd.concrete_index(asarr(indices))
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    if ix.ndim != arr.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    arr[_along_key(arr, ix, axis % arr.ndim)] = values


@shim()
def take_along_axis(arr, indices, axis=-1):
    arr = asarr(arr)
    ix = nd.concrete_index(asarr(indices))
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    if ix.ndim != arr.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    return arr[_along_key(arr, ix, axis % arr.ndim)]


# --------------------------------------------------------- functional forms
@shim()
def apply_along_axis(func, axis, arr, *a, **k):
    arr = asarr(arr)
    mats(arr)
    ax = axis % arr.ndim
    rest = [s for i, s in enumerate(arr.shape) if i != ax]
    out = {}
    r0 = None
    for i in np.ndindex(*rest):
        r = func(arr[i[:ax] + (slice(None),) + i[ax:]], *a, **k)
        out[i] = asarr(r)
        r0 = out[i]
    o = np.empty(tuple(rest) + r0.shape, dtype=object)
    for i, v in out.items():
        if r0.ndim == 0:
            o[i] = v._elems()[()]
        else:
            o[i] = v._elems()
    return from_elems(o, r0._dt)


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, **k):
        self.f, self.otypes = pyfunc, otypes

    def __call__(self, *args):
        if self.f is None:
            self.f = args[0]
            return self
        arrs = broadcast_arrays(*args)
        out = [self.f(*[a[i] if a.ndim else a[()] for a in arrs]) for i in np.ndindex(*arrs[0].shape)]
        r = asarr(out)
        if self.otypes:
            r = r.astype(as_dt(self.otypes[0]))
        return r.reshape(arrs[0].shape)


OVERRIDES["vectorize"] = vectorize


@shim()
def ndenumerate(a):
    a = asarr(a)
    for i in np.ndindex(*a.shape):
        yield i, a[i]


@shim()
def ndindex(*s):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    return np.ndindex(*[operator.index(x) for x in s])


@shim()
def ix_(*args):
    out = []
    for i, a in enumerate(args):
        a = asarr(a)
        if a._dt.kind == "b":
            a = nonzero(a)[0]
        mats(a)
        out.append(a.reshape((1,) * i + (-1,) + (1,) * (len(args) - i - 1)))
    return tuple(out)


@shim()
def meshgrid(*xi, indexing="xy", **k):
    xs = [asarr(x).reshape(-1) for x in xi]
    for x in xs:
        mats(x)
    n = len(xs)
    outs = []
    shp = tuple(x.size for x in xs)
    for i, x in enumerate(xs):
        r = broadcast_to(x.reshape((1,) * i + (-1,) + (1,) * (n - i - 1)), shp).copy()
        if indexing == "xy" and n > 1:
            r = r.swapaxes(0, 1)
        outs.append(r)
    return outs


@shim("array2string", "array_str", "array_repr")
def array2string(a, *k, **kw):
    return repr(a)


@shim()
def linspace(start, stop, num=50, endpoint=True, **k):
    if isinstance(start, Sym) or isinstance(stop, Sym):
        d = (stop - start) / (num - 1 if endpoint else num)
        return asarr([start + d * i for i in range(num)])
    return wrap(np.linspace(start, stop, num, endpoint, **k))


@shim()
def corrcoef(*a, **k):
    return GENERIC("corrcoef", np.corrcoef)(*a, **k)


@shim()
def median(a, axis=None, **k):
    a = sort(asarr(a) if axis is not None else asarr(a).reshape(-1), axis=-1 if axis is None else axis)
    ax = a.ndim - 1 if axis is None else axis % a.ndim
    n = a.shape[ax]
    k0 = (slice(None),) * ax
    if n % 2:
        return a[k0 + (n // 2,)]
    return (a[k0 + (n // 2 - 1,)] + a[k0 + (n // 2,)]) / 2


# ---------------------------------------------------------------- generic
def GENERIC(name, real):
    @functools.wraps(real)
    def f(*args, **k):
        if (E() is not None and E().active) and _symbolic(args) or _symbolic(tuple(k.values())):
            E().degrade("numpy.%s" % name)
        why = "numpy.%s" % name
        r = real(*[unwrap(a, why) for a in args], **{q: unwrap(v, why) for q, v in k.items()})
        return wrap(r)
    return f


def _symbolic(args):
    for a in args:
        if isinstance(a, Sym):
            return True
        if isinstance(a, LazyArray) and not a.materialised:
            return True
        if isinstance(a, SymArray) and not a._concrete():
            return True
        if isinstance(a, (list, tuple)) and _symbolic(a):
            return True
    return False


class Ns(types.ModuleType):
    """a module whose attributes are shims first and the real ones otherwise"""
    def __init__(self, name, real, over, wrapall=True):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrapall"] = wrapall
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        over = self.__dict__["_over"]
        if n in over:
            return over[n]
        r = getattr(self.__dict__["_real"], n)
        if isinstance(r, types.ModuleType):
            from . import shims
            s = shims.module(r.__name__)
            v = s if s is not None else r
        elif self.__dict__["_wrapall"] and callable(r) and not isinstance(r, type):
            v = GENERIC(n, r)
        else:
            v = r
        over[n] = v
        return v

    def __dir__(self):
        return dir(self.__dict__["_real"])


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


for _n, _u in UF_TABLE.items():
    if hasattr(np, _n):
        OVERRIDES[_n] = _u
OVERRIDES["errstate"] = np.errstate
for _n in ("seterr", "geterr", "set_printoptions", "printoptions", "get_printoptions", "broadcast_shapes", "issubdtype",
           "promote_types", "dtype", "finfo", "iinfo", "min_scalar_type", "common_type", "isdtype"):
    if hasattr(np, _n):
        OVERRIDES[_n] = getattr(np, _n)
np_ = Ns("numpy", np, OVERRIDES)


# ------------------------------------------------------------ submodules
def rfn_s2u(arr, dtype=None, copy=False, casting="unsafe"):
    a = asarr(arr)
    mats(a)
    if a._dt.names is None:
        raise ValueError("arr must be a structured array")
    fd = nd.field_dts(a._dt)
    dt = as_dt(dtype) if dtype is not None else np.result_type(*fd)
    packed = a._dt == as_dt([(n, a._dt.fields[n][0]) for n in a._dt.names])
    if not copy and packed and all_py(f == dt for f in fd):
        return SymArray(a._s, dt)
    return SymArray(map_obj(lambda v: v, a._s) if all_py(f == dt for f in fd) else _castall(a._s, dt), dt)


def _castall(s, dt):
    return map_obj(lambda v: cast(v, dt), s)


all_py = __builtins__["all"] if isinstance(__builtins__, dict) else __builtins__.all


def rfn_u2s(arr, dtype=None, names=None, align=False, copy=False, casting="unsafe"):
    a = asarr(arr)
    mats(a)
    if dtype is None:
        names = names or ["f%d" % i for i in range(a.shape[-1])]
        dtype = as_dt([(n, a._dt) for n in names])
    dtype = as_dt(dtype)
    fd = nd.field_dts(dtype)
    s = a._s.copy() if copy else a._s
    if any_py(f != a._dt for f in fd):
        s = s.copy()
        for j, d in enumerate(fd):
            for i in np.ndindex(*s.shape[:-1]):
                s[i + (j,)] = cast(s[i + (j,)], d)
    return SymArray(s, dtype)


any_py = __builtins__["any"] if isinstance(__builtins__, dict) else __builtins__.any


def rfn_drop(base, drop_names, **k):
    a = asarr(base)
    drop = [drop_names] if isinstance(drop_names, str) else list(drop_names)
    return a[[n for n in a._dt.names if n not in drop]].copy()


def rfn_repack(a, align=False, recurse=False):
    if isinstance(a, np.dtype):
        return a
    return a.copy()


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    a = asarr(x)
    mats(a)
    if a._dt.kind in "biu":
        a = a.astype(F8)
    if ord in (None, 2) or (ord == "fro"):
        if axis is None and a.ndim != 1 and ord is not None and ord != "fro":
            return GENERIC("linalg.norm", np.linalg.norm)(x, ord, axis, keepdims)
        sq = (a.real * a.real + a.imag * a.imag) if a._dt.kind == "c" else a * a
        return UF_TABLE["sqrt"](UF_TABLE["add"].reduce(sq, axis, None, None, keepdims=keepdims))
    ab = UF_TABLE["absolute"](a)
    if ord == 1 and (a.ndim == 1 or isinstance(axis, int)):
        return UF_TABLE["add"].reduce(ab, axis, None, None, keepdims=keepdims)
    if ord == np.inf and (a.ndim == 1 or isinstance(axis, int)):
        return UF_TABLE["maximum"].reduce(ab, axis, None, None, keepdims=keepdims)
    return GENERIC("linalg.norm", np.linalg.norm)(x, ord, axis, keepdims)


def linalg_det(a):
    a = asarr(a)
    if a.shape == (3, 3):
        m = [[a[i, j] for j in range(3)] for i in range(3)]
        return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return GENERIC("linalg.det", np.linalg.det)(a)


class Generator:
    """random variates: unknown numbers of the documented range; the same seed gives the same ones"""
    def __init__(self, seed=None):
        self.seed, self.n = seed, 0
        e = E()
        e.rng_seeds.append(seed)
        self.stream = e.seed_streams.setdefault(int(seed), {}) if isinstance(seed, (int, np.integer)) else None

    def _draw(self, kind, key, make):
        k = (self.n, kind, key)
        self.n += 1
        if self.stream is not None and k in self.stream:
            return self.stream[k]
        v, rec = make()
        E().rng_draws.append((kind,) + rec + (v,))
        if self.stream is not None:
            self.stream[k] = v
        return v

    def _unit(self, name):
        def make():
            e = E()
            v = z3.Real(e.fresh(name))
            e.assume(z3.And(v >= 0, v < 1))
            e.ring.nonneg.add(e.ring.atom(v))
            return SymFloat(v, F8), (v, 0.0, 1.0)
        return self._draw("random", None, make)

    def _gen(self, size, f):
        if size is None:
            return f(())
        shp = nd.norm_shape(size)
        o = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            o[i] = pyc(f(i))
        return SymArray(o, F8)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._gen(size, lambda i: self._unit("rnd"))

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = asarr(low), asarr(high)
        mats(lo), mats(hi)
        shp = np.broadcast_shapes(lo.shape, hi.shape)
        if size is None and shp:
            size = shp
        if size is not None and len(nd.norm_shape(size)) < len(shp):
            raise ValueError("Output size %s is not compatible with broadcast dimensions of inputs %s." % (size, shp))
        full_ = nd.norm_shape(size) if size is not None else ()
        lo = broadcast_to(lo, full_) if full_ else lo
        hi = broadcast_to(hi, full_) if full_ else hi
        e = E()

        def angle(a, b):
            # introduced through its cosine and sine
            c, s = z3.Real(e.fresh("uc")), z3.Real(e.fresh("us"))
            e.unit_circle(c, s)
            core._mark_unit(c, s)
            A = core.principal(c, s, "uang")
            if abs(comp_pi(b)) != 1:
                e.assume(z3.And(A.a >= core.PI() * z3.RealVal(comp_pi(a)), A.a < core.PI() * z3.RealVal(comp_pi(b))))
            return SymFloat(A.a, F8, {A: core.Fraction(1)}), (A.a, a, b)

        def plain(a, b, za, zb_):
            u = z3.Real(e.fresh("unif"))
            e.drawn[u.decl().name()] = ("float", a if not isinstance(a, Sym) else None, b if not isinstance(b, Sym) else None)
            # low <= u < high, or u == low where they are equal
            if isinstance(b, Sym) or isinstance(a, Sym) or a != b:
                up = z3.And(u >= za, u <= zb_, z3.Or(u < zb_, za == zb_))
                e.assume(up if e.ring.sign(zb_ - za) > 0 else z3.If(za <= zb_, up, z3.And(u <= za, u > zb_)))
            else:
                e.assume(u == za)
            if not isinstance(a, Sym) and a >= 0 and e.ring.sign(zb_) > 0:
                e.ring.nonneg.add(e.ring.atom(u))
            return SymFloat(u, F8), (u, a, b)

        def one(i):
            a, b = typed(lo._elems()[i], lo._dt), typed(hi._elems()[i], hi._dt)
            a, b = typed(cast(pyc(a), F8), F8), typed(cast(pyc(b), F8), F8)
            za, zb_ = z3.simplify(zr(a)), z3.simplify(zr(b))
            e.keep.append((za, zb_))
            k = (za.get_id(), zb_.get_id())
            if comp_pi(a) is not None and comp_pi(b) == -comp_pi(a):
                return self._draw("uniform", k, lambda: angle(a, b))
            return self._draw("uniform", k, lambda: plain(a, b, za, zb_))
        return self._gen(size, one)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        e = E()

        def make():
            v = z3.Int(e.fresh("rint"))
            h = zi(high)
            e.assume(z3.And(v >= zi(low), (v <= h) if endpoint else (v < h)))
            return SymInt(v, None, None, I8), (v, low, high)

        def one(i):
            return self._draw("integers", (z3.simplify(zi(low)).get_id(), z3.simplify(zi(high)).get_id(), endpoint), make)
        if size is None:
            return one(())
        shp = nd.norm_shape(size)
        o = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            o[i] = one(i)
        return SymArray(o, as_dt(dtype))

    def __getattr__(self, n):
        raise Unsupported("random generator method %s" % n)


def comp_pi(x):
    if isinstance(x, SymFloat):
        d = x.ang
        if d is not None and set(d) == {"pi"}:
            return d["pi"]
        return None
    return core.pi_multiple(x) if isinstance(x, (float, np.floating)) and x != 0 else None


def default_rng(seed=None):
    return Generator(seed)


RFN = {"structured_to_unstructured": rfn_s2u, "unstructured_to_structured": rfn_u2s, "drop_fields": rfn_drop, "repack_fields": rfn_repack}
LINALG = {"norm": linalg_norm, "det": linalg_det, "vector_norm": lambda x, axis=None, keepdims=False, ord=2: linalg_norm(x, None if ord == 2 else ord, axis, keepdims)}
RANDOM = {"default_rng": default_rng}


def lookup_function(real):
    n = real.__name__
    if n in OVERRIDES:
        return OVERRIDES[n]
    return GENERIC(n, real)
