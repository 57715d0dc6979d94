"""Symbolic numpy: arrays of symbolic scalars with numpy's aliasing, dtypes and shapes.

SymArray keeps its elements in an ordinary object ndarray, so slices, field
views, reshapes and .view() casts alias exactly as they do in numpy.  Arrays
whose length depends on symbolic data (boolean indexing, unique, flatnonzero)
are LazyArray: every candidate row carries the condition under which it is
present, and rows are only decided (forked) when an operation needs the shape.
"""
import functools, itertools, math, operator, warnings
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import (Sym, SymBool, SymInt, SymFloat, SymComplex, And, Or, Not, Ite, mkb, mki, mkf, zb, zi, zr,
                   is_sym, special, kind, ite, arith, compare, NAN, INF)

E = core.eng
class Unsupported(Exception):
    pass


_DTMAP = {}      # stand-ins for the builtin types -> the builtin types


def as_dt(x=None, *a, **k):
    if isinstance(x, type) and x in _DTMAP:
        x = _DTMAP[x]
    elif type(x) is list and x and isinstance(x[0], tuple):
        x = [(t[0], as_dt(t[1])) + tuple(t[2:]) for t in x]
    return np.dtype(x, *a, **k)


B_, I8, F8, C16 = as_dt(np.bool_), as_dt(np.int64), as_dt(np.float64), as_dt(np.complex128)


def composite(dt):
    return dt.names is not None or dt.kind == "c"


def field_dts(dt):
    if dt.kind == "c":
        return [as_dt("f8" if dt.itemsize == 16 else "f4")] * 2
    return [dt.fields[n][0] for n in dt.names]


# ----------------------------------------------------------------- casting
def cast(v, dt, strict=False):
    k = dt.kind
    if k == "b":
        if isinstance(v, SymBool) or v is True or v is False:
            return v
        if isinstance(v, Sym):
            return compare("ne", v, 0) if not isinstance(v, SymComplex) else mkb(Or(zb(cast(v.re, dt)), zb(cast(v.im, dt))))
        return bool(v)
    if k in "iu":
        if isinstance(v, SymBool):
            return SymInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, dt)
        if isinstance(v, SymInt):
            if v.dtype == dt:
                return v
            if strict and v.dtype is None:
                a, b = core.int_range(dt)
                if not (v.lo is not None and v.hi is not None and a <= v.lo and v.hi <= b):
                    if E().decide(Or(v.e < a, v.e > b)):
                        raise OverflowError("Python integer out of bounds for %s" % dt.name)
                    r = SymInt(v.e, max(a, v.lo) if v.lo is not None else a, min(b, v.hi) if v.hi is not None else b, dt)
                    return r
            r = mki(v.e, v.lo, v.hi, dt)
            return r if isinstance(r, Sym) else int(r)
        if isinstance(v, SymFloat):
            e = z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e))
            r = mki(e, None, None, dt)
            return r if isinstance(r, Sym) else int(r)
        if isinstance(v, SymComplex):
            return cast(v.re, dt)
        if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)):
            a, b = core.int_range(dt)
            v = int(v)
            if a <= v <= b:
                return v
            if strict:
                raise OverflowError("Python integer %d out of bounds for %s" % (v, dt.name))
            return (v - a) % (b - a + 1) + a
        if isinstance(v, float) or isinstance(v, np.floating):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return int(np.array(v).astype(dt))
        return int(np.array(v).astype(dt))
    if k == "f":
        if isinstance(v, SymFloat):
            if v.dtype == dt:
                return v
            return SymFloat(v.e, dt, v.ang, v.lg)
        if isinstance(v, (SymInt, SymBool)):
            return SymFloat(zr(v), dt)
        if isinstance(v, SymComplex):
            return cast(v.re, dt)
        if isinstance(v, (complex, np.complexfloating)):
            return float(v.real)
        if isinstance(v, core.Fr):
            return v
        if isinstance(v, (str, bytes)):
            return float(v)
        if dt.itemsize == 8:
            return float(v)
        return float(dt.type(v))
    if k == "c":
        if isinstance(v, SymComplex):
            return v
        if isinstance(v, Sym):
            return SymComplex(cast(v, F8), 0.0)
        return complex(v)
    if dt.names is not None:
        raise Unsupported("cast to structured")
    if isinstance(v, Sym) and k != "O":
        v = E().concretise(v, "symbolic value in %s array" % dt)
    if k in "US" and not isinstance(v, (str, bytes)):
        return str(v)
    return v


def typed(v, dt):
    """scalar as numpy would hand it out"""
    if isinstance(v, Sym) or v is None:
        return v
    k = dt.kind
    e = E()
    if e is not None and e.numba == 1 and k in "biufc":
        return v if isinstance(v, core.Fr) else {"b": bool, "i": int, "u": int, "f": float, "c": complex}[k](v)
    if k == "b":
        return np.bool_(v)
    if k in "iufc":
        if isinstance(v, core.Fr):
            return v
        return dt.type(v)
    if k == "U":
        return np.str_(v)
    return v


def leaf_dtype(v):
    if isinstance(v, Sym):
        if v.dtype is not None:
            return v.dtype
        return {"b": B_, "i": I8, "f": F8, "c": C16}[kind(v)]
    if isinstance(v, np.generic):
        return v.dtype
    k = core.concrete_kind(v)
    if k is not None:
        if k == "i":
            return I8 if -2**63 <= v < 2**63 else as_dt(object)
        return {"b": B_, "f": F8, "c": C16}[k]
    if isinstance(v, str):
        return np.array(v).dtype
    if isinstance(v, bytes):
        return np.array(v).dtype
    return as_dt(object)


# ------------------------------------------------------------------ arrays
class SymArray:
    __array_priority__ = 0.0
    __hash__ = None

    def __init__(self, s, dt):
        self._s = s
        self._dt = dt

    # -- metadata
    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, dt):
        dt = as_dt(dt)
        if dt.names and self._dt.names and len(dt.names) == len(self._dt.names):
            self._dt = dt
        else:
            r = self.view(dt)
            self._s, self._dt = r._s, r._dt

    @property
    def _t(self):
        return 1 if composite(self._dt) else 0

    @property
    def shape(self):
        return self._s.shape[:-1] if self._t else self._s.shape

    @shape.setter
    def shape(self, shp):
        r = self.reshape(shp)
        self._s = r._s

    @property
    def ndim(self):
        return self._s.ndim - self._t

    @property
    def size(self):
        return int(np.prod(self.shape, dtype=int))

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self.itemsize * self.size

    @property
    def strides(self):
        k = self._dt.itemsize
        f = 8 * (self._s.shape[-1] if self._t else 1)
        return tuple(x // f * k if f else 0 for x in self._s.strides[:self.ndim])

    @property
    def base(self):
        return self._s.base

    @property
    def flags(self):
        return Flags(self)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return FlatIter(self)

    @property
    def __array_interface__(self):
        st = self.strides
        contiguous = all(a == b for a, b, n in zip(st, c_strides(self.shape, self._dt.itemsize), self.shape) if n > 1)
        d = IfaceDict(shape=self.shape, typestr=self._dt.str, version=3, data=(Buffer(self), False),
                      strides=None if contiguous or not self.size else st, descr=self._dt.descr)
        d.sym = self
        return d

    def __array__(self, dtype=None, copy=None):
        # only reached when compiled code without a model asks for the data
        return to_real(self, "array() of symbolic data")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_real_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        f = npshim.lookup_function(func)
        return f(*args, **kwargs)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __repr__(self):
        return "SymArray(%s, dtype=%s)" % (self.shape, self._dt)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling symbolic data")

    # -- elements
    def _elems(self):
        """object ndarray of scalars in logical shape (complex combined)"""
        s = self._s
        log_access(s, "r")
        if self._dt.kind == "c":
            out = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                out[i] = mkc(s[i + (0,)], s[i + (1,)])
            return out
        if self._dt.names is not None:
            out = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                out[i] = SymRecord(s[i], self._dt)
            return out
        return s

    def _scalar(self, s):
        """s: storage with all logical axes consumed"""
        if self._dt.names is not None:
            return SymRecord(s, self._dt)
        if self._dt.kind == "c":
            log_access(s, "r")
            return typed(mkc(s[0], s[1]), self._dt)
        raise AssertionError

    def _from_elems(self, o, dt=None):
        return from_elems(o, dt or self._dt)

    def _concrete(self):
        return not any(isinstance(x, Sym) for x in self._s.ravel().tolist())

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, str):
            i = fidx(self._dt, key)
            return SymArray(self._s[..., i], self._dt.fields[key][0])
        if isinstance(key, list) and key and all(isinstance(k, str) for k in key):
            idx = [fidx(self._dt, k) for k in key]
            dt = as_dt([(k, self._dt.fields[k][0]) for k in key])
            return SymArray(self._s[..., idx], dt)
        key = norm_key(key, self.ndim)
        if len(key) == 1 and isinstance(key[0], LazyArray) and not key[0].materialised and key[0]._dt.kind != "b":
            kk = key[0]
            vals = [typed(x, kk._dt) for x in kk._base.ravel()]
            if all(not isinstance(v, Sym) for v in vals):
                return LazyArray(self._s[[int(v) for v in vals]], kk._pres, self._dt)
        masks = [k for k in key if isinstance(k, SymArray) and k._dt.kind == "b"]
        if len(key) == 1 and masks and masks[0].ndim >= 1:
            return self._mask_get(masks[0])
        key = tuple(self._fix(k) for k in key)
        key = expand_masks(key)
        symk = [k for k in key if isinstance(k, SymArray) and not k._concrete()]
        if symk:
            return self._sym_fancy(key)
        rk = tuple(real_index(k) for k in key)
        if self._t:
            rk = full_key(rk, self.ndim)
        r = self._s[rk]
        if not isinstance(r, np.ndarray) or (self._t and r.ndim == 1 and not self._nd_result(rk)):
            if self._t:
                return self._scalar(r)
            log_cell(self._s, rk)
            return typed(r, self._dt)
        if not self._t and r.ndim == 0:
            return SymArray(r, self._dt)
        return SymArray(r, self._dt)

    def _nd_result(self, rk):
        # logical result has zero dims iff every logical axis was consumed by an integer
        n = 0
        for k in rk:
            if k is None or k is Ellipsis or isinstance(k, slice) or isinstance(k, np.ndarray):
                n += 1
        return n > 0

    def _fix(self, k):
        if isinstance(k, (SymInt,)):
            return k
        if isinstance(k, SymBool):
            return E().decide(k.e)
        return k

    def _mask_get(self, m):
        mats(m)
        if m.ndim > self.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (self.ndim, m.ndim))
        for i, (a, b) in enumerate(zip(self.shape, m.shape)):
            if a != b:
                raise IndexError("boolean index did not match indexed array along axis %d; size of axis is %d but size of corresponding boolean axis is %d" % (i, a, b))
        log_access(m._s, "r")
        if m._concrete():
            return SymArray(self._s[m._s.astype(bool)], self._dt)
        nd_ = m.ndim
        base = self._s.reshape((-1,) + self._s.shape[nd_:])
        return LazyArray(base, [zb(x) for x in m._s.ravel()], self._dt)

    def _sym_fancy(self, key):
        key = list(key)
        arrs = [i for i, k in enumerate(key) if isinstance(k, (SymArray, SymInt))]
        if len(arrs) == 1 and arrs[0] == 0 and all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            k = key[0]
            idx = k._elems()
            n = self.shape[0]
            out = np.empty(idx.shape + self._s.shape[1:], dtype=object)
            for i in np.ndindex(*idx.shape):
                out[i] = self._gather(idx[i], n)
            if out.ndim == 0 and not self._t:
                return typed(out[()], self._dt)
            return SymArray(out, self._dt)
        key = [concrete_index(k) for k in key]
        return self[tuple(key)]

    def _gather(self, ix, n):
        if not isinstance(ix, Sym):
            return self._s[int(ix)]
        if E().decide(Or(ix.e >= n, ix.e < -n)):
            raise IndexError("index out of bounds for axis 0 with size %d" % n)
        rows = [self._s[j] for j in range(n)]
        r = rows[-1]
        for j in range(n - 2, -1, -1):
            c = Or(ix.e == j, ix.e == j - n)
            r = ite_obj(c, rows[j], r)
        return r

    def __setitem__(self, key, val):
        if isinstance(key, str):
            SymArray(self._s[..., fidx(self._dt, key)], self._dt.fields[key][0])[...] = val
            return
        if isinstance(key, list) and key and all(isinstance(k, str) for k in key):
            va = asarr(val)
            for n, k in enumerate(key):
                self[k] = va[va.dtype.names[n]] if va.dtype.names else va
            return
        key = norm_key(key, self.ndim)
        masks = [k for k in key if isinstance(k, SymArray) and k._dt.kind == "b"]
        if len(key) == 1 and masks and masks[0].ndim >= 1:
            return self._mask_set(masks[0], val)
        key = tuple(self._fix(k) for k in key)
        key = expand_masks(key)
        if len(key) == 1 and isinstance(key[0], LazyArray):
            key = (key[0],)
        symk = [k for k in key if isinstance(k, SymArray) and not k._concrete()]
        if symk and len(key) == 1 and key[0].ndim <= 1 and not self._t and self.ndim == 1:
            idx = key[0]._elems().ravel()
            v = asarr(val)
            for i, ix in enumerate(idx):
                x = v._elems().ravel()[i] if v.ndim and v.size > 1 else v._elems().ravel()[0]
                x = cast(x, self._dt)
                n = self.shape[0]
                if isinstance(ix, Sym):
                    if E().decide(Or(ix.e >= n, ix.e < -n)):
                        raise IndexError("index out of bounds")
                    for j in range(n):
                        self._s[j] = ite(Or(ix.e == j, ix.e == j - n), x, self._s[j])
                else:
                    self._s[int(ix)] = x
            return
        key = tuple(concrete_index(k) for k in key) if symk else key
        rk = tuple(real_index(k) for k in key)
        if self._t:
            rk = full_key(rk, self.ndim)
        if not self._t and all(isinstance(k, (int, np.integer)) for k in rk) and len(rk) == self.ndim:
            v = val
            if isinstance(v, SymArray) or not (isinstance(v, Sym) or core.concrete_kind(v)):
                v = asarr(v)
                if v.size != 1 or v.ndim > 0 and v.shape != (1,) * v.ndim:
                    raise ValueError("setting an array element with a sequence.")
                v = v._elems().ravel()[0]
            log_cell(self._s, rk, "w")
            self._s[rk] = cast(v, self._dt)
            return
        tgt_shape = self._s[rk].shape if isinstance(self._s[rk], np.ndarray) else ()
        st = value_storage(val, self._dt)
        lead = tgt_shape[:-1] if self._t else tgt_shape
        st = broadcast_assign(st, lead, self._t)
        tgt = self._s[rk]
        if isinstance(tgt, np.ndarray):
            log_access(tgt, "w")
        self._s[rk] = st

    def _mask_set(self, m, val):
        mats(m)
        if m.ndim > self.ndim:
            raise IndexError("too many indices for array")
        for i, (a, b) in enumerate(zip(self.shape, m.shape)):
            if a != b:
                raise IndexError("boolean index did not match indexed array along axis %d; size of axis is %d but size of corresponding boolean axis is %d" % (i, a, b))
        log_access(m._s, "r")
        log_access(self._s, "w")
        mk = [m._s[i] for i in np.ndindex(*m.shape)]
        idxs = list(np.ndindex(*m.shape))
        if isinstance(val, LazyArray) and not val.materialised and same_conds(val._pres, [zb(x) for x in mk]) and val._base.shape[1:] == self._s.shape[m.ndim:]:
            src = val
            for n, i in enumerate(idxs):
                c = zb(mk[n])
                self._assign_row(i, src._base[n], src._dt, c)
            return
        va = None
        if isinstance(val, Sym) or core.concrete_kind(val):
            row = np.empty((), dtype=object)
            row[()] = val
        else:
            va = asarr(val)
            mats(va)
            rest = self.shape[m.ndim:]
            if va.ndim <= len(rest) and not (va.ndim == 1 and not rest):
                row = va
            elif va.ndim >= 1 and va.shape[0] == 1 and va.ndim == len(rest) + 1:
                row = va[0] if va.ndim > 1 or va._t else asarr(va[0])
            else:
                row = None
        if row is not None:
            rv = row if isinstance(row, SymArray) else None
            st = value_storage(rv if rv is not None else val, self._dt)
            st = np.broadcast_to(st, self._s.shape[m.ndim:])
            for n, i in enumerate(idxs):
                self._assign_row(i, st, None, zb(mk[n]))
            return
        sel = [i for n, i in enumerate(idxs) if E().decide(zb(mk[n]))]
        if len(sel) != va.shape[0]:
            raise ValueError("NumPy boolean array indexing assignment cannot assign %d input values to the %d output values where the mask is true" % (va.shape[0], len(sel)))
        st = value_storage(va, self._dt)
        for n, i in enumerate(sel):
            self._s[i] = st[n]

    def _assign_row(self, i, row, dt, c):
        cur = self._s[i]
        if isinstance(cur, np.ndarray):
            for j in np.ndindex(*cur.shape):
                cur[j] = ite(c, row[j] if dt is None else cast(row[j], elem_dt(self._dt)), cur[j])
        else:
            v = row[()] if isinstance(row, np.ndarray) else row
            if dt is not None:
                v = cast(v, self._dt)
            self._s[i] = ite(c, v, cur)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        r = (self == x)
        return bool(any_of([zb(v) for v in r._s.ravel()]))

    def item(self, *a):
        s = self
        if a:
            s = asarr(self[a if len(a) > 1 else (np.unravel_index(a[0], self.shape) if self.ndim > 1 else a[0])])
        if s.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        v = s._elems().ravel()[0] if not s._dt.names else s._elems().ravel()[0].item()
        return v.py() if isinstance(v, Sym) else v

    def tolist(self):
        def conv(s, nd_):
            if nd_ == 0:
                if self._dt.names is not None:
                    return tuple(pyv(x) for x in s)
                if self._dt.kind == "c":
                    return mkc(s[0], s[1])
                v = s[()] if isinstance(s, np.ndarray) else s
                return pyv(v)
            return [conv(x, nd_ - 1) for x in s]
        log_access(self._s, "r")
        return conv(self._s, self.ndim)

    def __bool__(self):
        if self.size == 1:
            return bool(self._elems().ravel()[0])
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous. Use `array.size > 0` to check that an array is not empty.")
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.ndim == 0 and self._dt.kind in "iu":
            return operator.index(self._s[()])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        return int(self.item())

    def __float__(self):
        if self.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    # -- structure
    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(operator.index(x) for x in shape)
        if self._t:
            if -1 in shape:
                k = self._s.shape[-1]
                rest = int(np.prod([x for x in shape if x != -1], dtype=int))
                n = self.size
                if rest == 0 or n % rest:
                    raise ValueError("cannot reshape array of size %d into shape %s" % (n, shape))
                shape = tuple(n // rest if x == -1 else x for x in shape)
            return SymArray(self._s.reshape(shape + self._s.shape[-1:]), self._dt)
        return SymArray(self._s.reshape(shape, order=order), self._dt)

    def ravel(self, order="C"):
        return self.reshape(-1, order=order) if not self._t else self.reshape(-1)

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        axes = tuple(axes) if axes else tuple(range(self.ndim))[::-1]
        if self._t:
            axes = tuple(axes) + (self._s.ndim - 1,)
        return SymArray(self._s.transpose(axes), self._dt)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def squeeze(self, axis=None):
        if axis is None:
            shp = tuple(x for x in self.shape if x != 1)
        else:
            axs = (axis,) if isinstance(axis, int) else tuple(axis)
            axs = {a % self.ndim for a in axs}
            for a in axs:
                if self.shape[a] != 1:
                    raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            shp = tuple(x for i, x in enumerate(self.shape) if i not in axs)
        return self.reshape(shp)

    def copy(self, order="C"):
        return SymArray(self._s.copy(order), self._dt)

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = as_dt(dt)
        if dt == self._dt:
            return self.copy() if copy else self
        if composite(dt) or composite(self._dt):
            if dt.names and self._dt.names:
                o = self._s.copy()
                for j, d in enumerate(field_dts(dt)):
                    for i in np.ndindex(*o.shape[:-1]):
                        o[i + (j,)] = cast(o[i + (j,)], d)
                return SymArray(o, dt)
            return from_elems(map_obj(lambda v: cast(v, dt), self._elems()), dt)
        if not np.can_cast(self._dt, dt, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule '%s'" % (self._dt, dt, casting))
        return SymArray(map_obj(lambda v: cast(v, dt), self._s), dt)

    def view(self, dtype=None, type=None):
        if dtype is None or dtype is NdShim:
            return SymArray(self._s, self._dt)
        if isinstance(dtype, builtins_type) and issubclass(dtype, np.ndarray):
            return SymArray(self._s, self._dt)
        dt = as_dt(dtype)
        if dt == self._dt:
            return SymArray(self._s, self._dt)
        s, old = self._s, self._dt
        # split to leaves
        if composite(old):
            k = s.shape[-1]
            leaf = field_dts(old)
            if len(set(leaf)) != 1:
                raise Unsupported("view of mixed structure")
            leaf = leaf[0]
            if self.ndim == 0:
                s = s.reshape(1, k)[0]
            else:
                s = merge_last(s)
        else:
            leaf = old
        if composite(dt):
            fl = field_dts(dt)
            if len(set(fl)) != 1:
                raise Unsupported("view to mixed structure")
            fl, k2 = fl[0], len(fl)
        else:
            fl, k2 = dt, 0
        if fl != leaf:
            if fl.itemsize == leaf.itemsize and {fl.kind, leaf.kind} <= set("iu"):
                s = map_obj(lambda v: cast(v, fl), s)
            elif {fl.kind, leaf.kind} == {"b", "u"} and fl.itemsize == 1 or {fl.kind, leaf.kind} == {"b", "i"} and fl.itemsize == 1 and leaf.itemsize == 1:
                s = map_obj(lambda v: cast(v, fl), s)
            else:
                r = to_real(SymArray(s, leaf), "reinterpreting view").view(dt)
                return wrap(r)
        if k2:
            if s.ndim == 0:
                raise ValueError("Changing the dtype of a 0d array is only supported if the itemsize is unchanged")
            n = s.shape[-1]
            if n % k2:
                raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
            if s.size > 1 and n > 1 and s.strides[-1] != 8 and k2 > 1:
                raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
            s = s.reshape(s.shape[:-1] + (n // k2, k2))
        return SymArray(s, dt)

    def fill(self, v):
        self[...] = v

    def setflags(self, *a, **k):
        pass

    def tobytes(self, *a, **k):
        return to_real(self, "tobytes").tobytes()

    def put(self, ind, v, mode="raise"):
        self.reshape(-1)[ind] = v

    # -- reductions and the like, via the shim
    def _call(self, name, *a, **k):
        from . import npshim
        return getattr(npshim.np_, name)(self, *a, **k)

    @property
    def real(self):
        if self._dt.kind == "c":
            return SymArray(self._s[..., 0], field_dts(self._dt)[0])
        return self

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self._dt.kind == "c":
            return SymArray(self._s[..., 1], field_dts(self._dt)[0])
        return SymArray(full_obj(self.shape, 0.0), self._dt)

    @imag.setter
    def imag(self, v):
        self.imag[...] = v


def _mk_methods():
    for n in ("sum prod any all max min mean var std argmax argmin argsort cumsum cumprod ptp round clip nonzero "
              "diagonal trace dot repeat take searchsorted argpartition compress choose").split():
        def m(self, *a, _n=n, **k):
            return self._call(_n, *a, **k)
        setattr(SymArray, n, m)

    def sort(self, axis=-1, kind=None, order=None, **k):
        r = self._call("sort", axis=axis)
        self._s[...] = r._s
    SymArray.sort = sort

    def partition(self, kth, axis=-1, **k):
        r = self._call("sort", axis=axis)
        self._s[...] = r._s
    SymArray.partition = partition
    SymArray.conj = SymArray.conjugate = lambda self: ufunc("conjugate")(self)
    tbl = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide", "floordiv": "floor_divide",
           "mod": "remainder", "pow": "power", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor",
           "lshift": "left_shift", "rshift": "right_shift", "matmul": "matmul"}
    for n, u in tbl.items():
        def f(self, o, _u=u):
            if defers(self, o):
                return NotImplemented
            return ufunc(_u)(self, o)

        def r(self, o, _u=u):
            return ufunc(_u)(o, self)

        def i(self, o, _u=u):
            return ufunc(_u)(self, o, out=(self,))
        setattr(SymArray, "__%s__" % n, f)
        setattr(SymArray, "__r%s__" % n, r)
        setattr(SymArray, "__i%s__" % n, i)
    for n, u in dict(lt="less", le="less_equal", gt="greater", ge="greater_equal").items():
        def c(self, o, _u=u):
            return ufunc(_u)(self, o)
        setattr(SymArray, "__%s__" % n, c)

    def eq(self, o):
        return array_eq(self, o, "equal")

    def ne(self, o):
        return array_eq(self, o, "not_equal")
    SymArray.__eq__, SymArray.__ne__ = eq, ne
    SymArray.__divmod__ = lambda self, o: NotImplemented if defers(self, o) else ufunc("divmod")(self, o)
    SymArray.__rdivmod__ = lambda self, o: ufunc("divmod")(o, self)
    SymArray.__neg__ = lambda self: ufunc("negative")(self)
    SymArray.__pos__ = lambda self: ufunc("positive")(self)
    SymArray.__abs__ = lambda self: ufunc("absolute")(self)
    SymArray.__invert__ = lambda self: ufunc("invert")(self)


def defers(a, o):
    return getattr(type(o), "__array_ufunc__", 0) is None


def array_eq(a, o, name):
    if o is None or isinstance(o, (str, bytes)) and a._dt.kind not in "USO":
        return SymArray(full_obj(a.shape, name != "equal"), B_)
    if a._dt.names is not None:
        if has_ufunc(o) and not isinstance(o, SymArray):
            return ufunc(name)(a, o)
        b = asarr(o)
        if b._dt.names is None:
            raise TypeError("Cannot compare structured array with unstructured one")
        if a._dt.names != b._dt.names:
            raise TypeError("Cannot compare structured arrays unless they have a common dtype.")
        x, y = broadcast_pair(a, b)
        out = np.empty(x.shape[:-1], dtype=object)
        fa, fb = field_dts(a._dt), field_dts(b._dt)
        log_access(a._s, "r"), log_access(b._s, "r")
        for i in np.ndindex(*out.shape):
            e = And(*[zb(compare("eq", typed(p, d), typed(q, d2))) for p, q, d, d2 in zip(x[i], y[i], fa, fb)])
            out[i] = mkb(e if name == "equal" else Not(e))
        return SymArray(out, B_)
    return ufunc(name)(a, o)


def broadcast_pair(a, b):
    shp = np.broadcast_shapes(a.shape, b.shape)
    k = a._s.shape[-1:]
    return np.broadcast_to(a._s, shp + k), np.broadcast_to(b._s, shp + k)


builtins_type = type


class Flags:
    def __init__(self, a):
        s = a._s
        self.c_contiguous = s.flags.c_contiguous and (s.size == 0 or not a._t or True)
        self.f_contiguous = s.flags.f_contiguous
        self.owndata = s.base is None
        self.contiguous = self.c_contiguous
        self.writeable = s.flags.writeable

    def __getitem__(self, k):
        return {"C_CONTIGUOUS": self.c_contiguous, "C": self.c_contiguous, "F_CONTIGUOUS": self.f_contiguous,
                "OWNDATA": self.owndata, "WRITEABLE": self.writeable}[k]

    def __setitem__(self, k, v):
        pass


class FlatIter:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a.reshape(-1)[k]

    def __setitem__(self, k, v):
        self.a.reshape(-1)[k] = v

    def __iter__(self):
        return iter(self.a.reshape(-1))

    def __len__(self):
        return self.a.size


class Buffer:
    """stands for the address of an array's first element in its __array_interface__"""

    def __init__(self, sym):
        self.sym = sym


def c_strides(shape, itemsize):
    out, k = [], itemsize
    for n in reversed(shape):
        out.append(k)
        k *= max(n, 1)
    return tuple(reversed(out))


def from_interface(d):
    """the array described by a (possibly edited) copy of an interface dictionary"""
    sym = d["data"][0].sym
    t = d["typestr"]
    dt = as_dt(d["descr"] if t.startswith("|V") else t)
    shape = tuple(d["shape"])
    k = sym._dt.itemsize
    if dt.itemsize != k:
        raise Unsupported("interface with elements of another size")
    st = d.get("strides") or c_strides(shape, k)
    if shape != sym.shape or tuple(st) != sym.strides:
        f = 8 * (sym._s.shape[-1] if sym._t else 1)
        tail = sym._t and sym._s.shape[-1:] or ()
        s = np.lib.stride_tricks.as_strided(sym._s, shape + tuple(tail), tuple(x // k * f for x in st) + (sym._s.strides[-1:] if tail else ()))
        if s.size:  # stay inside of the buffer
            lo, hi = np.lib.array_utils.byte_bounds(s)
            b = sym._s
            while b.base is not None and isinstance(b.base, np.ndarray):
                b = b.base
            l, h = np.lib.array_utils.byte_bounds(b)
            if lo < l or hi > h:
                raise Unsupported("interface reaching beyond its buffer")
        sym = SymArray(s, sym._dt)
    return sym if dt == sym._dt else sym.view(dt)


class IfaceDict(dict):
    sym = None


class LazyArray(SymArray):
    """array whose i-th candidate row is present iff pres[i]; order='sorted' sorts on materialising"""

    def __init__(self, base, pres, dt, order=None):
        self._base = base
        self._pres = pres
        self._dt = dt
        self._order = order
        self._mat = None

    @property
    def materialised(self):
        return self._mat is not None

    @property
    def _s(self):
        if self._mat is None:
            keep = [i for i, p in enumerate(self._pres) if E().decide(p)]
            m = self._base[keep]
            if self._order == "sorted" and len(keep) > 1:
                vals = sort_vals([m[i] for i in range(len(keep))], self._dt)
                for i, v in enumerate(vals):
                    m[i] = v
            self._mat = m
        return self._mat

    @_s.setter
    def _s(self, v):
        self._mat = v

    def _live(self):
        return self._mat is None

    def __getitem__(self, key):
        if self._live():
            if isinstance(key, str):
                return LazyArray(self._base[..., fidx(self._dt, key)], self._pres, self._dt.fields[key][0])
            if self._order is None and isinstance(key, (int, np.integer)) and key in (0, -1):
                n = len(self._pres)
                rng = range(n) if key == 0 else range(n - 1, -1, -1)
                if not E().decide(Or(*self._pres)) :
                    raise IndexError("index %d is out of bounds for axis 0 with size 0" % key)
                out = None
                for i in reversed(list(rng)):
                    out = self._base[i] if out is None else ite_obj(self._pres[i], self._base[i], out)
                if isinstance(out, np.ndarray):
                    return SymArray(out, self._dt) if out.ndim - (1 if composite(self._dt) else 0) > 0 else self._scalar(out)
                return typed(out, self._dt)
        return SymArray.__getitem__(self, key)

    def reshape(self, *shape, **kw):
        if self._live() and shape in ((-1,), ((-1,),)) and self._base.ndim == 1 + (1 if composite(self._dt) else 0):
            return self
        return SymArray.reshape(self, *shape, **kw)

    def copy(self, order="C"):
        if self._live():
            return LazyArray(self._base.copy(), list(self._pres), self._dt, self._order)
        return SymArray.copy(self)

    def astype(self, dt, *a, **k):
        if self._live() and not composite(as_dt(dt)) and not composite(self._dt):
            dt = as_dt(dt)
            return LazyArray(map_obj(lambda v: cast(v, dt), self._base), self._pres, dt, self._order)
        return SymArray.astype(self, dt, *a, **k)


class SymRecord:
    """one element of a structured array (numpy.void)"""
    def __init__(self, s, dt):
        self._s, self.dtype = s, dt
        self.shape, self.ndim, self.size = (), 0, 1

    def __getitem__(self, k):
        i = fidx(self.dtype, k) if isinstance(k, str) else operator.index(k)
        log_cell(self._s, (i,))
        return typed(self._s[i], field_dts(self.dtype)[i])

    def __setitem__(self, k, v):
        i = fidx(self.dtype, k) if isinstance(k, str) else operator.index(k)
        log_cell(self._s, (i,), "w")
        self._s[i] = cast(v, field_dts(self.dtype)[i])

    def __getattr__(self, k):
        if k in (self.__dict__.get("dtype").names or ()):
            return self[k]
        raise AttributeError(k)

    def __len__(self):
        return len(self.dtype.names)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def item(self):
        return tuple(pyv(x) for x in self._s)

    tolist = item

    def copy(self):
        return SymRecord(self._s.copy(), self.dtype)

    def __eq__(self, o):
        r = SymArray(self._s, self.dtype) == o
        return r[()] if r.ndim == 0 else r

    def __ne__(self, o):
        r = SymArray(self._s, self.dtype) != o
        return r[()] if r.ndim == 0 else r

    __hash__ = None


# ----------------------------------------------------------------- helpers
def pyv(v):
    if isinstance(v, Sym):
        return v.py()
    if isinstance(v, np.generic):
        return v.item()
    return v


def mkc(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return SymComplex(typed(a, F8), typed(b, F8))
    return complex(a, b)


def elem_dt(dt):
    return field_dts(dt)[0] if composite(dt) else dt


def fidx(dt, name):
    if dt.names is None or name not in dt.names:
        if dt.names is None:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        raise ValueError("no field of name %s" % name)
    return dt.names.index(name)


def full_obj(shape, v):
    o = np.empty(shape, dtype=object)
    o.fill(v)
    return o


def map_obj(f, o):
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        out[i] = f(o[i])
    return out


def from_elems(o, dt):
    """object array of scalars -> SymArray"""
    if not isinstance(o, np.ndarray):
        t = np.empty((), dtype=object)
        t[()] = o
        o = t
    if dt.kind == "c":
        s = np.empty(o.shape + (2,), dtype=object)
        for i in np.ndindex(*o.shape):
            v = o[i]
            if isinstance(v, SymComplex):
                s[i + (0,)], s[i + (1,)] = cast(v.re, F8), cast(v.im, F8)
            elif isinstance(v, Sym):
                s[i + (0,)], s[i + (1,)] = cast(v, F8), 0.0
            else:
                v = complex(v)
                s[i + (0,)], s[i + (1,)] = v.real, v.imag
        return SymArray(s, dt)
    if dt.names is not None:
        fd = field_dts(dt)
        s = np.empty(o.shape + (len(fd),), dtype=object)
        for i in np.ndindex(*o.shape):
            v = o[i]
            if isinstance(v, SymRecord):
                v = v._s
            elif isinstance(v, np.void):
                v = v.item()
            for j, d in enumerate(fd):
                s[i + (j,)] = cast(v[j], d)
        return SymArray(s, dt)
    return SymArray(o, dt)


def merge_last(s):
    k = s.shape[-1]
    return s.reshape(s.shape[:-2] + (s.shape[-2] * k,))


def ite_obj(c, a, b):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = ite(c, a[i], b[i])
        return out
    return ite(c, a, b)


def any_of(es):
    return mkb(Or(*es))


def same_conds(p, q):
    return len(p) == len(q) and all(a.eq(b) for a, b in zip(p, q))


def mats(a):
    """force a lazily sized array"""
    return a._s


def log_access(s, mode):
    par = E().par if E() is not None else None
    if par is None or s.size == 0:
        return
    base = s.__array_interface__["data"][0]
    for i in np.ndindex(*s.shape):
        par.touch(base + sum(a * b for a, b in zip(i, s.strides)), mode)


def log_cell(s, rk, mode="r"):
    par = E().par if E() is not None else None
    if par is None:
        return
    base = s.__array_interface__["data"][0]
    off = 0
    for k, st, n in zip(rk, s.strides, s.shape):
        off += (int(k) % n if n else 0) * st
    par.touch(base + off, mode)


def norm_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for k in key:
        if isinstance(k, (slice, type(None), type(Ellipsis), int, np.integer, SymArray, SymInt)) and not isinstance(k, (bool, np.bool_)):
            if isinstance(k, slice):
                k = slice(*[None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)])
            elif isinstance(k, SymArray) and k.ndim == 0 and not isinstance(k, LazyArray) and k._dt.kind in "iu":
                k = k._s[()]
            out.append(k)
        elif isinstance(k, (bool, np.bool_, SymBool)):
            out.append(bool(k))
        else:
            a = asarr(k)
            if a.size == 0 and not isinstance(k, (np.ndarray, SymArray)) and a._dt.kind == "f":
                a = SymArray(a._s, I8)
            if a._dt.kind not in "biu":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            out.append(a)
    if Ellipsis in [k for k in out if k is Ellipsis]:
        i = [j for j, k in enumerate(out) if k is Ellipsis][0]
        used = sum(0 if k is None or k is Ellipsis else (k.ndim if isinstance(k, SymArray) and k._dt.kind == "b" else 1) for k in out)
        if len(out) > 1:
            out[i:i + 1] = [slice(None)] * max(0, ndim - used)
            if ndim - used == 0 and all(isinstance(k, (int, np.integer)) for k in out):
                out.append(Ellipsis)
        else:
            out = [Ellipsis]
    else:
        used = sum(0 if k is None else (k.ndim if isinstance(k, SymArray) and k._dt.kind == "b" else 1) for k in out if not isinstance(k, bool))
        if used > ndim:
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (ndim, used))
    return tuple(out)


def full_key(rk, ndim):
    """index of a composite array's storage: all logical axes consumed, trailing axis kept"""
    if rk == (Ellipsis,):
        return rk
    rk = tuple(k for k in rk if k is not Ellipsis)
    used = sum(0 if k is None else (k.ndim if isinstance(k, np.ndarray) and k.dtype == bool else 1) for k in rk)
    return rk + (slice(None),) * (ndim - used)


def expand_masks(key):
    """boolean arrays inside a tuple become index arrays (forking)"""
    out = []
    for k in key:
        if isinstance(k, SymArray) and k._dt.kind == "b":
            mats(k)
            sel = [i for i in np.ndindex(*k.shape) if E().decide(zb(k._s[i]))]
            for ax in range(k.ndim):
                o = np.empty(len(sel), dtype=object)
                for n, i in enumerate(sel):
                    o[n] = i[ax]
                out.append(SymArray(o, I8))
        else:
            out.append(k)
    return tuple(out)


def concrete_index(k):
    if isinstance(k, SymInt):
        return E().pick_int(k.e)
    if isinstance(k, SymArray):
        mats(k)
        return SymArray(map_obj(lambda v: E().pick_int(v.e) if isinstance(v, SymInt) else v, k._s), k._dt)
    return k


def real_index(k):
    if isinstance(k, SymInt):
        return E().pick_int(k.e)
    if isinstance(k, SymArray):
        return k._s.astype(bool if k._dt.kind == "b" else np.intp)
    return k


def value_storage(val, dt):
    """storage of a value being assigned into an array of dtype dt (not yet broadcast)"""
    if isinstance(val, SymRecord):
        val = SymArray(val._s, val.dtype)
    if dt.names is not None and isinstance(val, tuple):
        return np.array([None] * len(dt.names), dtype=object) if False else _tup(val, dt)
    strict = not isinstance(val, (SymArray, np.ndarray))
    if dt.names is not None and not isinstance(val, (SymArray, np.ndarray)) and not isinstance(val, (list,)) and not has_iface(val):
        o = np.empty(len(dt.names), dtype=object)
        for j, d in enumerate(field_dts(dt)):
            o[j] = cast(val, d)
        return o
    if dt.names is not None and isinstance(val, list) and val and isinstance(val[0], tuple):
        return np.stack([_tup(v, dt) for v in val])
    a = asarr(val)
    mats(a)
    if a._dt == dt:
        log_access(a._s, "r")
        return a._s.copy()
    if dt.names is not None:
        if a._dt.names is None:
            o = np.empty(a.shape + (len(dt.names),), dtype=object)
            for i in np.ndindex(*a.shape):
                for j, d in enumerate(field_dts(dt)):
                    o[i + (j,)] = cast(a._s[i], d)
            return o
        return a.astype(dt)._s
    if a._dt.kind == "c" and dt.kind in "fiu":
        warnings.warn("Casting complex values to real discards the imaginary part", np.exceptions.ComplexWarning)
    el = a._elems()
    strict = strict and a.ndim == 0
    r = from_elems(map_obj(lambda v: cast(v, dt, strict), el), dt)
    return r._s


def _tup(val, dt):
    o = np.empty(len(dt.names), dtype=object)
    for j, d in enumerate(field_dts(dt)):
        o[j] = cast(val[j], d)
    return o


def broadcast_assign(st, lead, t):
    tail = st.shape[-1:] if t else ()
    ls = st.shape[:-1] if t else st.shape
    while len(ls) > len(lead) and ls[:1] == (1,):
        st, ls = st[0], ls[1:]
    try:
        return np.broadcast_to(st, lead + tail)
    except ValueError:
        raise ValueError("could not broadcast input array from shape %s into shape %s" % (ls, lead))


def has_iface(x):
    return hasattr(type(x), "__array_interface__") or hasattr(type(x), "__array__")


def has_ufunc(x):
    return getattr(type(x), "__array_ufunc__", None) is not None


def wrap(r):
    """real numpy result -> symbolic array (scalars stay)"""
    if isinstance(r, np.ndarray):
        if r.dtype.names is not None:
            s = np.empty(r.shape + (len(r.dtype.names),), dtype=object)
            for i in np.ndindex(*r.shape):
                for j, v in enumerate(r[i].item() if r.ndim else r.item()):
                    s[i + (j,)] = v
            return SymArray(s, as_dt([(n, r.dtype.fields[n][0]) for n in r.dtype.names]))
        if r.dtype.kind == "c":
            s = np.empty(r.shape + (2,), dtype=object)
            s[..., 0] = r.real.astype(object)
            s[..., 1] = r.imag.astype(object)
            return SymArray(s, r.dtype)
        return SymArray(r.astype(object), r.dtype)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def to_real(a, why):
    """concretise"""
    if isinstance(a, LazyArray):
        mats(a)
    dt = a._dt
    el = a._s
    out = np.empty(el.shape, dtype=object)
    for i in np.ndindex(*el.shape):
        v = el[i]
        out[i] = E().concretise(v, why) if isinstance(v, Sym) else v
    if dt.names is not None:
        r = np.empty(a.shape, dtype=dt)
        for j, n in enumerate(dt.names):
            r[n] = out[..., j].astype(dt.fields[n][0])
        return r
    if dt.kind == "c":
        return (out[..., 0].astype(float) + 1j * out[..., 1].astype(float)).astype(dt)
    return out.astype(dt)


def unwrap(x, why):
    """concretise arguments of an unmodelled function"""
    if isinstance(x, SymArray):
        return to_real(x, why)
    if isinstance(x, Sym):
        return E().concretise(x, why)
    if isinstance(x, (list, tuple)):
        t = [unwrap(v, why) for v in x]
        return t if isinstance(x, list) else (tuple(t) if type(x) is tuple else type(x)(*t))
    if isinstance(x, dict):
        return {k: unwrap(v, why) for k, v in x.items()}
    if has_iface(x) and not isinstance(x, (np.ndarray, np.generic)):
        return to_real(asarr(x), why)
    return x


# --------------------------------------------------------------- creation
def asarr(x, dt=None, strict=False):
    """np.asarray(x) without a copy where numpy makes none"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, Sym) or isinstance(x, np.generic) and not isinstance(x, np.void) or core.concrete_kind(x) or isinstance(x, str):
        d = leaf_dtype(x)
        return from_elems(x.item() if isinstance(x, np.generic) else x, d)
    if isinstance(x, np.void):
        return wrap(np.asarray(x))
    if isinstance(x, SymRecord):
        return SymArray(x._s, x.dtype)
    if x is None:
        return from_elems(None, as_dt(object))
    if hasattr(type(x), "__array_interface__") or (not isinstance(x, (list, tuple)) and hasattr(x, "__array_interface__")):
        d = x.__array_interface__
        if isinstance(d, IfaceDict):
            return d.sym
        if isinstance(d.get("data", (None,))[0], Buffer):
            return from_interface(d)
        return wrap(np.asarray(x))
    if hasattr(type(x), "__array__"):
        return asarr(x.__array__())
    if type(x).__module__.startswith("pandas"):
        return wrap(np.asarray(x))
    if isinstance(x, range):
        return wrap(np.asarray(x))
    if isinstance(x, (list, tuple)) or (hasattr(type(x), "__len__") and hasattr(type(x), "__getitem__") and not isinstance(x, (dict, set, frozenset, bytes))):
        return from_list(x, dt)
    return from_elems(x, as_dt(object))


def from_list(x, dt=None):
    items = list(x)
    if not items:
        return SymArray(np.empty((0,), dtype=object), F8)
    nested = [i for i in items if isinstance(i, (list, tuple, SymArray, np.ndarray, SymRecord)) or (has_iface(i) and not isinstance(i, (Sym, np.generic))) or (hasattr(type(i), "__len__") and hasattr(type(i), "__getitem__") and not isinstance(i, (str, bytes, dict, np.generic, Sym)))]
    if nested:
        if len(nested) != len(items):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        subs = [asarr(i) for i in items]
        for s in subs:
            mats(s)
        shp = {s.shape for s in subs}
        if len(shp) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        dts = [s._dt for s in subs if s.size or True]
        nonempty = [s._dt for s in subs if s.size]
        d = result_type(nonempty or dts)
        subs = [s if s._dt == d else s.astype(d) for s in subs]
        return SymArray(np.stack([s._s for s in subs]), d)
    dts = [leaf_dtype(i) for i in items]
    d = result_type(dts)
    o = np.empty(len(items), dtype=object)
    for n, i in enumerate(items):
        o[n] = cast(i.item() if isinstance(i, np.generic) else i, d)
    if d.kind == "c":
        return from_elems(o, d)
    return SymArray(o, d)


def result_type(dts):
    s = []
    for d in dts:
        if d not in s:
            s.append(d)
    if len(s) == 1:
        return s[0]
    try:
        return np.result_type(*s)
    except TypeError:
        return as_dt(object)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    a = asarray(x, dtype)
    if a is x or isinstance(a, SymArray) and (copy is True or copy is None and False):
        a = a.copy() if copy else a
    while a.ndim < ndmin:
        a = a[None]
    return a


def asarray(x, dtype=None, order=None, copy=None, like=None):
    if dtype is None:
        a = asarr(x)
        return a
    dt = as_dt(dtype)
    if dt.names is not None and isinstance(x, (list, tuple)):
        if isinstance(x, tuple):
            return SymArray(_tup(x, dt), dt)
        return SymArray(np.stack([_tup(v, dt) for v in x]) if x else np.empty((0, len(dt.names)), dtype=object), dt)
    a = asarr(x)
    if a._dt == dt:
        return a
    from_py = not isinstance(x, (SymArray, np.ndarray)) and not has_iface(x)
    if isinstance(a, LazyArray):
        return a.astype(dt)
    if composite(a._dt) and dt.kind != "O" and a._dt.names is not None and dt.names is None:
        raise ValueError("setting an array element with a sequence.")
    if composite(a._dt) and a._dt.kind == "c" and dt.kind in "fiub" and from_py:
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if composite(dt) or composite(a._dt):
        return a.astype(dt)
    return SymArray(map_obj(lambda v: cast(v, dt, from_py), a._s), dt)


def zeros_value(dt):
    return {"b": False, "i": 0, "u": 0, "f": 0.0, "c": 0.0, "U": "", "S": b"", "O": 0}[dt.kind]


def full(shape, v, dtype=None, **k):
    shape = norm_shape(shape)
    if dtype is None:
        dtype = asarr(v)._dt
    dt = as_dt(dtype)
    if dt.names is not None:
        s = np.empty(shape + (len(dt.names),), dtype=object)
        for j, d in enumerate(field_dts(dt)):
            s[..., j] = cast(v, d)
        return SymArray(s, dt)
    if dt.kind == "c":
        a = SymArray(np.empty(shape + (2,), dtype=object), dt)
        a[...] = v
        return a
    a = SymArray(np.empty(shape, dtype=object), dt)
    a[...] = v
    return a


def norm_shape(shape):
    if isinstance(shape, SymArray):
        shape = shape.tolist()
    if isinstance(shape, (tuple, list)):
        r = tuple(operator.index(x) for x in shape)
    else:
        r = (operator.index(shape),)
    if any(x < 0 for x in r):
        raise ValueError("negative dimensions are not allowed")
    return r


def zeros(shape, dtype=float, order="C", **k):
    dt = as_dt(dtype)
    if composite(dt):
        shape = norm_shape(shape)
        fd = field_dts(dt)
        s = np.empty(shape + (len(fd),), dtype=object)
        for j, d in enumerate(fd):
            s[..., j] = zeros_value(d)
        return SymArray(s, dt)
    return SymArray(full_obj(norm_shape(shape), zeros_value(dt)), dt)


def ones(shape, dtype=float, order="C", **k):
    return full(shape, 1, as_dt(dtype))


def empty(shape, dtype=float, order="C", **k):
    """uninitialised memory: any value of the type"""
    dt = as_dt(dtype)
    shape = norm_shape(shape)
    if E() is None or not E().active:
        return zeros(shape, dt)
    if composite(dt):
        fd = field_dts(dt)
        s = np.empty(shape + (len(fd),), dtype=object)
        for i in np.ndindex(*shape):
            for j, d in enumerate(fd):
                s[i + (j,)] = garbage(d)
        return SymArray(s, dt)
    s = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        s[i] = garbage(dt)
    return SymArray(s, dt)


def garbage(d):
    if d.kind == "b":
        return SymBool(z3.Bool(E().fresh("mem")))
    if d.kind in "iu":
        v = z3.Int(E().fresh("mem"))
        a, b = core.int_range(d)
        E().assume(z3.And(v >= a, v <= b))
        return SymInt(v, a, b, d)
    if d.kind == "f":
        return SymFloat(z3.Real(E().fresh("mem")), d)
    return zeros_value(d)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, np.ndarray))

    def __subclasscheck__(cls, c):
        return issubclass(c, (SymArray, np.ndarray))


class NdShim(metaclass=_NdMeta):
    """np.ndarray as seen by the code under test"""
    def __new__(cls, shape, dtype=float, *a, **k):
        return empty(shape, dtype)

    def __class_getitem__(cls, item):
        return np.ndarray


# ----------------------------------------------------------------- sorting
def less(a, b):
    """strict order used by numpy's sort (NaN last), forking"""
    an, bn = special(a) and math.isnan(a), special(b) and math.isnan(b)
    if an:
        return False
    if bn:
        return True
    return bool(compare("lt", a, b))


def sort_vals(vals, dt):
    vals = [typed(v, dt) for v in vals]
    out = []
    for v in vals:  # insertion sort, stable
        i = len(out)
        while i > 0 and less(v, out[i - 1]):
            i -= 1
        out.insert(i, v)
    return [pyc(v) for v in out]


def pyc(v):
    return v.item() if isinstance(v, np.generic) else v


def argsort_vals(vals):
    out = []
    for n, v in enumerate(vals):
        i = len(out)
        while i > 0 and less(v, vals[out[i - 1]]):
            i -= 1
        out.insert(i, n)
    return out


# ------------------------------------------------------------------ ufuncs
UF_TABLE = {}


def ufunc(name):
    return UF_TABLE[name]


class UF:
    def __init__(self, name, real, kernel):
        self.__name__ = name
        self.real = real
        self.kernel = kernel
        self.nin, self.nout, self.nargs = real.nin, real.nout, real.nargs
        self.identity = real.identity
        self.signature = real.signature
        self.types = real.types

    def __repr__(self):
        return "<ufunc '%s'>" % self.__name__

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    # - dispatch to objects overriding ufuncs
    def _override(self, method, inputs, kw):
        outs = kw.get("out", ())
        if not isinstance(outs, tuple):
            outs = (outs,)
        cands = []
        for x in tuple(inputs) + outs:
            if has_ufunc(x) and not isinstance(x, (SymArray, Sym, np.ndarray, np.generic)):
                if not any(type(x) is type(c) for c in cands):
                    cands.append(x)
        # subclasses before superclasses
        for i in range(len(cands)):
            for j in range(i + 1, len(cands)):
                if issubclass(type(cands[j]), type(cands[i])):
                    cands.insert(i, cands.pop(j))
        if not cands:
            return False, None
        if "out" in kw and not isinstance(kw["out"], tuple):
            kw = dict(kw, out=(kw["out"],))
        if len(kw.get("out", ())) == 1 and kw["out"][0] is None:
            kw = {k: v for k, v in kw.items() if k != "out"}
        for c in cands:
            r = c.__array_ufunc__(self, method, *inputs, **kw)
            if r is not NotImplemented:
                return True, r
        raise TypeError("operand type(s) all returned NotImplemented from __array_ufunc__(%r, %r): %s" % (self, method, ", ".join(repr(type(x)) for x in inputs)))

    def __call__(self, *inputs, out=None, where=True, dtype=None, casting="same_kind", order="K", subok=True, sig=None, signature=None, axis=None, axes=None, keepdims=None):
        if len(inputs) > self.nin:
            out = inputs[self.nin:] if out is None else out
            inputs = inputs[:self.nin]
        if len(inputs) != self.nin:
            raise TypeError("%s() takes from %d positional arguments but %d were given" % (self.__name__, self.nin, len(inputs)))
        kw = {}
        if out is not None:
            kw["out"] = out
        if where is not True:
            kw["where"] = where
        if dtype is not None:
            kw["dtype"] = dtype
        if casting != "same_kind":
            kw["casting"] = casting
        done, r = self._override("__call__", inputs, kw)
        if done:
            return r
        if self.__name__ == "matmul":
            r = matmul(*inputs)
            return self._store(r, out, where)
        return self._apply(inputs, out, where, dtype, casting)

    def _apply(self, inputs, out, where, dtype, casting):
        arrs, dums = [], []
        allscalar = True
        for x in inputs:
            if isinstance(x, Sym) or core.concrete_kind(x) is not None:
                arrs.append(("s", x))
                dums.append(dummy_scalar(x))
            else:
                a = asarr(x)
                if a._dt.names is not None:
                    raise core_ufunc_type_error(self, a)
                if a.ndim == 0 and not isinstance(x, SymArray):
                    pass
                else:
                    allscalar = False
                arrs.append(("a", a))
                dums.append(np.ones((0,) if (isinstance(a, LazyArray) or a.ndim) else (), dtype=a._dt))
        # lazily sized operands stay lazy when everything else is a scalar or equally sized
        lazies = [a for t, a in arrs if t == "a" and isinstance(a, LazyArray) and not a.materialised]
        if lazies and out is None and where is True:
            l0 = lazies[0]
            if all(t == "s" or a.ndim_() == 0 if not isinstance(a, LazyArray) else same_conds(a._pres, l0._pres) and a._order is None and not a.materialised
                   for t, a in [(t, (a if t == "a" else _S())) for t, a in arrs]) and l0._order is None and l0._base.ndim == 1 + (1 if composite(l0._dt) else 0):
                ins = [(SymArray(a._base, a._dt) if isinstance(a, LazyArray) else a) for t, a in arrs]
                r = self._apply(ins, None, True, dtype, casting)
                if isinstance(r, SymArray):
                    return LazyArray(r._s, l0._pres, r._dt)
        odt, ldt = self._dtypes(dums, dtype, casting, [a for t, a in arrs])
        els = []
        for t, a in arrs:
            if t == "s":
                o = np.empty((), dtype=object)
                o[()] = a
                els.append((o, None))
            else:
                els.append((a._elems(), a._dt))
        shape = np.broadcast_shapes(*[e.shape for e, _ in els])
        bl = [np.broadcast_to(e, shape) for e, _ in els]
        outs = out if isinstance(out, tuple) else ((out,) if out is not None else None)
        wh = None
        if where is not True:
            wh = asarr(where)
            shape = np.broadcast_shapes(shape, wh.shape)
            bl = [np.broadcast_to(e, shape) for e in bl]
            wh = np.broadcast_to(wh._s, shape)
        res = [np.empty(shape, dtype=object) for _ in range(self.nout)]
        loop_in = ldt
        for i in np.ndindex(*shape):
            if wh is not None and not isinstance(wh[i], Sym) and not wh[i]:
                for n in range(self.nout):
                    res[n][i] = None
                continue
            args = []
            for b, (e, d) in zip(bl, els):
                v = b[i]
                v = typed(v, d) if d is not None else v
                args.append(v)
            r = self._one(args, odt, loop_in, dtype)
            if self.nout == 1:
                r = (r,)
            for n in range(self.nout):
                res[n][i] = r[n]
        results = []
        for n in range(self.nout):
            d = odt[n]
            vals = res[n]
            for i in np.ndindex(*shape):
                if vals[i] is not None:
                    vals[i] = cast(pyc(vals[i]), d) if not isinstance(vals[i], core.Fr) else vals[i]
            if wh is not None:
                tgt = outs[n] if outs is not None else None
                if tgt is None:
                    tgt = empty(shape, d)
                    for i in np.ndindex(*shape):
                        cur = tgt._s[i]
                        tgt._s[i] = cur if vals[i] is None else ite(zb(wh[i]), vals[i], cur)
                else:
                    for i in np.ndindex(*shape):
                        if vals[i] is not None:
                            tgt._s[i] = ite(zb(wh[i]), cast(vals[i], tgt._dt), tgt._s[i])
                results.append(tgt)
                continue
            r = from_elems(vals, d)
            if outs is not None and outs[n] is not None:
                r = self._store(r, outs[n], True)
            elif allscalar or (r.ndim == 0):
                r = typed(r._elems()[()], d)
            results.append(r)
        return results[0] if self.nout == 1 else tuple(results)

    def _store(self, r, out, where):
        if out is None:
            return r
        if isinstance(out, tuple):
            out = out[0]
            if out is None:
                return r
        if not isinstance(out, SymArray):
            raise TypeError("return arrays must be of ArrayType")
        r = asarr(r)
        if not np.can_cast(r._dt, out._dt, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(self.real, "same_kind", r._dt, out._dt, 0)
        if r.shape != out.shape:
            try:
                bs = np.broadcast_shapes(r.shape, out.shape)
            except ValueError:
                bs = None
            if bs != out.shape:
                raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.shape, r.shape))
        out[...] = r
        return out

    def _dtypes(self, dums, dtype, casting, arrs):
        key = (self.__name__, dtype, casting, tuple((d.dtype, True, getattr(d, "shape", None)) if isinstance(d, (np.ndarray, np.generic)) else (type(d), False) for d in dums))
        r = _DT_CACHE.get(key)
        if r is None:
            kw = {}
            if dtype is not None:
                kw["dtype"] = dtype
            if casting != "same_kind":
                kw["casting"] = casting
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                try:
                    o = self.real(*dums, **kw)
                except (TypeError,) as ex:
                    if any(isinstance(d, np.ndarray) and d.dtype == object for d in dums):
                        o = tuple(np.ones(0, dtype=object) for _ in range(self.nout))
                        o = o if self.nout > 1 else o[0]
                    else:
                        raise
            o = o if isinstance(o, tuple) else (o,)
            odt = [np.asarray(x).dtype for x in o]
            r = _DT_CACHE[key] = (odt, None)
        return r

    def _one(self, args, odt, ldt, dtype):
        if dtype is not None:
            d = as_dt(dtype)
            args = [cast(pyc(a), d) for a in args]
            args = [typed(a, d) for a in args]
        if not any(isinstance(a, Sym) for a in args):
            if E() is not None and E().numba:
                with np.errstate(all="ignore"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return self.real(*args)
            return self.real(*[float(a) if isinstance(a, core.Fr) else a for a in args])
        if self.kernel is None:
            why = "ufunc %s" % self.__name__
            return self.real(*[E().concretise(a, why) for a in args])
        return self.kernel(*args)

    # - methods
    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=_DT_CACHE if False else None, where=True):
        kw = {"axis": axis}
        if dtype is not None:
            kw["dtype"] = dtype
        if out is not None:
            kw["out"] = out if isinstance(out, tuple) else (out,)
        if keepdims:
            kw["keepdims"] = keepdims
        if initial is not None:
            kw["initial"] = initial
        if where is not True:
            kw["where"] = where
        done, r = self._override("reduce", (a,), kw)
        if done:
            return r
        a = asarr(a)
        if isinstance(a, LazyArray) and not a.materialised and a._base.ndim == 1 and axis in (0, None, -1) and where is True and initial is None and out is None:
            r = self._lazy_reduce(a, dtype)
            if r is not None:
                return r[0]
        mats(a)
        if a._dt.names is not None:
            raise core_ufunc_type_error(self, a)
        if axis is None:
            a = a.reshape(-1) if a.ndim != 1 else a
            nkeep = None
            axes = (0,)
        else:
            axes = tuple(axis) if isinstance(axis, (tuple, list)) else (axis,)
            axes = tuple(operator.index(x) for x in axes)
            for x in axes:
                if a.ndim and not -a.ndim <= x < a.ndim:
                    raise np.exceptions.AxisError(x, a.ndim)
            axes = tuple(x % a.ndim for x in axes) if a.ndim else ()
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            d = np.asarray(self.real.reduce(np.ones((1,) * max(a.ndim, 1), dtype=a._dt), axis=0, dtype=dtype)).dtype
        el = a._elems()
        rest = [i for i in range(a.ndim) if i not in axes]
        el = el.transpose(rest + list(axes)) if a.ndim else el.reshape(1)
        el = el.reshape(tuple(el.shape[:len(rest)]) + (-1,)) if el.size or all(el.shape[:len(rest)]) else el.reshape(tuple(el.shape[:len(rest)]) + (int(np.prod(el.shape[len(rest):], dtype=int)),))
        if where is not True:
            wh = np.broadcast_to(asarr(where)._s, a.shape).transpose(rest + list(axes)).reshape(el.shape)
        o = np.empty(el.shape[:-1], dtype=object)
        ident = self.real.identity
        for i in np.ndindex(*o.shape):
            acc = initial
            vals = list(el[i])
            if where is not True:
                vals = [v for v, w in zip(vals, wh[i]) if E().decide(zb(w))]
            if acc is None:
                if not vals:
                    if ident is None:
                        raise ValueError("zero-size array to reduction operation %s which has no identity" % self.__name__)
                    o[i] = cast(ident, d)
                    continue
                acc = cast(vals[0], d) if self.__name__ not in ("logical_and", "logical_or", "logical_xor") else cast(vals[0], B_)
                vals = vals[1:]
            for v in vals:
                v = cast(v, d)
                acc = self._one([typed(acc, d), typed(v, d)], [d], None, None)
                acc = cast(pyc(acc), d)
            o[i] = acc
        r = from_elems(o, d)
        if keepdims:
            r = r.reshape(tuple(1 if (axis is None or i in axes) else n for i, n in enumerate(a.shape)) if axis is not None else (1,) * max(a.ndim, 1))
        if out is not None:
            return self._store(r, out, True)
        if r.ndim == 0:
            return typed(r._elems()[()], d)
        return r

    def _lazy_reduce(self, a, dtype):
        n = self.__name__
        vals = list(a._base)
        ps = a._pres
        if n in ("logical_or", "bitwise_or") and (n == "logical_or" or a._dt.kind == "b"):
            return (mkb(Or(*[And(p, zb(cast(v, B_))) for p, v in zip(ps, vals)])),)
        if n in ("logical_and", "bitwise_and") and (n == "logical_and" or a._dt.kind == "b"):
            return (mkb(And(*[Or(Not(p), zb(cast(v, B_))) for p, v in zip(ps, vals)])),)
        if n == "add" and a._dt.kind in "biu":
            d = as_dt(dtype) if dtype is not None else np.add.reduce(np.ones(1, dtype=a._dt)).dtype
            acc = typed(0, d)
            for p, v in zip(ps, vals):
                acc = arith("add", acc, typed(cast(ite(p, cast(v, d), 0), d), d))
            return (acc,)
        return None

    def accumulate(self, a, axis=0, dtype=None, out=None):
        done, r = self._override("accumulate", (a,), {"axis": axis})
        if done:
            return r
        a = asarr(a)
        mats(a)
        d = np.asarray(self.real.accumulate(np.ones((1,), dtype=a._dt), dtype=dtype)).dtype
        el = np.moveaxis(a._elems(), axis, 0)
        o = np.empty(el.shape, dtype=object)
        for n in range(el.shape[0]):
            for i in np.ndindex(*el.shape[1:]):
                v = cast(el[(n,) + i], d)
                o[(n,) + i] = v if n == 0 else cast(pyc(self._one([typed(o[(n - 1,) + i], d), typed(v, d)], [d], None, None)), d)
        r = from_elems(np.moveaxis(o, 0, axis), d)
        return self._store(r, out, True) if out is not None else r

    def outer(self, a, b, **kw):
        done, r = self._override("outer", (a, b), kw)
        if done:
            return r
        a, b = asarr(a), asarr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b, **kw)

    def at(self, a, indices, b=None):
        done, r = self._override("at", (a, indices) + (() if b is None else (b,)), {})
        if done:
            return r
        idx = asarr(indices)
        idx = concrete_index(idx)
        if idx._dt.kind == "b":
            idx = expand_masks((idx,))[0]
        if b is not None:
            b = asarr(b)
        for n, i in enumerate(np.ndindex(*idx.shape)):
            j = int(idx._s[i])
            if b is None:
                a[j] = self(a[j])
            else:
                bv = b[i] if b.ndim else b[()]
                a[j] = self(a[j], bv)


class _S:
    def ndim_(self):
        return 0


SymArray.ndim_ = lambda self: self.ndim
_DT_CACHE = {}


def core_ufunc_type_error(uf, a):
    return TypeError("ufunc '%s' did not contain a loop with signature matching types %s -> None" % (uf.__name__, a._dt))


def dummy_scalar(x):
    d = core.dtype_of(x)
    if d is not None:
        return d.type(1)
    return {"b": True, "i": 1, "f": 1.0, "c": 1j}[kind(x)]


def dispatch_real_ufunc(uf, method, inputs, kw):
    f = UF_TABLE.get(uf.__name__)
    if f is None:
        why = "ufunc %s" % uf.__name__
        r = getattr(uf, method)(*[unwrap(x, why) for x in inputs], **{k: unwrap(v, why) for k, v in kw.items()})
        return wrap(r)
    # comparison of structured arrays through np.equal is handled like ==
    if method == "__call__" and f.__name__ in ("equal", "not_equal") and not kw:
        a, b = inputs
        if isinstance(a, SymArray) and a._dt.names is not None:
            return array_eq(a, b, f.__name__)
    if method == "__call__":
        return f(*inputs, **kw)
    return getattr(f, method)(*inputs, **kw)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    mats(a), mats(b)
    d = np.matmul(np.ones((1, 1), a._dt), np.ones((1, 1), b._dt)).dtype
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if d.kind == "b":
        x, y = a.astype(I8), b.astype(I8)
        r = matmul(x, y)
        return asarr(r) != 0 if isinstance(r, SymArray) else compare("ne", r, 0)
    x = map_obj(lambda v: typed(v, a._dt), a._elems())
    y = map_obj(lambda v: typed(v, b._dt), b._elems())
    if x.shape[-1] != y.shape[-2 if y.ndim > 1 else 0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if x.shape[-1] == 0:
        return zeros(np.matmul(np.ones(x.shape), np.ones(y.shape)).shape, d)
    r = np.matmul(x, y)
    if not isinstance(r, np.ndarray):
        return typed(cast(pyc(r), d), d)
    return from_elems(map_obj(lambda v: cast(pyc(v), d), r), d)


_mk_methods()
