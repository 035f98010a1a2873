"""Symbolic numpy: arrays of symbolic values with the dtype rules of the real
numpy of the project.  Result dtypes, type errors and casting errors are
obtained by running the real ufunc on dummy operands of the same dtypes; the
element values are computed exactly and then wrapped or rounded into them."""
import builtins
import operator
import numpy as np

from . import sym
from .sym import (Engine, Flt, PathAbort, Real, SymBool, SymInt, Unsupported, RealInt,
                  as_z3bool, band, bor, bounds, builtins_int, engine, f_add, f_cmp, f_div,
                  f_floor_int, f_floordiv, f_int, f_mod, f_mul, f_rint_int, f_round, f_sub,
                  fit, flt_const, is_sym, ite, mkbool, mkint, norm_int, shl, shr, sym_abs,
                  sym_add, sym_and, sym_cmp, sym_divmod, sym_mul, sym_neg, sym_not, sym_orxor,
                  sym_sub, to_flt, to_real, z3)

PREC = {2: 11, 4: 24, 8: 53, 16: 64, 12: 64}
NP_INT = np.dtype(np.int64)


def prec(dt):
    return PREC[dt.itemsize]


# ----------------------------------------------------------- element values
def wrap_int(v, dt):
    bits = dt.itemsize * 8
    lo, hi = (0, (1 << bits) - 1) if dt.kind == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    a, b = bounds(v)
    if a >= lo and b <= hi:
        return v
    if isinstance(v, builtins_int):
        v &= (1 << bits) - 1
        return v - (1 << bits) if v > hi else v
    t = fit(v, bits)
    if dt.kind == "u":
        return mkint(z3.ZeroExt(1, t), lo, hi)
    return mkint(t, lo, hi)


def in_range(v, dt):
    """Condition that the exact integer v is representable."""
    bits = dt.itemsize * 8
    lo, hi = (0, (1 << bits) - 1) if dt.kind == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return band(mkb(sym_cmp(lo, v, "le")), mkb(sym_cmp(v, hi, "le")))


def mkb(x):
    return x


def truth(v):
    """bool|SymBool of a raw value."""
    if isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, Flt):
        if v.kind:
            return True
        v = v.m if v.sg is None else v.sg
    r = v != 0
    return bool(r) if isinstance(r, (np.bool_,)) else r


def cast(v, src, dt):
    """Raw value of dtype src -> raw value of dtype dt (astype semantics)."""
    k = dt.kind
    if src == dt and k != "O":
        return v
    if src.kind == "O":
        if k == "f" and (isinstance(v, SymInt) or type(v) is builtins_int):
            return f_round(Flt(v, 0), prec(dt))
        v, src = raw_py(v)
    if k == "O":
        if src.kind == "b" or src.kind in "iuO":
            return v
        return v
    if k == "b":
        return truth(v)
    if k in "iu":
        if src.kind == "b":
            return v.as_int() if isinstance(v, SymBool) else builtins_int(v)
        if src.kind in "iu":
            return wrap_int(v, dt)
        if src.kind == "f":
            if isinstance(v, Real):
                return f_int(v)
            if v.kind:
                raise Unsupported("inf/nan to integer")
            i = f_int(v)
            ok = in_range(i, dt)
            if ok is True or (ok is not False and engine().branch(as_z3bool(ok))):
                if isinstance(i, SymInt):
                    i = wrap_int(i, dt)
                return i
            # out of range: x86-64 conversion of in-int64-range negatives wraps
            i64 = in_range(i, NP_INT)
            if i64 is True or (i64 is not False and engine().branch(as_z3bool(i64))):
                return wrap_int(i, dt)
            raise Unsupported("float out of the integer range")
    if k == "f":
        if isinstance(v, Real):
            return v
        if src.kind == "b":
            v = v.as_int() if isinstance(v, SymBool) else builtins_int(v)
        if src.kind in "iu" or src.kind == "b":
            return f_round(Flt(v, 0), prec(dt))
        if src.kind == "f":
            if isinstance(v, Flt) and not v.kind and prec(dt) < prec(src):
                return f_round(v, prec(dt))
            return v
    if k in "US" and src.kind in "US":
        return v
    raise Unsupported(f"cast {src} -> {dt}")


def raw_py(x):
    """(raw value, dtype) of one scalar object, as np.asarray would see it."""
    if isinstance(x, NpScalar):
        return x.v, x.dtype
    if isinstance(x, (bool, SymBool, np.bool_)):
        return (x if isinstance(x, SymBool) else bool(x)), np.dtype(bool)
    if isinstance(x, SymInt):
        if x.lo >= -(1 << 63) and x.hi < (1 << 63):
            return x, NP_INT
        if (x >= -(1 << 63)) and (x < (1 << 63)):
            return mkint(fit(x, 64), -(1 << 63), (1 << 63) - 1), NP_INT
        if (x >= 0) and (x < (1 << 64)):
            return mkint(fit(x, 65), 0, (1 << 64) - 1), np.dtype(np.uint64)
        return x, np.dtype(object)
    if isinstance(x, RealInt):
        return x, NP_INT
    if isinstance(x, (Flt, Real)):
        return x, np.dtype(float)
    if isinstance(x, (np.integer,)):
        return builtins_int(x), x.dtype
    if isinstance(x, np.floating):
        return to_flt(x), x.dtype
    if isinstance(x, builtins_int):
        d = np.asarray(x).dtype
        return x, d
    if isinstance(x, float):
        return to_flt(x), np.dtype(float)
    if isinstance(x, (str, np.str_)):
        return x, np.asarray(x).dtype
    return x, np.dtype(object)


def obj0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def objarr(vals, shape=None):
    vals = list(vals)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a if shape is None else a.reshape(shape)


def pyval(v, dt):
    """Python-level object of a raw value (item())."""
    return v


# ------------------------------------------------------------------ containers
class _Ops(np.lib.mixins.NDArrayOperatorsMixin):
    __slots__ = ()


def _is_python_scalar(x):
    return isinstance(x, (bool, builtins_int, float, SymInt, SymBool, Flt, Real)) \
        and not isinstance(x, np.generic)


class NpScalar(_Ops):
    """A numpy scalar of a given dtype with a possibly symbolic value."""
    __array_priority__ = 2e6
    __slots__ = ("v", "dtype")
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, v, dtype):
        self.v = v
        self.dtype = dtype

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return dispatch_ufunc(uf, method, inputs, kw)

    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def nbytes(self): return self.dtype.itemsize
    @property
    def real(self): return self
    @property
    def T(self): return self

    def item(self, *a): return self.v
    def tolist(self): return self.v
    def astype(self, dt, **kw):
        dt = realdtype(dt)
        return NpScalar(cast(self.v, self.dtype, dt), dt)
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def reshape(self, *s, **kw): return from_any(self).reshape(*s)
    def ravel(self): return from_any(self).reshape(-1)
    def view(self, dt): return from_any(self).view(dt)[()]
    def round(self, d=0): return np_round(self, d)
    def conjugate(self): return self
    conj = conjugate
    def any(self): return self
    def all(self): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def squeeze(self): return self
    def is_integer(self): return True if self.dtype.kind in "iu" else self.v.is_integer()

    def __bool__(self):
        t = truth(self.v)
        return t if isinstance(t, bool) else bool(t)

    def __int__(self):
        return engine().concretize(sint(self))

    def __index__(self):
        if self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return engine().concretize(self.v)

    def __float__(self):
        f = to_flt(self.v)
        c = flt_const(f)
        if f.kind:
            return float(f.kind)
        if c is None:
            raise Unsupported("float() of a symbolic scalar")
        return float(c)

    def __round__(self, nd=None):
        if self.dtype.kind in "iu":
            return self.v
        if nd is None:
            return f_rint_int(self.v)
        return NpScalar(keep_real(sym.f_round_nd(self.v, nd)), self.dtype)

    def __trunc__(self): return sint(self)
    def __floor__(self): return self.v if self.dtype.kind in "iu" else f_floor_int(self.v)
    def __ceil__(self): return self.v if self.dtype.kind in "iu" else sym_neg(f_floor_int(-self.v))

    def __format__(self, spec):
        if self.dtype.kind in "iu" and isinstance(self.v, builtins_int):
            return format(self.dtype.type(self.v), spec)
        if self.dtype.kind == "f" and isinstance(self.v, Flt) and flt_const(self.v) is not None:
            return format(real_scalar(self), spec)
        if self.dtype.kind == "b":
            return format(bool(self), spec)
        return format(self.v, spec)

    def __str__(self):
        if not isinstance(self.v, (SymInt, SymBool, Flt, Real)):
            return str(self.dtype.type(self.v))
        if isinstance(self.v, Flt) and flt_const(self.v) is not None:
            return str(real_scalar(self))
        return str(self.v)

    __repr__ = __str__

    def __hash__(self):
        # equal values hash alike: symbolic and concrete ones share one bucket
        return 0x5EED

    def __iter__(self):
        raise TypeError("'numpy scalar' object is not iterable")

    def __len__(self):
        raise TypeError("object of type 'numpy scalar' has no len()")

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def tobytes(self): return from_any(self).tobytes()

    def as_integer_ratio(self):
        if self.dtype.kind in "iu":
            return (self.v, 1)
        c = flt_const(self.v)
        if c is None:
            raise Unsupported("as_integer_ratio of a symbolic float")
        return c.numerator, c.denominator

    def bit_length(self):
        return self.v.bit_length()


def _scalar_inplace():
    # numpy scalars are immutable: augmented assignment is the plain operator
    import operator
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "or", "xor"):
        op = getattr(operator, n + ("_" if n in ("and", "or") else ""))
        setattr(NpScalar, f"__i{n}__", lambda self, o, op=op: op(self, o))


_scalar_inplace()


def real_scalar(s):
    """Concrete numpy scalar of an NpScalar with a concrete value."""
    if s.dtype.kind == "f":
        if s.v.kind:
            return s.dtype.type(s.v.kind)
        return flt_to_np(s.v, s.dtype)
    return s.dtype.type(s.v)


def flt_to_np(f, dt):
    f = to_flt(f)
    if f.kind:
        return dt.type(f.kind)
    m = f.m
    if not isinstance(m, builtins_int):
        raise Unsupported("symbolic float made concrete")
    if dt.itemsize <= 8:
        return dt.type(float(flt_const(f)))
    sign = -1 if m < 0 else 1
    m = abs(m)
    hi, lo = m >> 32, m & 0xFFFFFFFF
    r = np.ldexp(dt.type(hi & 0xFFFFFFFF), 32) + dt.type(lo)
    if hi >> 32:
        r = r + np.ldexp(dt.type(hi >> 32), 64)
    return np.ldexp(r, f.e) * sign


def sint(s):
    if s.dtype.kind in "iub":
        return norm_int(s.v)
    if s.dtype.kind == "f":
        return f_int(s.v)
    raise Unsupported("int() of object scalar")


def is_concrete_raw(v):
    if isinstance(v, Flt):
        return bool(v.kind) or isinstance(v.m, builtins_int)
    return not isinstance(v, (SymInt, SymBool, Real))


class SymArray(_Ops):
    __array_priority__ = 3e6

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = dtype

    # -- protocols
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return dispatch_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__)
        if f is None:
            return call_concrete(func, args, kwargs)
        return f(*args, **kwargs)

    def __array__(self, dtype=None):
        c = to_concrete(self)
        return c if dtype is None else c.astype(dtype)

    # -- attributes
    @property
    def shape(self): return self.a.shape

    @shape.setter
    def shape(self, s): self.a = self.a.reshape(s)

    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def nbytes(self): return self.dtype.itemsize * self.a.size
    @property
    def T(self): return SymArray(self.a.T, self.dtype)
    @property
    def real(self): return self
    @property
    def flat(self): return iter(self.reshape(-1))
    @property
    def flags(self): return np.empty(1).flags

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is "
                             "ambiguous. Use a.any() or a.all()")
        return bool(NpScalar(self.a.reshape(-1)[0], self.dtype))

    def __int__(self): return builtins_int(self._one())
    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._one().__index__()

    def __float__(self): return float(self._one())
    def __format__(self, spec):
        if self.ndim == 0:
            return format(self._one(), spec)
        if spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return str(self)

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return NpScalar(self.a.reshape(-1)[0], self.dtype)

    def __str__(self):
        return "[" + " ".join(str(x) for x in self) + "]" if self.ndim else str(self._one())

    def __repr__(self):
        return f"array({self!s}, dtype={self.dtype})"

    # -- indexing
    def _key(self, key):
        if isinstance(key, tuple):
            return tuple(self._key1(k) for k in key)
        return self._key1(key)

    @staticmethod
    def _key1(k):
        if isinstance(k, NpScalar):
            if k.dtype.kind == "b":
                return bool(k)
            return k.__index__()
        if isinstance(k, SymInt):
            return k.__index__()
        if isinstance(k, (list,)):
            k = from_any(k)
        if isinstance(k, SymArray):
            if k.ndim == 0:
                return NpScalar(k.a[()], k.dtype).__index__() if k.dtype.kind in "iu" else bool(k)
            flat = k.a.reshape(-1).tolist()
            if k.dtype.kind == "b":
                vals = [v if isinstance(v, bool) else bool(v) for v in flat]
                return np.array(vals, dtype=bool).reshape(k.shape)
            if k.dtype.kind in "iu":
                vals = [engine().concretize(v) for v in flat]
                return np.array(vals, dtype=np.int64).reshape(k.shape)
            if k.size == 0:
                return np.array([], dtype=np.int64)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(k, slice):
            def f(x):
                if isinstance(x, (NpScalar, SymInt)):
                    return x.__index__()
                return x
            return slice(f(k.start), f(k.stop), f(k.step))
        return k

    def __getitem__(self, key):
        r = self.a[self._key(key)]
        if isinstance(r, np.ndarray):
            return SymArray(r, self.dtype)
        if self.dtype.kind == "O":
            return r
        return NpScalar(r, self.dtype)

    def __setitem__(self, key, val):
        v = from_any(val)
        if self.dtype.kind in "iu" and _is_python_scalar(val):
            i = norm_int(val)
            if i is not None:
                ok = in_range(i, self.dtype)
                if not (ok if isinstance(ok, bool) else bool(ok)):
                    if not -(1 << 63) <= bounds(i)[0] or bounds(i)[1] >= (1 << 63):
                        raise OverflowError("Python int too large to convert to C long")
        c = castarr(v, self.dtype)
        k = self._key(key)
        if c.a.ndim == 0:
            self.a[k] = c.a[()]
        else:
            self.a[k] = c.a

    # -- methods
    def astype(self, dt, copy=True, **kw): return castarr(self, realdtype(dt), True)
    def copy(self, order=None): return SymArray(self.a.copy(), self.dtype)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, (list, tuple)):
            shape = tuple(s.__index__() for s in shape)
        else:
            shape = shape.__index__()
        return SymArray(self.a.reshape(shape), self.dtype)

    def ravel(self, *a): return SymArray(self.a.ravel(), self.dtype)
    def flatten(self, *a): return SymArray(self.a.flatten(), self.dtype)
    def transpose(self, *a): return SymArray(self.a.transpose(*a), self.dtype)
    def squeeze(self, axis=None): return SymArray(self.a.squeeze(axis), self.dtype)
    def swapaxes(self, i, j): return SymArray(self.a.swapaxes(i, j), self.dtype)
    def repeat(self, n, axis=None): return SymArray(self.a.repeat(n, axis), self.dtype)
    def take(self, idx, axis=None): return self[idx] if axis in (None, 0) else NotImplemented
    def fill(self, v): self[...] = v
    def tolist(self): return self.a.tolist()

    def item(self, *a):
        if a:
            return self.a.item(*a)
        return self._one().v

    def sum(self, axis=None, dtype=None, **kw): return np_sum(self, axis=axis, dtype=dtype)
    def max(self, axis=None, **kw): return np_extreme(self, True, axis)
    def min(self, axis=None, **kw): return np_extreme(self, False, axis)
    def argmax(self, axis=None): return np_argextreme(self, True)
    def argmin(self, axis=None): return np_argextreme(self, False)
    def mean(self, axis=None, **kw): return np_mean(self, axis)
    def std(self, axis=None, **kw): return np_std(self, axis, **kw)
    def var(self, axis=None, **kw): return np_var(self, axis, **kw)
    def any(self, axis=None, **kw): return np_any(self, axis)
    def all(self, axis=None, **kw): return np_all(self, axis)
    def cumsum(self, axis=None, dtype=None): return np_cumsum(self, axis, dtype)
    def nonzero(self): return np_nonzero(self)
    def argsort(self, *a, **k): return np_argsort(self)
    def searchsorted(self, v, side="left", sorter=None): return np_searchsorted(self, v, side)
    def round(self, decimals=0): return np_round(self, decimals)
    def clip(self, lo=None, hi=None, **kw): return np_clip(self, lo, hi)
    def conj(self): return self
    def conjugate(self): return self
    def dot(self, o): return np_sum(self * o)

    def sort(self, axis=-1, **kw):
        self.a[...] = np_sort(self).a

    def view(self, dt=None):
        if dt is None or dt is np.ndarray:
            return SymArray(self.a, self.dtype)
        dt = realdtype(dt)
        if dt == self.dtype:
            return SymArray(self.a, self.dtype)
        if self.dtype.kind in "iu" and dt.kind in "iu":
            if dt.itemsize == self.dtype.itemsize and dt.isnative == self.dtype.isnative:
                return SymArray(mapobj(lambda v: wrap_int(v, dt), self.a), dt)
            bs = array_bytes(self)
            r = from_bytes(bs, dt)
            if self.ndim > 1:
                r = r.reshape(*self.shape[:-1], -1)
            return r
        raise Unsupported(f"view {self.dtype} as {dt}")

    def byteswap(self, inplace=False):
        n = self.dtype.itemsize

        def f(v):
            r = 0
            u = wrap_int(v, np.dtype(f"u{n}"))
            for i in range(n):
                r = sym_orxor(shl(sym_and(shr(u, 8 * i), 255), 8 * (n - 1 - i)), r, "or")
            return wrap_int(r, self.dtype)
        return SymArray(mapobj(f, self.a), self.dtype)

    def newbyteorder(self, o="S"):
        return from_bytes(array_bytes(self), self.dtype.newbyteorder(o))

    def tobytes(self, order=None):
        from .symio import SymBytes, mkbytes
        return mkbytes(array_bytes(self))

    def tofile(self, f, sep="", format="%s"):
        if sep:
            raise Unsupported("tofile(sep)")
        from . import symio
        if hasattr(f, "write"):
            f.write(self.tobytes())
        else:
            with symio.vopen(f, "wb") as g:
                g.write(self.tobytes())

    def __contains__(self, x):
        return bool(np_any(self == x))


def mapobj(f, a):
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    flat = [f(v) for v in a.reshape(-1).tolist()]
    o = out.reshape(-1)
    for i, v in enumerate(flat):
        o[i] = v
    return out


def castarr(s, dt, copy=False):
    if s.dtype == dt and s.dtype.kind != "O":
        return SymArray(s.a.copy(), dt) if copy else s
    return SymArray(mapobj(lambda v: cast(v, s.dtype, dt), s.a), dt)


def array_bytes(s):
    """Little/big-endian bytes of an integer array, in C order."""
    dt = s.dtype
    if dt.kind not in "iub":
        raise Unsupported("bytes of a non-integer array")
    n = dt.itemsize
    big = dt.byteorder == ">"
    out = []
    for v in s.a.reshape(-1).tolist():
        v = norm_int(v)
        b = [sym_and(shr(v, 8 * i), 255) for i in range(n)]
        out += reversed(b) if big else b
    return out


def from_bytes(bs, dt, shape=None):
    n = dt.itemsize
    if dt.kind not in "iu":
        raise Unsupported(f"bytes as {dt}")
    big = dt.byteorder == ">"
    vals = []
    for i in range(0, len(bs) - len(bs) % n, n):
        chunk = bs[i:i + n]
        if big:
            chunk = chunk[::-1]
        vals.append(wrap_int(join_bytes(chunk), dt))
    return SymArray(objarr(vals, shape), dt)


def join_bytes(chunk):
    """Little-endian bytes -> unsigned integer."""
    if all(isinstance(b, builtins_int) for b in chunk):
        return builtins_int.from_bytes(bytes(chunk), "little")
    if not chunk:
        return 0
    t = z3.Concat(*[fit(b, 8) for b in reversed(chunk)]) if len(chunk) > 1 else fit(chunk[0], 8)
    t = z3.simplify(t)
    return mkint(z3.ZeroExt(1, t), 0, (1 << (8 * len(chunk))) - 1)


def to_concrete(s):
    if isinstance(s, NpScalar):
        if not is_concrete_raw(s.v):
            raise Unsupported("symbolic scalar in a concrete numpy call")
        return real_scalar(s)
    flat = s.a.reshape(-1).tolist()
    if not all(is_concrete_raw(v) for v in flat):
        raise Unsupported("symbolic array in a concrete numpy call")
    if s.dtype.kind == "f":
        vals = [flt_to_np(v, s.dtype) for v in flat]
    else:
        vals = flat
    if s.dtype.kind == "O":
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
    else:
        out = np.empty(len(vals), dtype=s.dtype)
        for i, v in enumerate(vals):
            out[i] = v
    return out.reshape(s.shape)


def deep_concrete(x):
    if isinstance(x, (SymArray, NpScalar)):
        return to_concrete(x)
    if isinstance(x, Flt):
        return float(x)
    if isinstance(x, (SymInt, SymBool, Real)):
        raise Unsupported("symbolic value in a concrete call")
    if isinstance(x, (list, tuple)):
        r = [deep_concrete(v) for v in x]
        return type(x)(r) if type(x) in (list, tuple) else r
    if isinstance(x, dict):
        return {k: deep_concrete(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, "_real"):
        return x._real
    return x


def wrap_result(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "biuf":
        return from_any(r)
    if isinstance(r, (np.integer, np.floating, np.bool_)):
        return NpScalar(*raw_py(r))
    if isinstance(r, tuple):
        return tuple(wrap_result(v) for v in r)
    return r


def call_concrete(func, args, kwargs):
    a = [deep_concrete(x) for x in args]
    k = {n: deep_concrete(x) for n, x in kwargs.items()}
    return wrap_result(func(*a, **k))


def has_sym(x):
    if isinstance(x, (SymArray, NpScalar, SymInt, SymBool, Flt, Real)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def realdtype(d):
    if d is None:
        return None
    if isinstance(d, np.dtype):
        return d
    if isinstance(d, type) and hasattr(d, "_real"):
        return np.dtype(d._real)
    n = getattr(d, "_realtype", None)
    if n is not None:
        return np.dtype(n)
    return np.dtype(d)


def settle_int(i, dt):
    """Element of np.array([...], integer dtype): range-checked without
    forking over the dtype the value would have had by itself."""
    if not isinstance(i, SymInt):
        return i
    ok = in_range(i, dt)
    if not (ok is True or (ok is not False and engine().branch(as_z3bool(ok)))):
        if dt == np.dtype(np.uint64):
            neg = sym_cmp(i, -(1 << 63), "ge")
            if neg is True or (neg is not False and engine().branch(as_z3bool(neg))):
                big = sym_cmp(i, 0, "ge")
                if big is False or (big is not True and not engine().branch(as_z3bool(big))):
                    return NpScalar(wrap_int(i, dt), dt)
        raise OverflowError("Python int too large to convert to C long")
    return NpScalar(wrap_int(i, dt), dt)


def from_any(x, dtype=None):
    """np.asarray semantics."""
    dt = realdtype(dtype)
    if isinstance(x, SymArray):
        return x if dt is None or dt == x.dtype else castarr(x, dt)
    if isinstance(x, NpScalar):
        r = SymArray(obj0(x.v), x.dtype)
        return r if dt is None else castarr(r, dt)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            a = objarr([to_flt(v) for v in x.reshape(-1)], x.shape)
        elif x.dtype.kind in "biuOUS":
            a = np.empty(x.shape, dtype=object)
            a[...] = x
            if x.dtype.kind != "O":
                a = mapobj(lambda v: v.item() if isinstance(v, np.generic) else v, a)
        else:
            raise Unsupported(f"array of {x.dtype}")
        r = SymArray(a, x.dtype)
        return r if dt is None else castarr(r, dt)
    if isinstance(x, (list, tuple)) or (hasattr(x, "__iter__") and hasattr(x, "__len__")
                                        and not isinstance(x, (str, bytes, dict, set, frozenset))
                                        and not isinstance(x, np.generic)):
        from .symio import SymBytes
        if isinstance(x, SymBytes):
            raise Unsupported("array of bytes object")
        items = list(x)
        if any(isinstance(i, (list, tuple, SymArray, np.ndarray, range)) for i in items):
            subs = [from_any(i, dt if dt is not None and dt.kind == "O" else None) for i in items]
            shapes = {s.shape for s in subs}
            if len(shapes) != 1:
                raise ValueError("setting an array element with a sequence. The requested array "
                                 "has an inhomogeneous shape")
            d = dt or np.result_type(*[s.dtype for s in subs])
            subs = [castarr(s, d) for s in subs]
            a = np.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                if s.ndim == 0:
                    a[i] = s.a[()]
                else:
                    a[i, ...] = s.a
            return SymArray(a, d)
        if not items:
            return SymArray(objarr([]), dt or np.dtype(float))
        if dt is not None and dt.kind == "O":
            return SymArray(objarr([i.v if isinstance(i, NpScalar) and False else i for i in items]), dt)
        if dt is not None and dt.kind in "iu":
            items = [settle_int(i, dt) for i in items]
        if dt is not None and dt.kind == "f" and all(isinstance(i, SymInt) or type(i) is builtins_int for i in items):
            return SymArray(objarr([f_round(Flt(i, 0), prec(dt)) for i in items]), dt)
        raws = [raw_py(i) for i in items]
        d = raws[0][1]
        for _, e in raws[1:]:
            if e != d:
                d = np.promote_types(d, e)
        if dt is not None:
            for (v, e), orig in zip(raws, items):
                if dt.kind in "iu" and e.kind in "iuO" and _is_python_scalar(orig):
                    # explicit integer dtype: out-of-range Python ints raise
                    ok = in_range(norm_int(v), dt)
                    if not (ok if isinstance(ok, bool) else bool(ok)):
                        if e.kind == "O" or dt.itemsize == 8 and dt.kind == "i":
                            raise OverflowError("Python int too large to convert to C long")
                        if dt.itemsize == 8 and dt.kind == "u" and e.kind == "i":
                            # numpy 1.26: wraps with a DeprecationWarning
                            pass
            d = dt
        return SymArray(objarr([cast(v, e, d) for v, e in raws]), d)
    v, d = raw_py(x)
    r = SymArray(obj0(v), d)
    return r if dt is None else castarr(r, dt)


# -------------------------------------------------------------------- ufuncs
INT_CUTS = [-(1 << 63), -(1 << 31), -(1 << 15), -(1 << 7), 0, 1 << 7, 1 << 8, 1 << 15,
            1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64]


def int_classes(v):
    """Representatives of the value classes (for value-based promotion)."""
    lo, hi = bounds(v)
    reps = []
    edges = [c for c in INT_CUTS if lo < c <= hi]
    prev = lo
    for c in edges + [hi + 1]:
        if prev <= c - 1:
            reps.append((prev, c - 1))
        prev = c
    return reps


class Opnd:
    __slots__ = ("arr", "dtype", "scalar", "pyscalar", "orig", "dummies")


def operand(x):
    o = Opnd()
    o.orig = x
    o.pyscalar = _is_python_scalar(x)
    s = from_any(x)
    o.arr, o.dtype = s.a, s.dtype
    o.scalar = o.arr.ndim == 0
    return o


def dummy_for(o, rep=None):
    dt = o.dtype
    if not o.scalar:
        if dt.kind == "O":
            a = np.empty((1,) * o.arr.ndim, dtype=object)
            a[...] = 1
            return a
        return np.ones((1,) * o.arr.ndim, dtype=dt)
    v = o.arr[()]
    if o.pyscalar:
        if isinstance(o.orig, (bool, SymBool)):
            return True
        if isinstance(o.orig, (builtins_int, SymInt)):
            return rep if rep is not None else (v if isinstance(v, builtins_int) else bounds(v)[1])
        if isinstance(o.orig, RealInt):
            return 1
        if isinstance(o.orig, float):
            return o.orig
        return 1.5
    if dt.kind == "O":
        return obj0(1)
    if dt.kind in "iu":
        return dt.type(rep if rep is not None else (v if isinstance(v, builtins_int) else bounds(v)[1]))
    if dt.kind == "b":
        return np.bool_(True)
    if dt.kind == "f":
        if isinstance(v, Flt) and flt_const(v) is not None:
            with np.errstate(all="ignore"):
                return flt_to_np(v, dt)
        return dt.type(1.5)
    raise Unsupported(f"operand dtype {dt}")


def run_dummy(uf, dummies, kw):
    with np.errstate(all="ignore"):
        return uf(*dummies, **kw)


def safe_dummy(uf, d):
    """Avoids value-dependent errors of the dummy run (division by zero,
    integers to negative powers)."""
    return d


COMPARE = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge",
           "equal": "eq", "not_equal": "ne"}


def dispatch_ufunc(uf, method, inputs, kw):
    name = uf.__name__
    if method == "reduce":
        return ufunc_reduce(name, inputs, kw)
    if method == "accumulate":
        if name == "add":
            return np_cumsum(inputs[0])
        raise Unsupported(f"{name}.accumulate")
    if method == "at":
        return ufunc_at(uf, *inputs)
    if method == "outer":
        a, b = from_any(inputs[0]), from_any(inputs[1])
        return dispatch_ufunc(uf, "__call__", (SymArray(a.a.reshape(a.shape + (1,) * b.ndim), a.dtype), b), kw)
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    kw = dict(kw)
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    dtype = realdtype(kw.pop("dtype", None))
    kw.pop("casting", None)
    for x in inputs:
        if isinstance(x, (str, bytes, dict, set)) or x is None:
            if name in ("equal", "not_equal"):
                return name == "not_equal"
            raise TypeError(f"ufunc '{name}' not supported for the input types")
    ops = [operand(x) for x in inputs]

    # result dtype from the real ufunc on dummies
    anyarr = any(not o.scalar for o in ops)
    cls = []
    for o in ops:
        if o.scalar and o.dtype.kind in "iu" and not isinstance(o.orig, RealInt) \
                and (anyarr or o.pyscalar) and isinstance(o.arr[()], SymInt):
            cls.append(int_classes(o.arr[()]))
        else:
            cls.append([None])
    kwd = dict(kw)
    if dtype is not None:
        kwd["dtype"] = dtype
    import itertools
    cands = []
    for combo in itertools.product(*cls):
        dm = [dummy_for(o, None if c is None else c[1]) for o, c in zip(ops, combo)]
        try:
            r = run_dummy(uf, _tame(name, dm), kwd)
            res = ("ok", tuple(np.asarray(x).dtype for x in r) if isinstance(r, tuple)
                   else np.asarray(r).dtype, dm)
        except Unsupported:
            raise
        except Exception as e:
            res = ("exc", e, dm)
        cands.append((combo, res))

    def same(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "exc":
            return type(a[1]) is type(b[1])
        return a[1] == b[1] and (name not in COMPARE or True)
    chosen = cands[0][1]
    if not all(same(c[1], chosen) for c in cands):
        for combo, res in cands:
            cond = True
            for o, c in zip(ops, combo):
                if c is not None:
                    v = o.arr[()]
                    cond = band(cond, band(sym_cmp(c[0], v, "le"), sym_cmp(v, c[1], "le")))
            if cond is True or (cond is not False and engine().branch(as_z3bool(cond))):
                chosen = res
                break
        else:
            raise PathAbort("no class")
    if chosen[0] == "exc":
        raise chosen[1]
    rdt, dm = chosen[1], chosen[2]

    if out is not None:
        # reproduce casting errors of in-place operators
        do = dummy_for(operand(out)) if not isinstance(out, np.ndarray) else np.empty_like(out)
        if np.ndim(do) == 0:
            do = np.array(do)
        try:
            with np.errstate(all="ignore"):
                shp = np.broadcast_shapes(*[np.shape(d) for d in dm])
                do = np.ones((1,) * max(len(shp), do.ndim), dtype=do.dtype)
                uf(*_tame(name, dm), out=do, **kwd)
        except Unsupported:
            raise
        except Exception as e:
            raise e

    # element-wise evaluation
    bs = np.broadcast_arrays(*[o.arr for o in ops]) if len(ops) > 1 else [ops[0].arr]
    shape = bs[0].shape
    f = elementwise(name, ops, rdt, dm, dtype)
    flats = [b.reshape(-1).tolist() for b in bs]
    n_out = len(rdt) if isinstance(rdt, tuple) else 1
    vals = [f(*t) for t in zip(*flats)]
    if n_out > 1:
        outs = []
        for k in range(n_out):
            outs.append(finish([v[k] for v in vals], shape, rdt[k], anyarr))
        return tuple(outs)
    if out is not None:
        if isinstance(out, np.ndarray):
            raise Unsupported("symbolic result into a concrete array")
        r = SymArray(objarr(vals, shape), rdt)
        c = castarr(r, out.dtype)
        if isinstance(out, NpScalar):
            return NpScalar(c.a.reshape(-1)[0], out.dtype)
        if shape != out.a.shape and np.broadcast_shapes(shape, out.a.shape) != out.a.shape:
            raise ValueError(f"non-broadcastable output operand with shape {out.a.shape} "
                             f"doesn't match the broadcast shape {shape}")
        out.a[...] = c.a
        return out
    return finish(vals, shape, rdt, anyarr)


def _tame(name, dm):
    if name in ("power", "float_power"):
        return [dm[0], dm[1]]
    if name in ("left_shift", "right_shift"):
        return dm
    return dm


def finish(vals, shape, dt, anyarr):
    if shape == () and not anyarr:
        if dt.kind == "O":
            return vals[0]
        return NpScalar(vals[0], dt)
    return SymArray(objarr(vals, shape), dt)


PYOPS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
         "true_divide": operator.truediv, "divide": operator.truediv,
         "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod,
         "power": operator.pow, "negative": operator.neg, "positive": operator.pos,
         "absolute": operator.abs, "left_shift": operator.lshift, "right_shift": operator.rshift,
         "bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor,
         "invert": operator.invert, "less": operator.lt, "less_equal": operator.le,
         "greater": operator.gt, "greater_equal": operator.ge, "equal": operator.eq,
         "not_equal": operator.ne, "maximum": max, "minimum": min,
         "logical_not": operator.not_}


def cmp_raw(a, b, op):
    if isinstance(a, bool):
        a = builtins_int(a)
    if isinstance(b, bool):
        b = builtins_int(b)
    if isinstance(a, SymBool):
        a = a.as_int()
    if isinstance(b, SymBool):
        b = b.as_int()
    if op == "ne":
        return sym_not(cmp_raw(a, b, "eq"))
    if op == "gt":
        return cmp_raw(b, a, "lt")
    if op == "ge":
        return cmp_raw(b, a, "le")
    if isinstance(a, (Flt, Real)) or isinstance(b, (Flt, Real)):
        return f_cmp(a, b, op)
    return sym_cmp(a, b, op)


def elementwise(name, ops, rdt, dm, dtype):
    """Function on raw values -> raw value(s) of dtype rdt."""
    dts = [o.dtype for o in ops]
    single = rdt if not isinstance(rdt, tuple) else rdt[0]
    if any(d.kind == "O" for d in dts) or (single.kind == "O"):
        op = PYOPS.get(name)
        if op is None:
            raise Unsupported(f"object ufunc {name}")

        def fo(*vs):
            vs = [lower(v) for v in vs]
            r = op(*vs)
            if single.kind == "b":
                return truth(r)
            return r
        return fo

    if name in COMPARE:
        op = COMPARE[name]
        if all(d.kind in "iub" for d in dts):
            return lambda a, b: cmp_raw(a, b, op)
        L = np.result_type(*dm)
        return lambda a, b: cmp_raw(cast(a, dts[0], L), cast(b, dts[1], L), op)

    if name.startswith("logical_"):
        if name == "logical_not":
            return lambda a: sym_not(truth(a))
        g = {"logical_and": band, "logical_or": bor,
             "logical_xor": lambda x, y: truth_xor(x, y)}[name]
        return lambda a, b: g(truth(a), truth(b))

    if name in ("isnan", "isinf", "isfinite", "signbit"):
        def fk(a):
            k = getattr(a, "kind", "")
            if name == "isnan":
                return k == "nan"
            if name == "isinf":
                return k in ("inf", "-inf")
            if name == "isfinite":
                return k == ""
            return cmp_raw(a, 0, "lt")
        return fk

    L = single
    kind = L.kind
    c = [lambda v, s=s: cast(v, s, L) for s in dts]

    if name == "divmod":
        q = elementwise("floor_divide", ops, rdt[0], dm, dtype)
        m = elementwise("remainder", ops, rdt[0], dm, dtype)
        return lambda a, b: (q(a, b), m(a, b))
    if name == "modf":
        def fmodf(a):
            a = c[0](a)
            i = f_int(a)
            return f_sub(a, Flt(i, 0), prec(L)), Flt(i, 0)
        return fmodf

    if kind == "b":
        if name == "bitwise_and" or name == "multiply" or name == "minimum":
            return lambda a, b: band(c[0](a), c[1](b))
        if name == "bitwise_or" or name == "add" or name == "maximum":
            return lambda a, b: bor(c[0](a), c[1](b))
        if name == "bitwise_xor":
            return lambda a, b: truth_xor(c[0](a), c[1](b))
        if name == "invert":
            return lambda a: sym_not(c[0](a))
        raise Unsupported(f"bool ufunc {name}")

    if kind in "iu":
        w = lambda v: wrap_int(v, L)
        two = {"add": sym_add, "subtract": sym_sub, "multiply": sym_mul, "bitwise_and": sym_and,
               "bitwise_or": lambda x, y: sym_orxor(x, y, "or"),
               "bitwise_xor": lambda x, y: sym_orxor(x, y, "xor")}
        if name in two:
            g = two[name]
            return lambda a, b: w(g(c[0](a), c[1](b)))
        if name in ("floor_divide", "remainder", "mod", "fmod"):
            def fd(a, b):
                a, b = c[0](a), c[1](b)
                z = sym_cmp(b, 0, "eq")
                if z is True or (z is not False and engine().branch(as_z3bool(z))):
                    return 0
                if name == "fmod" and (bounds(a)[0] < 0 or bounds(b)[0] < 0):
                    raise Unsupported("fmod of negatives")
                q, m = sym_divmod(a, b)
                return w(q if name == "floor_divide" else m)
            return fd
        if name in ("left_shift", "right_shift"):
            bits = L.itemsize * 8

            def fs(a, b):
                a, b = c[0](a), engine().concretize(c[1](b))
                if b < 0 or b >= bits:
                    if name == "left_shift":
                        return 0
                    return ite(sym_cmp(a, 0, "lt"), -1, 0)
                return w(shl(a, b)) if name == "left_shift" else shr(a, b)
            return fs
        if name == "power":
            def fp(a, b):
                a, b = c[0](a), engine().concretize(c[1](b))
                if b < 0:
                    raise ValueError("Integers to negative integer powers are not allowed.")
                r = 1
                for _ in range(b):
                    r = w(sym_mul(r, a))
                return r
            return fp
        if name in ("negative",):
            return lambda a: w(sym_neg(c[0](a)))
        if name in ("positive", "conjugate", "floor", "ceil", "trunc", "rint"):
            return lambda a: c[0](a)
        if name == "absolute":
            return lambda a: w(sym_abs(c[0](a)))
        if name == "invert":
            return lambda a: w(sym_sub(-1, c[0](a)))
        if name in ("maximum", "fmax"):
            return lambda a, b: pick(c[0](a), c[1](b), True)
        if name in ("minimum", "fmin"):
            return lambda a, b: pick(c[0](a), c[1](b), False)
        if name == "square":
            return lambda a: w(sym_mul(c[0](a), c[0](a)))
        if name == "sign":
            return lambda a: ite(sym_cmp(a, 0, "lt"), -1, ite(sym_cmp(a, 0, "eq"), 0, 1))
        if name == "gcd":
            pass
        raise Unsupported(f"int ufunc {name}")

    if kind == "f":
        p = prec(L)
        if name == "add":
            return lambda a, b: f_add(c[0](a), c[1](b), p)
        if name == "subtract":
            return lambda a, b: f_sub(c[0](a), c[1](b), p)
        if name == "multiply":
            return lambda a, b: f_mul(c[0](a), c[1](b), p)
        if name in ("true_divide", "divide"):
            return lambda a, b: f_div(c[0](a), c[1](b), p, python=False)
        if name == "floor_divide":
            return lambda a, b: f_floordiv(c[0](a), c[1](b), p, python=False)
        if name in ("remainder", "mod"):
            return lambda a, b: f_mod(c[0](a), c[1](b), p)
        if name == "negative":
            return lambda a: -c[0](a)
        if name in ("positive", "conjugate"):
            return lambda a: c[0](a)
        if name in ("absolute", "fabs"):
            return lambda a: abs(c[0](a))
        if name == "floor":
            return lambda a: fltint(f_floor_int(c[0](a)))
        if name == "ceil":
            return lambda a: -fltint(f_floor_int(-c[0](a)))
        if name == "trunc":
            return lambda a: fltint(f_int(c[0](a)))
        if name == "rint":
            return lambda a: fltint(f_rint_int(c[0](a)))
        if name in ("maximum", "fmax"):
            return lambda a, b: pick(c[0](a), c[1](b), True)
        if name in ("minimum", "fmin"):
            return lambda a, b: pick(c[0](a), c[1](b), False)
        if name == "square":
            return lambda a: f_mul(c[0](a), c[0](a), p)
        if name == "sign":
            return lambda a: Flt(ite(cmp_raw(a, 0, "lt"), -1, ite(cmp_raw(a, 0, "eq"), 0, 1)), 0)
        if name in ("power", "float_power"):
            def fpow(a, b):
                a, b = c[0](a), c[1](b)
                k = flt_const(b)
                if k is not None and k.denominator == 1 and 0 <= k <= 8 and isinstance(a, Real):
                    return a ** builtins_int(k)
                if k == 2:
                    return f_mul(a, a, p)
                return conc(a, b)
            conc = conc_ufunc(name, dts, L)
            return fpow
        if name in ("ldexp",):
            raise Unsupported("ldexp")
        if name == "sqrt":
            cf = conc_ufunc(name, dts, L)

            def fsqrt(a):
                a = c[0](a)
                if isinstance(a, Real):
                    e = engine()
                    r = z3.Real(f"sqrt!{a.r.get_id()}")
                    e.keep = getattr(e, "keep", [])
                    e.keep.append(a.r)
                    e.solver.add(r >= 0, r * r == a.r)
                    e.model = None
                    return Real(r)
                if isinstance(a, Flt) and not is_concrete_raw(a) and not a.kind:
                    a = Flt(engine().concretize(a.m, 60), a.e)      # few values in histograms of few events
                return cf(a)
            return fsqrt
        return conc_ufunc(name, dts, L)
    raise Unsupported(f"ufunc {name} on {L}")


def keep_real(v):
    return v if isinstance(v, Real) else to_flt(v)


def lower(v):
    """Raw value stored in an object array -> Python operand."""
    return v


def fltint(i):
    if isinstance(i, RealInt):
        return i
    return Flt(i, 0)


def truth_xor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return mkbool(z3.Xor(as_z3bool(a), as_z3bool(b)))


def pick(a, b, mx):
    for x in (a, b):
        if getattr(x, "kind", "") == "nan":
            return x
    c = cmp_raw(a, b, "ge" if mx else "le")
    if isinstance(c, bool):
        return a if c else b
    if getattr(a, "kind", "") or getattr(b, "kind", ""):
        return a if engine().branch(c.e) else b
    return ite(c, a, b)


def conc_ufunc(name, dts, L):
    uf = getattr(np, name, None)
    if uf is None:
        raise Unsupported(f"ufunc {name}")

    def f(*vs):
        args = []
        for v, d in zip(vs, dts):
            s = NpScalar(v if not isinstance(v, Flt) or d.kind == "f" else v, d if not isinstance(v, Flt) else (d if d.kind == "f" else L))
            if not is_concrete_raw(v):
                raise Unsupported(f"{name} of a symbolic value")
            args.append(real_scalar(s))
        with np.errstate(all="ignore"):
            r = uf(*args)
        return raw_py(r)[0]
    return f


def ufunc_reduce(name, inputs, kw):
    x = from_any(inputs[0])
    axis = kw.get("axis", 0)
    if name == "add":
        return np_sum(x, axis=axis, dtype=kw.get("dtype"))
    if name == "logical_or":
        return np_any(x, axis)
    if name == "logical_and":
        return np_all(x, axis)
    if name in ("maximum", "minimum"):
        return np_extreme(x, name == "maximum", axis)
    if name in ("bitwise_or", "bitwise_and", "bitwise_xor", "multiply") and x.ndim == 1:
        r = None
        uf = getattr(np, name)
        for v in x:
            r = v if r is None else uf(r, v)
        return r if r is not None else NpScalar({"bitwise_and": -1, "multiply": 1}.get(name, 0), x.dtype)
    raise Unsupported(f"{name}.reduce")


def ufunc_at(uf, target, idx, *rest):
    if not isinstance(target, SymArray):
        raise Unsupported("ufunc.at on a concrete array")
    ii = SymArray._key1(idx)
    ii = np.atleast_1d(ii)
    vals = None
    if rest:
        vals = from_any(rest[0])
        vals = np.broadcast_to(vals.a, ii.shape), vals.dtype
    for k, i in enumerate(ii.reshape(-1).tolist()):
        if vals is None:
            target[i] = uf(target[i])
        else:
            target[i] = uf(target[i], NpScalar(vals[0].reshape(-1)[k], vals[1]))


# ----------------------------------------------------------- numpy functions
FUNCS = {}


def npfunc(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def scal(x):
    return NpScalar(x.a[()], x.dtype) if isinstance(x, SymArray) and x.ndim == 0 else x


def along(x, axis, f):
    """Applies f(list) -> raw along one axis."""
    if axis is None:
        return f(x.a.reshape(-1).tolist())
    ax = axis if axis >= 0 else axis + x.ndim
    m = np.moveaxis(x.a, ax, -1)
    shp = m.shape[:-1]
    rows = m.reshape(-1, m.shape[-1]) if m.shape[-1] else m.reshape(builtins_int(np.prod(shp)), 0)
    return objarr([f(list(r)) for r in rows], shp)


def reduced(x, axis, f, dt):
    if x.ndim == 1:
        axis = None
    r = along(x, axis, f)
    if axis is None:
        return r if dt.kind == "O" else NpScalar(r, dt)
    return SymArray(r, dt)


@npfunc("sum", "nansum")
def np_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    x = from_any(x)
    dt = realdtype(dtype)
    if dt is None:
        dt = x.dtype
        if dt.kind == "b":
            dt = NP_INT
        elif dt.kind in "iu" and dt.itemsize < 8:
            dt = np.dtype(np.int64 if dt.kind == "i" else np.uint64)
    y = castarr(x, dt)

    def f(vs):
        if dt.kind == "f":
            if len(vs) >= 8 and not all(isinstance(v, Real) for v in vs):
                return pairwise(vs, prec(dt))
            r = Flt(0, 0)
            for i, v in enumerate(vs):
                r = v if i == 0 else f_add(r, v, prec(dt))
            return r
        r = 0
        for v in vs:
            r = r + v if dt.kind == "O" else wrap_int(sym_add(r, v), dt)
        return r
    return reduced(y, axis, f, dt)


def pairwise(vs, p):
    n = len(vs)
    if n < 8:
        r = Flt(0, 0)
        for v in vs:
            r = f_add(r, v, p)
        return r
    if n <= 128:
        acc = list(vs[:8])
        i = 8
        while i < n - n % 8:
            for k in range(8):
                acc[k] = f_add(acc[k], vs[i + k], p)
            i += 8
        a = acc
        r = f_add(f_add(f_add(a[0], a[1], p), f_add(a[2], a[3], p), p),
                  f_add(f_add(a[4], a[5], p), f_add(a[6], a[7], p), p), p)
        for v in vs[i:]:
            r = f_add(r, v, p)
        return r
    n2 = n // 2
    n2 -= n2 % 8
    return f_add(pairwise(vs[:n2], p), pairwise(vs[n2:], p), p)


@npfunc("cumsum")
def np_cumsum(x, axis=None, dtype=None, out=None):
    x = from_any(x)
    if x.ndim != 1:
        x = x.ravel()
    dt = realdtype(dtype)
    if dt is None:
        dt = x.dtype
        if dt.kind == "b":
            dt = NP_INT
        elif dt.kind in "iu" and dt.itemsize < 8:
            dt = np.dtype(np.int64 if dt.kind == "i" else np.uint64)
    vs = castarr(x, dt).a.tolist()
    out = []
    r = None
    for v in vs:
        if r is None:
            r = v
        elif dt.kind == "f":
            r = f_add(r, v, prec(dt))
        elif dt.kind == "O":
            r = r + v
        else:
            r = wrap_int(sym_add(r, v), dt)
        out.append(r)
    return SymArray(objarr(out), dt)


@npfunc("count_nonzero")
def np_count_nonzero(x, axis=None, keepdims=False):
    x = from_any(x)
    if axis is not None and x.ndim > 1:
        raise Unsupported("count_nonzero(axis)")
    r = 0
    for v in x.a.reshape(-1).tolist():
        r = sym_add(r, ite(truth(v), 1, 0))
    return r


@npfunc("any")
def np_any(x, axis=None, **kw):
    x = from_any(x)

    def f(vs):
        r = False
        for v in vs:
            r = bor(r, truth(v))
        return r
    return reduced(x, axis, f, np.dtype(bool))


@npfunc("all")
def np_all(x, axis=None, **kw):
    x = from_any(x)

    def f(vs):
        r = True
        for v in vs:
            r = band(r, truth(v))
        return r
    return reduced(x, axis, f, np.dtype(bool))


def np_extreme(x, mx, axis=None):
    x = from_any(x)

    def f(vs):
        if not vs:
            raise ValueError("zero-size array to reduction operation "
                             f"{'maximum' if mx else 'minimum'} which has no identity")
        r = vs[0]
        for v in vs[1:]:
            r = pick(r, v, mx)
        return r
    return reduced(x, axis, f, x.dtype)


@npfunc("max", "amax", "nanmax")
def _np_max(x, axis=None, **kw): return np_extreme(x, True, axis)


@npfunc("min", "amin", "nanmin")
def _np_min(x, axis=None, **kw): return np_extreme(x, False, axis)


def np_argextreme(x, mx):
    x = from_any(x)
    vs = x.a.reshape(-1).tolist()
    if not vs:
        raise ValueError(f"attempt to get arg{'max' if mx else 'min'} of an empty sequence")
    best, bi = vs[0], 0
    # symbolic index: first extreme position
    for i, v in enumerate(vs[1:], 1):
        c = cmp_raw(v, best, "gt" if mx else "lt")
        best = v if c is True else best if c is False else ite(c, v, best)
        bi = ite(c, i, bi) if not isinstance(c, bool) else (i if c else bi)
    return NpScalar(bi, NP_INT)


@npfunc("argmax")
def _np_argmax(x, axis=None, **kw): return np_argextreme(x, True)


@npfunc("argmin")
def _np_argmin(x, axis=None, **kw): return np_argextreme(x, False)


@npfunc("mean", "average")
def np_mean(x, axis=None, dtype=None, **kw):
    x = from_any(x)
    dt = x.dtype if x.dtype.kind == "f" else np.dtype(float)
    n = x.size if axis is None or x.ndim == 1 else x.shape[axis]
    s = np_sum(castarr(x, dt), axis=axis)
    return s / n


@npfunc("var")
def np_var(x, axis=None, ddof=0, **kw):
    x = from_any(x)
    if axis is not None and x.ndim > 1:
        raise Unsupported("var(axis)")
    dt = x.dtype if x.dtype.kind == "f" else np.dtype(float)
    y = castarr(x, dt).ravel()
    d = y - np_mean(y)
    return np_sum(d * d) / (y.size - ddof)


@npfunc("std")
def np_std(x, axis=None, **kw):
    return np.sqrt(np_var(x, axis, **kw))


@npfunc("array")
def np_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    r = from_any(x, dtype)
    if ndmin > r.ndim:
        r = SymArray(r.a.reshape((1,) * (ndmin - r.ndim) + r.shape), r.dtype)
    return SymArray(r.a.copy(), r.dtype)


@npfunc("asarray", "ascontiguousarray", "asanyarray", "asfarray")
def np_asarray(x, dtype=None, **kw):
    return from_any(x, dtype)


@npfunc("copy")
def np_copy(x, **kw):
    return from_any(x).copy()


def shape_of(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(builtins.int(s.__index__()) for s in shape)
    return (shape.__index__(),)


def filled(shape, v, dtype, default=float):
    dt = realdtype(dtype) or np.dtype(default)
    sh = shape_of(shape)
    n = 1
    for s in sh:
        n *= s
    if any(s < 0 for s in sh):
        raise ValueError("negative dimensions are not allowed")
    raw = cast(*raw_py(v), dt) if dt.kind != "O" else v
    return SymArray(objarr([raw] * n, sh), dt)


@npfunc("zeros")
def np_zeros(shape, dtype=float, **kw): return filled(shape, 0, dtype)


@npfunc("empty")
def np_empty(shape, dtype=float, **kw): return filled(shape, 0, dtype)


@npfunc("ones")
def np_ones(shape, dtype=None, **kw): return filled(shape, 1, dtype)


@npfunc("full")
def np_full(shape, v, dtype=None, **kw):
    return filled(shape, v, dtype if dtype is not None else from_any(v).dtype)


def _like(v):
    def f(x, dtype=None, shape=None, **kw):
        x = from_any(x)
        return filled(x.shape if shape is None else shape, v, dtype or x.dtype)
    return f


FUNCS["zeros_like"] = _like(0)
FUNCS["empty_like"] = _like(0)
FUNCS["ones_like"] = _like(1)


@npfunc("full_like")
def np_full_like(x, v, dtype=None, **kw):
    x = from_any(x)
    return filled(x.shape, v, dtype or x.dtype)


@npfunc("arange")
def np_arange(*args, dtype=None, **kw):
    if has_sym(args):
        start, stop, step = 0, None, 1
        if len(args) == 1:
            stop = args[0]
        elif len(args) == 2:
            start, stop = args
        else:
            start, stop, step = args[:3]
        if all(norm_int(x) is not None or (isinstance(x, NpScalar) and x.dtype.kind in "iu")
               for x in (start, stop, step)):
            g = [x.__index__() for x in (start, stop, step)]
            return from_any(np.arange(*g, dtype=realdtype(dtype)))
        # floating: start + i * step, length ceil((stop - start) / step)
        n = (stop - start) / step
        n = -f_floor_int(-unscal(n)) if not isinstance(n, builtins_int) else n
        n = n.__index__() if not isinstance(n, builtins_int) else n
        n = max(0, n)
        first = start + 0.0 if not isinstance(start, (Real,)) else start
        second = start + step
        delta = second - first
        vals = [unscal(first), unscal(second)][:n]
        for i in range(2, n):
            vals.append(f_add(unscal(first), f_mul(i, unscal(delta))))
        return SymArray(objarr([to_flt(v) if not isinstance(v, Real) else v for v in vals]), np.dtype(float))
    return from_any(np.arange(*[deep_concrete(a) for a in args], dtype=realdtype(dtype)))


def unscal(x):
    return x.v if isinstance(x, NpScalar) else x


def joined(arrs, axis, dtype=None):
    arrs = [from_any(a) for a in arrs]
    d = realdtype(dtype) or np.result_type(*[a.dtype for a in arrs])
    return SymArray(np.concatenate([castarr(a, d).a for a in arrs], axis=axis), d)


@npfunc("concatenate")
def np_concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    arrs = [from_any(a) for a in arrs]
    if axis is None:
        arrs, axis = [a.ravel() for a in arrs], 0
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    return joined(arrs, axis, dtype)


def atleast1(a):
    a = from_any(a)
    return a.reshape(1) if a.ndim == 0 else a


@npfunc("hstack")
def np_hstack(arrs, **kw):
    if isinstance(arrs, SymArray) is False and not isinstance(arrs, (tuple, list)):
        raise TypeError("arrays to stack must be passed as a sequence")
    arrs = [atleast1(a) for a in arrs]
    return joined(arrs, 0 if arrs[0].ndim == 1 else 1)


@npfunc("vstack", "row_stack")
def np_vstack(arrs, **kw):
    arrs = [atleast1(a) for a in arrs]
    return joined([a.reshape(1, -1) if a.ndim == 1 else a for a in arrs], 0)


@npfunc("column_stack")
def np_column_stack(arrs):
    arrs = [from_any(a) for a in arrs]
    return joined([a.reshape(-1, 1) if a.ndim == 1 else a for a in arrs], 1)


@npfunc("stack")
def np_stack(arrs, axis=0, **kw):
    arrs = [from_any(a) for a in arrs]
    d = np.result_type(*[a.dtype for a in arrs])
    return SymArray(np.stack([castarr(a, d).a for a in arrs], axis=axis), d)


@npfunc("append")
def np_append(x, y, axis=None):
    if axis is None:
        return joined([from_any(x).ravel(), from_any(y).ravel()], 0)
    return joined([x, y], axis)


@npfunc("where")
def np_where(cond, *xy):
    c = from_any(cond)
    if not xy:
        return np_nonzero(c)
    ox, oy = operand(xy[0]), operand(xy[1])
    # value-based promotion as in the real function
    cls = []
    for o in (ox, oy):
        v = o.arr[()] if o.scalar else None
        cls.append(dummy_for(o))
    d = np.where(np.array([True]), cls[0], cls[1]).dtype
    x = castarr(SymArray(ox.arr, ox.dtype), d).a
    y = castarr(SymArray(oy.arr, oy.dtype), d).a
    bc, bx, by = np.broadcast_arrays(c.a, x, y)
    vals = []
    for k, a, b in zip(bc.reshape(-1).tolist(), bx.reshape(-1).tolist(), by.reshape(-1).tolist()):
        t = truth(k)
        if isinstance(t, bool):
            vals.append(a if t else b)
        else:
            vals.append(ite(t, a, b))
    r = SymArray(objarr(vals, bc.shape), d)
    return r


@npfunc("nonzero")
def np_nonzero(x):
    x = from_any(x)
    m = SymArray._key1(SymArray(mapobj(truth, x.a), np.dtype(bool)))
    return tuple(from_any(i) for i in np.nonzero(m))


@npfunc("flatnonzero")
def np_flatnonzero(x):
    return np_nonzero(from_any(x).ravel())[0]


@npfunc("sort")
def np_sort(x, axis=-1, **kw):
    x = from_any(x)
    if x.ndim != 1:
        raise Unsupported("sort of a multi-dimensional array")
    v = x.a.tolist()
    n = len(v)
    if all(is_concrete_raw(e) for e in v) and x.dtype.kind != "O":
        return from_any(np.sort(to_concrete(x)))
    for i in range(n):
        for j in range(n - 1 - i):
            c = cmp_raw(v[j], v[j + 1], "le")
            if c is True:
                continue
            if c is False:
                v[j], v[j + 1] = v[j + 1], v[j]
                continue
            v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
    return SymArray(objarr(v), x.dtype)


@npfunc("argsort")
def np_argsort(x, axis=-1, **kw):
    x = from_any(x)
    v = x.a.tolist()
    order = []
    for i in range(len(v)):
        k = len(order)
        while k > 0 and bool(truth(cmp_raw(v[i], v[order[k - 1]], "lt"))):
            k -= 1
        order.insert(k, i)
    return from_any(np.array(order, dtype=np.int64))


@npfunc("argpartition")
def np_argpartition(x, kth, axis=-1, **kw):
    # one admissible result: the full stable order (real order inside the
    # partitions is unspecified)
    return np_argsort(x)


@npfunc("partition")
def np_partition(x, kth, axis=-1, **kw):
    return np_sort(x)


@npfunc("lexsort")
def np_lexsort(keys, axis=-1):
    keys = [from_any(k) for k in keys]
    n = keys[0].size
    order = []
    for i in range(n):
        k = len(order)
        while k > 0 and bool(_lexless(keys, i, order[k - 1])):
            k -= 1
        order.insert(k, i)
    return from_any(np.array(order, dtype=np.int64))


def _lexless(keys, i, j):
    r = False
    for k in keys:
        a, b = k.a[i], k.a[j]
        r = bor(cmp_raw(a, b, "lt"), band(cmp_raw(a, b, "eq"), r))
    return r


@npfunc("unique")
def np_unique(x, return_index=False, return_inverse=False, return_counts=False, **kw):
    x = from_any(x).ravel()
    if return_index or return_inverse:
        raise Unsupported("unique(return_index/inverse)")
    s = np_sort(x)
    v = s.a.tolist()
    out, cnt = [], []
    for e in v:
        if out and bool(truth(cmp_raw(out[-1], e, "eq"))):
            cnt[-1] += 1
            continue
        out.append(e)
        cnt.append(1)
    r = SymArray(objarr(out), x.dtype)
    if return_counts:
        return r, from_any(np.array(cnt, dtype=np.int64))
    return r


@npfunc("isin", "in1d")
def np_isin(x, test, assume_unique=False, invert=False, **kw):
    x = from_any(x)
    t = from_any(list(test) if isinstance(test, (set, frozenset)) and False else test)
    tv = t.a.reshape(-1).tolist()

    def f(v):
        r = False
        for w in tv:
            r = bor(r, cmp_raw(v, w, "eq"))
        return sym_not(r) if invert else r
    return SymArray(mapobj(f, x.a), np.dtype(bool))


@npfunc("searchsorted")
def np_searchsorted(x, v, side="left", sorter=None):
    x = from_any(x)
    vv = from_any(v)
    xs = x.a.tolist()
    if x.dtype.kind in "iub" and vv.dtype.kind in "iub":
        L = None
        if np.result_type(x.dtype, vv.dtype).kind == "f":
            L = np.dtype(float)
    else:
        L = np.result_type(x.dtype, vv.dtype)

    def cc(e, d):
        return cast(e, d, L) if L is not None else e

    def f(e):
        # assumes x sorted (as the real function does)
        r = 0
        for a in xs:
            c = cmp_raw(cc(a, x.dtype), cc(e, vv.dtype), "lt" if side == "left" else "le")
            r = sym_add(r, ite(c, 1, 0) if not isinstance(c, bool) else builtins_int(c))
        return r
    if vv.ndim == 0:
        return NpScalar(f(vv.a[()]), NP_INT)
    return SymArray(mapobj(f, vv.a), NP_INT)


@npfunc("digitize")
def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, "left" if right else "right")


@npfunc("bincount")
def np_bincount(x, weights=None, minlength=0):
    x = from_any(x)
    if weights is not None:
        raise Unsupported("bincount(weights)")
    if x.dtype.kind == "f" or (x.dtype.kind == "u" and x.dtype.itemsize == 8):
        raise TypeError(f"Cannot cast array data from {x.dtype!r} to dtype('int64') according to the rule 'safe'")
    n = minlength.__index__()
    vs = x.a.reshape(-1).tolist()
    for v in vs:
        neg = truth(cmp_raw(v, 0, "lt"))
        if neg is True or (neg is not False and engine().branch(as_z3bool(neg))):
            raise ValueError("'list' argument must have no negative elements")
    top = n
    for v in vs:
        big = truth(cmp_raw(v, top, "ge"))
        if big is True or (big is not False and engine().branch(as_z3bool(big))):
            k = engine().concretize(v) if not isinstance(v, RealInt) else v.__index__()
            top = max(top, k + 1)
            if top > 100000:
                raise Unsupported("bincount of a huge value")
    if top > 4096 or getattr(engine(), "fork_bins", False):
        out = [0] * top
        for v in vs:
            k = v if isinstance(v, builtins_int) else v.__index__()
            out[k] += 1
        return SymArray(objarr(out), NP_INT)
    out = []
    for i in range(top):
        r = 0
        for v in vs:
            c = truth(cmp_raw(v, i, "eq"))
            r = sym_add(r, ite(c, 1, 0) if not isinstance(c, bool) else builtins_int(c))
        out.append(r)
    return SymArray(objarr(out), NP_INT)


@npfunc("flip", "flipud", "fliplr")
def np_flip(x, axis=None):
    x = from_any(x)
    return SymArray(np.flip(x.a, axis), x.dtype)


@npfunc("roll")
def np_roll(x, shift, axis=None):
    x = from_any(x)
    sh = shift.__index__() if not isinstance(shift, (tuple, list)) else shift
    return SymArray(np.roll(x.a, sh, axis), x.dtype)


@npfunc("reshape")
def np_reshape(x, shape, **kw): return from_any(x).reshape(shape)


@npfunc("ravel")
def np_ravel(x, **kw): return from_any(x).ravel()


@npfunc("transpose")
def np_transpose(x, axes=None): return SymArray(from_any(x).a.transpose(axes), from_any(x).dtype)


@npfunc("squeeze")
def np_squeeze(x, axis=None): return from_any(x).squeeze(axis)


@npfunc("expand_dims")
def np_expand_dims(x, axis): return SymArray(np.expand_dims(from_any(x).a, axis), from_any(x).dtype)


@npfunc("atleast_1d")
def np_atleast_1d(*xs):
    r = [atleast1(x) for x in xs]
    return r[0] if len(r) == 1 else r


@npfunc("split", "array_split")
def np_split(x, n, axis=0):
    x = from_any(x)
    return [SymArray(p, x.dtype) for p in np.array_split(x.a, n, axis)]


@npfunc("repeat")
def np_repeat(x, n, axis=None): return from_any(x).repeat(n, axis)


@npfunc("tile")
def np_tile(x, reps):
    x = from_any(x)
    return SymArray(np.tile(x.a, reps), x.dtype)


@npfunc("broadcast_to")
def np_broadcast_to(x, shape, **kw):
    x = from_any(x)
    return SymArray(np.broadcast_to(x.a, shape), x.dtype)


@npfunc("take")
def np_take(x, idx, axis=None, **kw): return from_any(x).ravel()[idx] if axis is None else from_any(x).take(idx, axis)


@npfunc("compress")
def np_compress(c, x, axis=None, **kw): return from_any(x)[from_any(c)]


@npfunc("extract")
def np_extract(c, x): return from_any(x)[from_any(c)]


@npfunc("delete")
def np_delete(x, i, axis=None):
    x = from_any(x)
    return SymArray(np.delete(x.a, i, axis), x.dtype)


@npfunc("insert")
def np_insert(x, i, v, axis=None):
    x = from_any(x)
    return joined([x[:i], castarr(atleast1(v), x.dtype), x[i:]], 0)


@npfunc("diff")
def np_diff(x, n=1, axis=-1, prepend=None, append=None):
    x = from_any(x)
    if prepend is not None:
        x = joined([atleast1(prepend), x], 0)
    if append is not None:
        x = joined([x, atleast1(append)], 0)
    for _ in range(n):
        x = x[1:] - x[:-1]
    return x


@npfunc("clip")
def np_clip(x, lo=None, hi=None, **kw):
    if lo is not None:
        x = np.maximum(from_any(x) if not isinstance(x, NpScalar) else x, lo)
    if hi is not None:
        x = np.minimum(x, hi)
    return x


@npfunc("round", "around", "round_")
def np_round(x, decimals=0, out=None):
    if decimals == 0:
        return np.rint(x) if from_any(x).dtype.kind == "f" else x
    x = from_any(x)
    if x.dtype.kind in "iu" and decimals > 0:
        return scal(x)
    if x.ndim == 0:
        return NpScalar(keep_real(sym.f_round_nd(x.a[()], decimals)), x.dtype)
    return SymArray(mapobj(lambda v: keep_real(sym.f_round_nd(v, decimals)), x.a), x.dtype)


@npfunc("fix")
def np_fix(x, out=None): return np.trunc(x)


@npfunc("array_equal")
def np_array_equal(x, y, **kw):
    x, y = from_any(x), from_any(y)
    if x.shape != y.shape:
        return False
    return bool(np_all(x == y))


@npfunc("shape")
def np_shape(x): return from_any(x).shape


@npfunc("size")
def np_size(x, axis=None): return from_any(x).size if axis is None else from_any(x).shape[axis]


@npfunc("ndim")
def np_ndim(x): return from_any(x).ndim


@npfunc("iscomplexobj")
def np_iscomplexobj(x): return False


@npfunc("isscalar")
def np_isscalar(x):
    return isinstance(x, (NpScalar, SymInt, SymBool, Flt, Real)) or np.isscalar(x)


@npfunc("result_type")
def np_result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, (SymArray, NpScalar)) else deep_concrete(x) for x in a])


@npfunc("vectorize")
def np_vectorize(f, otypes=None, **kw):
    def g(x):
        x = from_any(x)
        vals = [f(NpScalar(v, x.dtype)) for v in x.a.reshape(-1).tolist()]
        r = from_any(vals)
        if otypes:
            r = castarr(r, realdtype(otypes[0]))
        return r.reshape(x.shape)
    return g


@npfunc("fromiter")
def np_fromiter(it, dtype=None, count=-1, **kw):
    return from_any(list(it), dtype)


@npfunc("ndenumerate")
def np_ndenumerate(x):
    x = from_any(x)
    for i in np.ndindex(*x.shape):
        yield i, x[i]


@npfunc("linspace")
def np_linspace(*a, **k): return call_concrete(np.linspace, a, k)


@npfunc("fromstring", "frombuffer")
def np_frombuffer(buf, dtype=float, count=-1, offset=0, **kw):
    from .symio import byte_list
    bs = byte_list(buf)[offset:]
    dt = realdtype(dtype)
    if count >= 0:
        if len(bs) < count * dt.itemsize:
            raise ValueError("buffer is smaller than requested size")
        bs = bs[:count * dt.itemsize]
    if len(bs) == 0 and count < 0:
        pass
    if len(bs) % dt.itemsize:
        raise ValueError("buffer size must be a multiple of element size")
    return structured(bs, dt)


def structured(bs, dt):
    if dt.names:
        n = dt.itemsize
        cnt = len(bs) // n
        return StructArray({f: from_bytes(
            [b for i in range(cnt) for b in bs[i * n + dt.fields[f][1]:i * n + dt.fields[f][1] + dt.fields[f][0].itemsize]],
            dt.fields[f][0]) for f in dt.names}, cnt)
    if dt.subdtype:
        base, shp = dt.subdtype
        return from_bytes(bs, base).reshape((-1,) + tuple(shp))
    return from_bytes(bs, dt)


class StructArray:
    def __init__(self, fields, n):
        self.f = fields
        self.n = n
        self.size = n

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.f[k]
        raise Unsupported("indexing of a structured array")

    def __len__(self):
        return self.n


@npfunc("fromfile")
def np_fromfile(file, dtype=float, count=-1, sep="", offset=0, **kw):
    from . import symio
    if sep:
        raise Unsupported("fromfile(sep)")
    dt = realdtype(dtype)
    if hasattr(file, "read"):
        f, close = file, False
    else:
        f, close = symio.vopen(file, "rb"), True
    try:
        if offset:
            f.seek(offset, 1)
        n = -1 if count < 0 else count * dt.itemsize
        bs = symio.byte_list(f.read(n))
        # trailing incomplete items are ignored, as the real function does
        bs = bs[:len(bs) - len(bs) % dt.itemsize]
    finally:
        if close:
            f.close()
    return structured(bs, dt)


def _text_reader(func):
    def f(fname, *args, **kw):
        from . import symio
        import io
        kw = {k: (realdtype(v) if k == "dtype" else v) for k, v in kw.items()}
        if hasattr(fname, "read"):
            text = fname.read()
            src = io.StringIO(text)
        elif isinstance(fname, (str,)) or hasattr(fname, "__fspath__"):
            with symio.vopen(fname, "r") as g:
                text = g.read()
            src = io.StringIO(text)
        else:
            src = fname
        r = func(src, *args, **kw)
        if isinstance(r, np.ndarray) and r.dtype.kind in "iuf" and symio.has_token(text):
            raise Unsupported("numeric text reading of symbolic text")
        return r
    return f


FUNCS["genfromtxt"] = _text_reader(np.genfromtxt)
FUNCS["loadtxt"] = _text_reader(np.loadtxt)


@npfunc("savetxt")
def np_savetxt(fname, x, fmt="%.18e", delimiter=" ", newline="\n", **kw):
    from . import symio
    x = from_any(x)
    if x.ndim != 1 or kw:
        raise Unsupported("savetxt variant")
    text = "".join(symio.percent(fmt, v) + newline for v in x)
    if hasattr(fname, "write"):
        fname.write(text)
    else:
        with symio.vopen(fname, "w") as f:
            f.write(text)


# ------------------------------------------------------------ module proxies
class DTypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, NpScalar):
            return issubclass(x.dtype.type, cls._real)
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        c = getattr(c, "_real", c)
        return issubclass(c, cls._real)

    def __call__(cls, *args, **kw):
        if args and has_sym(args[0]) or (args and isinstance(args[0], str)):
            dt = np.dtype(cls._real)
            if isinstance(args[0], str):
                from . import symio
                if symio.has_token(args[0]):
                    v = symio.parse_number(args[0], dt.kind)
                    return NpScalar(cast(*raw_py(v), dt), dt)
                return cls._real(*args, **kw)
            x = args[0]
            if _is_python_scalar(x) and dt.kind in "iu" and norm_int(x) is not None:
                i = norm_int(x)
                ok = in_range(i, dt)
                if not (ok if isinstance(ok, bool) else bool(ok)):
                    if not (isinstance(i, SymInt) and dt.kind == "u" and bool(sym_cmp(i, -(1 << 63), "ge")) and bool(sym_cmp(i, 0, "lt"))):
                        raise OverflowError("Python int too large to convert to C long")
            r = castarr(from_any(x), dt)
            return NpScalar(r.a[()], dt) if r.ndim == 0 else SymArray(r.a.copy(), dt)
        r = cls._real(*[deep_concrete(a) for a in args], **kw)
        return wrap_result(r)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        if n == "dtype":
            return np.dtype(cls._real)
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)


_dt_cache = {}


def dtype_proxy(t):
    if t not in _dt_cache:
        ns = {"_real": t}
        try:
            ns["dtype"] = np.dtype(t)
        except Exception:
            pass
        _dt_cache[t] = DTypeMeta(t.__name__, (), ns)
    return _dt_cache[t]


class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, np.ndarray))

    def __call__(cls, *a, **k):
        raise Unsupported("np.ndarray()")


class ndarray_proxy(metaclass=NdMeta):
    _isnd = True


class UfuncProxy:
    """A real ufunc, callable on symbolic operands."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if "dtype" in k:
            k["dtype"] = realdtype(k["dtype"])
        if any(has_sym(x) for x in a) or has_sym(k.get("out")):
            return dispatch_ufunc(self._uf, "__call__", a, k)
        return self._uf(*a, **k)

    def reduce(self, x, *a, **k):
        if has_sym(x):
            if a:
                k["axis"] = a[0]
            return ufunc_reduce(self.__name__, (x,), k)
        return self._uf.reduce(x, *a, **k)

    def accumulate(self, x, *a, **k):
        return dispatch_ufunc(self._uf, "accumulate", (x,) + a, k)

    def at(self, *a): return ufunc_at(self._uf, *a)

    def outer(self, *a, **k):
        return dispatch_ufunc(self._uf, "outer", a, k) if has_sym(a) else self._uf.outer(*a, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


ALWAYS = {"array", "asarray", "zeros", "empty", "ones", "full", "zeros_like", "empty_like",
          "ones_like", "full_like", "arange", "frombuffer", "fromfile", "genfromtxt", "loadtxt",
          "savetxt", "fromiter", "vectorize", "ascontiguousarray", "copy", "linspace"}


class NpProxy:
    """Stands for the numpy module inside symbolically executed modules."""

    def __init__(self):
        self.__name__ = "numpy"
        self._cache = {}
        self.overrides = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.overrides:
            return self.overrides[n]
        if n in self._cache:
            return self._cache[n]
        r = self._make(n)
        self._cache[n] = r
        return r

    def _make(self, n):
        real = getattr(np, n)
        if n == "ndarray":
            return ndarray_proxy
        if isinstance(real, type) and issubclass(real, np.generic):
            return dtype_proxy(real)
        if isinstance(real, np.ufunc):
            return UfuncProxy(real)
        if n in FUNCS:
            f = FUNCS[n]
            if n in ALWAYS:
                return f

            def g(*a, **k):
                if has_sym(a) or has_sym(tuple(k.values())):
                    return f(*a, **k)
                k = {x: (realdtype(v) if x == "dtype" else v) for x, v in k.items()}
                return real(*[deep_concrete(x) for x in a], **k)
            g.__name__ = n
            return g
        if n == "dtype":
            class D:
                def __call__(self, d, *a, **k):
                    if isinstance(d, type) and hasattr(d, "_real"):
                        d = d._real
                    if isinstance(d, (list, tuple)):
                        d = [tuple(realdtype(y) if isinstance(y, type) else y for y in x) if isinstance(x, tuple) else x for x in d]
                    return np.dtype(d, *a, **k)

                def __instancecheck__(self, x):
                    return isinstance(x, np.dtype)
            return D()
        if n in ("testing", "random", "fft", "linalg"):
            return real
        if callable(real) and not isinstance(real, type):
            def h(*a, **k):
                if has_sym(a) or has_sym(tuple(k.values())):
                    return call_concrete(real, a, k)
                k = {x: (realdtype(v) if x == "dtype" else v) for x, v in k.items()}
                a = [x._real if isinstance(x, type) and hasattr(x, "_real") else x for x in a]
                return real(*a, **k)
            h.__name__ = n
            return h
        return real
