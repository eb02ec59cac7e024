"""Symbolic ndarrays: an ndarray subclass holding scalars as objects, with ufunc and function handlers."""
import numpy as np
from fractions import Fraction
import builtins, math, itertools
from . import core
from .core import S, B, const, to_S, Unsupported, nonfinite, s_sqrt, s_abs, s_floor, B_cmp, b_and, b_or, b_not, b_all, b_any

F64 = np.dtype("float64"); F32 = np.dtype("float32"); BOOL = np.dtype(bool)

class SA(np.ndarray):
    """object storage; dtype reports the floating type the program asked for"""
    _dt = F64
    def __array_finalize__(self, obj):
        if obj is not None: self._dt = getattr(obj, "_dt", F64)
    @property
    def dtype(self): return self._dt
    @dtype.setter
    def dtype(self, v): raise Unsupported("dtype assignment")
    @property
    def itemsize(self): return self._dt.itemsize
    @property
    def nbytes(self): return self.size * self._dt.itemsize
    @property
    def real(self): return self
    @property
    def imag(self): return zeros(self.shape)
    @property
    def flags(self): return Flags(np.ndarray.flags.__get__(self), owns(self))
    def __array_ufunc__(self, ufunc, method, *inputs, **kw): return ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs): return func_dispatch(func, args, kwargs)
    def astype(self, dtype=None, order="K", casting="unsafe", subok=True, copy=True):
        return cast(self, dtype, copy)
    def __float__(self):
        if self.size != 1: raise TypeError("only size-1 arrays can be converted to Python scalars")
        return float(self.ravel()[0])
    def __int__(self): return int(self.ravel()[0])
    def __index__(self): return self.ravel()[0].__index__()
    def __bool__(self):
        if self.size == 1: return bool(base(self).ravel()[0])
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, fix_index(k))
        return r
    def __setitem__(self, k, v):
        if isinstance(k, SA) and k._dt == BOOL and k.shape == self.shape and self._dt != BOOL and np.ndim(v) == 0:
            b, kb = base(self), base(k)
            for i in np.ndindex(*b.shape): b[i] = select(_asb(kb[i]), v, b[i])
            return
        k = fix_index(k)
        if isinstance(v, SA): v = base(v)
        elif isinstance(v, np.ndarray) and v.dtype != object: v = obj(v)
        elif isinstance(v, (list, tuple)): v = base(array(v))
        elif self._dt != BOOL and not isinstance(v, np.ndarray):
            v = to_S(v)
            if isinstance(v, S):           # do not let numpy try to iterate it
                o = np.empty((), dtype=object); o[()] = v; v = o
        np.ndarray.__setitem__(base(self), k, v)
    def fill(self, v):
        b = base(self); v = to_S(v)
        for i in np.ndindex(*b.shape): b[i] = v
    def item(self, *a):
        r = np.ndarray.item(base(self), *a)
        return r
    def tolist(self): return base(self).tolist()
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return wrap(base(self).sum(axis=axis, keepdims=keepdims), self._dt) if out is None else _to_out(np.add.reduce(base(self), axis=axis, keepdims=keepdims), out)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k): return wrap(base(self).prod(axis=axis, keepdims=keepdims), self._dt)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return f_mean(self, axis=axis, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return f_std(self, axis=axis, ddof=ddof, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return f_minmax(self, axis, "min", keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return f_minmax(self, axis, "max", keepdims)
    def ptp(self, axis=None, **k): return self.max(axis) - self.min(axis)
    def argmax(self, axis=None, out=None, **k): return f_arg(self, axis, "max")
    def argmin(self, axis=None, out=None, **k): return f_arg(self, axis, "min")
    def any(self, axis=None, out=None, keepdims=False, **k): return f_any(self, axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return f_all(self, axis, keepdims=keepdims)
    def dot(self, o, out=None): return wrap(np.dot(base(self), obj(o)), self._dt)
    def trace(self, *a, **k): return wrap(np.trace(base(self), *a, **k), self._dt)
    def cumsum(self, axis=None, dtype=None, out=None): return wrap(np.cumsum(base(self), axis=axis), self._dt)
    def cumprod(self, axis=None, dtype=None, out=None): return wrap(np.cumprod(base(self), axis=axis), self._dt)
    def clip(self, min=None, max=None, out=None, **k): return f_clip(self, min, max, out=out)
    def conj(self): return self
    conjugate = conj
    def round(self, *a, **k): raise Unsupported("round")
    def argsort(self, axis=-1, **k): return f_argsort(self, axis)
    def sort(self, axis=-1, **k):
        r = f_sort(self, axis); base(self)[...] = base(r)
    def nonzero(self): return np.nonzero(to_bool(self))
    def view(self, *a, **k):
        if not a and not k: return np.ndarray.view(self)
        t = a[0] if a else k.get("dtype") or k.get("type")
        if isinstance(t, type) and issubclass(t, np.ndarray): return np.ndarray.view(self, t)
        raise Unsupported("view with dtype")
    def __reduce__(self): raise Unsupported("pickling a symbolic array")
    def __deepcopy__(self, memo): return self.copy()
    def __repr__(self): return f"SA{self.shape}"
    __str__ = __repr__
    def __format__(self, spec): return repr(self)

def owns(a):
    """whether the array is all of its storage (the symbolic subclass always wraps a plain object array)"""
    b = np.ndarray.base.__get__(a)
    return b is None or (isinstance(b, np.ndarray) and np.ndarray.base.__get__(b) is None and b.shape == np.ndarray.shape.__get__(a) and b.strides == np.ndarray.strides.__get__(a) and b.__array_interface__["data"] == np.ndarray.view(a, np.ndarray).__array_interface__["data"])
class Flags:
    def __init__(self, f, owned): self._f, self._o = f, owned
    def __getitem__(self, k): return self._o if k in ("OWNDATA", "O") else self._f[k]
    def __getattr__(self, k): return self._o if k == "owndata" else getattr(self._f, k)

def fix_index(k):
    """symbolic bools / boolean masks of B in an index become concrete (forking)"""
    if isinstance(k, tuple): return tuple(fix_index1(x) for x in k)
    return fix_index1(k)
def fix_index1(x):
    if isinstance(x, SA): return to_bool(x) if x._dt == BOOL else np.array([int(v.__index__()) for v in base(x).ravel()], dtype=int).reshape(x.shape)
    if isinstance(x, S): return x.__index__()
    if isinstance(x, B): return bool(x)
    if isinstance(x, list) and any(isinstance(v, (S, B)) for v in x): return [bool(v) if isinstance(v, B) else v.__index__() if isinstance(v, S) else v for v in x]
    if isinstance(x, slice): return slice(*(v.__index__() if isinstance(v, S) else v for v in (x.start, x.stop, x.step)))
    return x
def to_bool(x):
    b = base(x) if isinstance(x, SA) else np.asarray(x)
    r = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape): r[i] = bool(b[i])
    return r

def base(x): return np.ndarray.view(x, np.ndarray) if isinstance(x, SA) else x
def has_sym(x):
    if isinstance(x, (S, B, SA)): return True
    if isinstance(x, np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(has_sym(v) for v in x)
    return False

def obj(x):
    """plain object ndarray of scalars (S, B or non-finite float)"""
    if isinstance(x, SA): return base(x)
    if isinstance(x, (S, B)):
        o = np.empty((), dtype=object); o[()] = x; return o
    if isinstance(x, np.ndarray):
        if x.dtype == object: return x
        o = np.empty(x.shape, dtype=object)
        if x.dtype == bool:
            for i in np.ndindex(*x.shape): o[i] = bool(x[i])
        else:
            if x.dtype.kind == "c": raise Unsupported("complex array")
            for i in np.ndindex(*x.shape): o[i] = to_S(x[i])
        return o
    if isinstance(x, (list, tuple)):
        if not x: return np.empty((0,), dtype=object)
        parts = [obj(v) for v in x]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts): raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts): o[i] = p if sh else p[()]
        return o
    if isinstance(x, (bool, np.bool_)):
        o = np.empty((), dtype=object); o[()] = bool(x); return o
    o = np.empty((), dtype=object); o[()] = to_S(x); return o

def wrap(r, dt=None):
    """object results back to symbolic arrays / scalars"""
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.shape == ():
                return r[()]
            v = np.ndarray.view(r, SA)
            if dt is None: dt = BOOL if r.size and all(isinstance(t, (B, bool)) for t in r.flat) else F64
            v._dt = dt
            return v
        return r
    if isinstance(r, tuple): return tuple(wrap(x) for x in r)
    if isinstance(r, list): return [wrap(x) for x in r]
    return r

def sa(x, dt=F64):
    o = obj(x)
    if dt != BOOL:
        if any(isinstance(t, (B, bool)) for t in o.flat):
            o2 = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                v = o[i]; o2[i] = v.as_S() if isinstance(v, B) else to_S(v)
            o = o2
    v = np.ndarray.view(o, SA); v._dt = dt
    return v
def sa0(s):
    o = np.empty((), dtype=object); o[()] = s
    return np.ndarray.view(o, SA)

def full(shape, v, order="C", dt=F64):
    o = np.empty(shape, dtype=object, order=order)
    v = to_S(v) if dt != BOOL else v
    for i in np.ndindex(*o.shape): o[i] = v
    r = np.ndarray.view(o, SA); r._dt = dt
    return r
def zeros(shape, order="C", dt=F64): return full(shape, 0, order, dt)

def np_dtype(d):
    if d is None: return None
    if isinstance(d, np.dtype): return d
    if d in (S, float): return F64
    return np.dtype(d)

def cast(x, dtype, copy=True):
    d = np_dtype(dtype)
    if d is None or d == object: d = F64
    if d.kind == "f":
        if not copy and d == x._dt: return x
        if x._dt == BOOL: r = sa(x, d)
        else:
            r = np.ndarray.view(base(x).copy(order="K"), SA); r._dt = d
        return r
    if d.kind in "iu":
        b = base(x); o = np.empty(b.shape, dtype=d)
        for i in np.ndindex(*b.shape):
            v = to_S(b[i])
            v = v.trunc() if not v.is_const() else v
            o[i] = int(v.cval()) if v.is_const() else v.__index__()
        return o
    if d == BOOL:
        o = np.empty(x.shape, dtype=object); b = base(x)
        for i in np.ndindex(*b.shape): o[i] = b[i] if isinstance(b[i], (B, bool)) else (b[i] != 0)
        r = np.ndarray.view(o, SA); r._dt = BOOL
        return r
    if d.kind == "c": return x
    raise Unsupported(f"astype {d}")

def array(x, dtype=None, copy=True, order="K", ndmin=0, subok=False, like=None):
    """np.array on symbolic content"""
    d = np_dtype(dtype)
    if isinstance(x, SA): o, d0 = base(x), x._dt
    else:
        o = obj(x); d0 = F64
        if o.size and all(isinstance(t, (B, bool)) for t in o.flat): d0 = BOOL
        copy = False if copy is None or not copy else copy
    if d is None: d = d0
    need = copy is True or (order == "F" and not o.flags.f_contiguous) or (order == "C" and not o.flags.c_contiguous)
    if need: o = np.array(o, dtype=object, order=order if order in "CF" else "K", copy=True)
    r = np.ndarray.view(o, SA) if not (isinstance(x, SA) and o is base(x)) or need else x
    if isinstance(x, SA) and not need and d == d0:
        r = x
    else:
        r = np.ndarray.view(o, SA); r._dt = d0
        if d != d0: r = cast(r, d)
    if ndmin and r.ndim < ndmin: r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r

# ------------------------------------------------------------------ ufuncs
def _el1(f):
    def g(x): return f(to_S(x))
    return g
def _num(x): return x.as_S() if isinstance(x, B) else to_S(x)
def e_max(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, float) and a != a: return a
    if isinstance(b, float) and b != b: return b
    return a if core.decide(B_cmp(a, b, ">=")) else b
def e_min(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, float) and a != a: return a
    if isinstance(b, float) and b != b: return b
    return a if core.decide(B_cmp(a, b, "<=")) else b
def e_sign(a):
    a = _num(a)
    if isinstance(a, float): return a if a != a else const(1 if a > 0 else -1)
    if core.decide(B_cmp(a, const(0), ">")): return const(1)
    if core.decide(B_cmp(a, const(0), "<")): return const(-1)
    return const(0)
def e_div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, float) and isinstance(b, float): return float(np.divide(a, b))
    return a / b
def e_hypot(a, b): return s_sqrt(_num(a) * _num(a) + _num(b) * _num(b))
def e_pow(a, b): return _num(a) ** (b if isinstance(b, S) else _num(b))
def e_cmp(rel):
    def f(a, b):
        a, b = _num(a), _num(b)
        return B_cmp(a, b, rel)
    return f
def e_eq(a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        if not isinstance(a, B) and not isinstance(b, B): return a == b
        return (a == b) if isinstance(a, B) else (b == a)
    return B_cmp(_num(a), _num(b), "==")
def _asb(x): return x if isinstance(x, (B, bool)) else (bool(x) if isinstance(x, (np.bool_,)) or nonfinite(x) else B_cmp(_num(x), const(0), "!="))
def e_heaviside(a, b):
    a = _num(a)
    if core.decide(B_cmp(a, const(0), ">")): return const(1)
    return const(0) if core.decide(B_cmp(a, const(0), "<")) else _num(b)
def e_floordiv(a, b): return s_floor(e_div(a, b))
def e_mod(a, b):
    a, b = _num(a), _num(b); return a - s_floor(a / b) * b
def e_ldexp(a, b): return _num(a) * const(Fraction(2) ** int(_num(b)))

BIN = {"add": lambda a, b: _num(a) + _num(b), "subtract": lambda a, b: _num(a) - _num(b), "multiply": lambda a, b: _num(a) * _num(b),
       "divide": e_div, "true_divide": e_div, "power": e_pow, "float_power": e_pow, "maximum": e_max, "minimum": e_min, "fmax": e_max, "fmin": e_min,
       "hypot": e_hypot, "less": e_cmp("<"), "less_equal": e_cmp("<="), "greater": e_cmp(">"), "greater_equal": e_cmp(">="),
       "equal": e_eq, "not_equal": lambda a, b: b_not(e_eq(a, b)), "logical_and": lambda a, b: b_and(_asb(a), _asb(b)),
       "logical_or": lambda a, b: b_or(_asb(a), _asb(b)), "bitwise_and": lambda a, b: b_and(_asb(a), _asb(b)), "bitwise_or": lambda a, b: b_or(_asb(a), _asb(b)),
       "logical_xor": lambda a, b: B.__xor__(_asb(a), _asb(b)), "floor_divide": e_floordiv, "remainder": e_mod, "copysign": lambda a, b: s_abs(_num(a)) if core.decide(B_cmp(_num(b), const(0), ">=")) else -s_abs(_num(a)),
       "heaviside": e_heaviside, "ldexp": e_ldexp}
def _uf(name): return lambda a: core.s_uf(name, _num(a))
UN = {"negative": lambda a: -_num(a), "positive": lambda a: _num(a), "absolute": lambda a: s_abs(_num(a)), "fabs": lambda a: s_abs(_num(a)),
      "sqrt": lambda a: s_sqrt(_num(a)), "square": lambda a: _num(a) * _num(a), "reciprocal": lambda a: e_div(const(1), a), "floor": lambda a: s_floor(_num(a)),
      "ceil": lambda a: -s_floor(-_num(a)), "trunc": lambda a: _num(a).trunc(), "sign": e_sign, "conjugate": lambda a: a,
      "logical_not": lambda a: b_not(_asb(a)), "invert": lambda a: b_not(_asb(a)),
      "isfinite": lambda a: not nonfinite(a), "isnan": lambda a: isinstance(a, float) and a != a, "isinf": lambda a: nonfinite(a) and a == a,
      "signbit": lambda a: B_cmp(_num(a), const(0), "<")}
for _n in ("exp", "log", "sin", "cos", "tan", "tanh", "arctan", "log1p", "expm1", "log2", "log10", "exp2", "cbrt", "sinh", "cosh"): UN[_n] = _uf(_n)
BOOLRES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not", "bitwise_and", "bitwise_or", "invert", "isfinite", "isnan", "isinf", "signbit", "logical_xor"}

def map1(f, a):
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape): o[i] = f(a[i])
    return o
def map2(f, a, b):
    bc = np.broadcast(a, b)
    o = np.empty(bc.shape, dtype=object)
    A, Bb = np.broadcast_arrays(a, b)
    for i in np.ndindex(*bc.shape): o[i] = f(A[i], Bb[i])
    return o

def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    for x in inputs:
        if isinstance(x, CA): return x.__array_ufunc__(ufunc, method, *inputs, **kw)
    out = kw.pop("out", None); where = kw.pop("where", True)
    kw.pop("dtype", None); kw.pop("casting", None); kw.pop("order", None); kw.pop("subok", None); kw.pop("signature", None)
    if out is not None and isinstance(out, tuple): out = out[0] if len(out) == 1 else out
    dts = [x._dt for x in inputs if isinstance(x, SA)]
    fl = [d for d in dts if d.kind == "f"]
    others64 = any(isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype == F64 for x in inputs)
    dt = F32 if fl and all(d == F32 for d in fl) and not others64 else F64
    if method == "__call__":
        if name in ("matmul", "vecdot", "vecmat", "matvec"):
            a, b = obj(inputs[0]), obj(inputs[1])
            a, b = _numarr(a), _numarr(b)
            r = matmul(a, b) if name == "matmul" else ufunc(a, b)
        elif name in BIN:
            r = map2(BIN[name], obj(inputs[0]), obj(inputs[1]))
        elif name in UN:
            r = map1(UN[name], obj(inputs[0]))
        elif name == "divmod":
            return (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}), ufunc_dispatch(np.remainder, "__call__", inputs, {}))
        elif name == "modf": raise Unsupported("modf")
        else:
            raise Unsupported(f"ufunc {name}")
        if where is not True:
            w = np.broadcast_to(obj(where), r.shape)
            prev = np.broadcast_to(obj(out), r.shape) if out is not None else None
            r2 = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape): r2[i] = r[i] if bool(w[i]) else (prev[i] if prev is not None else float("nan"))
            r = r2
        rdt = BOOL if name in BOOLRES else dt
    elif method == "reduce":
        r = f_reduce(name, obj(inputs[0]), kw.get("axis", 0), kw.get("keepdims", False), kw.get("initial", None))
        rdt = BOOL if name.startswith("logical") or name.startswith("bitwise") else dt
    elif method == "accumulate":
        r = f_accumulate(name, obj(inputs[0]), kw.get("axis", 0)); rdt = dt
    elif method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = map2(BIN[name], a.reshape(a.shape + (1,) * b.ndim), b); rdt = BOOL if name in BOOLRES else dt
    elif method == "at":
        a = inputs[0]; idx = inputs[1]
        f = BIN[name]
        for k, j in enumerate(np.asarray(idx).ravel()):
            v = inputs[2]; v = obj(v).ravel()[k] if np.ndim(obj(v)) else obj(v)[()]
            a[int(j)] = f(a[int(j)], v)
        return None
    else: raise Unsupported(f"ufunc method {method}")
    if out is not None: return _to_out(r, out)
    return wrap(np.asarray(r, dtype=object) if isinstance(r, np.ndarray) else obj_keep(r), rdt)

def obj_keep(x):
    o = np.empty((), dtype=object); o[()] = x; return o
def _numarr(a):
    if any(isinstance(t, (B, bool)) for t in a.flat): return map1(_num, a)
    return a
def _to_out(r, out):
    r = r if isinstance(r, np.ndarray) else obj_keep(r)
    if isinstance(out, SA) or (isinstance(out, np.ndarray) and out.dtype == object):
        base(out)[...] = r
    elif isinstance(out, np.ndarray):
        for i in np.ndindex(*out.shape):
            v = np.broadcast_to(r, out.shape)[i]
            out[i] = bool(v) if out.dtype == bool else (float(v) if out.dtype.kind == "f" else int(v))
    else: raise Unsupported("out argument")
    return out

def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        A = a.reshape(1, -1) if a.ndim == 1 else a
        Bm = b.reshape(-1, 1) if b.ndim == 1 else b
        if A.shape[1] != Bm.shape[0]:
            raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {Bm.shape[0]} is different from {A.shape[1]})")
        o = np.empty((A.shape[0], Bm.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(Bm.shape[1]):
                t = const(0)
                for k in range(A.shape[1]): t = t + _num(A[i, k]) * _num(Bm[k, j])
                o[i, j] = t
        if a.ndim == 1 and b.ndim == 1: return obj_keep(o[0, 0])
        if a.ndim == 1: return o[0]
        if b.ndim == 1: return o[:, 0]
        return o
    sh = np.broadcast_shapes(a.shape[:-2] if a.ndim > 2 else (), b.shape[:-2] if b.ndim > 2 else ())
    A = np.broadcast_to(a if a.ndim > 1 else a[None, :], sh + (a.shape[-2:] if a.ndim > 1 else (1,) + a.shape))
    Bm = np.broadcast_to(b if b.ndim > 1 else b[:, None], sh + (b.shape[-2:] if b.ndim > 1 else b.shape + (1,)))
    o = np.empty(sh + (A.shape[-2], Bm.shape[-1]), dtype=object)
    for i in np.ndindex(*sh): o[i] = matmul(A[i], Bm[i])
    if a.ndim == 1: o = o[..., 0, :]
    if b.ndim == 1: o = o[..., 0]
    return o

def norm_axes(axis, nd):
    if axis is None: return tuple(range(nd))
    if isinstance(axis, (int, np.integer)): axis = (int(axis),)
    return tuple(a % nd for a in axis)
def along(f, a, axis, keepdims):
    """reduce f(list) over axes"""
    ax = norm_axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in ax]
    t = a.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1] if ax else [a.shape[i] for i in rest] + [1])
    o = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(*t.shape[:-1]): o[i] = f(list(t[i]))
    if keepdims: o = o.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return o
def fold(f, init):
    def g(xs):
        if init is not None: r = init
        else:
            if not xs: raise ValueError("zero-size array to reduction operation which has no identity")
            r, xs = xs[0], xs[1:]
        for x in xs: r = f(r, x)
        return r
    return g
RED_INIT = {"add": const(0), "multiply": const(1), "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False}
def f_reduce(name, a, axis, keepdims, initial=None):
    init = RED_INIT.get(name)
    if initial is not None and initial is not np._NoValue: init = to_S(initial)
    if name in ("add", "multiply"): init = const(init.cval()) if isinstance(init, S) and init.is_const() else init
    return along(fold(BIN[name], init), a, axis, keepdims)
def f_accumulate(name, a, axis):
    f = BIN[name]
    a = np.moveaxis(a, axis, 0); o = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
        o[i] = a[i] if i == 0 else (map2(f, o[i - 1], a[i]) if a.ndim > 1 else f(o[i - 1], a[i]))
    return np.moveaxis(o, 0, axis)

# ------------------------------------------------------------------ array functions
H = {}
def impl(*funcs):
    def deco(f):
        for g in funcs:
            if g is not None: H[g] = f
        return f
    return deco
def dt_of(*xs):
    ds = [x._dt for x in xs if isinstance(x, SA)]
    fl = [d for d in ds if d.kind == "f"]
    if fl and all(d == F32 for d in fl): return F32
    return F64

def func_dispatch(func, args, kwargs):
    h = H.get(func)
    if h is not None: return h(*args, **kwargs)
    if func.__name__ in REFUSE: raise Unsupported(f"numpy function {func.__name__}")
    dts = []
    def conv(x):
        if isinstance(x, SA): dts.append(x._dt); return base(x)
        if isinstance(x, (S, B)): return obj(x)
        if isinstance(x, (list, tuple)) and has_sym(x):
            return type(x)(conv(v) for v in x) if not hasattr(x, "_fields") else x
        return x
    a = tuple(conv(x) for x in args); k = {n: conv(v) for n, v in kwargs.items()}
    k.pop("like", None)
    r = func(*a, **k)
    fl = [d for d in dts if d.kind == "f"]
    if isinstance(r, np.ndarray) and r.dtype == object and dts and all(d == BOOL for d in dts): return wrap(r, BOOL)
    d = F32 if fl and all(x == F32 for x in fl) else None
    return wrap(r, d)
REFUSE = {"save", "savez", "fromfile", "eig", "svd", "histogram", "interp", "polyfit"}

@impl(np.mean)
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = array(a, copy=False); o = base(a)
    n = 1
    for i in norm_axes(axis, o.ndim): n *= o.shape[i]
    if n == 0: r = along(lambda xs: float("nan"), o, axis, keepdims)
    else: r = along(lambda xs: _sum(xs) / n, o, axis, keepdims)
    return wrap(r, dt_of(a)) if out is None else _to_out(r, out)
def _sum(xs):
    t = const(0)
    for x in xs: t = t + _num(x)
    return t
@impl(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
    a = array(a, copy=False)
    r = along(_sum, base(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)
    return wrap(r, dt_of(a)) if out is None else _to_out(r, out)
@impl(np.average)
def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None: return f_mean(a, axis)
    a = array(a, copy=False); w = array(weights, copy=False)
    if w.ndim < a.ndim and axis is not None:
        sh = [1] * a.ndim; sh[axis] = w.shape[0]; w = w.reshape(sh)
    return f_sum(a * w, axis) / f_sum(w * full(a.shape, 1), axis)
@impl(np.var)
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **k):
    a = array(a, copy=False)
    if correction is not None: ddof = correction
    m = f_mean(a, axis, keepdims=True)
    x = a - m
    n = 1
    for i in norm_axes(axis, a.ndim): n *= a.shape[i]
    if n - ddof <= 0: return wrap(along(lambda xs: float("nan"), base(a), axis, keepdims))
    return f_sum(x * x, axis, keepdims=keepdims) / (n - ddof)
@impl(np.std)
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return np.sqrt(f_var(a, axis, ddof=ddof, keepdims=keepdims, **k)) if True else None
@impl(np.cov)
def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = array(m, copy=False)
    if X.ndim == 1: X = X.reshape(1, -1)
    if not rowvar and X.shape[0] != 1: X = X.T
    if y is not None:
        Y = array(y, copy=False); Y = Y.reshape(1, -1) if Y.ndim == 1 else (Y if rowvar else Y.T)
        X = np.concatenate([X, Y], axis=0)
    dd = ddof if ddof is not None else (0 if bias else 1)
    Xc = X - f_mean(X, 1, keepdims=True)
    r = (Xc @ Xc.T) / (X.shape[1] - dd)
    return r if r.shape != (1, 1) else r[0, 0]
def f_minmax(a, axis, which, keepdims=False):
    a = array(a, copy=False)
    return wrap(along(fold(e_max if which == "max" else e_min, None), base(a), axis, keepdims), a._dt)
H[np.max] = H[np.amax] = lambda a, axis=None, out=None, keepdims=False, **k: f_minmax(a, axis, "max", keepdims if keepdims is not np._NoValue else False)
H[np.min] = H[np.amin] = lambda a, axis=None, out=None, keepdims=False, **k: f_minmax(a, axis, "min", keepdims if keepdims is not np._NoValue else False)
H[np.ptp] = lambda a, axis=None, **k: f_minmax(a, axis, "max") - f_minmax(a, axis, "min")
H[np.nanmax] = H[np.max]; H[np.nanmin] = H[np.min]
def f_arg(a, axis, which):
    a = array(a, copy=False)
    def f(xs):
        bi = 0
        for i in range(1, len(xs)):
            if core.decide(B_cmp(_num(xs[i]), _num(xs[bi]), ">" if which == "max" else "<")): bi = i
        return bi
    if axis is None: return np.int64(f(list(base(a).ravel())))
    r = along(f, base(a), axis, False)
    return r.astype(np.int64) if r.shape else np.int64(r[()])
H[np.argmax] = lambda a, axis=None, **k: f_arg(a, axis, "max")
H[np.argmin] = lambda a, axis=None, **k: f_arg(a, axis, "min")
@impl(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **k):
    r = along(lambda xs: b_any(_asb(x) for x in xs), obj(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)
    return wrap(r, BOOL)
@impl(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **k):
    r = along(lambda xs: b_all(_asb(x) for x in xs), obj(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)
    return wrap(r, BOOL)
@impl(np.clip)
def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None and a_min is not np._NoValue else min
    hi = a_max if a_max is not None and a_max is not np._NoValue else max
    if lo is np._NoValue: lo = None
    if hi is np._NoValue: hi = None
    r = obj(a)
    if lo is not None: r = map2(e_max, r, obj(lo))
    if hi is not None: r = map2(e_min, r, obj(hi))
    return wrap(r, dt_of(a)) if out is None else _to_out(r, out)
def select(c, a, b):
    """a where c else b: thresholds on one uniform draw become a two-valued factor, anything else is decided"""
    if isinstance(c, B) and not any(isinstance(v, (B, bool, np.bool_)) for v in (a, b)):
        x, y = _num(a), _num(b)
        s = None if nonfinite(x) or nonfinite(y) else core.coin(c)
        if s is not None: return (x + y) / 2 + s * (x - y) / 2
    return a if bool(c) else b
@impl(np.where)
def f_where(c, *xy):
    if not xy: return np.nonzero(to_bool(c if isinstance(c, SA) else sa(c, BOOL)))
    x, y = xy
    c, x, y = np.broadcast_arrays(obj(c), obj(x), obj(y))
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape): o[i] = select(_asb(c[i]), x[i], y[i])
    return wrap(o)
@impl(np.nonzero)
def f_nonzero(a): return np.nonzero(to_bool(map1(_asb, obj(a))))
H[np.flatnonzero] = lambda a: np.flatnonzero(to_bool(map1(_asb, obj(a))))
H[np.argwhere] = lambda a: np.argwhere(to_bool(map1(_asb, obj(a))))
H[np.count_nonzero] = lambda a, axis=None, **k: np.count_nonzero(to_bool(map1(_asb, obj(a))), axis=axis)
@impl(np.array_equal)
def f_array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape: return False
    return b_all(e_eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
def e_close(a, b, rtol, atol):
    a, b = _num(a), _num(b)
    if nonfinite(a) or nonfinite(b):
        return (nonfinite(a) and nonfinite(b) and a == b)
    return B_cmp(s_abs(a - b), to_S(atol) + to_S(rtol) * s_abs(b), "<=")
@impl(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return wrap(map2(lambda x, y: e_close(x, y, rtol, atol), obj(a), obj(b)), BOOL)
@impl(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    o = map2(lambda x, y: e_close(x, y, rtol, atol), obj(a), obj(b))
    return b_all(o.ravel())
def f_argsort(a, axis=-1, **k):
    a = array(a, copy=False)
    if a.ndim != 1: raise Unsupported("argsort nd")
    xs = list(base(a)); idx = list(range(len(xs)))
    for i in range(1, len(idx)):
        j = i
        while j > 0 and core.decide(B_cmp(_num(xs[idx[j]]), _num(xs[idx[j - 1]]), "<")):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]; j -= 1
    return np.array(idx, dtype=np.int64)
def f_sort(a, axis=-1, **k):
    a = array(a, copy=False)
    if a.ndim == 1: return a[f_argsort(a)]
    if axis is None: return f_sort(a.ravel())
    o = np.moveaxis(base(a).copy(), axis, -1)
    for i in np.ndindex(*o.shape[:-1]): o[i] = base(f_sort(sa(o[i])))
    return wrap(np.moveaxis(o, -1, axis))
H[np.argsort] = f_argsort; H[np.sort] = f_sort
H[np.diff] = lambda a, n=1, axis=-1, **k: _diff(a, n, axis)
def _diff(a, n, axis):
    a = array(a, copy=False)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim; s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None); s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a
@impl(np.einsum)
def f_einsum(sub, *ops, out=None, optimize=False, **k):
    bs = [obj(o) for o in ops]
    # views for pure diagonal extraction
    if len(bs) == 1:
        r = np.einsum(sub, bs[0])
        return wrap(r, dt_of(*ops)) if out is None else _to_out(r, out)
    r = _einsum(sub, bs)
    return wrap(r, dt_of(*ops)) if out is None else _to_out(r, out)
def _einsum(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub: ins, outp = sub.split("->")
    else:
        ins = sub
        flat = [c for c in ins if c.isalpha()]
        outp = ("..." if "..." in ins else "") + "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ins = ins.split(",")
    # expand ellipsis
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s: nell = max(nell, o.ndim - len(s.replace("...", "")))
    L = [chr(0x4E00 + i) for i in range(nell)]
    ex = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", "".join(L[nell - k:]))
        if len(s) != o.ndim: raise ValueError("einstein sum subscripts string does not match operand dimensions")
        ex.append(s)
    outp = outp.replace("...", "".join(L))
    dims = {}
    for s, o in zip(ex, ops):
        for c, n in zip(s, o.shape):
            if c in dims and dims[c] != n and 1 not in (dims[c], n): raise ValueError("operands could not be broadcast together")
            dims[c] = max(dims.get(c, 1), n) if c in dims and dims[c] != n else n
    summed = [c for c in dims if c not in outp]
    o = np.empty([dims[c] for c in outp], dtype=object)
    for idx in np.ndindex(*o.shape):
        env = dict(zip(outp, idx)); t = const(0)
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            v = None
            for s, op in zip(ex, ops):
                x = op[tuple(env[c] if op.shape[i] != 1 else 0 for i, c in enumerate(s))]
                v = _num(x) if v is None else v * _num(x)
            t = t + v
        o[idx] = t
    return o
@impl(np.dot)
def f_dot(a, b, out=None):
    x, y = obj(a), obj(b)
    if x.ndim == 0 or y.ndim == 0: r = map2(BIN["multiply"], x, y)
    elif x.ndim <= 2 and y.ndim <= 2: r = matmul(x, y)
    else: r = np.dot(x, y)
    return wrap(r, dt_of(a, b)) if out is None else _to_out(r, out)
H[np.vdot] = lambda a, b: f_dot(array(a, copy=False).ravel(), array(b, copy=False).ravel())
H[np.inner] = lambda a, b: f_dot(a, array(b, copy=False).T)
H[np.outer] = lambda a, b, out=None: array(a, copy=False).reshape(-1, 1) * array(b, copy=False).reshape(1, -1)
@impl(np.copyto)
def f_copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        b = base(dst) if isinstance(dst, SA) else None
        if b is None: raise Unsupported("copyto where")
        c, s = np.broadcast_to(obj(where), b.shape), np.broadcast_to(obj(src), b.shape)
        for i in np.ndindex(*b.shape): b[i] = select(_asb(c[i]), s[i], b[i])
        return
    s = obj(src)
    if isinstance(dst, SA): base(dst)[...] = s
    else: _to_out(np.broadcast_to(s, dst.shape), dst)
@impl(np.fill_diagonal)
def f_fill_diagonal(a, v, wrap=False):
    b = base(a); n = min(b.shape); vv = obj(v)
    for i in range(n): b[i, i] = vv.ravel()[i % vv.size]
H[np.isreal] = lambda x: np.ones(np.shape(obj(x)), dtype=bool)
H[np.iscomplexobj] = lambda x: False
H[np.isrealobj] = lambda x: True
H[np.result_type] = lambda *a: np.dtype("float64")
H[np.can_cast] = lambda *a, **k: True
H[np.real] = lambda x: x
H[np.real_if_close] = lambda x, tol=100: x
H[np.imag] = lambda x: zeros(np.shape(obj(x)))
H[np.nan_to_num] = lambda x, copy=True, nan=0.0, posinf=None, neginf=None: wrap(map1(lambda t: to_S(nan) if isinstance(t, float) and t != t else t, obj(x)))
def _like(v):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        sh = np.shape(obj(a)) if shape is None else shape
        d = np_dtype(dtype) or (a._dt if isinstance(a, SA) else F64)
        return full(sh, v, "C", d) if d.kind == "f" else np.full(sh, v, dtype=d)
    return f
H[np.zeros_like] = _like(0); H[np.ones_like] = _like(1); H[np.empty_like] = _like(0)
H[np.full_like] = lambda a, v, dtype=None, **k: full(np.shape(obj(a)), v)
def f_copy(a, order="K", subok=False): return array(a, copy=True)
H[np.copy] = f_copy
H[np.shape] = lambda a: obj(a).shape
H[np.ndim] = lambda a: obj(a).ndim
H[np.size] = lambda a, axis=None: obj(a).size if axis is None else obj(a).shape[axis]
H[np.apply_along_axis] = None; del H[np.apply_along_axis]
H[np.array2string] = lambda *a, **k: "<sym>"
H[np.array_repr] = lambda *a, **k: "<sym>"
H[np.array_str] = lambda *a, **k: "<sym>"
@impl(np.linalg.norm)
def f_norm(x, ord=None, axis=None, keepdims=False):
    a = array(x, copy=False); o = base(a)
    l2 = lambda xs: (lambda nf: (float("nan") if any(v != v for v in nf) else float("inf")) if nf else s_sqrt(_sum([_num(v) * _num(v) for v in xs])))([v for v in xs if nonfinite(v)])
    if axis is None and ord is None:
        r = l2(list(o.ravel()))
        return wrap(np.full((1,) * o.ndim, r, dtype=object)) if keepdims else r
    if axis is None:
        if o.ndim == 1: axis = 0
        elif o.ndim == 2: axis = (0, 1)
        else: raise ValueError("Improper number of dimensions to norm.")
    ax = norm_axes(axis, o.ndim)
    if len(ax) == 1:
        if isinstance(ord, str) and ord not in ("fro", "f"): raise ValueError(f"Invalid norm order '{ord}' for vectors")
        if isinstance(ord, str): raise ValueError(f"Invalid norm order '{ord}' for vectors")
        if isinstance(ord, S) and ord.is_const(): ord = float(ord.cval())
        if ord is None or ord == 2: f = l2
        elif ord == 1: f = lambda xs: _isum([abs(_num(v)) for v in xs])
        elif ord == float("inf"): f = lambda xs: fold(e_max, None)([abs(_num(v)) for v in xs])
        elif ord == -float("inf"): f = lambda xs: fold(e_min, None)([abs(_num(v)) for v in xs])
        elif ord == 0: f = lambda xs: const(builtins.sum(1 if bool(_num(v) != 0) else 0 for v in xs))
        else: raise Unsupported(f"vector norm order {ord}")
        return wrap(along(f, o, ax, keepdims), dt_of(a))
    if ord in (None, "fro", "f"): return wrap(along(l2, o, ax, keepdims), dt_of(a))
    if o.ndim == 2 and ord in (1, -1, np.inf, -np.inf):
        ab = np.abs(a)
        s = f_sum(ab, 0 if ord in (1, -1) else 1)
        return s.max() if ord > 0 else s.min()
    if o.ndim == 2 and min(o.shape) == 1 and ord == 2: return l2(list(o.ravel()))
    if o.ndim == 2 and ord == 2 and min(o.shape) == 0: return const(0)
    raise Unsupported(f"matrix norm {ord}")
def _isum(xs):
    if any(nonfinite(v) for v in xs): return builtins.sum(float(v) for v in xs if nonfinite(v))
    return _sum(xs)
@impl(getattr(np.linalg, "vector_norm", None))
def f_vnorm(x, axis=None, keepdims=False, ord=2):
    if axis is None: x = array(x, copy=False).ravel()
    return f_norm(x, ord, axis if axis is not None else 0, keepdims)
QRSIGN = {}
@impl(np.linalg.qr)
def f_qr(a, mode="reduced"):
    A = array(a, copy=False); o = base(A)
    m, n = o.shape
    k = min(m, n)
    if mode not in ("reduced", "r", "complete") : raise Unsupported(f"qr mode {mode}")
    if mode == "complete" and m > n: raise Unsupported("complete QR")
    key = ("qr", m, n) + tuple(core.rfkey(_num(x)) for x in o.ravel())
    Q = np.empty((m, k), dtype=object); R = np.empty((k, n), dtype=object)
    for i in range(k):
        for j in range(n): R[i, j] = const(0)
    for j in range(n):
        v = [ _num(o[i, j]) for i in range(m)]
        for i in range(min(j, k)):
            r = _sum([Q[t, i] * _num(o[t, j]) for t in range(m)])
            R[i, j] = r
            v = [v[t] - r * Q[t, i] for t in range(m)]
        if j < k:
            # a column dependent on the previous ones: LAPACK still returns an orthonormal Q; modelled only for full rank
            nrm2 = _sum([x * x for x in v])
            if core.decide(B_cmp(nrm2, const(0), "==")):
                for t, col in enumerate(orth_complete(Q, j, m)): Q[t, j] = col
                R[j, j] = const(0)
                continue
            nrm = s_sqrt(nrm2)
            sg = qr_sign(key, j, nrm, v)
            R[j, j] = sg * nrm
            for t in range(m): Q[t, j] = v[t] / R[j, j]
    if mode == "r": return wrap(R, A._dt)
    return QRResult(wrap(Q, A._dt), wrap(R, A._dt))
class QRResult(tuple):
    def __new__(cls, Q, R): return tuple.__new__(cls, (Q, R))
    @property
    def Q(self): return self[0]
    @property
    def R(self): return self[1]
def orth_complete(Q, j, m):
    """some unit vector orthogonal to the first j columns (what LAPACK returns there is arbitrary)"""
    for e in range(m):
        w = [const(1 if t == e else 0) for t in range(m)]
        for i in range(j):
            r = Q[e, i]
            w = [w[t] - r * Q[t, i] for t in range(m)]
        n2 = _sum([x * x for x in w])
        if not core.decide(B_cmp(n2, const(0), "==")):
            n = s_sqrt(n2)
            return [x / n for x in w]
    raise core.PathAbort("no orthogonal complement")
def qr_sign(key, j, nrm, v):
    """LAPACK's choice of the sign of R[j,j] is not part of its contract: an arbitrary sign per factorisation"""
    if not core.CTX.opts.get("qr_signs", True): return const(1)
    k = key + (j,)
    tab = core.CTX.__dict__.setdefault("qrs", {})
    s = tab.get(k)
    if s is None:
        s = tab[k] = core.fresh_sign(f"qrsign{len(tab)}")
    return s
@impl(np.linalg.inv)
def f_inv(a):
    A = array(a, copy=False); o = base(A); n = o.shape[-1]
    if o.ndim > 2:
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape[:-2]): r[i] = base(f_inv(sa(o[i])))
        return wrap(r, A._dt)
    if o.shape[0] != n: raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return wrap(solve_lin(o, np.array([[const(int(i == j)) for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)), A._dt)
@impl(np.linalg.solve)
def f_solve(a, b):
    A = array(a, copy=False); bb = obj(b)
    if bb.ndim == 1: return wrap(solve_lin(base(A), bb.reshape(-1, 1))[:, 0], A._dt)
    return wrap(solve_lin(base(A), bb), A._dt)
def is_zero(x): 
    x = _num(x)
    return not nonfinite(x) and x.rf.is_zero()
def det(o):
    n = o.shape[0]
    if n == 0: return const(1)
    if n == 1: return _num(o[0, 0])
    t = const(0)
    for j in range(n):
        if is_zero(o[0, j]): continue
        m = np.delete(np.delete(o, 0, 0), j, 1)
        d = _num(o[0, j]) * det(m)
        t = t + d if j % 2 == 0 else t - d
    return t
def solve_lin(A, Bm):
    """A^-1 B by triangular substitution or Cramer's rule"""
    n = A.shape[0]
    if n == 0: return np.empty((0, Bm.shape[1]), dtype=object)
    X = np.empty((n, Bm.shape[1]), dtype=object)
    up = all(is_zero(A[i, j]) for i in range(n) for j in range(i))
    lo = all(is_zero(A[i, j]) for i in range(n) for j in range(i + 1, n))
    if up or lo:
        order = range(n - 1, -1, -1) if up else range(n)
        for i in order:
            if core.decide(B_cmp(_num(A[i, i]), const(0), "==")): raise np.linalg.LinAlgError("Singular matrix")
        for c in range(Bm.shape[1]):
            for i in order:
                t = _num(Bm[i, c])
                for j in (range(i + 1, n) if up else range(i)): t = t - _num(A[i, j]) * X[j, c]
                X[i, c] = t / _num(A[i, i])
        return X
    d = det(A)
    if core.decide(B_cmp(d, const(0), "==")): raise np.linalg.LinAlgError("Singular matrix")
    adj = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = det(np.delete(np.delete(A, j, 0), i, 1))
            adj[i, j] = m if (i + j) % 2 == 0 else -m
    Y = matmul(adj, Bm)
    return map1(lambda x: x / d, Y)
@impl(np.linalg.det)
def f_det(a): return det(obj(a))
@impl(np.linalg.matrix_power)
def f_mpow(a, n):
    r = eye(np.shape(a)[0])
    for _ in range(n): r = r @ a
    return r
@impl(np.linalg.cholesky)
def f_chol(a, upper=False):
    o = obj(a); n = o.shape[0]; L = base(zeros((n, n)))
    for j in range(n):
        d = _num(o[j, j]) - _sum([L[j, k] * L[j, k] for k in range(j)])
        if core.decide(B_cmp(d, const(0), "<=")): raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = s_sqrt(d)
        for i in range(j + 1, n): L[i, j] = (_num(o[i, j]) - _sum([L[i, k] * L[j, k] for k in range(j)])) / L[j, j]
    return wrap(L.T.copy() if upper else L)
@impl(np.linalg.eigh)
def f_eigh(a, UPLO="L"):
    from . import stubs
    o = obj(a); n = o.shape[0]
    if n == 1: return wrap(np.array([o[0, 0]], dtype=object)), eye(1)
    if n == 2: return stubs.eigh2(_num(o[0, 0]), _num(o[1, 0]), _num(o[1, 1]))
    raise Unsupported("eigh of symbolic matrix n>2")
H[np.linalg.eigvalsh] = lambda a, UPLO="L": f_eigh(a)[0]
def eye(n, m=None, k=0, order="C", dt=F64):
    m = n if m is None else m
    o = np.empty((n, m), dtype=object, order=order)
    for i in range(n):
        for j in range(m): o[i, j] = const(1 if j - i == k else 0)
    r = np.ndarray.view(o, SA); r._dt = dt
    return r
# discrete Fourier transforms of symbolic vectors: pairs (re, im) carried by a small complex array class
class CA:
    """complex symbolic vector"""
    __array_priority__ = 3000
    def __init__(self, re, im): self.re, self.im = re, im
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def shape(self): return self.re.shape
    ndim = property(lambda s: s.re.ndim)
    dtype = np.dtype("complex128")
    def __len__(self): return len(self.re)
    @staticmethod
    def parts(o):
        if isinstance(o, CA): return o.re, o.im
        if isinstance(o, (complex, np.complexfloating)): return o.real, o.imag
        if isinstance(o, np.ndarray) and not isinstance(o, SA) and o.dtype.kind == "c": return o.real, o.imag
        return o, None
    @staticmethod
    def binary(name, a, b):
        (x, y), (u, v) = CA.parts(a), CA.parts(b)
        if name == "multiply":
            if v is None: return CA(x * u, y * u)
            if y is None: return CA(x * u, x * v)
            return CA(x * u - y * v, x * v + y * u)
        if name in ("add", "subtract"):
            n = (lambda t: -t) if name == "subtract" else (lambda t: t)
            re = x + n(u)
            z = zeros(np.shape(re))
            return CA(re, (z if y is None else y) + (z if v is None else n(v)))
        if name in ("divide", "true_divide"):
            if v is None: return CA(x / u, y / u)
            d = u * u + v * v
            return CA((x * u + (0 if y is None else y * v)) / d, ((0 if y is None else y * u) - x * v) / d)
        raise Unsupported(f"{name} of complex symbolic arrays")
    def __mul__(self, o): return CA.binary("multiply", self, o)
    def __rmul__(self, o): return CA.binary("multiply", o, self)
    def __add__(self, o): return CA.binary("add", self, o)
    def __radd__(self, o): return CA.binary("add", o, self)
    def __sub__(self, o): return CA.binary("subtract", self, o)
    def __rsub__(self, o): return CA.binary("subtract", o, self)
    def __truediv__(self, o): return CA.binary("divide", self, o)
    def __neg__(self): return CA(-self.re, -self.im)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or (kw.get("out") is not None and kw["out"] != (self,)): raise Unsupported(f"{ufunc.__name__}.{method} of complex symbolic arrays")
        name = ufunc.__name__
        if len(inputs) == 2: r = CA.binary(name, *inputs)
        elif name == "negative": r = -inputs[0]
        elif name in ("conjugate", "conj"): r = inputs[0].conj()
        elif name == "positive": r = inputs[0]
        elif name == "square": r = inputs[0] * inputs[0]
        elif name == "absolute": r = np.sqrt(inputs[0].re * inputs[0].re + inputs[0].im * inputs[0].im)
        else: raise Unsupported(f"{name} of complex symbolic arrays")
        if kw.get("out") is not None:
            self.re[...] = r.re; self.im[...] = r.im
            return self
        return r
    def __imul__(self, o): return self * o
    def __iadd__(self, o): return self + o
    def astype(self, t=None, *a, **k):
        if np_dtype(t).kind == "c": return self.copy()
        return self.re.astype(t)
    def ravel(self, *a, **k): return CA(self.re.ravel(), self.im.ravel())
    flatten = ravel
    def __setitem__(self, k, v):
        u, w = CA.parts(v)
        self.re[k] = u; self.im[k] = 0 if w is None else w
    def __getitem__(self, k): return CA(self.re[k], self.im[k])
    def conj(self): return CA(self.re, -self.im)
    def conjugate(self): return self.conj()
    def copy(self): return CA(self.re.copy(), self.im.copy())
    def reshape(self, *a): return CA(self.re.reshape(*a), self.im.reshape(*a))
    @property
    def T(self): return CA(self.re.T, self.im.T)
    def __array_function__(self, func, types, args, kwargs):
        if func in (np.real,): return args[0].re
        if func in (np.imag,): return args[0].im
        if func is np.copy: return args[0].copy()
        if func in (np.ravel, np.squeeze): return CA(func(args[0].re), func(args[0].im))
        if func in (np.concatenate, np.hstack):
            ps = [CA.parts(x) for x in args[0]]
            return CA(func([p[0] for p in ps], **kwargs), func([zeros(np.shape(p[0])) if p[1] is None else p[1] for p in ps], **kwargs))
        if func in _COMPLEX_FFT: return _COMPLEX_FFT[func](*args, **kwargs)
        if func is np.real_if_close: return args[0]
        if func in (np.fft.fft, np.fft.ifft): return fft(args[0], *args[1:], inverse=func is np.fft.ifft, **kwargs)
        raise Unsupported(f"{func.__name__} of complex symbolic vector")
_ROOTS = {}
def _unit(k, q):
    """exact (cos, sin) of 2 pi k / q for q in 32, 3, 5"""
    h = Fraction(1, 2)
    if q == 3: c = to_S(const(-h)); s = s_sqrt(const(3)) / 2; base_ = (c, s)
    elif q == 5:
        r5 = s_sqrt(const(5))
        c1, c2 = (r5 - 1) / 4, (-r5 - 1) / 4
        v = s_sqrt(10 + 2 * r5) / 4                 # sin(2 pi/5); sin(4 pi/5) = 2 sin(2 pi/5) cos(2 pi/5)
        T = [(to_S(1), to_S(0)), (c1, v), (c2, 2 * v * c1), (c2, -2 * v * c1), (c1, -v)]
        return T[k % 5]
    else:
        k %= 32
        if k % 16 == 0: return to_S(1 if k == 0 else -1), to_S(0)
        if k % 8 == 0: return to_S(0), to_S(1 if k == 8 else -1)
        if k > 16: c, s = _unit(32 - k, 32); return c, -s
        if k > 8: c, s = _unit(16 - k, 32); return -c, s
        if k > 4: c, s = _unit(8 - k, 32); return s, c
        r2 = s_sqrt(const(2))
        if k == 4: return r2 / 2, r2 / 2
        u = s_sqrt(2 + r2)                          # 2 cos(pi/8); sin(pi/8) = cos(pi/8) (sqrt 2 - 1)
        if k == 2: return u / 2, u * (r2 - 1) / 2
        w = s_sqrt(2 + u)                           # 2 cos(pi/16); 1/w = w (2 - u)(2 + sqrt 2)/2
        c, s = w / 2, u * (r2 - 1) / 2 * w * (2 - u) * (2 + r2) / 2
        if k == 1: return c, s
        c2, s2 = _unit(2, 32)                       # 3 pi/16 = pi/16 + pi/8
        return c * c2 - s * s2, s * c2 + c * s2
    k %= q
    if k == 0: return to_S(1), to_S(0)
    c, s = base_
    return (c, s) if k == 1 else (c, -s)
def cos_sin(k, n):
    """exact cos, sin of 2 pi k / n for divisors n of 480"""
    f = Fraction(k % n, n)
    key = f
    if key in _ROOTS and _ROOTS[key][0] is core.P.RING: return _ROOTS[key][1]
    if 480 % f.denominator: raise Unsupported(f"DFT size with angle {f}")
    m = int(f * 480)                                # k/480 = a/32 + b/3 + c/5
    b = (m * pow(160, -1, 3)) % 3; c5 = (m * pow(96, -1, 5)) % 5
    a = ((m - 160 * b - 96 * c5) // 15) % 32
    C, S_ = _unit(a, 32)
    for kk, q in ((b, 3), (c5, 5)):
        if kk: c, s = _unit(kk, q); C, S_ = C * c - S_ * s, S_ * c + C * s
    _ROOTS[key] = (core.P.RING, (C, S_))
    return C, S_
def fft(x, n=None, axis=-1, norm=None, out=None, inverse=False):
    if isinstance(x, CA): re, im = base(x.re), base(x.im)
    else: re = obj(x); im = None
    if norm not in (None, "backward"): raise Unsupported("fft norm")
    if re.ndim != 1:
        if axis not in (-1, re.ndim - 1):
            r = fft(CA(wrap(np.moveaxis(re, axis, -1)), wrap(np.moveaxis(im, axis, -1))) if im is not None else wrap(np.moveaxis(re, axis, -1)), n, -1, norm, inverse=inverse)
            return CA(wrap(np.moveaxis(base(r.re), -1, axis)), wrap(np.moveaxis(base(r.im), -1, axis)))
        N = re.shape[-1] if n is None else n
        R = np.empty(re.shape[:-1] + (N,), dtype=object); I = np.empty(R.shape, dtype=object)
        for i in np.ndindex(*re.shape[:-1]):
            t = fft(CA(wrap(re[i]), wrap(im[i])) if im is not None else wrap(re[i]), n, -1, norm, inverse=inverse)
            R[i], I[i] = base(t.re), base(t.im)
        return CA(wrap(R), wrap(I))
    if n is not None and n != len(re):
        pad = lambda v: np.array([v[i] if i < len(v) else const(0) for i in range(n)], dtype=object)
        re = pad(re); im = pad(im) if im is not None else None
    N = len(re)
    R = np.empty(N, dtype=object); I = np.empty(N, dtype=object)
    for k in range(N):
        a = const(0); b = const(0)
        for j in range(N):
            c, s = cos_sin(j * k, N)
            if not inverse: s = -s
            xr = _num(re[j]); a = a + xr * c; b = b + xr * s
            if im is not None:
                xi = _num(im[j]); a = a - xi * s; b = b + xi * c
        if inverse: a, b = a / N, b / N
        R[k], I[k] = a, b
    return CA(wrap(R, F64), wrap(I, F64))
H[np.fft.fft] = lambda a, n=None, axis=-1, norm=None, out=None: fft(a, n, axis, norm)
H[np.fft.ifft] = lambda a, n=None, axis=-1, norm=None, out=None: fft(a, n, axis, norm, inverse=True)
def _rfft(a, n=None, axis=-1, norm=None, out=None):
    r = fft(a, n, axis, norm); N = (len(r.re) if r.re.ndim == 1 else r.re.shape[-1]) // 2 + 1
    return CA(r.re[..., :N], r.im[..., :N])
def _irfft(a, n=None, axis=-1, norm=None, out=None):
    m = a.re.shape[-1] if isinstance(a, CA) else np.shape(a)[-1]
    n = 2 * (m - 1) if n is None else n
    A = a if isinstance(a, CA) else CA(a, zeros(np.shape(a)))
    re = [A.re[k] if k < m else A.re[n - k] for k in range(n)]
    im = [0 if k == 0 or 2 * k == n else A.im[k] if k < m else -A.im[n - k] for k in range(n)]
    return fft(CA(sa(re), sa(im)), inverse=True).re
H[np.fft.rfft] = _rfft; H[np.fft.irfft] = _irfft
_COMPLEX_FFT = {f: H[f] for f in (np.fft.fft, np.fft.ifft, np.fft.irfft)}
