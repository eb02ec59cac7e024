"""Environment of the code under test: numpy/scipy proxies, random generators, eigen-solvers, executors, module loader."""
import builtins, sys, types, os, math, importlib, warnings
from fractions import Fraction
import numpy as np, z3
from . import core, arr
from .core import S, B, const, to_S, Unsupported, nonfinite, s_sqrt, s_uf, B_cmp, var
from .arr import SA, sa, zeros, full, eye, wrap, obj, base, has_sym, np_dtype, F64, F32, BOOL

# ------------------------------------------------------------------ numpy proxy
class Proxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real; self.__dict__["_over"] = over
        self.__dict__.update(over)
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        v = getattr(self._real, k)
        if isinstance(v, types.BuiltinFunctionType) or isinstance(v, types.FunctionType) or type(v).__name__ in ("_ArrayFunctionDispatcher", "ufunc"):
            v = wrapfn(v)
            self.__dict__[k] = v
        return v

class UfuncProxy:
    """ufunc on symbolic data, native otherwise"""
    def __init__(self, u): self._u = u; self.__name__ = u.__name__
    def __call__(self, *a, **k):
        if any(has_sym(x) for x in a) or _symout(k): return arr.ufunc_dispatch(self._u, "__call__", a, dict(k))
        k.pop("like", None)
        return exactify(self._u, a, k)
    def __getattr__(self, m):
        v = getattr(self._u, m)
        if m in ("reduce", "accumulate", "outer", "at", "reduceat"):
            def f(*a, **k):
                if any(has_sym(x) for x in a): 
                    if m == "reduce" and len(a) > 1: k["axis"] = a[1]; a = a[:1]
                    if m == "accumulate" and len(a) > 1: k["axis"] = a[1]; a = a[:1]
                    return arr.ufunc_dispatch(self._u, m, a, dict(k))
                return v(*a, **k)
            return f
        return v
    def __eq__(self, o): return o is self or o is self._u
    __hash__ = object.__hash__
def _symout(k):
    o = k.get("out")
    return o is not None and has_sym(o if not isinstance(o, tuple) else list(o))
IRR = {"sqrt": lambda x: s_sqrt(to_S(x)), "exp": lambda x: s_uf("exp", to_S(x)), "log": lambda x: s_uf("log", to_S(x))}
def exactify(u, a, k):
    """concrete arguments: irrational results are kept exact"""
    n = u.__name__
    if n == "sqrt" and len(a) == 1 and not k and np.ndim(a[0]) == 0:
        r = to_S(float(a[0]))
        if not nonfinite(r):
            v = s_sqrt(r)
            return v
    if n == "sqrt" and len(a) == 1 and isinstance(a[0], np.ndarray) and not k:
        return wrap(arr.map1(lambda x: s_sqrt(to_S(x)), obj(a[0])))
    if n in ("exp", "log") and len(a) == 1 and not k and isinstance(a[0], (int, float, np.floating)) and float(a[0]) not in (0.0, 1.0) and math.isfinite(a[0]) and a[0] > 0:
        return IRR[n](a[0])
    return u(*a, **k)

def wrapfn(v):
    if isinstance(v, np.ufunc): return UfuncProxy(v)
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return arr.func_dispatch(v, a, k)
        return v(*a, **k)
    f.__name__ = getattr(v, "__name__", "f"); f.__wrapped_np__ = v
    return f

def _dt(dtype):
    d = np_dtype(dtype)
    return F64 if d is None else d
def p_zeros(shape, dtype=None, order="C", **k):
    shape = _shape(shape)
    d = _dt(dtype)
    return full(shape, 0, order, d) if d.kind == "f" else np.zeros(shape, d, order)
def p_empty(shape, dtype=None, order="C", **k):
    shape = _shape(shape)
    d = _dt(dtype)
    if d.kind != "f": return np.zeros(shape, d, order)
    o = np.empty(shape, dtype=object, order=order)
    for i in np.ndindex(*o.shape):
        o[i] = core.fresh_input("uninit")        # uninitialised memory: any value
    r = np.ndarray.view(o, SA); r._dt = d
    return r
def p_ones(shape, dtype=None, order="C", **k):
    shape = _shape(shape); d = _dt(dtype)
    return full(shape, 1, order, d) if d.kind == "f" else np.ones(shape, d, order)
def p_full(shape, fill_value, dtype=None, order="C", **k):
    shape = _shape(shape)
    if dtype is None and not isinstance(fill_value, (S, float, np.floating, SA)): 
        if isinstance(fill_value, B): return full(shape, fill_value.as_S(), order)
        return np.full(shape, fill_value, dtype, order)
    d = _dt(dtype)
    if d.kind != "f": return np.full(shape, fill_value, d, order)
    if np.ndim(fill_value):
        r = full(shape, 0, order, d); r[...] = fill_value; return r
    return full(shape, fill_value, order, d)
def _shape(s):
    if isinstance(s, (list, tuple)): return tuple(int(x.__index__()) if isinstance(x, S) else int(x) for x in s)
    return (s.__index__(),) if isinstance(s, S) else s
def p_eye(N, M=None, k=0, dtype=float, order="C", **kw):
    d = _dt(dtype)
    return eye(N, M, k, order, d) if d.kind == "f" else np.eye(N, M, k, d, order)
def p_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    if has_sym(x):
        d = np_dtype(dtype)
        return arr.array(x, dtype=d, copy=copy, order=order or "K", ndmin=ndmin)
    return np.array(x, dtype=dtype if not (dtype is S) else float, copy=copy, order=order, subok=subok, ndmin=ndmin)
def p_asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, SA) and (dtype is None or np_dtype(dtype) == x._dt) and order in (None, "K", "A"): return x if copy is not True else x.copy()
    if has_sym(x): return arr.array(x, dtype=np_dtype(dtype), copy=bool(copy), order=order or "K")
    return np.asarray(x, dtype=dtype, order=order)
def p_atleast(n):
    real = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n]
    def f(*xs):
        out = []
        for x in xs:
            if has_sym(x):
                x = arr.array(x, copy=False)
                if n == 1: r = x.reshape(1) if x.ndim == 0 else x
                elif n == 2: r = x.reshape(1, 1) if x.ndim == 0 else (x[None, :] if x.ndim == 1 else x)
                else: r = wrap(real(base(x)), x._dt)
            else: r = real(x)
            out.append(r)
        return out[0] if len(out) == 1 else tuple(out)
    return f
class IndexTrick:
    def __init__(self, real): self.r = real
    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(has_sym(x) for x in ks):
            return wrap(self.r[tuple(obj(x) if has_sym(x) else x for x in ks)])
        return self.r[k]
class FInfo:
    """rounding is outside the model: machine epsilon is zero"""
    def __init__(self, d=float): self._d = np.finfo(np_dtype(d) if not isinstance(d, S) else F64); self.dtype = self._d.dtype
    eps = property(lambda s: Fraction(1, 2 ** (23 if s.dtype == np.dtype('float32') else 10 if s.dtype == np.dtype('float16') else 52)) if core.CTX is not None and core.CTX.opts.get("eps") else 0); epsneg = 0; resolution = 0; tiny = 0; smallest_normal = 0; smallest_subnormal = 0
    @property
    def max(self): return float("inf")
    @property
    def min(self): return -float("inf")
    def __getattr__(self, k): return getattr(self._d, k)

def p_vectorize(f, *a, **k):
    def g(x, *r):
        if has_sym(x): return wrap(arr.map1(lambda t: f(t, *r), obj(x)))
        return np.vectorize(f, *a, **k)(x, *r)
    return g
def p_fromiter(it, dtype=float, count=-1): return p_array(list(it), dtype=dtype)
def p_apply_along_axis(f, axis, a, *args, **k):
    if not has_sym(a): return np.apply_along_axis(f, axis, a, *args, **k)
    a = arr.array(a, copy=False); m = np.moveaxis(base(a), axis, -1)
    outs = [f(wrap(m[i].copy(), a._dt), *args, **k) for i in np.ndindex(*m.shape[:-1])]
    o = np.empty(m.shape[:-1] + np.shape(obj(outs[0])), dtype=object)
    for i, v in zip(np.ndindex(*m.shape[:-1]), outs): o[i] = obj(v) if np.ndim(obj(v)) else obj(v)[()]
    return wrap(np.moveaxis(o, -1, axis) if np.ndim(obj(outs[0])) else o)
def p_isscalar(x): return isinstance(x, (S, B)) or np.isscalar(x)
def p_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b = to_S(a), to_S(b); num = int(num)
    div = num - 1 if endpoint else num
    return sa([a + (b - a) * const(Fraction(i, div)) if div else a for i in range(num)])
def p_arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, S) else x for x in a]
    return np.arange(*a, dtype=dtype)
def p_float(x=0.0): return to_S(x)
def p_cumprod(a, axis=None, dtype=None, out=None):
    if not has_sym(a):
        a = np.asarray(a)
        if a.dtype.kind == "f": return wrap(np.cumprod(obj(a), axis=axis))
        return np.cumprod(a, axis=axis, dtype=dtype, out=out)
    return arr.func_dispatch(np.cumprod, (a,), dict(axis=axis))
def p_hypot(a, b): return UfuncProxy(np.hypot)(a, b)

# random numbers -----------------------------------------------------------
class SeedSeq:
    def __init__(self, entropy=None, *, spawn_key=(), **k):
        self.entropy = entropy; self.spawn_key = tuple(spawn_key); self.n_children_spawned = 0
    def spawn(self, n):
        r = [SeedSeq(self.entropy, spawn_key=self.spawn_key + (self.n_children_spawned + i,)) for i in range(n)]
        self.n_children_spawned += n
        return r
    @property
    def pool(self): return np.array([0])
    def generate_state(self, n, dtype=np.uint32): raise Unsupported("generate_state")
def stream_key(seed):
    if seed is None: return ("fresh", core.CTX.fresh_stream())
    if isinstance(seed, SeedSeq): return (("seed", seed.entropy) if seed.entropy is not None else ("fresh", id(seed))) + tuple(seed.spawn_key)
    if isinstance(seed, (int, np.integer)):
        if seed < 0: raise ValueError("expected non-negative integer")
        return ("seed", int(seed))
    if isinstance(seed, S): return ("seed", seed.__index__())
    if isinstance(seed, (list, tuple)): return ("seed",) + tuple(seed)
    raise TypeError(f"SeedSequence expects int or sequence of ints for entropy not {seed!r}")
class SymGen:
    """np.random.Generator whose draws are symbolic inputs, one stream per seed"""
    def __init__(self, bitgen=None):
        self.key = bitgen if isinstance(bitgen, tuple) else stream_key(bitgen)
        self.pos = 0; self.children = 0
    @property
    def bit_generator(self): return self
    @property
    def seed_seq(self): return self
    def spawn(self, n):
        r = [SymGen(self.key + (self.children + i,)) for i in range(n)]
        self.children += n
        return r
    def _draw(self, kind):
        i = self.pos; self.pos += 1
        core.CTX.consumed.setdefault(core.draw_name(self.key, i, kind)); core.CTX.log.append((self.key, i, kind))
        return core.CTX.draw(self.key, i, kind)
    def _fill(self, kind, size, dtype, out, order="C"):
        d = np_dtype(dtype)
        if d not in (F64, F32): raise TypeError(f"Unsupported dtype {d!r} for random")
        if out is not None:
            if not isinstance(out, np.ndarray): raise TypeError("out must be an array")
            od = out.dtype if isinstance(out, SA) else np.asarray(out).dtype
            if od != d: raise TypeError(f"Supplied output array has wrong type. Expected {d}, got {od}")
            b = base(out)
            if not (b.flags.c_contiguous or b.flags.f_contiguous): raise ValueError("Supplied output array must be contiguous, writable, aligned, and in machine byte-order.")
            if not isinstance(out, SA): raise Unsupported("native output array")
            if b.flags.c_contiguous:
                for i in np.ndindex(*b.shape): b[i] = self._draw(kind)
            else:
                t = b.T
                for i in np.ndindex(*t.shape): t[i] = self._draw(kind)
            return out
        if size is None: return self._draw(kind)
        shape = _shape(size); shape = (shape,) if isinstance(shape, (int, np.integer)) else shape
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*o.shape): o[i] = self._draw(kind)
        r = np.ndarray.view(o, SA); r._dt = d
        return r
    def random(self, size=None, dtype=np.float64, out=None): return self._fill("u", size, dtype, out)
    def standard_normal(self, size=None, dtype=np.float64, out=None): return self._fill("n", size, dtype, out)
    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self._fill("n", size, np.float64, None)
        return r if (isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1) else loc + scale * r
    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._fill("u", size, np.float64, None)
        return low + (to_S(high) - low) * r
    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None: low, high = 0, low
        k = int(high) - int(low) + (1 if endpoint else 0)
        r = self._fill("u", size, np.float64, None)
        f = lambda u: int(low) + core.s_floor(u * k)
        return f(r) if isinstance(r, S) else wrap(arr.map1(f, base(r)))
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None or not replace: raise Unsupported("choice")
        a = np.arange(a) if isinstance(a, int) else p_asarray(a)
        k = len(a)
        r = self._fill("u", size, np.float64, None)
        o = obj(a)
        def f(u):
            if k == 2:
                s = core.s_floor(u * 2)
                return to_S(o[0]) + (to_S(o[1]) - to_S(o[0])) * s
            return o[core.s_floor(u * k).__index__()]
        return f(r) if isinstance(r, S) else wrap(arr.map1(f, base(r)))
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported(f"Generator.{k}")
def default_rng(seed=None):
    if isinstance(seed, SymGen): return seed
    return SymGen(seed)
class RandomProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.random")
        self.default_rng = default_rng; self.Generator = SymGen; self.SeedSequence = SeedSeq; self.BitGenerator = SymGen
        self.PCG64 = SymGen; self.RandomState = type("RandomState", (), {})
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        if not hasattr(np.random, k): raise AttributeError(k)
        raise core.Violation(f"global random state used: np.random.{k}")

def build_numpy():
    linalg = Proxy("numpy.linalg", np.linalg, {"LinAlgError": np.linalg.LinAlgError})
    fft = Proxy("numpy.fft", np.fft, {})
    rnd = RandomProxy()
    over = dict(zeros=p_zeros, empty=p_empty, ones=p_ones, full=p_full, eye=p_eye, identity=lambda n, dtype=None, **k: p_eye(n, dtype=dtype or float),
        array=p_array, asarray=p_asarray, asanyarray=p_asarray, ascontiguousarray=lambda a, dtype=None, **k: p_array(a, dtype, copy=None, order="C", ndmin=1),
        asfortranarray=lambda a, dtype=None, **k: p_array(a, dtype, copy=None, order="F", ndmin=1), atleast_1d=p_atleast(1), atleast_2d=p_atleast(2), atleast_3d=p_atleast(3),
        c_=IndexTrick(np.c_), r_=IndexTrick(np.r_), finfo=FInfo, linalg=linalg, fft=fft, random=rnd, vectorize=p_vectorize, fromiter=p_fromiter,
        apply_along_axis=p_apply_along_axis, isscalar=p_isscalar, linspace=p_linspace, arange=p_arange, cumprod=p_cumprod,
        ndarray=np.ndarray, newaxis=None, inf=float("inf"), nan=float("nan"), pi=math.pi, float64=np.float64, float32=np.float32,
        errstate=np.errstate, printoptions=np.printoptions, ndindex=np.ndindex, dtype=np.dtype, generic=np.generic, bool_=np.bool_)
    return Proxy("numpy", np, over), linalg, fft, rnd

NP, NP_LINALG, NP_FFT, NP_RANDOM = build_numpy()

class F64Type:
    pass

# ------------------------------------------------------------------ eigen-solvers
def eigh2(a, b, c):
    """[[a,b],[b,c]]: eigenvalues ascending, orthonormal eigenvectors (signs arbitrary)"""
    if core.decide(B_cmp(b, const(0), "==")):
        s1, s2 = arb_sign(), arb_sign()
        if core.decide(B_cmp(a, c, "<=")): return sa([a, c]), sa([[s1, 0], [0, s2]])
        return sa([c, a]), sa([[0, s2], [s1, 0]])
    disc = s_sqrt((a - c) ** 2 + 4 * b * b)
    lo, hi = (a + c - disc) / 2, (a + c + disc) / 2
    cs = s_sqrt((disc + (a - c)) / (2 * disc))        # eigenvector of hi is (cs, sn)
    sn = b / (disc * cs)
    s1, s2 = arb_sign(), arb_sign()
    return sa([lo, hi]), sa([[-sn * s1, cs * s2], [cs * s1, sn * s2]])
def arb_sign():
    if not core.CTX.opts.get("eig_signs", True): return const(1)
    return core.fresh_sign("eigsign")

def eigh_tridiagonal(d, e, eigvals_only=False, select="a", select_range=None, check_finite=True, tol=0.0, lapack_driver="auto"):
    """contract of scipy.linalg.eigh_tridiagonal: ascending eigenvalues and orthonormal eigenvectors; may raise LinAlgError if allowed"""
    c = core.CTX
    d = [to_S(x) for x in obj(d)]; e = [to_S(x) for x in obj(e)]
    if len(e) != len(d) - 1: raise ValueError(f"d ({len(d)}) must have one more element than e ({len(e)})")
    if any(nonfinite(x) for x in d + e): raise ValueError("array must not contain infs or NaNs")
    c.record_call("eigh_tridiagonal", (tuple(d), tuple(e), eigvals_only))
    if c.opts.get("lapack_fail"):
        raise np.linalg.LinAlgError("stub: LAPACK did not converge")
    k = len(d)
    key = ("eig",) + tuple(core.rfkey(x) for x in d + e)
    memo = c.__dict__.setdefault("eigmemo", {})
    if key not in memo:
        known = c.__dict__.get("known_eigs", {}).get(key)
        if known is None and k > 2:        # the same values in another form
            for ds, sol in c.__dict__.get("known_list", ()):
                if len(ds) == 2 * k - 1 and all(arr.is_zero(x - y) or _proved_equal(x, y) for x, y in zip(d + e, ds)): known = sol; break
        if known is not None: memo[key] = known
        elif k == 1: memo[key] = (sa([d[0]]), sa([[arb_sign()]]))
        elif k == 2: memo[key] = eigh2(d[0], e[0], d[1])
        else: memo[key] = eigh_free(d, e)
    w, V = memo[key]
    return w.copy() if eigvals_only else (w.copy(), V.copy())

def _proved_equal(x, y):
    b = B_cmp(x, y, "!=")
    return not b if isinstance(b, bool) else core.CTX.feasible(b, 8000) == z3.unsat
def eigh_free(d, e):
    """k >= 3: fresh eigenpairs constrained by their defining equations (couplings that vanish split the matrix)"""
    k = len(d)
    for i in range(k - 1):
        if core.decide(B_cmp(e[i], const(0), "==")):
            w1, V1 = eigh_tridiagonal_raw(d[: i + 1], e[:i]); w2, V2 = eigh_tridiagonal_raw(d[i + 1:], e[i + 1:])
            w = [*base(w1), *base(w2)]; V = base(zeros((k, k)))
            V[: i + 1, : i + 1] = base(V1); V[i + 1:, i + 1:] = base(V2)
            p = arr.f_argsort(sa(w))
            return sa([w[j] for j in p]), wrap(V[:, list(p)])
    raise Unsupported("symbolic eigen-decomposition of size > 2 with unregistered solution")
def eigh_tridiagonal_raw(d, e):
    if len(d) == 1: return sa([d[0]]), sa([[arb_sign()]])
    if len(d) == 2: return eigh2(d[0], e[0], d[1])
    return eigh_free(d, e)
def eigvalsh_tridiagonal(d, e, select="a", select_range=None, check_finite=True, tol=0.0, lapack_driver="auto"):
    return eigh_tridiagonal(d, e, True)

def register_eig(d, e, w, V):
    key = ("eig",) + tuple(core.rfkey(to_S(x)) for x in list(obj(d)) + list(obj(e)))
    core.CTX.__dict__.setdefault("known_eigs", {})[key] = (sa(w), sa(V))
    core.CTX.__dict__.setdefault("known_list", []).append(([to_S(x) for x in list(obj(d)) + list(obj(e))], (sa(w), sa(V))))

def symkey(o): return ("sym",) + tuple(core.rfkey(arr._num(x)) for x in obj(o).ravel())
def register_sym(M, w, V): core.CTX.__dict__.setdefault("known_sym", {})[symkey(M)] = (sa(w), sa(V))
def known_sym(o):
    t = core.CTX.__dict__.get("known_sym")
    return t.get(symkey(o)) if t else None

# ------------------------------------------------------------------ scipy pieces
def qr_insert(Q, R, u, k, which="row", rcond=None, overwrite_qru=False, check_finite=True):
    """QR of the matrix with column u inserted at position k (economic or full): Gram-Schmidt with an arbitrary sign"""
    if which != "col": raise Unsupported("qr_insert rows")
    Qb, Rb = obj(Q), obj(R); u = obj(u)
    if u.ndim == 2 and u.shape[1] != 1: raise Unsupported("qr_insert of several columns")
    u = u.reshape(-1)
    m, kk = Qb.shape
    n = Rb.shape[1]
    A = np.empty((m, n + 1), dtype=object)
    if k != n:
        A0 = arr.matmul(Qb, Rb)
        A[:, :k] = A0[:, :k]; A[:, k] = u; A[:, k + 1:] = A0[:, k:]
        return arr.f_qr(wrap(A))
    if n == 0 and m == 1: return wrap(np.empty((1, 0), dtype=object), F64), wrap(np.empty((0, 0), dtype=object), F64)      # what scipy 1.18 returns here
    if kk == n and kk < m:                 # economic, append
        q = [arr._num(x) for x in u]; r = np.empty((kk + 1, n + 1), dtype=object)
        for i in range(kk + 1):
            for j in range(n + 1): r[i, j] = const(0)
        r[:kk, :n] = Rb
        for i in range(kk):
            c = arr._sum([Qb[t, i] * arr._num(u[t]) for t in range(m)])
            r[i, n] = c
            q = [q[t] - c * Qb[t, i] for t in range(m)]
        n2 = arr._sum([x * x for x in q])
        if core.decide(B_cmp(n2, const(0), "==")): raise np.linalg.LinAlgError("One of the columns of u lies in the span of Q.")
        nr = s_sqrt(n2); sg = arr.qr_sign(("qri",) + tuple(core.rfkey(x) for x in q), n, nr, q)
        r[kk, n] = sg * nr
        Q2 = np.empty((m, kk + 1), dtype=object); Q2[:, :kk] = Qb
        for t in range(m): Q2[t, kk] = q[t] / r[kk, n]
        return wrap(Q2, F64), wrap(r, F64)
    raise Unsupported("qr_insert shape")

class OrthoGroup:
    def __init__(self, dim=None, seed=None): self.dim = dim; self.rng = seed
    def rvs(self, size=1, dim=None, random_state=None):
        n = self.dim or dim
        rng = random_state if random_state is not None else self.rng
        if rng is None: raise core.Violation("global random state used: scipy.stats without a generator")
        rng = default_rng(rng)
        z = rng.standard_normal((n, n))
        core.CTX.record_call("ortho_group", ())
        Q, R = arr.f_qr(z)
        return Q
def ortho_group(dim=None, seed=None): return OrthoGroup(dim, seed)
ortho_group.rvs = lambda dim, size=1, random_state=None: OrthoGroup(dim, random_state).rvs()

def squareform(X, force="no", checks=True):
    v = obj(X)
    if v.ndim == 1:
        n = int((1 + math.isqrt(1 + 8 * len(v))) // 2) if len(v) else 1
        if n * (n - 1) // 2 != len(v): raise ValueError("Incompatible vector size. It must be a binomial coefficient n choose 2 for some integer n >= 2.")
        M = base(zeros((n, n))); t = 0
        for i in range(n):
            for j in range(i + 1, n): M[i, j] = M[j, i] = v[t]; t += 1
        return wrap(M, F64)
    n = v.shape[0]
    return sa([v[i, j] for i in range(n) for j in range(i + 1, n)])

def _q(name, *args):
    r = s_uf(name, *args)
    return r
class TDist:
    """Student t quantiles: an unknown function of (p, df), increasing in p, zero at 1/2"""
    @staticmethod
    def ppf(q, df=None, *a, **k):
        if has_sym(q) or has_sym(df) or True:
            qs, ds = np.broadcast_arrays(obj(q), obj(df))
            o = np.empty(qs.shape, dtype=object)
            for i in np.ndindex(*qs.shape): o[i] = t_ppf(arr._num(qs[i]), arr._num(ds[i]))
            return wrap(o, F64)
    @staticmethod
    def interval(confidence, df, loc=0, scale=1):
        m = TDist.ppf((to_S(confidence) + 1) / 2, df)
        return loc - m * scale, loc + m * scale
    @staticmethod
    def isf(q, df): return TDist.ppf(1 - to_S(q), df)
def numeric_bounds(name, s, *args):
    """value of a quantile at constant arguments, to nine digits"""
    if core.CTX is None or any(nonfinite(a) or not to_S(a).is_const() for a in args): return
    a = [float(to_S(x).cval()) for x in args]
    import scipy.special as ss
    v = float(ss.erfinv(a[0]) if name == "erfinv" else ss.stdtrit(a[1], a[0]))
    if v != v or abs(v) == float("inf"): return
    f = Fraction(v); d = abs(f) / 10 ** 9 + Fraction(1, 10 ** 12)
    core.CTX.add_axiom(("num",) + core.rfkey(s), lambda: [B_cmp(s, const(f - d), ">"), B_cmp(s, const(f + d), "<")])
def t_ppf(p, df):
    if not nonfinite(df) and df.is_const() and df.cval() <= 0: return float("nan")
    if core.CTX is not None and core.atom_truth(B_cmp(p, const(Fraction(1, 2)), "<")) is True:
        return -t_ppf(1 - p, df)
    s = s_uf("t_ppf", p, df)
    numeric_bounds("t_ppf", s, p, df)
    core.CTX.add_axiom(("tpos",) + core.rfkey(s), lambda: [core.b_or(core.b_not(B_cmp(p, const(Fraction(1, 2)), ">")), B_cmp(s, const(0), ">"))])
    return s
def z_ppf(p):
    """standard normal quantile, normalised to p > 1/2 (odd symmetry)"""
    if core.CTX is not None and core.atom_truth(B_cmp(p, const(Fraction(1, 2)), "<")) is True: return -z_ppf(1 - p)
    # p = (1+c)/2  ->  sqrt(2)*erfinv(c)
    return s_sqrt(const(2)) * erfinv1(2 * p - 1)
def erfinv1(c):
    c = to_S(c)
    s = s_uf("erfinv", c)
    numeric_bounds("erfinv", s, c)
    core.CTX.add_axiom(("erfpos",) + core.rfkey(s), lambda: [core.b_or(core.b_not(B_cmp(c, const(0), ">")), B_cmp(s, const(0), ">"))])
    return s
def _bc1(f):
    def g(x, *a, **k):
        o = obj(x)
        return f(arr._num(o[()])) if o.ndim == 0 else wrap(arr.map1(lambda t: f(arr._num(t)), o))
    return g
class NDist:
    @staticmethod
    def ppf(q, loc=0, scale=1): return _bc1(z_ppf)(q) * scale + loc
    @staticmethod
    def isf(q, loc=0, scale=1): return NDist.ppf(1 - to_S(q), loc, scale)
    @staticmethod
    def interval(confidence, loc=0, scale=1):
        m = z_ppf((to_S(confidence) + 1) / 2)
        return loc - m * scale, loc + m * scale
def sem(a, axis=0, ddof=1, nan_policy="propagate", keepdims=False):
    a = arr.array(a, copy=False)
    if axis is None: a = a.ravel(); axis = 0
    n = a.shape[axis]
    return arr.f_std(a, axis=axis, ddof=ddof) / s_sqrt(const(n))

class SpdiagsStub:
    def __init__(self, data, diags, m, n): self.data, self.diags, self.shape = obj(data), list(diags), (m, n)
    def toarray(self):
        m, n = self.shape; o = base(zeros((m, n)))
        for row, k in zip(self.data, self.diags):
            for j in range(n):
                i = j - k
                if 0 <= i < m and j < len(row): o[i, j] = o[i, j] + row[j]
        return wrap(o, F64)
    todense = toarray
    A = property(toarray)
    def diagonal(self, k=0): return NP.diag(self.toarray(), k)
    def __matmul__(self, x): return self.toarray() @ x
    @property
    def T(self): return SpdiagsStub.from_dense(self.toarray().T)
    @staticmethod
    def from_dense(M): return DenseSparse(M)
    def astype(self, *a, **k): return self
    def tocsr(self): return self
    tocsc = tocoo = todia = tocsr
class DenseSparse(SpdiagsStub):
    def __init__(self, M): self.M = M; self.shape = M.shape
    def toarray(self): return self.M
class CSC(DenseSparse):
    """a sparse matrix storing every entry of a dense one that is not literally zero"""
    def __init__(self, M, dtype="float64"): DenseSparse.__init__(self, M); self.dtype = np.dtype(dtype); self.ndim = 2
    def __matmul__(self, x): return self.M @ x
    def dot(self, x): return self.M @ x
    def csc_triple(self, norm):
        import scipy.sparse as ss
        b = norm(self.M); n, m = b.shape
        zero = lambda x: x.is_const() and x.cval() == 0
        rows = [[i for i in range(n) if not zero(b[i, j])] for j in range(m)]
        r = ss.csc_matrix((np.ones(sum(map(len, rows))), np.array([i for c in rows for i in c], dtype=int), np.cumsum([0] + [len(c) for c in rows])), shape=(n, m))
        r.data = np.empty(sum(map(len, rows)), dtype=object)
        k = 0
        for j in range(m):
            for i in rows[j]: r.data[k] = b[i, j]; k += 1
        return r
def spdiags(data, diags, m=None, n=None, format=None):
    if m is None and n is None: m = n = len(data[0])
    elif isinstance(m, tuple): m, n = m
    return SpdiagsStub(arr.array(data, copy=False) if has_sym(data) else sa(data), diags, m, n)
def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0: offsets = [offsets]; diagonals = [diagonals] if not isinstance(diagonals[0], (list, np.ndarray)) else diagonals
    ds = [obj(d) for d in diagonals]
    n = max(len(d) + abs(k) for d, k in zip(ds, offsets)) if shape is None else shape[0]
    M = base(zeros((n, n)))
    for d, k in zip(ds, offsets):
        L = n - abs(k)
        for t in range(L):
            i, j = (t, t + k) if k >= 0 else (t - k, t)
            M[i, j] = arr._num(d[t if len(d) > 1 or L == 1 else 0])
    return DenseSparse(wrap(M, F64))

def eigsh(A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, **kw):
    """contract of ARPACK for k=1: an eigenvalue extremal in the requested sense of the (dense, symbolic) operator"""
    M_ = A @ eye(A.shape[1])
    o = obj(M_); n = o.shape[0]
    known = known_sym(o)
    if known is not None:
        w, V = known
    elif n == 1: w, V = [o[0, 0]], eye(1)
    elif n == 2: w, V = eigh2(arr._num(o[0, 0]), arr._num(o[1, 0]), arr._num(o[1, 1]))
    else: raise Unsupported("eigsh n>2")
    w = [arr._num(x) for x in obj(w)]
    idx = list(range(n))
    if which == "LM": sel = lambda i, j: B_cmp(core.s_abs(w[i]), core.s_abs(w[j]), ">")
    elif which == "LA": sel = lambda i, j: B_cmp(w[i], w[j], ">")
    elif which == "SA": sel = lambda i, j: B_cmp(w[i], w[j], "<")
    elif which == "SM": sel = lambda i, j: B_cmp(core.s_abs(w[i]), core.s_abs(w[j]), "<")
    elif which == "BE": sel = lambda i, j: B_cmp(w[i], w[j], ">")
    else: raise Unsupported(which)
    picked = []
    for _ in range(min(k, n)):
        rest = [i for i in idx if i not in picked]
        bi = rest[0]
        for i in rest[1:]:
            if core.decide(sel(i, bi)): bi = i
        picked.append(bi)
    if which == "BE" and k == 2: 
        lo = min
        bi = 0
        for i in range(1, n):
            if core.decide(B_cmp(w[i], w[bi], "<")): bi = i
        picked = [bi, picked[0]]
    picked.sort(key=lambda i: 0)
    ws = sa([w[i] for i in picked])
    if k > 1: ws = arr.f_sort(ws)
    if return_eigenvectors: return ws, wrap(obj(V)[:, picked], F64)
    return ws

# tasks run one after the other in an arbitrary order
class SymExecutor:
    def __init__(self, max_workers=None, *a, **k): self.pending = []; self.max_workers = max_workers; self.done = False
    def submit(self, f, *a, **k):
        if self.done: raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SymFuture(self, f, a, k); self.pending.append(fut)
        return fut
    def map(self, f, *its, timeout=None, chunksize=1):
        fs = [self.submit(f, *a) for a in zip(*its)]
        def gen():
            for x in fs: yield x.result()
        return gen()
    def run_all(self):
        while self.pending:
            n = len(self.pending)
            i = core.choose(n) if n > 1 and core.CTX.opts.get("schedules", True) and core.CTX.nsched < core.CTX.sched_limit else 0
            if n > 1: core.CTX.choices[f"schedule{core.CTX.nsched}"] = i; core.CTX.nsched += 1
            self.pending.pop(i)._run()
    def shutdown(self, wait=True, cancel_futures=False):
        if wait and core.CTX is not None: self.run_all()
        self.done = True
    def __enter__(self): return self
    def __exit__(self, *a): self.shutdown(True)
class SymFuture:
    def __init__(self, ex, f, a, k): self.ex, self.f, self.a, self.k = ex, f, a, k; self.st = None; self.val = None; self.exc = None; self.cbs = []
    def _run(self):
        try: self.val = self.f(*self.a, **self.k)
        except Exception as e: self.exc = e
        self.st = "done"
        for c in self.cbs: c(self)
    def result(self, timeout=None):
        if self.st is None: self.ex.run_all()
        if self.exc is not None: raise self.exc
        return self.val
    def exception(self, timeout=None):
        if self.st is None: self.ex.run_all()
        return self.exc
    def done(self): return self.st is not None
    def add_done_callback(self, c): self.cbs.append(c)
def fut_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    for f in fs:
        if f.st is None: f.ex.run_all()
    return types.SimpleNamespace(done=set(fs), not_done=set())
def as_completed(fs, timeout=None):
    fs = list(fs); fut_wait(fs)
    return iter(fs)

# ------------------------------------------------------------------ modules seen by the code under test
def mod(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); return m

def build_scipy(load_linop):
    import scipy.special as rsp
    special = mod("scipy.special", erfinv=_bc1(erfinv1), ndtri=_bc1(z_ppf), stdtrit=lambda df, p: TDist.ppf(p, df))
    def _sg(k): return wrapfn(getattr(rsp, k))
    stats = mod("scipy.stats", t=TDist, norm=NDist, sem=sem, ortho_group=ortho_group)
    distance = mod("scipy.spatial.distance", squareform=squareform)
    spatial = mod("scipy.spatial", distance=distance)
    from scipy.sparse import sparray, issparse
    linalg = mod("scipy.linalg", qr_insert=qr_insert, eigh_tridiagonal=eigh_tridiagonal, eigvalsh_tridiagonal=eigvalsh_tridiagonal,
                 solve_triangular=lambda a, b, trans=0, lower=False, **k: arr.f_solve(a if not trans else a.T, b), LinAlgError=np.linalg.LinAlgError,
                 qr=lambda a, mode="full", **k: arr.f_qr(a, "reduced" if mode in ("economic", "full") else mode), inv=arr.f_inv, solve=lambda a, b, **k: arr.f_solve(a, b),
                 norm=arr.f_norm, eigh=arr.f_eigh, toeplitz=toeplitz, block_diag=None, det=arr.f_det, hadamard=None)
    li = load_linop()
    spl = mod("scipy.sparse.linalg", LinearOperator=li.LinearOperator, aslinearoperator=li.aslinearoperator, eigsh=eigsh, _interface=li)
    sparse = mod("scipy.sparse", sparray=sparray, issparse=issparse, spdiags=spdiags, diags=sp_diags, diags_array=lambda d, offsets=0, **k: sp_diags(d, offsets), linalg=spl, spmatrix=sparray)
    fftm = Proxy("scipy.fft", np.fft, {})
    scipy = mod("scipy", special=special, stats=stats, spatial=spatial, linalg=linalg, sparse=sparse, fft=fftm)
    scipy.__getattr__ = lambda k: (_ for _ in ()).throw(Unsupported(f"scipy.{k}")) if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
    ms = {"scipy": scipy, "scipy.special": special, "scipy.stats": stats, "scipy.spatial": spatial, "scipy.spatial.distance": distance, "scipy.linalg": linalg,
          "scipy.sparse": sparse, "scipy.sparse.linalg": spl, "scipy.sparse.linalg._interface": li, "scipy.fft": fftm}
    return ms
def toeplitz(c, r=None):
    c = obj(c).ravel(); r = c if r is None else obj(r).ravel()
    o = np.empty((len(c), len(r)), dtype=object)
    for i in range(len(c)):
        for j in range(len(r)): o[i, j] = c[i - j] if i >= j else r[j - i]
    return wrap(o, F64)

def cf_module():
    import concurrent.futures as cf
    return mod("concurrent.futures", ThreadPoolExecutor=SymExecutor, ProcessPoolExecutor=SymExecutor, wait=fut_wait, as_completed=as_completed, Future=SymFuture, ALL_COMPLETED="ALL_COMPLETED", FIRST_COMPLETED="FIRST_COMPLETED", FIRST_EXCEPTION="FIRST_EXCEPTION", Executor=SymExecutor)

# builtins that must not force a symbolic value at a C boundary
def b_len(x):
    t = type(x)
    if isinstance(x, (list, tuple, dict, set, str, np.ndarray)): return builtins.len(x)
    f = getattr(t, "__len__", None)
    if f is None: return builtins.len(x)
    r = f(x)
    return r
class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (float, S))
    def __subclasscheck__(cls, t): return issubclass(t, (float, S))
    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)
class b_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (S, B)): return to_S(x)
        if isinstance(x, SA): return to_S(base(x).item())
        return float(x)
    @staticmethod
    def fromhex(s): return float.fromhex(s)
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int)
    def __subclasscheck__(cls, t): return issubclass(t, int)
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)
class b_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SA): x = base(x).item()
        if isinstance(x, B): return int(bool(x))
        if isinstance(x, S):
            if x.is_const():
                return int(x.cval())
            return core.concretize_int(core.s_floor(x) if bool(x >= 0) else -core.s_floor(-x)) if not getattr(core.CTX, "int_syms", None) else _sint(x)
        return int(x, *a)
def _sint(x): return x
def b_max(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (S, B)) for x in xs) and key is None: return builtins.max(*a, **k)
    if not xs:
        if "default" in k: return k["default"]
        raise ValueError("max() iterable argument is empty")
    m = xs[0]
    for x in xs[1:]:
        if (x if key is None else key(x)) > (m if key is None else key(m)): m = x
    return m
def b_min(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (S, B)) for x in xs) and key is None: return builtins.min(*a, **k)
    if not xs:
        if "default" in k: return k["default"]
        raise ValueError("min() iterable argument is empty")
    m = xs[0]
    for x in xs[1:]:
        if (x if key is None else key(x)) < (m if key is None else key(m)): m = x
    return m
def b_sum(it, start=0):
    r = start
    for x in it: r = r + x
    return r
def b_round(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)

class MathProxy(types.ModuleType):
    def __getattr__(self, k):
        v = getattr(math, k)
        if k == "sqrt":
            def f(x):
                x = to_S(x)
                if not nonfinite(x) and bool(x < 0): raise ValueError("math domain error")
                return s_sqrt(x)
            return f
        if k == "hypot": return lambda *a: s_sqrt(arr._sum([to_S(x) ** 2 for x in a]))
        if k == "fabs": return lambda x: abs(to_S(x))
        if k == "floor": return lambda x: math.floor(x) if not isinstance(x, S) else core.s_floor(x)
        if k == "ceil": return lambda x: math.ceil(x) if not isinstance(x, S) else x.ceil()
        if k == "copysign": return lambda a, b: arr.BIN["copysign"](to_S(a), to_S(b))
        if k in ("exp", "log"): return lambda x: getattr(math, k)(x) if not isinstance(x, S) else s_uf(k, x)
        if k in ("isnan",): return lambda x: isinstance(x, float) and x != x
        if k in ("isinf",): return lambda x: nonfinite(x) and x == x
        if k in ("isfinite",): return lambda x: not nonfinite(x)
        if k == "isclose": return lambda a, b, rel_tol=1e-9, abs_tol=0.0: arr.e_close(a, b, rel_tol, abs_tol)
        if k == "fsum": return lambda it: arr._sum(list(it))
        if k == "prod": return lambda it, start=1: _prod(it, start)
        if callable(v):
            def g(*a):
                if any(isinstance(x, S) and not x.is_const() for x in a): raise Unsupported(f"math.{k}")
                return v(*[float(x) if isinstance(x, S) else x for x in a])
            return g
        return v
def _prod(it, r):
    for x in it: r = r * x
    return r
MATH = MathProxy("math")

# ------------------------------------------------------------------ loader
class Loader:
    def __init__(self, srcdir):
        self.src = srcdir; self.mods = {}; self.native = None
        self.special = {}
        b = dict(builtins.__dict__)
        b.update(__import__=self.imp, len=b_len, float=b_float, int=b_int, max=b_max, min=b_min, sum=b_sum)
        self.builtins = b
        self.linop = None
        self.spm = build_scipy(self.load_linop)
        self.fixed = {"numpy": NP, "numpy.linalg": NP_LINALG, "numpy.fft": NP_FFT, "numpy.random": NP_RANDOM, "math": MATH,
                      "concurrent.futures": cf_module(), "numpy.typing": importlib.import_module("numpy.typing")}
        self.fixed.update(self.spm)
        self.fixed["concurrent"] = mod("concurrent", futures=self.fixed["concurrent.futures"])
        self.fixed["multiprocessing"] = mod("multiprocessing", cpu_count=lambda: 3)
        self.lines = {}
    def load_linop(self):
        import scipy.sparse.linalg._interface as real
        path = real.__file__
        src = open(path).read()
        m = types.ModuleType("scipy_interface_sym")
        from scipy._external import array_api_extra as xpx
        aa = mod("aa", SCIPY_ARRAY_API=False, _asarray=lambda x, subok=True, xp=None, dtype=None, **k: p_asarray(x, dtype=dtype), array_namespace=lambda *a, **k: NP,
                 is_array_api_obj=lambda x: isinstance(x, np.ndarray), is_pydata_sparse_array=lambda x: False, np_compat=NP,
                 xp_capabilities=lambda *a, **k: (lambda f: f), xp_copy=lambda x, xp=None: x.copy(), xp_isscalar=lambda x: p_isscalar(x) or (isinstance(x, np.ndarray) and x.ndim == 0),
                 xp_result_type=lambda *a, **k: np.dtype("float64"))
        import scipy.sparse as rsparse, scipy.sparse._sputils as spu
        table = {"numpy": NP, "scipy": mod("scipy", sparse=rsparse), "scipy._external": mod("e", array_api_extra=mod("xpx", broadcast_shapes=np.broadcast_shapes, atleast_nd=lambda x, ndim, xp: p_atleast(ndim)(x), default_dtype=lambda **k: F64)),
                 "scipy._lib._array_api": aa, "scipy.sparse": rsparse, "scipy.sparse._sputils": spu}
        b = dict(builtins.__dict__)
        def imp(name, g=None, l=None, fromlist=(), level=0):
            if name in table: return table[name]
            return __import__(name, g, l, fromlist, level)
        b["__import__"] = imp
        m.__dict__["__builtins__"] = b; m.__dict__["__file__"] = path
        exec(compile(src, path, "exec"), m.__dict__)
        sys.modules["scipy_interface_sym"] = m
        return m
    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if level > 0:
            pkg = (g or {}).get("__package__") or "primate"
            base_ = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full_ = base_ + ("." + name if name else "")
            m = self.get(full_)
            if not name:
                for f in fromlist:
                    setattr(m, f, self.get(full_ + "." + f)) if not hasattr(m, f) else None
            else:
                for f in fromlist or ():
                    if not hasattr(m, f) and f != "*":
                        try: setattr(m, f, self.get(full_ + "." + f))
                        except ImportError: pass
            return m
        root = name.split(".")[0]
        if root == "primate":
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != "*":
                        try: setattr(m, f, self.get(name + "." + f))
                        except ImportError: pass
                return m
            return self.get("primate")
        if name in self.fixed: 
            if fromlist:
                m = self.fixed[name]
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = self.fixed.get(name + "." + f)
                        if sub is not None: setattr(m, f, sub)
                        elif root in ("scipy",): setattr(m, f, Missing(name + "." + f))
                return m
            return self.fixed[root] if root in self.fixed else self.fixed[name]
        if root in ("scipy", "numpy"):
            real = importlib.import_module(name)
            if name in ("scipy.sparse._sputils",): return real
            return Missing(name) if fromlist == () or fromlist is None else MissingMod(name, real)
        return __import__(name, g, l, fromlist, level)
    def get(self, name):
        if name in self.mods: return self.mods[name]
        if name == "primate._lanczos":
            if self.native is None: raise ImportError("primate._lanczos not available")
            m = self.native
            self.mods[name] = m; sys.modules[name] = m
            return m
        if name == "primate":
            m = types.ModuleType("primate"); m.__path__ = [self.src]; m.__package__ = "primate"
            self.mods[name] = m; sys.modules[name] = m
            return m
        rel = name.split(".", 1)[1].replace(".", "/")
        path = os.path.join(self.src, rel + ".py")
        if not os.path.exists(path): raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name); m.__file__ = path; m.__package__ = "primate"
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m; sys.modules[name] = m
        code = compile(open(path).read(), path, "exec")
        exec(code, m.__dict__)
        setattr(self.get("primate"), name.split(".")[-1], m)
        return m
class Missing:
    def __init__(self, n): self.__n = n
    def __call__(self, *a, **k): raise Unsupported(f"no model of {self.__n}")
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return Missing(self.__n + "." + k)
    def __mro_entries__(self, bases): return (object,)
class MissingMod(types.ModuleType):
    def __init__(self, n, real): super().__init__(n); self._real = real
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        v = getattr(self._real, k)
        return v if not callable(v) or isinstance(v, type) else Missing(self.__name__ + "." + k)
