"""The native module for symbolic runs: the project's own C++ on symbolic scalars, behind the same argument conversions."""
import importlib.util, types
import numpy as np
from . import core, arr
from .arr import SA, sa, base, obj
from .core import to_S, const, Unsupported

def load(path):
    if path is None:
        def missing(*a, **k): raise Unsupported("the native sources do not compile for symbolic scalars")
        return types.SimpleNamespace(lanczos=missing, orth_vector=missing, missing=True)
    spec = importlib.util.spec_from_file_location("lanczos_sym", path)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    m.init(to_S, lambda x: core.s_sqrt(to_S(x)) if not core.nonfinite(x) else (x if x == core.INF or x != x else float("nan")), arr.e_div, const(0))
    def norm(a):
        """the object storage behind a symbolic array, every entry an expression"""
        b = base(a) if isinstance(a, SA) else obj(np.asarray(a)).copy()
        for i in np.ndindex(*b.shape):
            if not isinstance(b[i], core.S): b[i] = to_S(b[i])
        return b
    class PyOp:
        def __init__(self, A, F): self._A, self.shape, self._F = A, tuple(int(s) for s in A.shape), F
        def matvec(self, x): return norm(self._A.matvec(sa(x, self._F)))
    class NoMatvec:
        def __init__(self, A): self.shape = A.shape
    def dt(a): return a.dtype if isinstance(a, np.ndarray) else None
    def fcontig(a): return np.ndarray.flags.__get__(a)["F_CONTIGUOUS"]
    def lanczos(A, v, deg, rtol, orth, alpha, beta, Q):
        deg, orth = int(deg), int(orth)
        bufs = [v, alpha, beta, Q]
        # the overloads are tried without conversions first: the buffers decide on the precision (any matrix converts to a sparse one)
        dts = {dt(x) for x in bufs}
        exact = len(dts) == 1 and all(isinstance(x, np.ndarray) and fcontig(x) for x in bufs) and next(iter(dts)) in (arr.F64, arr.F32)
        F = next(iter(dts)) if exact else arr.F32
        args = []
        for x in bufs:       # arguments of another precision or layout are converted: the callee works on a copy
            keep = isinstance(x, np.ndarray) and dt(x) == F and fcontig(x)
            b = norm(x)
            args.append(b if keep else np.array(b, dtype=object, order="F"))
        if isinstance(A, np.ndarray): a = np.array(norm(A), dtype=object, order="F")
        elif hasattr(A, "csc_triple"): a = A.csc_triple(norm)
        else: a = PyOp(A, F) if hasattr(A, "matvec") else A
        m.lanczos(a, args[0], deg, (rtol, 32 if F == arr.F32 else 64), orth, args[1], args[2], args[3])
    def orth_vector(v, U, start, p, reverse=False):
        if not hasattr(m, "orth_vector"): raise Unsupported("the native helper is not available under its name")
        m.orth_vector(norm(v), np.asfortranarray(norm(U)), start, p, reverse)
    ns = types.ModuleType("primate._lanczos"); ns.lanczos = lanczos; ns.orth_vector = orth_vector
    ns.raw = m
    return ns
