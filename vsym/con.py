"""Concrete harness environment: the same harness on the real code with real numpy. Runs under the project's own interpreter.

usage: con.py serve SRC NATIVE           one JSON request per line on stdin, one JSON answer per line on stdout
       con.py replay FILE [SRC]          rerun one recorded violation
"""
import sys, os, json, importlib, types, math, hashlib, traceback, warnings, threading
import numpy as np
warnings.filterwarnings("ignore")
np.seterr(all="ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTOL = 1e-6

def h01(name):
    return int.from_bytes(hashlib.sha256(name.encode()).digest()[:6], "big") / 2.0 ** 48

class CAssert(Exception): pass
class Assume(Exception): pass
class Done(BaseException): pass

class Fuzzy:
    """a truth value that may be within rounding of its boundary"""
    def __init__(self, v, sure): self.v, self.sure = bool(v), sure
    def __bool__(self): return self.v

class ConE:
    sym = False
    def __init__(self, cfg, inputs, choices):
        self.cfg, self.inputs, self.chs = cfg, inputs, choices
        self.fails = []; self.obs = []; self.nclaims = 0
        self.np = np
        self.nsched = 0; self.lapack_fail = False; self.streams = {}; self.nfresh = 0; self.drawn = []; self.log = []; self.fixfn = None; self.fixed = {}
        self.events = []
        self.exact = False
    def mod(self, name): return importlib.import_module("primate." + name if name else "primate")
    def sp(self, name): return importlib.import_module(name)
    def real(self, name, lo=None, hi=None, nonzero=False, pos=False, nonneg=False):
        v = self.inputs.get(name)
        if v is None:
            u = h01(name)
            if lo is not None and hi is not None: v = float(lo) + (float(hi) - float(lo)) * u
            elif lo is not None: v = float(lo) + 3 * u
            elif hi is not None: v = float(hi) - 3 * u
            else: v = 4 * u - 2
            if pos or nonneg: v = abs(v) + 0.1
            v = round(v * 64) / 64
            if nonzero and v == 0: v = 0.5
        return np.float64(v)
    def nat(self, name, lo=0):
        v = self.inputs.get(name)
        return int(round(v)) if v is not None else int(lo) + 3
    def reals(self, name, shape, order="C", dtype="float64", **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, order=order, dtype=dtype)
        for i in np.ndindex(*shape): o[i] = self.real(f"{name}[{','.join(map(str, i))}]", **kw)
        return o
    def sym_matrix(self, name, n, order="C", dtype="float64", **kw):
        o = np.empty((n, n), order=order, dtype=dtype)
        for i in range(n):
            for j in range(i, n): o[i, j] = o[j, i] = self.real(f"{name}[{i},{j}]", **kw)
        return o
    def array(self, xs, dtype="float64", order="C"): return np.array(xs, dtype=dtype, order=order)
    def const(self, v): return np.float64(v)
    def frac(self, a, b): return np.float64(a) / b
    def choice(self, name, options):
        options = list(options)
        return options[self.chs.get(name, 0) if self.chs.get(name, 0) < len(options) else 0]
    def sign(self, name):
        v = self.inputs.get(name)
        return np.float64(1.0 if (v if v is not None else h01(name) - 0.5) > 0 else -1.0)
    def assume(self, c):
        if isinstance(c, Fuzzy):
            if not c.v and c.sure: raise Assume()
            return
        if not bool(np.all(c)): raise Assume()
    def opt(self, **kw): pass
    def register_sym(self, *a): pass
    def register(self, d, e, w, V): pass
    def lapack(self, fails): self.lapack_fail = bool(fails)
    def sqrt(self, x): return np.sqrt(x)
    def abs(self, x): return abs(x)
    def uf(self, name, *a):
        import scipy.stats, scipy.special
        return np.float64({"t_ppf": lambda p, df: scipy.stats.t.ppf(p, df), "erfinv": scipy.special.erfinv, "exp": np.exp, "log": np.log}[name](*a))
    def _f(self, a, b, v, strict):
        a, b = self.sc(a), self.sc(b)
        if a != a or b != b: return Fuzzy(False, True)
        if math.isinf(a) or math.isinf(b): return Fuzzy(v(a, b), True)
        sure = abs(a - b) > 1e-9 * (1 + abs(a) + abs(b)) or (a == b and (self.exact or a == int(a)))
        return Fuzzy(v(a, b), sure)
    def lt(self, a, b): return self._f(a, b, lambda x, y: x < y, 1)
    def le(self, a, b): return self._f(a, b, lambda x, y: x <= y, 0)
    def gt(self, a, b): return self._f(a, b, lambda x, y: x > y, 1)
    def ge(self, a, b): return self._f(a, b, lambda x, y: x >= y, 0)
    def eqv(self, a, b): return self._f(a, b, lambda x, y: x == y, 0)
    def _z(self, x): return x if isinstance(x, Fuzzy) else Fuzzy(bool(np.all(x)), True)
    def and_(self, *xs):
        xs = [self._z(x) for x in xs]
        v = all(x.v for x in xs)
        return Fuzzy(v, all(x.sure for x in xs) or any(x.sure and not x.v for x in xs))
    def or_(self, *xs):
        xs = [self._z(x) for x in xs]
        v = any(x.v for x in xs)
        return Fuzzy(v, all(x.sure for x in xs) or any(x.sure and x.v for x in xs))
    def not_(self, x):
        x = self._z(x); return Fuzzy(not x.v, x.sure)
    def iff(self, x, y):
        x, y = self._z(x), self._z(y); return Fuzzy(x.v == y.v, x.sure and y.sure)
    def skip(self, why): raise Assume()
    def is_true(self, b): return bool(b)
    def sc(self, x):
        a = np.asarray(x, dtype=float)
        if a.size != 1: raise CAssert(f"scalar expected, got shape {a.shape}")
        return float(a.ravel()[0])
    # claims
    def _fail(self, label, why): self.fails.append(f"{label}: {why}")
    def eq(self, a, b, label, shape=True, rtol=None, obs=True):
        self.nclaims += 1
        try: x = np.asarray(a, dtype=float)
        except Exception: return self._fail(label, f"not numeric: {a!r}"[:120])
        y = np.asarray(b, dtype=float)
        if obs: self.observe(label, a)
        if x.shape != y.shape:
            if shape or x.size != y.size: return self._fail(label, f"shape {x.shape} instead of {y.shape}")
            x, y = x.ravel(), y.ravel()
        if x.size == 0: return
        bad = ~((np.isnan(x) & np.isnan(y)) | (x == y))
        if not bad.any(): return
        fx = np.isfinite(x) & np.isfinite(y)
        scale = 1 + max(np.abs(y[fx]).max() if fx.any() else 0, np.abs(x[fx]).max() if fx.any() else 0)
        tol = (rtol or RTOL) * scale
        bad &= ~(fx & (np.abs(x - y) <= tol))
        if bad.any():
            i = tuple(int(t) for t in np.argwhere(bad)[0])
            self._fail(label, f"{x[i]!r} instead of {y[i]!r} at {i}")
    def same(self, got, want, label):
        self.nclaims += 1
        g, w = self._z(got), self._z(want)
        if g.v != w.v and w.sure and g.sure: self._fail(label, f"{g.v} instead of {w.v}")
    def true(self, cond, label):
        self.nclaims += 1
        if isinstance(cond, Fuzzy):
            if not cond.v and cond.sure: self._fail(label, "false")
        elif not bool(np.all(cond)): self._fail(label, "false")
    def holds_le(self, a, b, label):
        self.nclaims += 1
        a, b = self.sc(a), self.sc(b)
        if not a <= b + RTOL * (1 + abs(a) + abs(b)): self._fail(label, f"{a!r} > {b!r}")
    def defined(self, a, label):
        self.nclaims += 1
        if not np.all(np.isfinite(np.asarray(a, dtype=float))): self._fail(label, f"not finite: {a!r}"[:150])
    def is_nan(self, a, label):
        self.nclaims += 1
        if not np.all(np.isnan(np.asarray(a, dtype=float))): self._fail(label, f"not NaN: {a!r}"[:150])
    def raises(self, fn, label, exc=Exception):
        self.nclaims += 1
        try: fn()
        except exc: return True
        self._fail(label, "no exception raised")
        return False
    def attempt(self, fn):
        try: return fn(), None
        except Exception as e: return None, e
    def fail(self, label, why=""): self.nclaims += 1; self._fail(label, why)
    def ok(self, label): self.nclaims += 1
    def observe(self, label, a):
        try: self.obs.append((label, [float(v) if np.isfinite(v) else None for v in np.asarray(a, dtype=float).ravel()]))
        except Exception: self.obs.append((label, []))
    def is_array(self, x): return isinstance(x, np.ndarray)
    def shares(self, a, b): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)
    def snapshot(self, a): return np.array(a, copy=True)
    def unchanged(self, a, snap, label):
        self.nclaims += 1
        if np.shape(a) != np.shape(snap) or not np.array_equal(np.asarray(a).ravel(), snap.ravel(), equal_nan=True): self._fail(label, "contents changed")
    def draws(self, key, kind="u"): return [n for n in self.drawn if n.startswith(kind + "|" + ":".join(map(str, key)) + "|")]
    def draw(self, seed, i, kind): return self.draw_value(("seed", seed), i, kind)
    def draw_value(self, key, i, kind):
        name = f"{kind}|{':'.join(str(k) for k in key)}|{i}"
        v = self.fixed[name] if name in self.fixed else self.inputs.get(name)
        if name not in self.fixed and self.fixfn is not None and self.fixfn(key, i, kind) is not None: v = float(self.fixfn(key, i, kind))
        if v is None:
            u = h01(name)
            v = u if kind == "u" else (4 * u - 2 if abs(u - 0.5) > 0.02 else 1.25)
        if kind == "u": v = min(max(v, 0.0), 1 - 2.0 ** -53)
        return float(v)
    def fix_draw(self, seed, i, kind, value): self.fixed[f"{kind}|seed:{seed}|{i}"] = float(value)
    def draw_of(self, key, i, kind): return self.draw_value(tuple(key), i, kind)
    def draw_named(self, name):
        kind, key, i = name.split("|")
        return self.draw_value((key,), i, kind)
    def all_draws(self): return list(self.drawn)
    def free_schedules(self, k): pass
    def fix_draws(self, fn): self.fixfn = fn
    def drawlog(self): return list(self.log)
    def ite(self, c, a, b): return a if bool(c) else b
    def operator(self, M, dtype="float64"):
        from scipy.sparse.linalg import LinearOperator
        class Op(LinearOperator):
            def __init__(s):
                s.M = M; s.calls = 0
                super().__init__(dtype=np.dtype(dtype), shape=M.shape)
            def _matvec(s, x): s.calls += 1; return s.M @ x
            def _matmat(s, X): s.calls += 1; return s.M @ X
        return Op()

# ------------------------------------------------------------------ recorded random streams
CUR = [None]
_real_default_rng = np.random.default_rng
_real_Generator = np.random.Generator
_real_SeedSequence = np.random.SeedSequence
_PCG = np.random.PCG64
def _sparse(self, M, dtype="float64"):
    import scipy.sparse as ss
    b = np.asarray(M, dtype=dtype); n, m = b.shape
    return ss.csc_array((b.ravel(order="F"), np.tile(np.arange(n, dtype=np.int32), m), np.arange(0, n * m + 1, n, dtype=np.int32)), shape=(n, m))
def _orth_vector(self, v, U, start, p, reverse=False):
    x = getattr(sys.modules.get("primate._lanczos"), "_extra", None)
    if x is None: raise Assume()
    x.orth_vector(v, np.asfortranarray(U), start, p, reverse)
ConE.sparse = _sparse; ConE.orth_vector = _orth_vector

class FakeGen(np.random.Generator):
    def __new__(cls, *a): return _real_Generator.__new__(cls, _PCG(0))
    def __init__(self, key):
        _real_Generator.__init__(self, _PCG(0))
        self.key = key; self.pos = 0; self.children = 0
    def spawn(self, n):
        r = [FakeGen(self.key + (self.children + i,)) for i in range(n)]
        self.children += n
        return r
    def _d(self, kind):
        i = self.pos; self.pos += 1
        name = f"{kind}|{':'.join(str(k) for k in self.key)}|{i}"
        if name not in CUR[0].drawn: CUR[0].drawn.append(name)
        CUR[0].log.append((self.key, i, kind))
        return CUR[0].draw_value(self.key, i, kind)
    def _fill(self, kind, size, dtype, out):
        d = np.dtype(dtype)
        if out is not None:
            probe = _real_Generator(_PCG(0))
            (probe.random if kind == "u" else probe.standard_normal)(out=out, dtype=d)      # numpy's own argument checks
            if out.flags.c_contiguous:
                for i in np.ndindex(*out.shape): out[i] = self._d(kind)
            else:
                t = out.T
                for i in np.ndindex(*t.shape): t[i] = self._d(kind)
            return out
        if size is None: return self._d(kind)
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        o = np.empty(shape, dtype=d)
        for i in np.ndindex(*shape): o[i] = self._d(kind)
        return o
    def random(self, size=None, dtype=np.float64, out=None): return self._fill("u", size, dtype, out)
    def standard_normal(self, size=None, dtype=np.float64, out=None): return self._fill("n", size, dtype, out)
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self._fill("n", size, np.float64, None)
    def uniform(self, low=0.0, high=1.0, size=None): return low + (high - low) * self._fill("u", size, np.float64, None)
    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None: low, high = 0, low
        k = int(high) - int(low) + (1 if endpoint else 0)
        return (int(low) + np.floor(np.asarray(self._fill("u", size, np.float64, None)) * k)).astype(dtype)[()]
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if isinstance(a, int) else np.asarray(a)
        return a[np.floor(np.asarray(self._fill("u", size, np.float64, None)) * len(a)).astype(int)]
def stream_key(seed):
    if seed is None:
        CUR[0].nfresh += 1
        return ("fresh", CUR[0].nfresh - 1)
    if isinstance(seed, _real_SeedSequence): return (("seed", seed.entropy)) + tuple(seed.spawn_key)
    if isinstance(seed, (int, np.integer)):
        if seed < 0: raise ValueError("expected non-negative integer")
        return ("seed", int(seed))
    if isinstance(seed, (list, tuple)): return ("seed",) + tuple(seed)
    raise TypeError(f"SeedSequence expects int or sequence of ints for entropy not {seed!r}")
def fake_default_rng(seed=None):
    if isinstance(seed, np.random.Generator): return seed
    if CUR[0] is None: return _real_default_rng(seed)
    return FakeGen(stream_key(seed))
GLOBALS = ["random", "rand", "randn", "randint", "normal", "uniform", "standard_normal", "choice", "seed", "shuffle", "permutation", "random_sample", "get_state", "set_state", "bytes", "sample", "ranf"]
def install_random():
    np.random.default_rng = fake_default_rng
    for g in GLOBALS:
        def bad(*a, _g=g, **k):
            if CUR[0] is not None: CUR[0].fails.append(f"global random state used: np.random.{_g}")
            raise CAssert(f"global random state used: np.random.{_g}")
        setattr(np.random, g, bad)

# ------------------------------------------------------------------ recorded schedules of a thread pool
import concurrent.futures as _cf, concurrent.futures.thread, multiprocessing as _mp
class CtlFuture(_cf.Future):
    def result(self, timeout=None): self.ex.run_all(); return super().result(0)
    def exception(self, timeout=None): self.ex.run_all(); return super().exception(0)
class CtlExecutor(_cf.Executor):
    """runs its tasks in the order the counterexample chose (submission order by default)"""
    def __init__(self, max_workers=None, *a, **k): self.pending_ = []; self.done_ = False
    def submit(self, f, *a, **k):
        if self.done_: raise RuntimeError("cannot schedule new futures after shutdown")
        fut = CtlFuture(); fut.ex = self; self.pending_.append((fut, f, a, k))
        return fut
    def run_all(self):
        while self.pending_:
            n = len(self.pending_); i = 0
            if n > 1 and CUR[0] is not None:
                i = min(CUR[0].chs.get(f"schedule{CUR[0].nsched}", 0), n - 1); CUR[0].nsched += 1
            fut, f, a, k = self.pending_.pop(i)
            try: fut.set_result(f(*a, **k))
            except Exception as e: fut.set_exception(e)
    def shutdown(self, wait=True, cancel_futures=False):
        if wait: self.run_all()
        self.done_ = True
def install_threads():
    ow, oc = _cf.wait, _cf.as_completed
    def run(fs):
        fs = list(fs)
        for f in fs:
            if isinstance(f, CtlFuture): f.ex.run_all()
        return fs
    _cf.ThreadPoolExecutor = CtlExecutor; _cf.thread.ThreadPoolExecutor = CtlExecutor
    _cf.wait = lambda fs, *a, **k: ow(run(fs), *a, **k); _cf.as_completed = lambda fs, *a, **k: oc(run(fs), *a, **k)
    _mp.cpu_count = lambda: 3

def install_lapack():
    """the tridiagonal LAPACK drivers fail on request"""
    import scipy.linalg as L
    def wrap(f):
        def g(*a, **k):
            if CUR[0] is not None and CUR[0].lapack_fail: raise np.linalg.LinAlgError("stub: LAPACK did not converge")
            return f(*a, **k)
        g.__name__ = f.__name__
        return g
    for n in ("eigh_tridiagonal", "eigvalsh_tridiagonal"): setattr(L, n, wrap(getattr(L, n)))

# ------------------------------------------------------------------ loading
def setup(src, native):
    """import primate from src/primate; native: path of a built _lanczos module or '' for a placeholder"""
    for k in [k for k in sys.modules if k.split(".")[0] == "primate"]: del sys.modules[k]
    sys.path[:] = [p for p in sys.path if "/repo/src" not in p]
    pk = types.ModuleType("primate"); pk.__path__ = [src]; pk.__package__ = "primate"
    sys.modules["primate"] = pk
    if native:
        import importlib.util
        spec = importlib.util.spec_from_file_location("primate._lanczos", native)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        try:
            sx = importlib.util.spec_from_file_location("_lanczos_extra", native)
            x = importlib.util.module_from_spec(sx); sx.loader.exec_module(x)
            m._extra = x
        except ImportError: pass
    else:
        m = types.ModuleType("primate._lanczos")
        def lanczos(*a): raise RuntimeError("native Lanczos not built for this check")
        m.lanczos = lanczos
    sys.modules["primate._lanczos"] = m; pk._lanczos = m

def run_one(req):
    E = ConE(req.get("cfg", {}), req.get("inputs", {}), req.get("choices", {}))
    CUR[0] = E
    hm = importlib.import_module(req["module"])
    out = {}
    state = lambda: tuple(np.random.mtrand._rand.get_state(legacy=True)[1:3][0].tolist()) + (np.random.mtrand._rand.get_state(legacy=True)[2],)
    before = state()
    try: getattr(hm, req["fn"])(E, **E.cfg)
    except Assume: out["assume"] = True
    except CAssert as e: E.fails.append(str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out["exc"] = f"{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"[:400]
    finally: CUR[0] = None
    if state() != before: E.fails.append("global random state changed")
    out["fails"] = E.fails[:6]; out["obs"] = E.obs; out["nclaims"] = E.nclaims
    return out

def main():
    sys.path.insert(0, HERE)
    if sys.argv[1] == "serve":
        real = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
        import scipy.stats, scipy.spatial.distance, scipy.sparse.linalg      # their import draws random numbers
        install_random(); install_threads(); install_lapack(); setup(sys.argv[2], sys.argv[3])
        for line in sys.stdin:
            req = json.loads(line)
            if req.get("ping"): real.write("{}\n"); real.flush(); continue
            try: r = run_one(req)
            except BaseException as e: r = {"error": f"{type(e).__name__}: {e}", "fails": []}
            real.write(json.dumps(r) + "\n"); real.flush()
    elif sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        sys.path.insert(0, HERE)
        from vsym import replayenv
        src, native, clean = replayenv.prepare(sys.argv[3] if len(sys.argv) > 3 else "/repo/src/primate", rec.get("native", False))
        try:
            import scipy.stats, scipy.spatial.distance, scipy.sparse.linalg
            install_random(); install_threads(); install_lapack(); setup(src, native)
            r = run_one(rec)
        finally: clean()
        print(json.dumps({k: r.get(k) for k in ("fails", "exc", "nclaims")}, indent=1))
        sys.exit(1 if r.get("fails") or r.get("exc") else 0)

if __name__ == "__main__": main()
