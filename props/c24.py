"""C24: arguments are never modified unless they are outputs; results never change later."""
from vsym.reg import harness
from props.util import *
from props.c17 import the_operator
from props.c19 import VECS, independent
from props.c14 import the_op
ASSUMPTIONS = ["sizes one to three; operators and draws restricted as in the checks of the functions concerned", "object attributes that are documented as buffers (Isotropic.values) are not results"]

def arrays(E, r):
    """the arrays in a result"""
    if isinstance(r, (tuple, list)): return [a for x in r for a in arrays(E, x)]
    return [r] if E.is_array(r) else []
def numbers(E, r):
    if isinstance(r, (tuple, list)): return [a for x in r for a in numbers(E, x)]
    if E.is_array(r): return [x for x in E.np.ravel(r)]
    return [r] if r is not None else []

class Watch:
    """arrays whose contents must stay as they are"""
    def __init__(self, E): self.E, self.kept = E, []
    def add(self, a, what):
        if self.E.is_array(a): self.kept.append((a, self.E.snapshot(a), what))
        return a
    def drop(self, a): self.kept = [k for k in self.kept if k[0] is not a]
    def check(self, when):
        for a, s, what in self.kept: self.E.unchanged(a, s, f"{what} unchanged {when}")

def spoil(E, r):
    """overwrite every writable array of a result, as its owner may"""
    for a in arrays(E, r):
        if a.flags["WRITEABLE"] and E.np.size(a): a[...] = 77

def probe(E, call, watch, label, other=None):
    """inputs survive; the result survives another call and is not a window into inputs or workspaces"""
    r = call()
    v = numbers(E, r)
    watch.check(f"by {label}")
    mine = Watch(E)
    for a in arrays(E, r): mine.add(a, f"result of {label}")
    if other is not None: other()
    r2 = call()
    mine.check("by later calls"); watch.check(f"by {label} again")
    v2 = numbers(E, r2)
    E.true(len(v) == len(v2), f"{label}: same size again")
    for x, y in zip(v, v2): E.eq(y, x, f"{label}: same values again", obs=False)
    spoil(E, r2)
    mine.check(f"by writing to another result"); watch.check(f"by writing to the result of {label}")
    v3 = numbers(E, call())
    for x, y in zip(v, v3): E.eq(y, x, f"{label}: same values after its earlier result was overwritten", obs=False)
    return r

# ---------------------------------------------------------------- estimators
@harness(quick=[dict(dim=d, k=k, shape=s) for d, k, s in ((1, 1, "flat"), (1, 2, "flat"), (1, 2, "col"), (2, 2, "mat"), (2, 1, "mat"), (3, 2, "mat"))], bounds="one or two observations of dimension at most 3, twice", opts=dict(max_witnesses=2))
def streaming(E, dim, k, shape):
    """updates leave the samples alone; means, covariances, estimates and recorded values stay what they were"""
    st, es = E.mod("stats"), E.mod("estimators")
    def batch(name): return E.reals(name, k) if shape == "flat" else E.reals(name, (k, dim))
    for what in ("Mean", "Covariance", "MeanEstimator", "with covariance", "recording", "recording with covariance"):
        ob = {"Mean": lambda: st.Mean(dim), "Covariance": lambda: st.Covariance(dim), "MeanEstimator": lambda: es.MeanEstimator(dim=dim), "with covariance": lambda: es.MeanEstimator(dim=dim, covariance=True),
              "recording": lambda: es.MeanEstimator(dim=dim, record=True), "recording with covariance": lambda: es.MeanEstimator(dim=dim, covariance=True, record=True)}[what]()
        w = Watch(E)
        reads = (lambda: [ob.mean(), ob()] ) if what in ("Mean", "Covariance") else (lambda: [ob.estimate, ob.mean, ob.delta] + ([list(ob.values)] if ob.values is not None else []))
        seen = []
        for t in range(2):
            X = w.add(batch(f"x{t}"), f"batch {t}")
            ob.update(X); w.check(f"by {what}.update")
            r = reads(); seen.append((r, numbers(E, r)))
            for a in arrays(E, r): w.add(a, f"{what}: value read after batch {t}")
        w.check(f"by later updates of {what}")
        want = numbers(E, reads())
        for a in arrays(E, [X]):
            w.drop(X); X[...] = 55                       # the caller reuses its array
        got = numbers(E, reads())
        for x, y in zip(want, got): E.eq(y, x, f"{what}: unaffected by the caller reusing its array", obs=False)
        if what in ("Mean", "Covariance", "MeanEstimator", "with covariance"):
            r = reads()
            for a in arrays(E, r[:2]):
                if a.flags["WRITEABLE"]: a[...] = 66
            for x, y in zip(want[:2 * dim], numbers(E, reads())): E.eq(y, x, f"{what}: unaffected by overwriting what it returned", obs=False)

@harness(quick=[dict(k=k, alpha=a) for k in (1, 2, 3) for a in (0, 1)], bounds="one control variable, up to three observations, twice", opts=dict(max_witnesses=2, max_depth=100))
def control(E, k, alpha):
    es = E.mod("estimators")
    w = Watch(E)
    ecv = w.add(E.reals("m", 1), "control mean"); al = w.add(E.reals("alpha", 1), "coefficients")
    ob = es.ControlVariableEstimator(ecv, alpha=al) if alpha else es.ControlVariableEstimator(ecv)
    for t in range(2):
        X = w.add(E.reals(f"x{t}", (k, 2)), f"batch {t}")
        if not alpha and k == 1 or not alpha and t == 0 and k > 1:
            pass
        if not alpha: E.assume(E.not_(E.eqv(X[0, 1], 0)))
        out, exc = E.attempt(lambda: ob.update(X))
        w.check("by update")
        if exc is None: ob.estimate
    w.check("by reading estimates")

@harness(quick=[dict(crit=c, dim=d) for c in ("count", "tolerance", "confidence", "knee", "and", "not") for d in (1, 2) if not (d == 2 and c in ("confidence", "knee"))], bounds="three observations of dimension one or two", opts=dict(max_witnesses=2, max_depth=100))
def criteria(E, crit, dim):
    """asking a criterion changes neither the estimator nor what it returned"""
    es = E.mod("estimators")
    C = {"count": lambda: es.CountCriterion(2), "tolerance": lambda: es.ToleranceCriterion(rtol=0.1, atol=0.1), "confidence": lambda: es.ConfidenceCriterion(atol=0.1, rtol=0.1), "knee": lambda: es.KneeCriterion(),
         "and": lambda: es.CountCriterion(2) & es.ToleranceCriterion(rtol=0.1), "not": lambda: ~es.CountCriterion(2)}[crit]()
    est = es.MeanEstimator(dim=dim, covariance=crit == "confidence", record=True)
    w = Watch(E)
    X = w.add(E.reals("x", (3, dim)), "samples")
    if crit == "knee":
        for j in range(3): E.assume(E.gt(X[j, 0], 0))
    est.update(X)
    before = numbers(E, [est.estimate, est.delta, list(est.values)]); n = len(est)
    for rep in range(2):
        out, exc = E.attempt(lambda: C(est))
        E.attempt(lambda: C.message(est))
    after = numbers(E, [est.estimate, est.delta, list(est.values)])
    E.true(len(est) == n and len(after) == len(before), "same number of samples")
    for x, y in zip(before, after): E.eq(y, x, "estimator unchanged by the criterion", obs=False)
    w.check("by the criterion")

# ---------------------------------------------------------------- small linear algebra
@harness(quick=[dict(n=n) for n in (0, 1, 2)], bounds="triangular inverses of size at most 2", opts=dict(max_witnesses=2))
def triangular(E, n):
    la = E.mod("linalg")
    w = Watch(E)
    B = w.add(E.reals("B", (n, n)), "inverse"); b = w.add(E.reals("b", n + 1), "column")
    E.assume(E.not_(E.eqv(b[n], 0)))
    probe(E, lambda: la.update_trinv(B, b), w, "update_trinv")

@harness(quick=[dict(n=n, method=m) for n in (1, 2) for m in ("auto", "mrrr", "fail")] + [dict(n=1, method="tqli"), dict(n=2, method="tqli")], bounds="symmetric tridiagonal matrices of size at most 2, every solver", opts=dict(max_witnesses=2))
def tridiagonal(E, n, method):
    td = E.mod("tridiag")
    E.lapack(method == "fail")
    kw = {} if method == "fail" else dict(method=method)
    d, e = [E.real(f"d{i}") for i in range(n)], [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    for full in (0, 1):
        w = Watch(E)
        D = w.add(E.array(d), "diagonal"); X = w.add(E.array([E.const(0)] + e if full else e), "subdiagonal")
        probe(E, lambda: td.eigvalsh_tridiag(D, X, **kw), w, "eigvalsh_tridiag")
        w2, V = probe(E, lambda: td.eigh_tridiag(D, X, **kw), w, "eigh_tridiag")

@harness(quick=[dict(n=n, quad=q, deg=g) for n, g in ((1, None), (2, None), (2, 1), (3, 2)) for q in ("gw", "fttr")], bounds="Jacobi matrices of size at most 3, rules of degree at most 2", opts=dict(max_witnesses=2))
def rules(E, n, quad, deg):
    I, F = E.mod("integrate"), E.mod("fttr")
    d, e = [E.real(f"d{i}") for i in range(n)], [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    k = deg or n
    for full in (0, 1):
        w = Watch(E)
        D = w.add(E.array(d), "diagonal"); X = w.add(E.array([E.const(0)] + e if full else e), "subdiagonal")
        kw = {} if deg is None else dict(deg=deg)
        x, t = probe(E, lambda: I.quadrature(D, X, quad=quad, **kw), w, "quadrature")
        N, W = E.reals("N", k + 2), E.reals("W", k + 2)       # outputs inside larger arrays
        g = [w.add(N[:1], "cell before the nodes"), w.add(N[k + 1:], "cell after the nodes"), w.add(W[:1], "cell before the weights"), w.add(W[k + 1:], "cell after the weights")]
        r = I.quadrature(D, X, quad=quad, nodes=N[1:k + 1], weights=W[1:k + 1], **kw)
        w.check("by writing to output arrays")
        E.eq(N[1:k + 1], r[0], "output nodes are the returned ones"); E.eq(W[1:k + 1], r[1], "output weights are the returned ones")
        if full and quad == "fttr":
            th = w.add(E.array([x[i] for i in range(k)]), "nodes"); o = E.reals("O", k)
            F.fttr(th, D[:k], X[:k], k, o)
            w.check("by fttr"); E.eq(o, t, "fttr writes the weights")

# ---------------------------------------------------------------- spectral functions
NAMES = [("identity", {}), ("abs", {}), ("sqrt", {}), ("log", {}), ("inv", {}), ("exp", dict(t=2)), ("smoothstep", dict(a=0.25, b=2.0)), ("softsign", dict(q=2)), ("numrank", dict(threshold=0.5))]
@harness(quick=[dict(name=i) for i in range(len(NAMES))], bounds="arrays of length two", opts=dict(max_witnesses=2))
def functions(E, name):
    sp = E.mod("special")
    nm, kw = NAMES[name]
    f = sp.param_callable(nm, **kw)
    w = Watch(E)
    x = w.add(E.reals("x", 2, lo=E.frac(1, 10), hi=3), "argument")
    y = f(x); v = numbers(E, y); w.check(f"by {nm}")
    mine = Watch(E); mine.add(y, "result")
    f(E.reals("y", 2, lo=E.frac(1, 10), hi=3)); mine.check("by a call with another argument")
    if nm != "identity": spoil(E, y); w.check(f"by writing to the result of {nm}")

@harness(quick=[{}], bounds="arrays of length two", opts=dict(max_witnesses=2))
def constructors(E):
    """spectral functions applied directly"""
    sp = E.mod("special")
    for nm, call in (("softsign", lambda x: sp.softsign(x, q=2)), ("smoothstep", lambda x: sp.smoothstep(x, a=0.0, b=2.0)), ("exp", lambda x: sp.exp(x, t=1.5)), ("step", lambda x: sp.step(x, c=0.5)), ("step", lambda x: sp.step(x, c=0.5, nonnegative=True))):
        w = Watch(E)
        x = w.add(E.reals("x", 2, lo=-2, hi=2), "argument")
        probe(E, lambda: call(x), w, nm)

# ---------------------------------------------------------------- operators
@harness(quick=[dict(n=n, sym=s) for n in (1, 2, 3) for s in (0, 1)], bounds="columns, rows and vectors of length at most 3", opts=dict(max_witnesses=2))
def toeplitz(E, n, sym):
    O = E.mod("operators")
    w = Watch(E)
    c, r = w.add(E.reals("c", n), "first column"), w.add(E.reals("r", n), "first row")
    T = O.Toeplitz(c) if sym else O.Toeplitz(c, r)
    x, X = w.add(E.reals("x", n), "vector"), w.add(E.reals("X", (n, 2)), "matrix")
    other = lambda: (T @ E.reals("z", n), T @ E.reals("Z", (n, 2)))
    probe(E, lambda: T @ x, w, "T @ x", other); probe(E, lambda: T @ X, w, "T @ X", other); probe(E, lambda: T.matvec(x), w, "T.matvec", other)
    before = numbers(E, T @ x)
    for a in (c, r): w.drop(a)
    c[...] = 44; r[...] = 33
    for u, v in zip(before, numbers(E, T @ x)): E.eq(v, u, "unaffected by the caller reusing the column and row", obs=False)

@harness(quick=[dict(op=o) for o in ("dense", "op", "bare")], bounds="operators of size 2", opts=dict(max_witnesses=2))
def validation(E, op):
    O = E.mod("operators")
    w = Watch(E)
    M = w.add(E.sym_matrix("A", 2), "operator")
    A = the_operator(E, op, M, 2)
    for f in (O.is_valid_operator, O.is_linear_op):
        f(A); w.check(f"by {f.__name__}")

@harness(quick=[dict(op=o) for o in ("dense", "op")], bounds="symmetric operators of size 2", opts=dict(max_witnesses=2))
def normalise(E, op):
    O = E.mod("operators")
    from props.c23 import spectrum
    A, ew, V = spectrum(E, 2)
    E.assume(E.or_(*[E.not_(E.eqv(x, 0)) for x in ew]))
    w = Watch(E)
    M = w.add(E.array(A), "operator"); E.register_sym(M, ew, V)
    B = O.normalize_unit(the_operator(E, op, M, 2))
    x = w.add(E.reals("x", 2), "vector")
    probe(E, lambda: B @ x, w, "product with the normalised operator", lambda: B @ E.reals("z", 2))

# ---------------------------------------------------------------- random matrices and vectors
@harness(quick=[dict(fn=f) for f in ("symmetric", "symmetric pd", "haar")], bounds="two prescribed eigenvalues, fixed draws", opts=dict(max_witnesses=2))
def spectra(E, fn):
    from props.c28 import fixed
    R = E.mod("random")
    E.fix_draws(fixed)
    w = Watch(E)
    ew = w.add(E.reals("ew", 2), "prescribed eigenvalues")
    f = {"symmetric": lambda: R.symmetric(2, ew=ew, seed=1), "symmetric pd": lambda: R.symmetric(2, pd=True, ew=ew, seed=1), "haar": lambda: R.haar(2, ew=ew, seed=1)}[fn]
    probe(E, f, w, fn)

@harness(quick=[dict(pdf=p) for p in ("rademacher", "normal", "sphere")], bounds="two by two outputs", opts=dict(max_witnesses=2))
def samples(E, pdf):
    """vectors handed out stay as they are; an output array receives what would have been returned"""
    from props.c28 import fixed
    R = E.mod("random")
    E.fix_draws(lambda key, i, kind: fixed(key, i, kind) if pdf == "sphere" else None)
    w = Watch(E)
    g = R.isotropic(pdf=pdf, seed=3)
    for t in range(3): w.add(g((2, 2)), f"batch {t}"); w.check("by later batches")
    W = E.np.zeros((2, 2), order="F")
    R.isotropic(pdf=pdf, seed=3, out=W)
    E.eq(W, w.kept[0][0], "output array receives the values", obs=False)
    w.add(W, "output array")
    R.isotropic((2, 2), pdf=pdf, seed=3); g((2, 2)); w.check("by later calls")
    spoil(E, R.isotropic((2, 2), pdf=pdf, seed=3)); w.check("by writing to another sample")

# ---------------------------------------------------------------- estimators of traces and diagonals
class Kept:
    """hands out arrays it keeps"""
    def __init__(self, E, W, w): self.E, self.W, self.w, self.t, self.given = E, W, w, 0, []
    def __call__(self, size):
        n, b = (size, 1) if isinstance(size, int) else size
        cols = [self.W[(self.t + j) % len(self.W)] for j in range(b)]; self.t += b
        X = self.E.array([[c[i] for c in cols] for i in range(n)])
        self.given.append(X); self.w.add(X, f"sample batch {len(self.given) - 1}")
        return X

@harness(quick=[dict(fn=f, op=o, n=n) for f, n in (("hutch", 2), ("diag", 2), ("xtrace", 2), ("hutchpp", 3), ("hutchpp full", 3), ("xdiag", 2)) for o in ("dense", "op") if not (f == "xdiag" and o == "op")] + [dict(fn="xtrace", op="dense", n=3)], bounds="operators of size 2 and 3 with free entries, fixed test vectors", opts=dict(max_witnesses=2, max_depth=120))
def sampled(E, fn, op, n):
    """operators and test vectors are left alone; estimates, records and observed values stay what they were"""
    T, D, es = E.mod("trace"), E.mod("diagonal"), E.mod("estimators")
    W = [[E.const(x) for x in v] for v in VECS[n]]
    from props.c19 import symmetric
    A = symmetric(E, n, "full" if n < 3 else "few")
    independent(E, A, W)
    w = Watch(E)
    M = w.add(E.array(A), "operator")
    Aop = the_operator(E, op, M, n)
    if fn == "xdiag":
        from props.c21 import draws
        draws(E, n, n, "normal", 5)
    def call(**kw):
        p = Kept(E, W, w)
        if fn == "hutch": return T.hutch(Aop, batch=2, pdf=p, converge=es.CountCriterion(3), **kw)
        if fn == "diag": return D.diag(Aop, pdf=p, converge=es.CountCriterion(n), **kw)
        if fn == "xtrace": return T.xtrace(Aop, batch=1, pdf=p, **kw)
        if fn.startswith("hutchpp"): return T.hutchpp(Aop, m=3, pdf=p, mode="full" if "full" in fn else "reduced", **kw)
        return D.xdiag(Aop, m=2 * n, pdf="normal", seed=5)
    probe(E, call, w, fn, other=(lambda: call(full=True)) if fn != "xdiag" else None)
    if fn in ("hutch", "diag", "xtrace"):
        seen = []
        def cb(r):
            for a in arrays(E, [r.estimate]): w.add(a, f"estimate observed at {r.nit}")
            seen.append((numbers(E, [r.estimate]), r.estimate))
        est, res = call(full=True, callback=cb)
        w.check("by the end of the run")
        for a in arrays(E, [est, res.estimate]): w.add(a, "estimate returned")
        call(); w.check("by a later run")

# ---------------------------------------------------------------- Lanczos and matrix functions
@harness(native="sym", quick=[dict(n=n, op=o) for n in (1, 2, 3) for o in ("dense", "sparse", "py")], bounds="operators of size at most 3 with positive couplings, every output form", opts=dict(max_witnesses=1))
def recurrence(E, n, op):
    """operators and start vectors are left alone; coefficients and bases stay what they were; buffers receive what is returned"""
    L = E.mod("lanczos")
    d, e = [E.real(f"d{i}") for i in range(n)], [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    w = Watch(E)
    A = tridiag(E, d, e)
    M = w.add(E.array(A), "operator")
    Aop = M if op == "dense" else the_op(E, op, A)
    v = w.add(E.array([E.real("s", pos=True)] + [E.const(0)] * (n - 1)), "start vector")
    for basis in (False, True):
        probe(E, lambda: L.lanczos(Aop, v0=v, rtol=0.0, return_basis=basis), w, f"lanczos (basis {basis})", other=lambda: L.lanczos(Aop, v0=v, deg=1, rtol=0.0, orth=1))
    kw = dict(alpha=E.reals("ba", n + 1), beta=E.reals("bb", n + 1))
    (a, b), Q = L.lanczos(Aop, v0=v, rtol=0.0, return_basis=True, **kw)
    E.eq(kw["alpha"][:n], a, "diagonal buffer receives the diagonal"); E.eq(kw["beta"][1:n], b, "subdiagonal buffer receives the subdiagonal")
    w.check("by lanczos with buffers")
    if n > 1: probe(E, lambda: L.rayleigh_ritz(Aop, deg=2, v0=v, rtol=0.0), w, "rayleigh_ritz") if n == 2 else None

@harness(native="sym", quick=[dict(n=n, op=o) for n, o in ((1, "dense"), (2, "dense"), (2, "sparse"), (2, "py"), (3, "dense"))], bounds="operators of size at most 3, Krylov degree 2, quadratic functions", opts=dict(max_witnesses=1, confirm=20))
def matrix_function(E, n, op):
    """one operator used again and again: arguments, products and quadratic forms stay what they were"""
    O = E.mod("operators")
    d, e = [E.real(f"d{i}") for i in range(n)], [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    for x in e: E.assume(E.ge(x, E.frac(1, 1000)))
    w = Watch(E)
    A = tridiag(E, d, e)
    M = w.add(E.array(A), "operator")
    Aop = M if op == "dense" else the_op(E, op, A)
    F = O.MatrixFunction(Aop, fun=lambda t: t * t, deg=2)
    x = w.add(E.array([E.real("s", pos=True)] + [E.const(0)] * (n - 1)), "vector")
    y = w.add(E.array([E.const(0)] * (n - 1) + [E.real("t", pos=True)]), "other vector")
    X = w.add(E.array([[x[i], y[i]] for i in range(n)]), "matrix")
    other = lambda: (F @ y, F.quad(y), F @ X, F.quad(X))
    for nm, f in (("product", lambda: F @ x), ("matvec", lambda: F.matvec(x)), ("matrix product", lambda: F @ X), ("quadratic form", lambda: F.quad(x)), ("quadratic forms", lambda: F.quad(X))):
        probe(E, f, w, nm, other)
