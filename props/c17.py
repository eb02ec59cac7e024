"""C17: Girard-Hutchinson trace estimation."""
from vsym.reg import harness
from props.util import *
from props.c01 import mean_of, scatter_of
ASSUMPTIONS = ["samplers are called as sampler(size=(n, batch))"]

class Sampler:
    """records every batch of test vectors it hands out"""
    def __init__(self, E, name="v", make=None, limit=300):
        self.E, self.name, self.make, self.limit = E, name, make, limit
        self.batches, self.dtypes = [], []
        self.cols = []
    def __call__(self, size):
        E = self.E
        n, b = (size, 1) if isinstance(size, int) else tuple(size) if len(size) > 1 else (size[0], 1)
        W = E.reals(f"{self.name}{len(self.batches)}", (n, b)) if self.make is None else E.array(self.make(n, b, len(self.cols)))
        if len(self.cols) >= self.limit: raise RuntimeError(f"still sampling after {len(self.cols)} vectors")
        for j in range(b): self.cols.append([W[i, j] for i in range(n)])
        self.batches.append(b)
        return W if not isinstance(size, int) and len(size) > 1 else E.np.ravel(W) if not isinstance(size, int) else W

def quad(A, v):
    n = len(v)
    return sum(v[i] * A[i, j] * v[j] for i in range(n) for j in range(n))

def the_operator(E, kind, M, n):
    """dense array, matrix-free operator, operator with its own quadratic form, dtype-less product"""
    if kind == "dense": return M
    if kind == "dense32": return M.astype("float32")
    if kind == "op": return E.operator(M)
    if kind == "op32": return E.operator(M, "float32")
    class Bare:
        shape = (n, n)
        def __matmul__(s, x): return M @ x
    if kind == "bare": return Bare()
    class Quad:
        shape = (n, n)
        dtype = E.np.dtype("float64")
        seen = []
        def __matmul__(s, x): return M @ x
        def quad(s, x):
            r = [own_form([x[i, j] for i in range(n)]) for j in range(x.shape[1])]
            return E.array(r)
    return Quad()

def own_form(v): return 3 + sum((i + 1) * t * t * t for i, t in enumerate(v))      # any function will do
def sample_value(E, kind, M, v): return own_form(v) if kind == "quad" else quad(M, v)

def run(E, A, mode, **kw):
    """value, result object or None, values observed by the callback"""
    T = E.mod("trace")
    seen = []
    def cb(r): seen.append((r.estimate, r.nit, r))
    if mode in ("callback", "both"): kw["callback"] = cb
    if mode in ("full", "both"): kw["full"] = True
    r = T.hutch(A, **kw)
    if mode == "plain": return r, None, seen
    E.true(isinstance(r, tuple) and len(r) == 2, "estimate and result")
    return r[0], r[1], seen

COUNT = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 7), (4, 4), (4, 5), (5, 0)]
@harness(quick=[dict(op=o, n=n, batch=b, count=c, mode=m) for o, n, m in (("dense", 2, "plain"), ("op", 2, "full"), ("quad", 2, "callback"), ("dense", 3, "both")) for b, c in COUNT[:(9 if n < 3 else 5)]]
         + [dict(op=o, n=2, batch=2, count=3, mode=m) for o in ("dense", "dense32", "op", "op32", "bare", "quad") for m in ("plain", "full", "callback", "both")] + [dict(op="dense", n=1, batch=2, count=4, mode="plain"), dict(op="dense", n=2, batch=5, count=0, mode="plain")],
         thorough=[dict(op="dense", n=4, batch=b, count=c, mode=m) for b, c in COUNT for m in ("plain", "both")],
         bounds="all matrices of size n (not only symmetric), all test vectors", opts=dict(max_witnesses=3))
def counted(E, op, n, batch, count, mode):
    """with the count criterion: mean over the smallest number of whole batches covering the count"""
    M = E.reals("A", (n, n))
    A = the_operator(E, op, M, n)
    s = Sampler(E)
    snap = E.snapshot(M)
    est, res, seen = run(E, A, mode, batch=batch, pdf=s, converge="count", count=count)
    need = -(-count // batch)
    E.true(len(s.batches) == need and all(b == batch for b in s.batches), f"draws exactly the batches needed ({s.batches})")
    vals = [sample_value(E, op, M, v) for v in s.cols]
    E.unchanged(M, snap, "operator untouched")
    if not vals: E.is_nan(est, "no sample, no estimate"); return
    E.eq(est, sum(vals) / len(vals), "estimate is the mean of the quadratic forms")
    if mode in ("callback", "both"):
        E.true(len(seen) == need, "callback after every batch")
        for k, (e, nit, r) in enumerate(seen):
            m = (k + 1) * batch
            E.eq(e, sum(vals[:m]) / m, f"estimate seen by the callback after batch {k}"); E.true(nit == m, f"number of samples seen after batch {k}")
    if res is not None:
        E.eq(res.estimate, est, "result carries the estimate"); E.true(res.nit == len(vals), "number of samples"); E.true(len(res.estimator) == len(vals), "estimator of the result")

def ints(n, b, k):
    """fixed integer test vectors of mixed sign, never zero"""
    return [[((i * 7 + (k + j) * 5 + i * (k + j)) % 9 - 4) or 5 for j in range(b)] for i in range(n)]

@harness(quick=[dict(op=o, n=n, batch=b, count=c, mode=m) for o, n, b, c, m in (("dense", 24, 32, 100, "plain"), ("op", 24, 7, 20, "both"), ("quad", 24, 10, 33, "full"), ("dense", 40, 1, 35, "callback"), ("dense32", 9, 64, 64, "full"), ("bare", 12, 100, 101, "plain"), ("dense", 33, 8, 8, "both"))],
         bounds="matrices P + t Q with P, Q fixed, fixed test vectors; sizes to 40, batches to 100", opts=dict(max_witnesses=2))
def wide(E, op, n, batch, count, mode):
    """large operators, batches and counts"""
    M = affine(E, (n, n)); A = the_operator(E, op, M, n)
    s = Sampler(E, make=lambda n, b, k: [[E.const(x) for x in r] for r in ints(n, b, k)])
    est, res, seen = run(E, A, mode, batch=batch, pdf=s, converge="count", count=count)
    need = -(-count // batch)
    E.true(len(s.batches) == need and all(b == batch for b in s.batches), f"draws exactly the batches needed ({s.batches})")
    vals = [sample_value(E, op, M, v) for v in s.cols]
    E.eq(est, sum(vals) / len(vals), "estimate is the mean of the quadratic forms")
    if mode in ("callback", "both"):
        E.true(len(seen) == need, "callback after every batch")
        for k, (e, nit, r) in enumerate(seen):
            m = (k + 1) * batch
            E.eq(e, sum(vals[:m]) / m, f"estimate seen by the callback after batch {k}"); E.true(nit == m, f"number of samples seen after batch {k}")
    if res is not None:
        E.eq(res.estimate, est, "result carries the estimate"); E.true(res.nit == len(vals), "number of samples"); E.true(len(res.estimator) == len(vals), "estimator of the result")

@harness(quick=[dict(order=k, mode=m) for k in range(4) for m in ("plain", "full")] + [dict(order=4, mode="plain")], bounds="two matrices, criteria that first hold after 1 to 4 batches or at once", opts=dict(max_witnesses=3))
def stops_first(E, order, mode):
    """the loop stops at the first batch after which the criterion holds, not earlier or later"""
    es = E.mod("estimators")
    M = E.reals("A", (2, 2)); s = Sampler(E)
    checks = []
    want = [1, 2, 3, 4, 0][order]
    def crit(e):
        checks.append(len(e))
        return len(e) == 2 * want        # holds once only: checking late never terminates within the bound
    def guard(e):
        if len(e) > 12: raise RuntimeError("criterion missed")
        return crit(e)
    est, res, _ = run(E, M, mode, batch=2, pdf=s, converge=es.ConvergenceCriterion(guard))
    E.true(len(s.cols) == 2 * want, "number of vectors drawn")
    E.true(set(range(0, 2 * want + 1, 2)) <= set(checks), "checked before the first and after every batch")
    if want: E.eq(est, sum(quad(M, v) for v in s.cols) / (2 * want), "estimate")

@harness(quick=[dict(batch=900, need=3, kind="custom", mode="plain"), dict(batch=1500, need=2, kind="count", mode="full"), dict(batch=1100, need=2, kind="tolerance", mode="plain")], bounds="operators of size 1, up to 3000 samples, test vectors of fixed sign patterns", opts=dict(max_witnesses=2))
def long(E, batch, need, kind, mode):
    """no hidden limit on the number of samples: thousands are drawn when the criterion asks for them"""
    es = E.mod("estimators")
    a = E.real("a"); E.assume(E.gt(a, 0))
    s = Sampler(E, make=lambda n, b, k: [[E.const((k + j) % 5 - 2 if kind != "tolerance" else 1) for j in range(b)] for i in range(n)], limit=4000)
    if kind == "custom":
        kw = dict(converge=es.ConvergenceCriterion(lambda e: len(e) == need * batch))
    elif kind == "count": kw = dict(converge="count", count=need * batch - 3)
    else: kw = dict(converge="tolerance", atol=0, rtol=E.frac(1, 4))                       # constant samples: no change after the second batch
    est, res, _ = run(E, E.array([[a]]), mode, batch=batch, pdf=s, **kw)
    E.true(s.batches == [batch] * need, f"batches drawn ({s.batches})")
    E.eq(est, a * E.frac(sum(((k % 5 - 2) if kind != "tolerance" else 1) ** 2 for k in range(need * batch)), need * batch), "estimate")
    if res is not None: E.true(res.nit == need * batch, "number of samples")

def two_values(E):
    x, y = [E.real("x0"), E.real("x1")], [E.real("y0"), E.real("y1")]
    return x, y, (lambda n, b, k: [[(x if (k + j) % 3 else y)[i] for j in range(b)] for i in range(n)])

@harness(quick=[dict(batch=b, mode=m) for b, m in ((32, "plain"), (50, "full"), (64, "plain"), (100, "plain"), (67, "both"), (200, "plain"))] + [dict(batch=None, mode="plain"), dict(batch=20, mode="plain")], thorough=[dict(batch=10, mode="plain")],
         bounds="test vectors alternating between two arbitrary vectors, all 2x2 symmetric matrices, the listed batch sizes; running means nonzero", opts=dict(max_paths=40, max_witnesses=5))
def default_rule(E, batch, mode):
    """without arguments: stops at 200 samples or at a 95 percent interval of half-width one"""
    M = E.sym_matrix("A", 2)
    x, y, mk = two_values(E)
    s = Sampler(E, make=mk, limit=200)
    kw = {} if batch is None else dict(batch=batch)
    b = batch or 32
    va, vb = quad(M, x), quad(M, y)
    for k in range(b, 200 + b, b): E.assume(E.not_(E.eqv(va * len([i for i in range(k) if i % 3]) + vb * len([i for i in range(k) if i % 3 == 0]), 0)))
    est, res, _ = run(E, M, mode, pdf=s, **kw)
    vals = [quad(M, v) for v in s.cols]
    N = len(vals)
    E.true(N > 0 and N % b == 0 and N <= 200 + b, "whole batches")
    def done(k):
        if k >= 200: return True
        if k < 3: return False
        ny = len([i for i in range(k) if i % 3 == 0]); mu = ((k - ny) * va + ny * vb) / k
        var = ((k - ny) * (va - mu) ** 2 + ny * (vb - mu) ** 2) / (k - 1)
        q = E.uf("t_ppf", (E.frac(19, 20) + 1) / 2, k - 1) if k < 30 else E.sqrt(E.const(2)) * E.uf("erfinv", E.frac(19, 20))
        return E.le(q * E.sqrt(var / k), 1)
    for k in range(b, N, b): E.true(E.not_(done(k)), f"had not converged after {k} samples")
    E.true(done(N), f"converged after {N} samples")
    E.eq(est, sum(vals) / N, "estimate")

@harness(quick=[dict(name=c, batch=b) for c in ("tolerance", "confidence", "count") for b in (1, 2, 3)] + [dict(name="knee", batch=b) for b in (1, 2)], bounds="all tolerances; up to three batches of arbitrary sample values", opts=dict(max_paths=200, max_witnesses=4))
def named_criteria(E, name, batch):
    """any criterion by name with its own arguments, judged on an independent estimator after every batch"""
    es = E.mod("estimators")
    class Op:
        shape = (1, 1); dtype = E.np.dtype("float64")
        def __matmul__(s, x): return 1 * x
        def quad(s, x): return E.np.ravel(x) + 1
    s = Sampler(E)
    cap = 4 if name == "knee" else 3 * batch
    if name == "tolerance": kw = dict(atol=E.real("atol", lo=0, hi=3), rtol=E.real("rtol", lo=0, hi=1))
    elif name == "confidence": kw = dict(atol=E.real("atol", lo=0, hi=3), rtol=E.const(0), confidence=E.frac(9, 10))
    elif name == "knee": kw = dict(S=E.const(1))
    else: kw = dict(count=E.nat("count", lo=1))
    rec = dict(record=True) if name == "knee" else {}
    if name == "count": E.assume(E.le(kw["count"], 3 * batch))
    crit = es.convergence_criterion(name, **kw)
    cut = es.ConvergenceCriterion(lambda e: len(e) >= cap)
    if name == "count": est, res, _ = run(E, Op(), "full", batch=batch, pdf=s, converge="COUNT" if batch == 2 else "count", **kw)
    else: est, res, _ = run(E, Op(), "full", batch=batch, pdf=s, converge=crit | cut, **rec)
    vals = [v[0] + 1 for v in s.cols]
    E.true(len(vals) % batch == 0 and 0 < len(vals) <= cap + batch, "whole batches")
    if name == "confidence":
        for k in range(batch, len(vals) + 1, batch): E.assume(E.not_(E.eqv(sum(vals[:k]), 0)))
    ref = es.MeanEstimator(covariance=True, **rec)
    for k in range(0, len(vals), batch):
        E.true(E.not_(crit(ref)), f"criterion does not hold after {k} samples")
        ref.update(E.array(vals[k: k + batch]))
    E.true(E.or_(crit(ref), len(vals) >= cap), "criterion holds at the end")
    E.eq(est, sum(vals) / len(vals), "estimate")
    if rec: E.eq(E.np.ravel(E.np.array(res.estimator.values)), E.array(vals), "recorded samples are the quadratic forms in order", shape=False)

@harness(quick=[dict(n=n, op=o, mode=m) for n in (1, 2, 3) for o in ("dense", "op") for m in ("plain", "full")] + [dict(n=4, op="dense", mode="plain")], thorough=[dict(n=5, op="dense", mode="plain")], bounds="all matrices of size n; all 2^n sign vectors", opts=dict(max_witnesses=2))
def unbiased(E, n, op, mode):
    """averaged over all sign vectors the estimate is the trace"""
    M = E.reals("A", (n, n))
    A = the_operator(E, op, M, n)
    s = Sampler(E, make=lambda n, b, k: [[1 - 2 * ((j + k >> i) & 1) for j in range(b)] for i in range(n)])
    est, _, _ = run(E, A, mode, batch=2 ** n, pdf=s, converge="count", count=2 ** n)
    E.eq(est, sum(M[i, i] for i in range(n)), "average over all sign vectors")
    tot = 0
    for k in range(2 ** n):
        s1 = Sampler(E, make=lambda n, b, _: [[1 - 2 * ((k >> i) & 1) for j in range(b)] for i in range(n)])
        tot = tot + run(E, A, mode, batch=1, pdf=s1, converge="count", count=1)[0]
    E.eq(tot / 2 ** n, sum(M[i, i] for i in range(n)), "average of one-sample estimates")

PDFS = ["rademacher", "normal", "sphere", "signs", "gaussian"]
@harness(quick=[dict(pdf=p, batch=b, mode=m, seedkind=k) for p in PDFS for b, m, k in ((2, "plain", "int"), (1, "full", "gen"))] + [dict(pdf="default", batch=2, mode="plain", seedkind="int")],
         bounds="all 2x2 matrices, every generator output, up to four vectors", opts=dict(max_paths=600, max_witnesses=4))
def named_samplers(E, pdf, batch, mode, seedkind):
    """named distributions draw successive batches of that distribution from the given generator"""
    from props.c07 import nonzero_columns
    R = E.mod("random")
    M = E.reals("A", (2, 2))
    p = "rademacher" if pdf == "default" else pdf
    if p == "sphere":
        for k in range(2): nonzero_columns(E, (2, batch), ("seed", 5), base=2 * batch * k)
    kw = {} if pdf == "default" else dict(pdf=pdf)
    seed = 5 if seedkind == "int" else E.np.random.default_rng(5)
    est, res, _ = run(E, M, mode, batch=batch, converge="count", count=2 * batch, seed=seed, **kw)
    g = R.isotropic(pdf=p, seed=E.np.random.default_rng(5))
    cols = []
    for _ in range(2):
        W = g((2, batch))
        cols += [[W[0, j], W[1, j]] for j in range(batch)]
    E.eq(est, sum(quad(M, v) for v in cols) / len(cols), "estimate from the stream of the seed")

@harness(quick=[{}], bounds="the listed arguments")
def degenerate(E):
    T = E.mod("trace")
    Z = E.np.zeros((0, 0))
    E.eq(T.hutch(Z), 0, "empty operator", shape=False)
    r = T.hutch(Z, full=True)
    E.true(isinstance(r, tuple) and len(r) == 2, "pair"); E.eq(r[0], 0, "empty operator, full", shape=False)
    M = E.reals("A", (2, 2))
    for bad in ("nothing", "counts", ""): E.raises(lambda: T.hutch(M, converge=bad), f"unknown criterion {bad!r}")
    for bad in ("cauchy", "", "spheres"): E.raises(lambda: T.hutch(M, pdf=bad), f"unknown distribution {bad!r}")

@harness(quick=[dict(n=n, op=o, power=p, what=q) for n, o in ((1, "dense"), (2, "op")) for p in (-12, 9) for q in ("operator", "vectors")], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, op, power, what):
    """operators and test vectors of any magnitude"""
    f = unit(E, power); g, h = (f, 1) if what == "operator" else (1, f)
    M = E.reals("A", (n, n)); V = [[E.real(f"v{j}[{i}]") for i in range(n)] for j in range(4)]
    s = Sampler(E, make=lambda nn, b, k: [[h * V[k + j][i] for j in range(b)] for i in range(nn)])
    est, _, _ = run(E, the_operator(E, op, M * g, n), "plain", batch=2, pdf=s, converge="count", count=3)
    E.eq(est / g / h / h, sum(quad(M, v) for v in V) / 4, "estimate")
