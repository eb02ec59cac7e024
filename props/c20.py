"""C20: stochastic diagonal estimation."""
from vsym.reg import harness
from props.util import *
from props.c17 import Sampler, the_operator
ASSUMPTIONS = ["samplers are called once per test vector", "test vectors have no zero entries in the first sample (otherwise the ratio is undefined)"]

def run(E, A, mode, **kw):
    D = E.mod("diagonal")
    seen = []
    if mode in ("callback", "both"): kw["callback"] = lambda r: seen.append((E.np.array(r.estimate), r.nit, r))
    if mode in ("full", "both"): kw["full"] = True
    r = D.diag(A, **kw)
    if mode == "plain": return r, None, seen
    E.true(isinstance(r, tuple) and len(r) == 2, "estimate and result")
    return r[0], r[1], seen

def ratios(E, A, V):
    """running ratio after each vector"""
    n = len(V[0]); out = []
    num, den = [0] * n, [0] * n
    for v in V:
        for i in range(n):
            num[i] = num[i] + v[i] * sum(A[i, j] * v[j] for j in range(n)); den[i] = den[i] + v[i] * v[i]
        out.append([a / b for a, b in zip(num, den)])
    return out
def means(R): return [[sum(r[i] for r in R[:k + 1]) / (k + 1) for i in range(len(R[0]))] for k in range(len(R))]
def nonzero(E, n, k=1, name="v"):
    return Sampler(E, name, make=lambda nn, b, c: [[E.real(f"{name}{c + j}[{i}]", nonzero=(c + j < k)) for j in range(b)] for i in range(nn)])

@harness(quick=[dict(n=n, count=c, mode=m, op=o) for n, c, m, o in ((1, 1, "plain", "dense"), (1, 3, "both", "dense"), (2, 1, "full", "op"), (2, 2, "plain", "dense"), (2, 2, "callback", "bare"), (2, 3, "both", "dense"), (3, 2, "plain", "op"), (2, 2, "plain", "dense32"), (2, 2, "full", "op32"), (3, 1, "plain", "dense"))],
         thorough=[dict(n=3, count=3, mode="plain", op="dense"), dict(n=4, count=2, mode="both", op="op")],
         bounds="all matrices of size n, all test vectors, up to three samples", opts=dict(max_witnesses=3))
def counted(E, n, count, mode, op):
    """mean of the running ratio estimates up to the count"""
    M = E.reals("A", (n, n)); snap = E.snapshot(M)
    s = nonzero(E, n)
    est, res, seen = run(E, the_operator(E, op, M, n), mode, pdf=s, converge="count", count=count)
    E.true(len(s.cols) == count, "number of vectors")
    R = ratios(E, M, s.cols); mu = means(R)
    E.eq(E.np.ravel(est), E.array(mu[-1]), "estimate is the mean of the ratio estimates")
    E.unchanged(M, snap, "operator untouched")
    if mode in ("callback", "both"):
        E.true(len(seen) == count, "callback after every vector")
        for k, (e, nit, r) in enumerate(seen): E.eq(E.np.ravel(e), E.array(mu[k]), f"estimate seen after {k + 1} vectors"); E.true(nit == k + 1, f"count seen after {k + 1}")
    if res is not None:
        E.eq(E.np.ravel(res.estimate), E.np.ravel(est), "result carries the estimate"); E.true(res.nit == count and len(res.estimator) == count, "number of vectors reported")

@harness(quick=[dict(count=1300, mode="plain"), dict(count=600, mode="full")], bounds="operators of size 1, up to 1300 samples with test vectors of fixed values", opts=dict(max_witnesses=2))
def long(E, count, mode):
    """no hidden limit on the number of samples"""
    a = E.real("a"); s = Sampler(E, make=lambda n, b, k: [[E.const(k % 3 + 1)] for i in range(n)], limit=count + 5)
    est, res, _ = run(E, E.array([[a]]), mode, pdf=s, converge="count", count=count)
    E.true(len(s.cols) == count, f"number of vectors ({len(s.cols)})")
    E.eq(E.np.ravel(est)[0], a, "estimate")
    if res is not None: E.true(res.nit == count, "number of vectors reported")

@harness(quick=[dict(n=n, mode=m) for n in (1, 2) for m in ("plain", "full")], bounds="recorded ratio estimates of up to three samples", opts=dict(max_witnesses=2))
def recorded(E, n, mode):
    """with recording, the estimator keeps the ratio estimate after each vector"""
    M = E.reals("A", (n, n)); s = nonzero(E, n)
    est, res, _ = run(E, M, "full", pdf=s, converge="count", count=3, record=True)
    R = ratios(E, M, s.cols)
    vals = [E.np.ravel(v) for v in res.estimator.values]
    E.true(len(vals) == 3, "three values")
    for k in range(3): E.eq(vals[k], E.array(R[k]), f"ratio after {k + 1} vectors")

@harness(quick=[dict(n=n, count=c, mode=m) for n in (1, 2, 3) for c in (1, 2) for m in ("plain", "full")], bounds="all diagonal matrices of size n, all test vectors without zero entries", opts=dict(max_witnesses=2))
def diagonal_exact(E, n, count, mode):
    d = [E.real(f"d{i}") for i in range(n)]
    M = E.array([[d[i] if i == j else E.const(0) for j in range(n)] for i in range(n)])
    est, _, _ = run(E, M, mode, pdf=nonzero(E, n, count), converge="count", count=count)
    E.eq(E.np.ravel(est), E.array(d), "diagonal recovered")

@harness(quick=[dict(n=n, op=o) for n in (1, 2, 3) for o in ("dense", "op")], thorough=[dict(n=4, op="dense")], bounds="all matrices of size n; all 2^n sign vectors", opts=dict(max_witnesses=2))
def unbiased(E, n, op):
    """one-sample estimates averaged over all sign vectors give the diagonal"""
    M = E.reals("A", (n, n)); A = the_operator(E, op, M, n)
    tot = 0
    for k in range(2 ** n):
        s = Sampler(E, make=lambda nn, b, c: [[1 - 2 * ((k >> i) & 1)] for i in range(nn)])
        tot = tot + E.np.ravel(run(E, A, "plain", pdf=s, converge="count", count=1)[0])
    E.eq(tot / 2 ** n, E.array([M[i, i] for i in range(n)]), "average over all sign vectors")

@harness(quick=[dict(stop=k, mode=m) for k in range(4) for m in ("plain", "full")], bounds="custom criteria that first hold after 0 to 3 vectors", opts=dict(max_witnesses=2))
def stops_first(E, stop, mode):
    es = E.mod("estimators")
    M = E.reals("A", (2, 2)); s = nonzero(E, 2)
    def crit(e):
        if len(e) > 6: raise RuntimeError("criterion missed")
        return len(e) == stop
    est, _, _ = run(E, M, mode, pdf=s, converge=es.ConvergenceCriterion(crit))
    E.true(len(s.cols) == stop, "number of vectors drawn")
    if stop: E.eq(E.np.ravel(est), E.array(means(ratios(E, M, s.cols))[-1]), "estimate")

@harness(quick=[dict(by=b, mode=m, n=n) for b in ("name", "default") for m in ("plain", "full") for n in (1, 2)], bounds="tolerance criterion, all tolerances; at most three vectors", opts=dict(max_witnesses=4, max_paths=100))
def tolerance(E, by, mode, n):
    """the default tolerance criterion judges the change of the reported estimate"""
    es = E.mod("estimators")
    A = [[E.real("a"), E.real("b")], [E.real("c"), E.real("d")]]
    M = E.array([r[:n] for r in A[:n]])
    s = Sampler(E, make=lambda nn, b, c: [[E.const([[1, 2, 1], [1, -1, 3]][i][c % 3])] for i in range(nn)])
    atol = E.real("atol", lo=0, hi=2); rtol = E.real("rtol", lo=0, hi=1) if n == 1 else E.const(0)
    if n == 2 and by == "default" and mode == "full": atol, rtol = E.const(0), E.real("rtol", lo=0, hi=1)
    kw = dict(atol=atol, rtol=rtol)
    if by == "name": kw["converge"] = "tolerance"
    crit = es.ToleranceCriterion(atol=atol, rtol=rtol)
    mu = means(ratios(E, M, [[[1, 2, 1][c], [1, -1, 3][c]][:n] for c in range(3)]))
    nrm = lambda v: E.sqrt(sum(x * x for x in v))
    def rule(k):
        prev = mu[k - 1] if k else [0] * n
        dl = nrm([a - b for a, b in zip(mu[k], prev)])
        return E.or_(E.lt(dl, atol), E.lt(dl, rtol * nrm(mu[k])))
    E.assume(E.or_(*[rule(k) for k in range(3)]))       # stops within three vectors
    est, res, _ = run(E, M, mode, pdf=s, **kw)
    k = len(s.cols)
    E.true(1 <= k <= 3, "number of vectors")
    for j in range(k - 1): E.true(E.not_(rule(j)), f"criterion does not hold after {j + 1} vectors")
    E.true(rule(k - 1), f"criterion holds after {k} vectors")
    E.eq(E.np.ravel(est), E.array(mu[k - 1]), "estimate")

@harness(quick=[dict(pdf=p, mode=m, seedkind=k) for p in ("rademacher", "normal", "sphere", "gaussian", "default") for m, k in (("plain", "int"), ("full", "gen"))], bounds="all 2x2 matrices, two test vectors of the stream", opts=dict(max_witnesses=3, max_paths=300))
def named_samplers(E, pdf, mode, seedkind):
    """named distributions draw successive vectors from the generator of the seed"""
    R = E.mod("random"); M = E.reals("A", (2, 2))
    p = "rademacher" if pdf == "default" else pdf
    if p in ("normal", "gaussian", "sphere"):
        for i in range(4): E.assume(E.not_(E.eqv(E.draw(5, i, "n"), 0)))
    kw = {} if pdf == "default" else dict(pdf=pdf)
    seed = 5 if seedkind == "int" else E.np.random.default_rng(5)
    est, _, _ = run(E, M, mode, converge="count", count=2, seed=seed, **kw)
    g = R.isotropic(pdf=p, seed=E.np.random.default_rng(5))
    V = [E.np.ravel(g(2)) for _ in range(2)]
    E.eq(E.np.ravel(est), E.array(means(ratios(E, M, [[v[0], v[1]] for v in V]))[-1]), "estimate from the stream of the seed")

@harness(quick=[dict(n=n, count=c, mode=m, op=o, vec=v) for n, c, m, o, v in ((17, 3, "both", "dense", "real"), (33, 2, "plain", "dense", "sign"), (2, 40, "both", "dense", "sign"), (3, 21, "full", "op", "real"), (9, 9, "callback", "op", "sign"), (130, 1, "plain", "dense", "sign"))],
         thorough=[dict(n=60, count=5, mode="both", op="dense", vec="real"), dict(n=2, count=230, mode="full", op="dense", vec="sign"), dict(n=1, count=130, mode="both", op="op", vec="real")],
         bounds="operators t B with fixed B up to size 130 and all t, up to 40 (230 thorough) fixed test vectors", opts=dict(max_witnesses=1))
def wide(E, n, count, mode, op, vec):
    """larger operators, many test vectors"""
    from fractions import Fraction as Fr
    t = E.real("t")
    B = [[Fr((i * 7 + j * 5 + i * j) % 9 - 4, 1 + (i + 2 * j) % 3) for j in range(n)] for i in range(n)]
    V = [[Fr((-1) ** ((i * (c + 2) + (i * i) // (c + 1) + c) % 5)) if vec == "sign" else Fr(1 + (i * 3 + c * 5) % 7, 1 + (i + c) % 4) * (-1) ** ((i + c * c) % 3) for i in range(n)] for c in range(count)]
    s = Sampler(E, make=lambda nn, b, c: [[E.frac(V[c + j][i].numerator, V[c + j][i].denominator) for j in range(b)] for i in range(nn)])
    M = E.array([[t * E.frac(x.numerator, x.denominator) for x in r] for r in B])
    est, res, seen = run(E, the_operator(E, op, M, n), mode, pdf=s, converge="count", count=count)
    E.true(len(s.cols) == count, "number of vectors")
    num, den, tot, want = [Fr(0)] * n, [Fr(0)] * n, [Fr(0)] * n, []
    for v in V:
        for i in range(n):
            num[i] += v[i] * sum(B[i][j] * v[j] for j in range(n)); den[i] += v[i] * v[i]; tot[i] += num[i] / den[i]
        want.append([x / (len(want) + 1) for x in tot])
    arr = lambda w: E.array([t * E.frac(x.numerator, x.denominator) for x in w])
    E.eq(E.np.ravel(est), arr(want[-1]), "mean of the ratio estimates")
    if res is not None: E.true(res.nit == count, "number of vectors reported")
    if mode in ("callback", "both"):
        E.true(len(seen) == count, "callback after every vector")
        for k in sorted({0, count // 2, count - 1}): E.eq(E.np.ravel(seen[k][0]), arr(want[k]), f"estimate seen after {k + 1} vectors")

@harness(quick=[{}], bounds="the listed arguments")
def degenerate(E):
    D = E.mod("diagonal")
    M = E.reals("A", (2, 2))
    for bad in ("nothing", ""): E.raises(lambda: D.diag(M, converge=bad), f"unknown criterion {bad!r}")
    for bad in ("cauchy", ""): E.raises(lambda: D.diag(M, pdf=bad), f"unknown distribution {bad!r}")
    r = D.diag(E.np.zeros((0, 0)), full=True)
    E.true(isinstance(r, tuple) and len(r) == 2, "empty operator")

@harness(quick=[dict(n=n, power=p, what=q) for n in (1, 2) for p in (-12, 9) for q in ("operator", "vectors")], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, power, what):
    """operators and test vectors of any magnitude"""
    f = unit(E, power); g, h = (f, 1) if what == "operator" else (1, f)
    M = E.reals("A", (n, n)); V = [[E.real(f"v{j}[{i}]", nonzero=j == 0) for i in range(n)] for j in range(3)]
    s = Sampler(E, make=lambda nn, b, k: [[h * V[k + j][i] for j in range(b)] for i in range(nn)])
    est, _, _ = run(E, M * g, "plain", pdf=s, converge="count", count=3)
    E.eq(E.np.ravel(est) / g, E.array(means(ratios(E, M, V))[-1]), "mean of the ratio estimates")
