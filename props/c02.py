"""C02: a mean estimator tracks count, estimate, change and record."""
from vsym.reg import harness
from props.util import affine
from props.c01 import partitions, mean_of

@harness(quick=[dict(dim=1, n=4, cov=False, record=True), dict(dim=1, n=4, cov=True, record=True), dict(dim=2, n=3, cov=False, record=True), dict(dim=2, n=3, cov=True, record=False), dict(dim=3, n=3, cov=True, record=True), dict(dim=1, n=3, cov=False, record=False)],
         thorough=[dict(dim=1, n=6, cov=c, record=True) for c in (False, True)] + [dict(dim=3, n=5, cov=c, record=True) for c in (False, True)],
         bounds="all real samples; n samples of dimension dim; every split into updates", opts=dict(max_witnesses=6))
def history(E, dim, n, cov, record):
    """every partition of n samples into updates, checked after every update"""
    es = E.mod("estimators")
    sizes = E.choice("partition", list(partitions(n)))
    X = E.reals("x", (n, dim))
    snap = E.snapshot(X)
    est = es.MeanEstimator(dim=dim, covariance=cov, record=record)
    E.true(len(est) == 0, "empty length")
    E.is_nan(est.estimate, "estimate before any sample")
    E.true(E.np.shape(est.delta) == (dim,), "shape of the change before any sample")
    E.true(bool(E.np.all(E.np.isinf(est.delta))), "change before any sample is infinite")
    k, old = 0, E.np.zeros(dim)
    held = []
    for b in sizes:
        x = X[k: k + b]
        if dim == 1 and b == 1: x = x[0, 0]            # a scalar
        elif dim == 1 and b % 2 == 0: x = x.ravel()    # one-dimensional batch
        est.update(x)
        k += b
        mu = mean_of(E, X[:k])
        E.true(len(est) == k, f"length after {k}"); E.true(est.n_samples == k, f"n_samples after {k}")
        E.eq(est.estimate, mu[0] if dim == 1 else mu, f"estimate after {k}")
        E.eq(est.mean, mu[0] if dim == 1 else mu, f"mean after {k}")
        E.eq(E.np.ravel(est.delta), mu - old, f"change after {k}")
        old = mu
        held.append((k, est.estimate))
        if record:
            E.true(len(est.values) == k, f"number of recorded values after {k}")
            E.eq(E.np.ravel(E.np.array(est.values)), E.np.ravel(X[:k]), f"recorded values after {k}")
        else: E.true(est.values is None, "nothing recorded")
    for k, v in held:
        mu = mean_of(E, X[:k]); E.eq(v, mu[0] if dim == 1 else mu, f"estimate reported after {k} does not change later")
    E.unchanged(X, snap, "samples untouched")
    X[:] = 0.0
    if record: E.eq(E.np.ravel(E.np.array(est.values)), E.array(snap), "recorded values are copies", shape=False)

@harness(quick=[dict(dim=1, cov=False), dict(dim=1, cov=True), dict(dim=2, cov=False), dict(dim=2, cov=True)], bounds="two estimators of one kind, one update each, in any order")
def separate(E, dim, cov):
    """estimators share nothing"""
    es = E.mod("estimators")
    X, Y = E.reals("x", (2, dim)), E.reals("y", (1, dim))
    a, b = es.MeanEstimator(dim, cov, True), es.MeanEstimator(dim, cov, True)
    c = es.MeanEstimator(dim, cov, False)
    first = E.choice("first", [0, 1])
    for o, Z in ([(a, X), (b, Y)] if first == 0 else [(b, Y), (a, X)]): o.update(Z)
    d = es.MeanEstimator(dim, cov, True)
    E.true(len(d) == 0 and len(d.values) == 0, "a new estimator is empty"); E.is_nan(d.estimate, "a new estimator has no estimate")
    E.true(len(a) == 2 and len(b) == 1 and len(c) == 0, "lengths")
    E.true(len(a.values) == 2 and len(b.values) == 1 and c.values is None, "records")
    mx = mean_of(E, X)
    E.eq(a.estimate, mx[0] if dim == 1 else mx, "first estimate"); E.eq(b.estimate, Y[0, 0] if dim == 1 else Y[0], "second estimate")
    E.is_nan(c.estimate, "third has no estimate")
    E.eq(E.np.ravel(b.delta), Y[0], "change of the second"); E.eq(E.np.ravel(a.delta), mx, "change of the first")

@harness(quick=[dict(dim=d, cov=c) for d in (1, 2) for c in (False, True)], bounds="all samples; an update without samples between two others", opts=dict(max_witnesses=1))
def empty_update(E, dim, cov):
    """an update without samples leaves count, estimate and record and reports no change"""
    es = E.mod("estimators")
    X = E.reals("x", (3, dim)); est = es.MeanEstimator(dim=dim, covariance=cov, record=True)
    none = E.np.zeros((0, dim))
    est.update(none)
    E.true(len(est) == 0 and len(est.values) == 0, "nothing received"); E.true(E.np.all(E.np.isnan(est.estimate)), "no estimate")
    est.update(X[:2]); est.update(none)
    mu = mean_of(E, X[:2])
    E.true(len(est) == 2 and len(est.values) == 2, "count"); E.eq(est.estimate, mu[0] if dim == 1 else mu, "estimate"); E.eq(E.np.ravel(est.delta), E.np.zeros(dim), "no change")
    est.update(X[2:])
    mu = mean_of(E, X)
    E.true(len(est) == 3 and len(est.values) == 3, "count"); E.eq(est.estimate, mu[0] if dim == 1 else mu, "estimate after one more")

@harness(quick=[dict(dim=1, b=2, cov=False), dict(dim=1, b=1, cov=True), dict(dim=2, b=2, cov=True)], thorough=[dict(dim=3, b=3, cov=False)],
         bounds="any reachable summary (count n >= 1 symbolic, mean arbitrary) reached by n identical-mean samples, one further update of b samples")
def step(E, dim, b, cov):
    """inductive step: one more update of an estimator that has seen n samples of mean mu"""
    es = E.mod("estimators")
    est = es.MeanEstimator(dim=dim, covariance=cov)
    acc = getattr(est, "_cov" if cov else "_mean", None)
    Y = E.reals("y", (2, dim)); est.update(Y)
    if acc is None or not hasattr(acc, "mu") or not hasattr(acc, "n") or acc.n != 2 or E.np.shape(acc.mu) != (dim,) or est.n_samples != 2: E.skip("accumulator state is kept differently")
    E.assume(E.and_(*[E.eqv(acc.mu[j], (Y[0, j] + Y[1, j]) / 2) for j in range(dim)]))
    n = E.nat("n", lo=1); mu = E.reals("mu", dim); X = E.reals("x", (b, dim))
    acc.n = n; acc.mu = mu.copy(); est.n_samples = n
    est.update(X)
    want = E.array([(n * mu[j] + sum(X[i, j] for i in range(b))) / (n + b) for j in range(dim)])
    E.eq(est.estimate, want[0] if dim == 1 else want, "estimate")
    E.eq(E.np.ravel(est.delta), want - mu, "change")
    E.eq(est.n_samples, n + b, "count")

@harness(quick=[dict(dim=1, sizes=[1] * 12 + [33, 20], cov=False), dict(dim=3, sizes=[7, 1, 35, 2], cov=True), dict(dim=12, sizes=[3, 40], cov=False)], thorough=[dict(dim=1, sizes=[150, 90, 1], cov=c) for c in (False, True)],
         bounds="sizes: the updates; every sample p + q t with fixed integers p, q and any real t")
def long(E, dim, sizes, cov):
    """long histories and large batches"""
    es = E.mod("estimators")
    X = affine(E, (sum(sizes), dim))
    est = es.MeanEstimator(dim=dim, covariance=cov, record=True)
    k, old = 0, E.np.zeros(dim)
    for b in sizes:
        est.update(X[k: k + b] if dim > 1 or b > 1 else X[k, 0]); k += b
        mu = mean_of(E, X[:k])
        E.true(len(est) == k and est.n_samples == k, f"length after {k}")
        E.eq(est.estimate, mu[0] if dim == 1 else mu, f"estimate after {k}")
        E.eq(E.np.ravel(est.delta), mu - old, f"change after {k}"); old = mu
        E.true(len(est.values) == k, f"number of recorded values after {k}")
    E.eq(E.np.ravel(E.np.array(est.values)), E.np.ravel(X), "recorded values")
