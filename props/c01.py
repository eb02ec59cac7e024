"""C01: streaming mean and covariance equal the batch statistics."""
from vsym.reg import harness
from props.util import affine, unit, times

def partitions(n):
    if n == 0: yield (); return
    for k in range(1, n + 1):
        for r in partitions(n - k): yield (k,) + r

def mean_of(E, X):
    n, d = X.shape
    return E.array([sum(X[i, j] for i in range(n)) / n for j in range(d)])
def scatter_of(E, X):
    n, d = X.shape; mu = mean_of(E, X)
    return E.array([[sum((X[i, a] - mu[a]) * (X[i, b] - mu[b]) for i in range(n)) for b in range(d)] for a in range(d)])

def check_state(E, M, C, X, dim, tag):
    n = X.shape[0]; mu = mean_of(E, X)
    want = mu[0] if dim == 1 else mu
    for nm, o in (("Mean", M), ("Covariance", C)):
        E.eq(o.mean(), want, f"{tag} {nm}.mean()")
        E.true(o.n == n, f"{tag} {nm}.n")
    E.eq(M(), want, f"{tag} Mean()")
    S = scatter_of(E, X)
    for ddof in (0, 1):
        if n - ddof > 0:
            w = S / (n - ddof)
            c = C(ddof=ddof)
            E.eq(c, w[0, 0] if dim == 1 else w, f"{tag} cov ddof={ddof}")
            if dim > 1: E.eq(c, c.T, f"{tag} cov symmetric ddof={ddof}")
    if n > 1:
        E.eq(C(), (S / (n - 1))[0, 0] if dim == 1 else S / (n - 1), f"{tag} default ddof")
        E.eq(C.covariance(), (S / (n - 1))[0, 0] if dim == 1 else S / (n - 1), f"{tag} covariance()")

@harness(quick=[dict(dim=1, n=5), dict(dim=2, n=4), dict(dim=3, n=3)], thorough=[dict(dim=1, n=7), dict(dim=2, n=6), dict(dim=3, n=5)],
         bounds="all real samples; n samples of dimension dim; every split into batches; checked after every batch", opts=dict(max_paths=200, max_witnesses=6))
def splits(E, dim, n):
    """from empty: every partition of n samples into batches"""
    st = E.mod("stats")
    sizes = E.choice("partition", list(partitions(n)))
    X = E.reals("x", (n, dim))
    M, C = st.Mean(dim), st.Covariance(dim)
    E.is_nan(M(), "mean before any sample"); E.is_nan(C.mean(), "mean before any sample (cov)"); E.is_nan(M.mean(), "mean before any sample")
    k = 0
    snap = E.snapshot(X); kept = []
    for b in sizes:
        batch = X[k: k + b]
        if dim == 1 and b % 2 == 1: batch = batch.ravel()     # one-dimensional batches are accepted for dim 1
        M.update(batch); C.update(batch)
        k += b
        check_state(E, M, C, X[:k], dim, f"after {k}")
        if dim > 1:
            for nm, o in (("Mean()", M()), ("Mean.mean()", M.mean()), ("Covariance.mean()", C.mean()), ("Covariance()", C()), ("Covariance(0)", C(ddof=0)), ("covariance()", C.covariance())): kept.append((f"{nm} reported after {k} stays as it was", o, E.snapshot(o)))
    for nm, o, sn in kept: E.unchanged(o, sn, nm)
    E.unchanged(X, snap, "samples untouched")

@harness(quick=[dict(dim=d, at=a) for d in (1, 2) for a in (0, 1, 2)], bounds="all samples; an empty batch before, between or after two batches", opts=dict(max_witnesses=1))
def empty_batch(E, dim, at):
    """a batch without observations changes nothing"""
    st = E.mod("stats")
    X = E.reals("x", (3, dim)); M, C = st.Mean(dim), st.Covariance(dim)
    none = E.np.zeros((0, dim)); k = 0
    for i, b in enumerate((1, 2, 0)):
        if i == at:
            for o in (M, C): o.update(none if not (dim == 1 and at == 1) else E.np.zeros(0))
            if k == 0:
                for o in (M, C): E.is_nan(o.mean(), "mean before any sample")
            else: check_state(E, M, C, X[:k], dim, f"after an empty batch at {k}")
        if b: M.update(X[k: k + b]); C.update(X[k: k + b]); k += b
        if b: check_state(E, M, C, X[:k], dim, f"after {k}")

@harness(quick=[dict(dim=d, b=b) for d in (1, 2, 3) for b in (1, 2, 3)], thorough=[dict(dim=4, b=2), dict(dim=2, b=5)],
         bounds="any accumulator state (count n >= 1 symbolic, mean and scatter arbitrary), one further batch of b samples")
def step(E, dim, b):
    """inductive step: merging a batch of b samples into n summarised samples gives the statistics of all n+b"""
    st = E.mod("stats")
    n = E.nat("n", lo=1)
    mu = E.reals("mu", dim); S = E.sym_matrix("S", dim)
    X = E.reals("x", (b, dim))
    M, C = st.Mean(dim), st.Covariance(dim)
    Y = E.reals("y", (2, dim))
    for o in (M, C):        # the accumulators keep count, mean and scatter under these names; otherwise nothing is claimed here
        o.update(Y)
        if not (hasattr(o, "n") and hasattr(o, "mu") and E.np.shape(o.mu) == (dim,)) or o.n != 2 or not hasattr(C, "S"): E.skip("accumulator state is kept differently")
        E.assume(E.and_(*[E.eqv(o.mu[j], (Y[0, j] + Y[1, j]) / 2) for j in range(dim)]))
    E.assume(E.and_(*[E.eqv(C.S[a, c], (Y[0, a] - Y[1, a]) * (Y[0, c] - Y[1, c]) / 2) for a in range(dim) for c in range(dim)]))
    for o in (M, C):
        o.n = n; o.mu = mu.copy()
    C.S = S.copy()
    M.update(X); C.update(X)
    N = n + b
    # sums of all samples: sum = n mu + sum x ; sum of squares = S + n mu mu' + sum x x'
    tot = [n * mu[j] + sum(X[i, j] for i in range(b)) for j in range(dim)]
    want_mu = E.array([t / N for t in tot])
    E.eq(M.mu, want_mu, "Mean.mu"); E.eq(C.mu, want_mu, "Covariance.mu")
    E.eq(E.array([M.n]), E.array([N]), "Mean.n"); E.eq(E.array([C.n]), E.array([N]), "Covariance.n")
    want_S = E.array([[S[a, c] + n * mu[a] * mu[c] + sum(X[i, a] * X[i, c] for i in range(b)) - tot[a] * tot[c] / N for c in range(dim)] for a in range(dim)])
    for ddof in (0, 1):
        if ddof: E.assume(E.gt(N, 1))
        w = want_S / (N - ddof)
        E.eq(C(ddof=ddof), w[0, 0] if dim == 1 else w, f"covariance ddof={ddof}")

@harness(quick=[dict(dim=d) for d in (1, 2, 3)], bounds="wrong sample dimension; too few samples for the degrees of freedom")
def edges(E, dim):
    st = E.mod("stats")
    M, C = st.Mean(dim), st.Covariance(dim)
    X = E.reals("x", (1, dim + 1))
    E.raises(lambda: M.update(X), "Mean rejects wrong dimension"); E.raises(lambda: C.update(X), "Covariance rejects wrong dimension")
    E.true(M.n == 0, "count unchanged"); E.true(C.n == 0, "count unchanged")
    Y = E.reals("y", (1, dim))
    C.update(Y)
    c0 = C(ddof=0)
    E.eq(c0, 0.0 if dim == 1 else E.np.zeros((dim, dim)), "population covariance of one sample")
    c1 = C(ddof=1)
    E.true(E.np.shape(c1) == (() if dim == 1 else (dim, dim)), "undefined covariance keeps the documented shape")

@harness(quick=[dict(dim=1, sizes=[45]), dict(dim=1, sizes=[1] * 12 + [33, 20]), dict(dim=3, sizes=[7, 1, 35, 2]), dict(dim=6, sizes=[12, 9])], thorough=[dict(dim=1, sizes=[150, 90, 1]), dict(dim=10, sizes=[16, 16]), dict(dim=2, sizes=[70])],
         bounds="sizes: the batches; every sample p + q t with fixed integers p, q and any real t")
def long(E, dim, sizes):
    """long histories and large batches"""
    st = E.mod("stats")
    n = sum(sizes)
    X = affine(E, (n, dim))
    M, C = st.Mean(dim), st.Covariance(dim)
    k = 0
    for b in sizes:
        M.update(X[k: k + b]); C.update(X[k: k + b]); k += b
        if b > 1: check_state(E, M, C, X[:k], dim, f"after {k}")

@harness(quick=[dict(dim=d, power=p) for d in (1, 2) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, dim, power):
    """the statistics do not depend on the units of the samples"""
    st = E.mod("stats")
    f = unit(E, power); X = E.reals("x", (4, dim)); Y = E.array([[f * X[i, j] for j in range(dim)] for i in range(4)])
    M, C = st.Mean(dim), st.Covariance(dim)
    for a, b in ((0, 1), (1, 3), (3, 4)): M.update(Y[a:b]); C.update(Y[a:b])
    mu, S = mean_of(E, X), scatter_of(E, X) / 3
    for o in (M, C): E.eq(o.mean() / f, mu[0] if dim == 1 else mu, "mean")
    E.eq(C.covariance() / f / f, S[0, 0] if dim == 1 else S, "covariance")
