"""C03: the control-variate estimate."""
from vsym.reg import harness
from props.util import affine, unit, times
from props.c01 import partitions, mean_of, scatter_of

def parts_from(n, lo):
    return [p for p in partitions(n)]

@harness(quick=[dict(k=1, n=4, given=True), dict(k=1, n=4, given=False), dict(k=2, n=3, given=True), dict(k=2, n=4, given=False)],
         thorough=[dict(k=1, n=6, given=True), dict(k=1, n=5, given=False), dict(k=3, n=3, given=True), dict(k=3, n=5, given=False)],
         bounds="all real samples, k control variates, n joint samples, every split into updates; given: coefficients supplied", opts=dict(max_witnesses=6, max_paths=300))
def history(E, k, n, given):
    """every partition of n joint samples of the target and k controls"""
    es = E.mod("estimators")
    sizes = E.choice("partition", list(partitions(n)))
    X = E.reals("x", (n, k + 1)); ecv = E.reals("ecv", k)
    alpha = E.reals("alpha", k) if given else None
    snap, esnap = E.snapshot(X), E.snapshot(ecv)
    est = es.ControlVariableEstimator(ecv[0] if k == 1 else ecv, alpha=(alpha[0] if k == 1 else alpha) if given else None)
    E.true(len(est) == 0, "empty length"); E.is_nan(est.estimate, "estimate before any sample")
    m = 0
    for b in sizes:
        if not given and m + b >= k + 1: a = least_squares(E, scatter_of(E, X[:m + b]), k)
        est.update(X[m: m + b]); m += b
        E.true(len(est) == m, f"length after {m}")
        mu = mean_of(E, X[:m])
        if given:
            want = mu[0] - sum(alpha[j] * (mu[j + 1] - ecv[j]) for j in range(k))
            E.eq(est.estimate, want, f"estimate after {m}")
        elif m >= k + 1:
            want = mu[0] - sum(a[j] * (mu[j + 1] - ecv[j]) for j in range(k))
            E.eq(est.estimate, want, f"estimate after {m}")
    E.unchanged(X, snap, "samples untouched"); E.unchanged(ecv, esnap, "known expectations untouched")

def least_squares(E, C, k):
    """solve C11 a = C01 by cofactors"""
    M = [[C[i + 1, j + 1] for j in range(k)] for i in range(k)]; r = [C[i + 1, 0] for i in range(k)]
    d = det(M)
    E.assume(E.not_(E.eqv(d, 0)))
    return [det([[r[i] if c == j else M[i][c] for c in range(k)] for i in range(k)]) / d for j in range(k)]
def det(M):
    if len(M) == 1: return M[0][0]
    return sum((-1) ** j * M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]]) for j in range(len(M)))

@harness(quick=[dict(k=1, given=True), dict(k=1, given=False), dict(k=2, given=True)], bounds="all real samples, three or four updates of one or two samples; all tolerances", opts=dict(max_witnesses=6, max_paths=300))
def change(E, k, given):
    """the reported change is the difference of the estimates, and is what the tolerance criterion judges"""
    es = E.mod("estimators")
    X = E.reals("x", (5, k + 1)); ecv = E.reals("ecv", k)
    est = es.ControlVariableEstimator(ecv[0] if k == 1 else ecv, alpha=E.reals("alpha", k) if given else None)
    atol = E.real("atol", lo=0, hi=3)
    tc = es.ToleranceCriterion(rtol=0.0, atol=atol)
    old = None
    E.true(E.not_(tc(est)), "no sample yet")
    for a, b in ((0, 2), (2, 3), (3, 5)):
        if not given: E.assume(E.gt(scatter_of(E, X[:b])[1, 1], 0))
        est.update(X[a:b])
        if old is not None:
            diff = est.estimate - old
            E.true(E.np.size(est.delta) == 1, f"one change after {b}")
            E.eq(E.np.ravel(est.delta)[0], diff, f"change after {b}")
            E.same(tc(est), E.lt(abs(diff), atol), f"tolerance after {b}")
        old = est.estimate

@harness(quick=[{}], bounds="mismatched numbers of coefficients")
def edges(E):
    es = E.mod("estimators")
    e, a = E.reals("ecv", 2), E.reals("alpha", 1)
    E.raises(lambda: es.ControlVariableEstimator(e, alpha=a), "coefficient count must match")
    x = E.reals("x", (2, 2)); y = E.reals("y", (1, 2)); m = E.real("m"); al = E.real("al")
    p, q = es.ControlVariableEstimator(m, alpha=al), es.ControlVariableEstimator(m, alpha=al)
    p.update(x); q.update(y)
    E.eq(p.estimate, (x[0, 0] + x[1, 0]) / 2 - al * ((x[0, 1] + x[1, 1]) / 2 - m), "first"); E.eq(q.estimate, y[0, 0] - al * (y[0, 1] - m), "second")
    E.true(len(p) == 2 and len(q) == 1, "lengths")

@harness(quick=[dict(exact=False), dict(exact=True)], bounds="target an exact affine function of the control: variance reduction to zero")
def degenerate(E, exact):
    """a perfectly correlated control gives the exact expectation"""
    es = E.mod("estimators")
    c = E.reals("c", 3); s, t, m = E.real("s"), E.real("t"), E.real("m")
    E.assume(E.not_(E.eqv((c[0] - c[1]) ** 2 + (c[1] - c[2]) ** 2 + (c[0] - c[2]) ** 2, 0)))
    X = E.array([[s + t * c[i], c[i]] for i in range(3)])
    est = es.ControlVariableEstimator(m)
    if exact: est.update(X)
    else:
        est.update(X[:1]); est.update(X[1:])
    E.eq(est.estimate, s + t * m, "estimate of an affine target")

@harness(quick=[dict(k=1, sizes=[1] * 10 + [30], given=False), dict(k=2, sizes=[5, 32, 1], given=False), dict(k=4, sizes=[3, 40], given=True), dict(k=1, sizes=[64], given=True), dict(k=3, sizes=[36], given=False)],
         thorough=[dict(k=1, sizes=[100, 100], given=False), dict(k=3, sizes=[30, 1, 30], given=False)], bounds="sizes: the updates; every sample p + q t with fixed integers p, q and any real t; known expectations and supplied coefficients arbitrary")
def long(E, k, sizes, given):
    """long histories and large batches"""
    es = E.mod("estimators")
    X = affine(E, (sum(sizes), k + 1)); ecv = E.reals("ecv", k)
    alpha = E.reals("alpha", k) if given else None
    est = es.ControlVariableEstimator(ecv[0] if k == 1 else ecv, alpha=(alpha[0] if k == 1 else alpha) if given else None)
    m = 0
    for b in sizes:
        a = alpha if given else None
        if not given and m + b >= k + 2 and b > 1: a = least_squares(E, scatter_of(E, X[:m + b]), k)
        est.update(X[m: m + b]); m += b
        E.true(len(est) == m, f"length after {m}")
        if a is None: continue
        mu = mean_of(E, X[:m])
        E.eq(est.estimate, mu[0] - sum(a[j] * (mu[j + 1] - ecv[j]) for j in range(k)), f"estimate after {m}")

@harness(quick=[dict(k=k, given=g, power=p) for k, g in ((1, False), (1, True), (2, False)) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2, max_paths=100))
def units(E, k, given, power):
    """the estimate does not depend on the units of the controls or of the target"""
    es = E.mod("estimators")
    n = k + 3; f = unit(E, power)
    X = E.reals("x", (n, k + 1)); ecv = E.reals("ecv", k)
    if not given: least_squares(E, scatter_of(E, X[:k + 2]), k)
    a = E.reals("alpha", k) if given else least_squares(E, scatter_of(E, X), k)
    mu = mean_of(E, X); want = mu[0] - sum(a[j] * (mu[j + 1] - ecv[j]) for j in range(k))
    for name, t, c in (("controls", 1, f), ("target", f, 1), ("both", f, f)):
        Y = E.array([[(t if j == 0 else c) * X[i, j] for j in range(k + 1)] for i in range(n)])
        m = E.array([c * ecv[j] for j in range(k)])
        est = es.ControlVariableEstimator(m[0] if k == 1 else m, alpha=E.array([a[j] * t / c for j in range(k)]) if given else None)
        est.update(Y[:k + 2]); est.update(Y[k + 2:])
        E.eq(est.estimate / t, want, f"units of the {name}: estimate")
