"""C04: the confidence criterion agrees with the confidence interval it names."""
from vsym.reg import harness
from props.c01 import mean_of, scatter_of
from props.util import affine

def score(E, conf, n):
    return E.uf("t_ppf", (conf + 1) / 2, n - 1) if n < 30 else E.sqrt(E.const(2)) * E.uf("erfinv", conf)

@harness(quick=[dict(n=n, free=True, conf=c) for n in (1, 2, 3, 4) for c in ("default", "any")] + [dict(n=n, free=False, conf="any") for n in (5, 6, 12, 28, 29, 30, 31, 45, 130)],
         thorough=[dict(n=n, free=True, conf="any") for n in (5, 6, 7)] + [dict(n=n, free=False, conf="any") for n in range(7, 45)],
         bounds="all real samples (free) or n samples taking two arbitrary values; all tolerances >= 0; all confidences in (0,1)", opts=dict(max_witnesses=4))
def criterion(E, n, free, conf):
    """verdict of the criterion on n samples against the textbook rule"""
    es = E.mod("estimators")
    if free: X = E.reals("x", (n, 1))
    else:
        a, b = E.real("a"), E.real("b")
        X = E.array([[a if i % 3 else b] for i in range(n)])
    c = E.const(E.frac(19, 20)) if conf == "default" else E.real("conf", lo=0, hi=1)
    if conf != "default": E.assume(E.gt(c, 0)); E.assume(E.lt(c, 1))
    atol, rtol = E.real("atol", lo=0, hi=4), E.real("rtol", lo=0, hi=2)
    kw = dict(atol=atol, rtol=rtol)
    if conf != "default": kw["confidence"] = c
    cc = es.ConfidenceCriterion(**kw)
    est = es.MeanEstimator(covariance=True)
    for i in range(0, n, 7): est.update(X[i: i + 7])
    if n < 3:
        E.true(E.not_(cc(est)), "fewer than three samples never converge"); return
    mu = mean_of(E, X)[0]
    E.assume(E.not_(E.eqv(mu, 0)))
    se = E.sqrt(scatter_of(E, X)[0, 0] / (n - 1)) / E.sqrt(E.const(n))
    want = E.or_(E.le(score(E, c, n) * se, atol), E.le(se, rtol * abs(mu)))
    E.same(cc(est), want, f"verdict at {n}")
    other = es.MeanEstimator(covariance=True); other.update(X[:1]); other.update(X[:1])
    E.true(E.not_(cc(other)), "the same criterion on another estimator with two samples")
    E.same(cc(est), want, f"verdict at {n}, asked again")

@harness(quick=[dict(n=n) for n in (3, 4, 31)], bounds="all samples of mean zero (n = 31: multiples of one pattern); all tolerances >= 0", opts=dict(max_witnesses=6))
def zero_mean(E, n):
    """an estimate of exactly zero: only the absolute part can hold (or a constant history)"""
    es = E.mod("estimators")
    if n < 10:
        X = list(E.reals("x", n - 1)); X.append(-sum(X))
    else:
        t = E.real("t"); X = [t * (i - n // 2) for i in range(n)]
    X = E.array([[x] for x in X])
    est = es.MeanEstimator(covariance=True); est.update(X[:2]); est.update(X[2:])
    atol, rtol = E.real("atol", lo=0, hi=4), E.real("rtol", lo=0, hi=2)
    se = E.sqrt(scatter_of(E, X)[0, 0] / (n - 1)) / E.sqrt(E.const(n))
    E.same(es.ConfidenceCriterion(atol=atol, rtol=rtol)(est), E.le(score(E, E.const(E.frac(19, 20)), n) * se, atol), "verdict at a zero estimate")

@harness(quick=[dict(n=n, sdist=s, conf=c) for n in (2, 3, 4) for s in ("t", "normal") for c in ("default", "any")] + [dict(n=n, sdist=s, conf="any") for n in (29, 40) for s in ("t", "normal")], thorough=[dict(n=n, sdist=s, conf="any") for n in (6, 9, 100) for s in ("t", "normal")],
         bounds="all real samples; all confidences in [1/64, 63/64]")
def interval(E, n, sdist, conf):
    """the interval is the mean plus or minus the half-width"""
    st = E.mod("stats")
    X = E.reals("x", n) if n < 10 else affine(E, n)
    snap = E.snapshot(X)
    c = E.const(E.frac(19, 20)) if conf == "default" else E.real("conf", lo=E.frac(1, 64), hi=E.frac(63, 64))
    kw = {} if conf == "default" else dict(confidence=c)
    if sdist != "t" or n % 2: kw["sdist"] = sdist
    r = st.confidence_interval(X, **kw)
    E.true(len(r) == 2, "two ends")
    Y = E.array([[x] for x in X])
    mu = mean_of(E, Y)[0]; se = E.sqrt(scatter_of(E, Y)[0, 0] / (n - 1)) / E.sqrt(E.const(n))
    m = E.uf("t_ppf", (c + 1) / 2, n - 1) if sdist == "t" else E.sqrt(E.const(2)) * E.uf("erfinv", c)
    E.eq(r[0], mu - m * se, "lower end"); E.eq(r[1], mu + m * se, "upper end")
    E.unchanged(X, snap, "samples untouched")

@harness(quick=[{}], bounds="all confidences outside the valid range")
def rejects(E):
    st, es = E.mod("stats"), E.mod("estimators")
    X = E.reals("x", 3)
    c = E.real("c")
    E.assume(E.or_(E.lt(c, 0), E.gt(c, 1)))
    for s in ("t", "normal"): E.raises(lambda: st.confidence_interval(X, confidence=c, sdist=s), f"interval rejects the confidence ({s})")
    E.raises(lambda: st.confidence_interval(X, sdist="cauchy"), "interval rejects unknown distributions")
    E.raises(lambda: es.ConfidenceCriterion(confidence=c), "criterion rejects the confidence")
    E.raises(lambda: es.ConfidenceCriterion(confidence=0.0), "criterion rejects 0"); E.raises(lambda: es.ConfidenceCriterion(confidence=1.0), "criterion rejects 1")

@harness(quick=[dict(n=3), dict(n=4), dict(n=30)], bounds="all real samples and tolerances")
def agreement(E, n):
    """absolute part: convergence iff the interval the library reports is no wider than twice the tolerance; missing tolerances count as zero"""
    st, es = E.mod("stats"), E.mod("estimators")
    if n < 10: X = E.reals("x", n)
    else:
        a, b = E.real("a"), E.real("b"); X = E.array([a if i % 2 else b for i in range(n)])
    est = es.MeanEstimator(covariance=True); est.update(X)
    mu = sum(X[i] for i in range(n)) / n
    E.assume(E.not_(E.eqv(mu, 0)))
    var = sum((X[i] - mu) ** 2 for i in range(n)); E.assume(E.gt(var, 0))
    atol = E.real("atol", lo=0, hi=5)
    lo, hi = st.confidence_interval(X, sdist="t" if n < 30 else "normal")
    for rt in (0.0, None):
        cc = es.ConfidenceCriterion(atol=atol, rtol=rt)
        E.same(cc(est), E.le(hi - lo, 2 * atol), f"rtol={rt}")
    cc = es.ConfidenceCriterion(atol=None, rtol=None)
    E.true(E.not_(cc(est)), "no tolerance")
