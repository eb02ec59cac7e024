"""C05: count and tolerance criteria, Boolean composition, the registry."""
from vsym.reg import harness
from props.c01 import partitions, mean_of
from props.util import affine

@harness(quick=[dict(n=n) for n in range(0, 5)], bounds="every count, n samples")
def count(E, n):
    es = E.mod("estimators")
    c = E.nat("count")
    est = es.MeanEstimator()
    x = E.reals("x", max(n, 1))
    k = 0
    cc = es.CountCriterion(c)
    E.same(cc(est), E.ge(0, c), "no sample")
    while k < n:
        b = 2 if n - k > 2 else 1
        est.update(x[k: k + b]); k += b
        E.same(cc(est), E.ge(k, c), f"{k} samples")
        E.same(es.convergence_criterion("count", count=c)(est), E.ge(k, c), f"{k} samples, by name")

def norm(E, v, o):
    v = [abs(t) for t in E.np.ravel(v)]
    if o == 1: return sum(v)
    if o == "inf":
        m = v[0]
        for t in v[1:]: m = t if E.is_true(E.gt(t, m)) else m
        return m
    return E.sqrt(sum(t * t for t in v))

@harness(quick=[dict(dim=1, ord="default"), dict(dim=2, ord="default"), dict(dim=2, ord=1), dict(dim=2, ord="inf"), dict(dim=1, ord="none"), dict(dim=3, ord="none"), dict(dim=17, ord="default"), dict(dim=17, ord=1), dict(dim=40, ord="none")], thorough=[dict(dim=3, ord=o) for o in ("default", 1, "inf")],
         bounds="all samples (two updates) and all tolerances; vector norms 1, 2, infinity and default", opts=dict(max_witnesses=4))
def tolerance(E, dim, ord):
    es = E.mod("estimators")
    atol, rtol = E.real("atol", lo=0, hi=3), E.real("rtol", lo=0, hi=2)
    kw = {} if ord == "default" else dict(ord=dict([(1, 1), ("inf", float("inf")), ("none", None)])[ord])
    tc = es.ToleranceCriterion(rtol=rtol, atol=atol, **kw)
    est = es.MeanEstimator(dim=dim)
    E.true(E.not_(tc(est)), "no sample yet")
    X = E.reals("x", (3, dim)) if dim < 5 else affine(E, (3, dim))
    est.update(X[:1])
    d, m = X[0], X[0]
    rule = lambda d, m: E.or_(E.lt(norm(E, d, ord), atol), E.lt(norm(E, d, ord), rtol * norm(E, m, ord)))
    if ord != "inf" or dim == 1: E.same(tc(est), rule(d, m), "after the first update")
    est.update(X[1:])
    m2 = mean_of(E, X)
    E.same(tc(est), rule(m2 - m, m2), "after the second update")

@harness(quick=[dict(depth=1), dict(depth=2)], bounds="all truth values of the parts; every formula with one or two connectives per level", opts=dict(max_paths=2000, max_witnesses=40))
def composition(E, depth):
    es = E.mod("estimators")
    est = es.MeanEstimator(); est.update(E.reals("x", 2))
    cs = [E.nat(f"c{i}", lo=0) for i in range(3)]
    seen = []
    leaf = [es.CountCriterion(c) for c in cs[:2]] + [es.ConvergenceCriterion(lambda e: (seen.append(e), 2 >= cs[2])[1])]
    val = [E.ge(2, c) for c in cs]
    ops = [("or", lambda a, b: a | b, lambda a, b: E.or_(a, b)), ("and", lambda a, b: a & b, lambda a, b: E.and_(a, b)), ("not", lambda a, b: ~a, lambda a, b: E.not_(a))]
    if depth == 1:
        for nm, f, g in ops:
            for i in range(3):
                for j in range(3):
                    c = f(leaf[i], leaf[j])
                    E.true(isinstance(c, es.ConvergenceCriterion), "composite is a criterion")
                    E.same(c(est), g(val[i], val[j]), f"{nm} {i} {j}")
        for i in range(3): E.same(leaf[i](est), val[i], f"part {i} unchanged")
    else:
        n1 = E.choice("outer", [0, 1]); n2 = E.choice("left", [0, 1, 2]); n3 = E.choice("right", [0, 1, 2])
        l = ops[n2][1](leaf[0], leaf[1]); r = ops[n3][1](leaf[2], leaf[0])
        lv = ops[n2][2](val[0], val[1]); rv = ops[n3][2](val[2], val[0])
        E.same(ops[n1][1](l, r)(est), ops[n1][2](lv, rv), "nested"); E.same((~ops[n1][1](l, r))(est), E.not_(ops[n1][2](lv, rv)), "negated")
        E.same(ops[n1][1](r, l)(est), ops[n1][2](rv, lv), "swapped")
    E.true(all(e is est for e in seen), "parts are asked about the estimator at hand")
    # on an estimator without samples
    e0 = es.MeanEstimator()
    v0 = [E.ge(0, cs[0]), E.ge(0, cs[1]), E.ge(2, cs[2])]
    if depth == 1:
        for nm, f, g in ops:
            for i in range(2):
                for j in range(3): E.same(f(leaf[i], leaf[j])(e0), g(v0[i], v0[j]), f"{nm} {i} {j} without samples")
    # composites are lazy: the same composite follows the estimator
    c = leaf[0] | leaf[1]
    est.update(E.reals("y", 1))
    E.same(c(est), E.or_(E.ge(3, cs[0]), E.ge(3, cs[1])), "composite follows the estimator")

@harness(quick=[dict(kind=k) for k in ("count", "tolerance", "confidence", "or", "and", "not", "custom")], bounds="all samples, counts and tolerances; the same criterion asked about two estimators in turn, twice each", opts=dict(max_paths=600, max_witnesses=12))
def reuse(E, kind):
    """A criterion carries nothing over from one estimator, or one call, to the next."""
    es = E.mod("estimators")
    mk = lambda: es.MeanEstimator(covariance=kind == "confidence")
    X, Y = E.reals("x", 3), E.reals("y", 2)
    c, atol = E.nat("c", lo=0), E.real("atol", lo=0, hi=3)
    if kind == "confidence":
        E.assume(E.not_(E.eqv(X[0] + X[1] + X[2], 0))); E.assume(E.not_(E.eqv(Y[0] + Y[1], 0)))
    def make():
        cnt, cnt2 = es.CountCriterion(c), es.CountCriterion(3)
        tol = es.ToleranceCriterion(rtol=0.0, atol=atol)
        return dict(count=lambda: cnt, tolerance=lambda: tol, confidence=lambda: es.ConfidenceCriterion(confidence=0.9, atol=atol, rtol=0.0), **{"or": lambda: cnt | cnt2, "and": lambda: cnt & cnt2, "not": lambda: ~cnt},
                    custom=lambda: es.ConvergenceCriterion(lambda e: e.n_samples >= c))[kind]()
    def e1():
        e = mk(); e.update(X[:2]); e.update(X[2:]); return e
    def e2():
        e = mk(); e.update(Y); return e
    a, b = e1(), e2()
    want_a, want_b, want_e = make()(a), make()(b), (make()(mk()) if kind != "confidence" else None)
    crit = make()
    for rnd in ("first", "second"):
        E.same(crit(a), want_a, f"one estimator, {rnd} time"); E.same(crit(b), want_b, f"another estimator, {rnd} time")
        if want_e is not None: E.same(crit(mk()), want_e, f"an empty estimator, {rnd} time")
    # asking leaves the estimator as it was
    E.eq(a.estimate, (X[0] + X[1] + X[2]) / 3, "estimate after being judged")
    E.true(len(a) == 3 and len(b) == 2, "sample counts after being judged")

@harness(quick=[dict(name=n) for n in ("count", "Count", "COUNT", "tolerance", "ToleRance", "confidence", "CONFIDENCE", "knee", "Knee")], bounds="all parameter values, an unrelated keyword in every call", opts=dict(max_witnesses=4))
def registry(E, name):
    es = E.mod("estimators")
    X = E.reals("x", 3)
    est = es.MeanEstimator(covariance=True, record=True); est.update(X[:1]); est.update(X[1:])
    a, b = E.real("a", lo=0, hi=3), E.real("b", lo=0, hi=2)
    k = name.lower()
    cls = dict(count=es.CountCriterion, tolerance=es.ToleranceCriterion, confidence=es.ConfidenceCriterion, knee=es.KneeCriterion)[k]
    if k == "confidence": E.assume(E.not_(E.eqv(X[0] + X[1] + X[2], 0)))
    kw = dict(count=dict(count=a), tolerance=dict(atol=a, rtol=b, ord=1), confidence=dict(confidence=0.9, atol=a, rtol=b), knee=dict(S=a + E.frac(1, 8)))[k]
    c = es.convergence_criterion(name, unrelated=7, **kw)
    E.true(type(c) is cls, "kind of criterion")
    E.same(c(est), cls(**kw)(est), "same verdict as the criterion with those arguments")
    if k != "count":
        one = sorted(kw)[0]
        E.same(es.convergence_criterion(name, other=None, **{one: kw[one]})(est), cls(**{one: kw[one]})(est), "defaults for the rest")
    E.true(es.convergence_criterion(c) is c, "a criterion is returned as given")
    comp = c | c
    E.true(es.convergence_criterion(comp, count=3) is comp, "a composite is returned as given")

@harness(quick=[{}])
def unknown(E):
    es = E.mod("estimators")
    for bad in ("", "counts", "toleranc", "none", "default ", 3, None): E.raises(lambda: es.convergence_criterion(bad), f"unknown {bad!r}")
