"""C06: the knee criterion."""
from vsym.reg import harness

def oracle(E, X, n, S):
    m = [sum(X[j] for j in range(i + 1)) / (i + 1) for i in range(n)]
    y = []
    for i in range(n - 1):
        d = m[i + 1] - m[i]
        d = d if E.is_true(E.ge(d, 0)) else -d
        y.append(d if i == 0 else y[-1] + d)
    k = len(y)
    r = y[-1] - y[0]                     # the curve is nondecreasing
    # with r > 0:  r*d_i = y_i - y_0 - r*i/(k-1);   holds iff d_last < d_i - S/(k-1) for some i (S > 0)
    rd = [y[i] - y[0] - r * E.frac(i, k - 1) for i in range(k)]
    return r, E.or_(*[E.lt(rd[-1], rd[i] - r * S / (k - 1)) for i in range(k)])

@harness(quick=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=5)], bounds="all recorded real values (n of them), all sensitivities > 0", opts=dict(max_witnesses=6, max_paths=1500))
def verdict(E, n):
    es = E.mod("estimators")
    S = E.real("S", pos=True, hi=4)
    kc = es.KneeCriterion(S)
    est = es.MeanEstimator(record=True)
    X = E.reals("x", max(n, 1))
    i = 0
    while i < n:
        b = 1 if i else min(2, n); est.update(X[i: i + b]); i += b
    if n < 3:
        E.true(E.not_(kc(est)), "fewer than three values"); return
    r, want = oracle(E, X, n, S)
    E.assume(E.gt(r, 0))
    E.same(kc(est), want, f"verdict on {n} values")
    q = es.MeanEstimator(record=False); q.update(X)
    E.true(E.not_(kc(q)), "nothing recorded")

@harness(quick=[dict(n=3, neg=False), dict(n=4, neg=False), dict(n=3, neg=True), dict(n=4, neg=True)], bounds="all values, sensitivities > 0 and scale factors of either sign", opts=dict(max_witnesses=6, max_paths=1500))
def scaling(E, n, neg):
    """the verdict does not depend on the unit of the values"""
    es = E.mod("estimators")
    S = E.real("S", pos=True, hi=3)
    kc = es.KneeCriterion(S)
    X = E.reals("x", n); t = E.real("t", pos=True)
    t = -t if neg else t
    r, want = oracle(E, X, n, S)
    E.assume(E.gt(r, 0))
    a = es.MeanEstimator(record=True); a.update(t * X)
    E.same(kc(a), want, "verdict on scaled values")

@harness(quick=[dict(n=3), dict(n=5)], bounds="constant sequences")
def flat(E, n):
    es = E.mod("estimators")
    x = E.real("x"); S = E.real("S", pos=True)
    est = es.MeanEstimator(record=True)
    for _ in range(n): est.update(x)
    v, e = E.attempt(lambda: es.KneeCriterion(S)(est))
    E.true(e is None and not bool(v), "no knee in a constant sequence")

@harness(quick=[dict(n=n, kind=k) for n in (7, 12, 45) for k in ("settling", "noisy", "drift")], thorough=[dict(n=n, kind=k) for n in (8, 20, 31, 100) for k in ("settling", "noisy", "drift", "late")], bounds="sequences t v_i of n fixed rationals v_i of three shapes; all sensitivities > 0 and scales t > 0", opts=dict(max_witnesses=8, max_paths=400))
def long(E, n, kind):
    """long sequences, in one update or in several"""
    es = E.mod("estimators")
    S = E.real("S", pos=True, hi=50); t = E.real("t", pos=True, lo=E.frac(1, 8), hi=8)
    kc = es.KneeCriterion(S)
    v = [dict(settling=E.frac(3, 1) + E.frac((-1) ** i * 8, i + 1), noisy=E.frac((i * i * 7 + 3 * i) % 11 - 4, 1), drift=E.frac(i, 2) + E.frac((i * 5) % 3, 4), late=E.frac(1 if i < n - 3 else 5 * i, 1))[kind] for i in range(n)]
    X = E.array([x * t for x in v])
    r, want = oracle(E, X, n, S)
    E.assume(E.gt(r, 0))
    a, b = es.MeanEstimator(record=True), es.MeanEstimator(record=True)
    a.update(X)
    for i in range(0, n, 5): b.update(X[i: i + 5])
    E.same(kc(a), want, "verdict"); E.same(kc(b), want, "verdict after several updates")
