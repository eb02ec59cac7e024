"""C19: XTrace."""
from fractions import Fraction as Fr
from vsym.reg import harness
from props.util import *
from props.c17 import Sampler, the_operator
ASSUMPTIONS = ["the images of the sampled vectors are linearly independent and, on the sphere, no vector is in the span of the other images (XTrace is undefined there)", "qr_insert appends one Gram-Schmidt step, sign of the new column arbitrary"]

def bilin(u, A, v): return sum(u[i] * sum(A[i][j] * v[j] for j in range(len(v))) for i in range(len(u)))
def dot(u, v): return sum(a * b for a, b in zip(u, v))
def inv_small(G):
    n = len(G)
    if n == 0: return []
    if n == 1: return [[1 / G[0][0]]]
    if n == 2:
        d = G[0][0] * G[1][1] - G[0][1] * G[1][0]
        return [[G[1][1] / d, -G[0][1] / d], [-G[1][0] / d, G[0][0] / d]]
    raise NotImplementedError
def projector(E, Y):
    """orthogonal projector onto the span of the given vectors"""
    n = len(Y[0]) if Y else 0
    Gi = inv_small([[dot(a, b) for b in Y] for a in Y])
    return [[sum(Y[a][i] * Gi[a][b] * Y[b][j] for a in range(len(Y)) for b in range(len(Y))) for j in range(n)] for i in range(n)]
def leave_one_out(E, A, W, sphere):
    """list of the m estimates; W a list of vectors"""
    n, m = len(A), len(W)
    Y = [[sum(A[i][j] * w[j] for j in range(n)) for i in range(n)] for w in W]
    out = []
    for k in range(m):
        Z = [y for i, y in enumerate(Y) if i != k]
        P = projector(E, Z) if Z else [[E.const(0)] * n for _ in range(n)]
        g = [W[k][i] - sum(P[i][j] * W[k][j] for j in range(n)) for i in range(n)]
        q = bilin(g, A, g)
        if sphere: E.assume(E.not_(E.eqv(dot(g, g), 0)))
        if sphere: q = q * (n - m + 1) / dot(g, g)
        out.append(sum(P[i][j] * A[j][i] for i in range(n) for j in range(n)) + q)
    return out

def run(E, A, mode, **kw):
    T = E.mod("trace")
    seen = []
    if mode in ("callback", "both"): kw["callback"] = lambda r: seen.append((r.estimate, r.nit, r.estimator))
    if mode in ("full", "both"): kw["full"] = True
    r = T.xtrace(A, **kw)
    if mode in ("plain", "callback"): return r, None, seen
    E.true(isinstance(r, tuple) and len(r) == 2, "estimate and result")
    return r[0], r[1], seen

def symmetric(E, n, shape="full"):
    """symmetric matrix; with few entries for the larger sizes"""
    if shape == "full": return [[E.real(f"A{min(i, j)}{max(i, j)}") for j in range(n)] for i in range(n)]
    a, b, c = E.real("a", nonzero=True), E.real("b"), E.real("c")
    return [[(a if i == 0 else c * (i + 1) if i == j == n - 1 else E.const(i + 2)) if i == j else (b if abs(i - j) == 1 and min(i, j) == 0 else E.const(1) if abs(i - j) == 1 else E.const(0)) for j in range(n)] for i in range(n)]
def independent(E, A, W):
    n = len(A)
    Y = [[sum(A[i][j] * w[j] for j in range(n)) for i in range(n)] for w in W]
    if len(Y) == 1: E.assume(E.not_(E.eqv(dot(Y[0], Y[0]), 0)))
    elif len(Y) == n and n < 4: 
        M = Y
        d = M[0][0] * M[1][1] - M[0][1] * M[1][0] if n == 2 else sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3))
        E.assume(E.not_(E.eqv(d, 0)))
        independent(E, A, W[:-1])
    elif len(Y) == 2:
        E.assume(E.not_(E.eqv(dot(Y[0], Y[0]) * dot(Y[1], Y[1]) - dot(Y[0], Y[1]) ** 2, 0)))
        E.assume(E.not_(E.eqv(dot(Y[0], Y[0]), 0)))

VECS = {1: [[1]], 2: [[1, 2], [-1, 1]], 3: [[1, 0, 2], [-1, 1, 1], [2, 1, 0]], 4: [[1, 0, 2, -1], [-1, 1, 1, 0], [0, 1, 0, 2], [1, 1, 1, 1]]}
class Fixed(Sampler):
    def __init__(self, E, W): Sampler.__init__(self, E); self.W = W
    def __call__(self, size):
        n, b = size
        k = len(self.cols)
        self.batches.append(b)
        for j in range(b): self.cols.append(self.W[k + j])
        return self.E.array([[self.W[k + j][i] for j in range(b)] for i in range(n)])

@harness(quick=[dict(n=n, m=m, batch=b, mode=mo, op=o, A="full") for n, m, b, mo, o in ((1, 1, 1, "plain", "dense"), (2, 1, 1, "full", "dense"), (2, 2, 2, "plain", "op"), (2, 2, 1, "both", "dense"), (2, 2, 32, "full", "dense"), (3, 1, 1, "plain", "op"))] + [dict(n=n, m=m, batch=b, mode=mo, op="dense", A="few") for n, m, b, mo in ((3, 2, 2, "plain"), (3, 2, 1, "both"), (3, 3, 3, "full"), (3, 3, 2, "callback"))],
         bounds="all 2x2 (few-parameter 3x3) symmetric matrices, fixed integer test vectors", thorough=[dict(n=4, m=m, batch=b, mode="plain", op="dense", A="few") for m, b in ((2, 2), (2, 1))], opts=dict(max_witnesses=2, max_depth=120))
def estimate(E, n, m, batch, mode, op, A):
    """mean of the leave-one-out estimates over the vectors sampled when the criterion first holds"""
    B = symmetric(E, n, A)
    W = [[E.const(x) for x in w] for w in VECS[n]]
    independent(E, B, W[:m])
    M = E.array(B); snap = E.snapshot(M)
    s = Fixed(E, W)
    kw = dict(converge="count", count=m) if m < n else {}
    est, res, seen = run(E, the_operator(E, op, M, n), mode, batch=batch, pdf=s, **kw)
    drawn = min(n, -(-m // batch) * batch)
    E.true(len(s.cols) == drawn, f"number of vectors ({len(s.cols)})")
    want = leave_one_out(E, B, W[:drawn], False)
    E.eq(est, sum(want) / drawn, "mean of the leave-one-out estimates")
    E.unchanged(M, snap, "operator untouched")
    if mode in ("callback", "both"):
        E.true(len(seen) == len(s.batches), "callback after every batch")
        k = 0
        for (e, nit, r), b in zip(seen, s.batches):
            k += b
            E.eq(e, sum(leave_one_out(E, B, W[:k], False)) / k, f"estimate seen after {k} vectors"); E.true(nit == k, f"count seen after {k} vectors")
    if res is not None: E.eq(res.estimate, est, "result carries the estimate"); E.true(res.nit == drawn, "number of vectors reported")

@harness(quick=[dict(n=2, m=1, batch=1), dict(n=2, m=2, batch=2), dict(n=2, m=2, batch=1), dict(n=1, m=1, batch=1)], bounds="all symmetric matrices of size n, all vectors on the sphere (rational parametrisation)", opts=dict(max_witnesses=2, max_depth=120))
def sphere(E, n, m, batch):
    """named sphere distribution: residual parts rescaled; with n vectors the exact trace"""
    B = symmetric(E, n)
    W = []
    for j in range(m):
        if n == 1: z = [E.const(1)]
        else:
            t = E.real(f"t{j}") if j == 0 else E.frac(1, 3); q = 1 + t * t
            z = [(1 - t * t) / q, 2 * t / q]
        W.append([E.sqrt(E.const(n)) * x for x in z])
        zs = z
        b0 = (j // batch) * batch; nb = min(batch, n - b0)
        for i in range(n): E.fix_draw(5, b0 * n + (j - b0) * n + i, "n", z[i])
    independent(E, B, W)
    kw = dict(converge="count", count=m) if m < n else {}
    est, res, _ = run(E, E.array(B), "full", batch=batch, seed=5, pdf="sphere", **kw)
    E.eq(est, sum(leave_one_out(E, B, W, True)) / m, "mean of the rescaled leave-one-out estimates")
    if m == n: E.eq(est, sum(B[i][i] for i in range(n)), "exact trace with n vectors")
    E.true(res.nit == m, "number of vectors")

@harness(quick=[dict(pdf=p) for p in ("rademacher", "normal", "signs", "gaussian", "default")], bounds="all 2x2 symmetric matrices, one fixed pair of vectors of each distribution", opts=dict(max_witnesses=2, max_depth=120))
def named_samplers(E, pdf):
    """only the sphere distribution is rescaled; the sphere is the default"""
    B = symmetric(E, 2)
    if pdf in ("rademacher", "signs"):
        W = [[1, 1], [1, -1]]
        for i, x in enumerate([1, 1, 1, -1]): E.fix_draw(5, i, "u", E.frac(3, 4) if x > 0 else E.frac(1, 4))
    else:
        W = [[3, 4], [4, -3]]
        for i, x in enumerate([3, 4, 4, -3]): E.fix_draw(5, i, "n", E.const(x))
        if pdf == "default": W = [[E.sqrt(E.const(2)) * E.frac(x, 5) for x in w] for w in W]
    W = [[x + E.const(0) for x in w] for w in W]
    independent(E, B, W)
    kw = {} if pdf == "default" else dict(pdf=pdf)
    est, _, _ = run(E, E.array(B), "plain", seed=5, **kw)
    E.eq(est, sum(leave_one_out(E, B, W, pdf == "default")) / 2, "mean of the leave-one-out estimates")

@harness(quick=[dict(n=n, batch=b, stop=k) for n, b, k in ((3, 1, 1), (3, 1, 2), (3, 2, 1), (3, 1, 9), (2, 1, 9), (2, 5, 9), (1, 3, 9), (3, 2, 9))], bounds="diagonal matrices of size n, unit-like vectors, custom criteria", opts=dict(max_witnesses=2, max_depth=120))
def stops_first(E, n, batch, stop):
    """stops as soon as the given criterion holds, at n vectors at the latest, and never draws more"""
    es = E.mod("estimators")
    a = E.real("a", nonzero=True)
    s = Fixed(E, [[E.const(int(i == j)) for i in range(n)] for j in range(n)])
    asked = []
    crit = es.ConvergenceCriterion(lambda e: (asked.append(len(e)), len(e) >= stop)[1])
    est, res, _ = run(E, a * E.np.eye(n), "full", batch=batch, pdf=s, converge=crit)
    want = min(n, -(-stop // batch) * batch)
    E.true(len(s.cols) == want, f"number of vectors ({len(s.cols)})")
    E.true(res.nit == want and len(res.estimator) == want, "reported number")
    sizes = []
    k = 0
    while k < want: sizes.append(min(batch, n - k)); k += sizes[-1]
    E.true(s.batches == sizes, f"batches {s.batches}")
    E.eq(res.estimate, est, "result carries the estimate")
@harness(quick=[dict(n=n, rel=r) for n in (2, 3) for r in (0, 1)], bounds="diagonal matrices of size n, unit vectors one at a time, all tolerances", opts=dict(max_witnesses=4, max_depth=120))
def tolerance(E, n, rel):
    """the tolerance criterion judges the change between successive estimates"""
    d = [E.real(f"d{i}", nonzero=True) for i in range(n)]
    M = E.array([[d[i] if i == j else E.const(0) for j in range(n)] for i in range(n)])
    tol = E.real("tol", lo=0, hi=3)
    s = Fixed(E, [[E.const(int(i == j)) for i in range(n)] for j in range(n)])
    kw = dict(rtol=tol, atol=0.0) if rel else dict(atol=tol, rtol=0.0)
    est, res, _ = run(E, M, "full", batch=1, pdf=s, converge="tolerance", **kw)
    k = len(s.cols)
    rule = lambda j: E.lt(abs(d[j - 1]), tol * abs(sum(d[:j])) if rel else tol)
    for j in range(1, k): E.true(E.not_(rule(j)), f"criterion does not hold after {j} vectors")
    if k < n: E.true(rule(k), f"criterion holds after {k} vectors")
    E.eq(est, sum(d[:k]), "estimate"); E.true(res.nit == k, "number of vectors")

@harness(quick=[dict(n=2), dict(n=3)], bounds="rank-one operators a e1 e1^T, fixed vectors", opts=dict(max_witnesses=2))
def dependent_images(E, n):
    """an operator of lower rank than the number of vectors: every leave-one-out estimate is the trace"""
    a = E.real("a", nonzero=True)
    M = a * E.array([[int(i == j == 0) for j in range(n)] for i in range(n)])
    W = [[E.const(x) for x in w] for w in ([1, 2, 1], [2, 1, -1], [1, -1, 3])]
    r, exc = E.attempt(lambda: run(E, M, "plain", batch=n, pdf=Fixed(E, [w[:n] for w in W])))
    if exc is not None: E.fail("estimate for linearly dependent images")
    else: E.eq(r[0], a, "trace of an operator of low rank")

def exact_loo(A0, W, sphere):
    """the leave-one-out estimates in rational arithmetic"""
    F = Fr; n, m = len(A0), len(W)
    Y = [[sum(F(A0[i][j]) * w[j] for j in range(n)) for i in range(n)] for w in W]
    out = []
    for k in range(m):
        Z = [y for i, y in enumerate(Y) if i != k]
        if Z:
            Gi = inv_frac([[dot(a, b) for b in Z] for a in Z])
            C = [[sum(Gi[a][b] * Z[b][j] for b in range(len(Z))) for j in range(n)] for a in range(len(Z))]
            P = [[sum(Z[a][i] * C[a][j] for a in range(len(Z))) for j in range(n)] for i in range(n)]
        else: P = [[F(0)] * n for _ in range(n)]
        g = [W[k][i] - sum(P[i][j] * W[k][j] for j in range(n)) for i in range(n)]
        q = sum(g[i] * sum(A0[i][j] * g[j] for j in range(n)) for i in range(n))
        if sphere: q = q * (n - m + 1) / dot(g, g)
        out.append(sum(P[i][j] * A0[j][i] for i in range(n) for j in range(n)) + q)
    return out

@harness(quick=[dict(n=n, m=m, batch=b, pdf=p, op=o) for n, m, b, p, o in ((6, 3, 1, "fixed", "dense"), (8, 4, 2, "fixed", "op"), (8, 8, 3, "fixed", "dense"), (12, 5, 5, "fixed", "dense"), (6, 3, 2, "sphere", "dense"), (8, 5, 5, "sphere", "op"), (10, 4, 32, "fixed", "dense"))],
         thorough=[dict(n=12, m=12, batch=4, pdf="fixed", op="dense"), dict(n=20, m=6, batch=3, pdf="fixed", op="dense")], bounds="t A for one fixed matrix A of size n up to 12 (thorough: 20), fixed vectors, any t > 0", opts=dict(max_witnesses=2, max_depth=200))
def wide(E, n, m, batch, pdf, op):
    """larger operators, more vectors, several batches"""
    t = E.real("t", pos=True)
    A0 = [[(2 + (i * 5) % 7 if i == j else ((i + j) * (i + j + 1)) % 3 - 1 if abs(i - j) < 4 else 0) for j in range(n)] for i in range(n)]
    drawn = min(n, -(-m // batch) * batch)
    if pdf == "sphere":
        H = householder(n)
        W = [[H[i][j] for i in range(n)] for j in range(drawn)]
        W[0] = [Fr(3, 5), Fr(4, 5)] + [Fr(0)] * (n - 2)
        k = 0
        while k < drawn:        # one batch after the other, entries by column
            nb = min(batch, n - k)
            for j in range(nb):
                for i in range(n): E.fix_draw(5, k * n + j * n + i, "n", E.frac(W[k + j][i].numerator, W[k + j][i].denominator))
            k += nb
        s = None; kw = dict(seed=5, pdf="sphere")
        want = exact_loo(A0, W, True)
        # the vectors have length sqrt(n); only their direction matters to the leave-one-out estimates, the residuals are rescaled
    else:
        T = [[(1 if i == j else (i + j) % 3 - 1 if i > j else 0) for j in range(n)] for i in range(n)]
        W = [[Fr(T[i][j]) for i in range(n)] for j in range(n)][:drawn]
        s = Fixed(E, [[E.const(int(x)) for x in w] for w in W] + [[E.const(1)] * n] * n); kw = dict(pdf=s)
        want = exact_loo(A0, W, False)
    M = E.array([[t * x for x in r] for r in A0])
    if m < n: kw.update(converge="count", count=m)
    est, res, seen = run(E, the_operator(E, op, M, n), "both", batch=batch, **kw)
    if s is not None: E.true(len(s.cols) == drawn, f"number of vectors ({len(s.cols)})")
    v = sum(want) / drawn
    E.eq(est, t * E.frac(v.numerator, v.denominator), "mean of the leave-one-out estimates")
    E.true(res.nit == drawn, "number of vectors reported")
    E.true(len(seen) == -(-drawn // batch), "callback after every batch")

@harness(quick=[dict(n=n, m=m, batch=b, power=p) for n, m, b in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 1)) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2, max_depth=120))
def units(E, n, m, batch, power):
    """operators of any magnitude"""
    f = unit(E, power)
    B = symmetric(E, n, "full" if n < 3 else "few"); W = [[E.const(x) for x in w] for w in VECS[n]]
    independent(E, B, W[:m])
    kw = dict(converge="count", count=m) if m < n else {}
    est, _, _ = run(E, E.array(times(f, B)), "plain", batch=batch, pdf=Fixed(E, W), **kw)
    E.eq(est / f, sum(leave_one_out(E, B, W[:m], False)) / m, "mean of the leave-one-out estimates")
