"""C21: XDiag."""
from vsym.reg import harness
from props.util import *
from props.c17 import the_operator
from fractions import Fraction as Fr
from props.c19 import householder, projector, dot, symmetric, independent, VECS
ASSUMPTIONS = ["the images of the sampled vectors are linearly independent", "np.linalg.qr by Gram-Schmidt, signs arbitrary"]

def leave_one_out(E, A, W):
    n, m = len(A), len(W)
    Y = [[sum(A[i][j] * w[j] for j in range(n)) for i in range(n)] for w in W]
    out = []
    for k in range(m):
        Z = [y for i, y in enumerate(Y) if i != k]
        P = projector(E, Z) if Z else [[E.const(0)] * n for _ in range(n)]
        PA = [[sum(P[i][t] * A[t][j] for t in range(n)) for j in range(n)] for i in range(n)]
        Rw = [Y[k][i] - sum(P[i][j] * Y[k][j] for j in range(n)) for i in range(n)]
        out.append([PA[i][i] + W[k][i] * Rw[i] for i in range(n)])
    return out

def draws(E, n, m, pdf, seed=5):
    """fix the generator's stream so that the sampled vectors are known; returns them"""
    if pdf in ("rademacher", "signs"):
        W = [[1 if ((j * 3 + i * (j + 1)) % 3) != 1 else -1 for i in range(n)] for j in range(m)] if n > 2 else [[1, 1][:n], [1, -1][:n]][:m]
        if n == 3: W = [[1, 1, 1], [1, -1, 1], [1, 1, -1]][:m]
        for j in range(m):
            for i in range(n): E.fix_draw(seed, j * n + i, "u", E.frac(3, 4) if W[j][i] > 0 else E.frac(1, 4))
        return [[E.const(x) for x in w] for w in W]
    W = VECS[n][:m]
    if pdf in ("sphere", "default"):
        W = {1: [[1]], 2: [[3, 4], [5, -12]], 3: [[1, 2, 2], [2, -3, 6], [4, 4, -7]]}[n][:m]
    for j in range(m):
        for i in range(n): E.fix_draw(seed, j * n + i, "n", E.const(W[j][i]))
    if pdf in ("normal", "gaussian"): return [[E.const(x) for x in w] for w in W]
    out = []
    for w in W:
        r = {1: 1, 25: 5, 169: 13, 9: 3, 49: 7, 81: 9}[sum(x * x for x in w)]
        out.append([E.sqrt(E.const(n)) * E.frac(x, r) for x in w])
    return out

PDF = ["rademacher", "normal", "sphere", "default"]
@harness(quick=[dict(n=n, m=m, pdf=p, op=o, A="full") for n, m, p, o in ((1, 1, "normal", "dense"), (1, 2, "default", "dense"), (2, 1, "rademacher", "dense"), (2, 2, "normal", "dense"), (2, 3, "normal", "dense"), (2, 4, "rademacher", "dense"), (2, 4, "sphere", "dense"), (2, None, "default", "dense"), (2, 9, "normal", "dense"), (3, 2, "normal", "dense"), (3, 1, "default", "dense"))]
         + [dict(n=3, m=m, pdf=p, op="dense", A="few") for m, p in ((3, "normal"), (4, "sphere"), (6, "rademacher"), (5, "normal"))], thorough=[dict(n=3, m=6, pdf=p, op="dense", A="few") for p in ("normal", "sphere")],
         bounds="all symmetric 2x2 (few-parameter 3x3) matrices, fixed test vectors of each distribution", opts=dict(max_witnesses=2, max_depth=120))
def estimate(E, n, m, pdf, op, A):
    """mean of the leave-one-out deflated diagonal estimates; number of vectors"""
    D = E.mod("diagonal")
    B = symmetric(E, n, A)
    k = n if m is None else min(n, (m + 1) // 2)
    W = draws(E, n, k, pdf)
    independent(E, B, W)
    M = E.array(B); snap = E.snapshot(M)
    kw = {} if m is None else dict(m=m)
    if pdf != "default": kw["pdf"] = pdf
    d = D.xdiag(M, seed=5, **kw)
    want = leave_one_out(E, B, W)
    E.true(tuple(d.shape) == (n,), "shape")
    E.eq(d, E.array([sum(w[i] for w in want) / k for i in range(n)]), "mean of the leave-one-out estimates")
    E.true(len(E.draws(("seed", 5), "u" if pdf == "rademacher" else "n")) == n * k, "number of vectors drawn")
    E.unchanged(M, snap, "operator untouched")

@harness(quick=[dict(m=m, pdf=p) for m in (1, 2, 3, 4) for p in ("normal", "rademacher")], bounds="all invertible 2x2 matrices, not necessarily symmetric; fixed test vectors", opts=dict(max_witnesses=2, max_depth=120))
def nonsymmetric(E, m, pdf):
    D = E.mod("diagonal")
    B = [[E.real(f"A{i}{j}") for j in range(2)] for i in range(2)]
    k = min(2, (m + 1) // 2)
    W = draws(E, 2, k, pdf); independent(E, B, W)
    d = D.xdiag(E.array(B), m=m, pdf=pdf, seed=5)
    want = leave_one_out(E, B, W)
    E.eq(d, E.array([sum(w[i] for w in want) / k for i in range(2)]), "mean of the leave-one-out estimates")

@harness(quick=[dict(n=n, m=m, pdf=p, op=o, sym=q) for n, m, p, o, q in ((6, 6, "normal", "dense", True), (8, 7, "normal", "dense", False), (12, 10, "rademacher", "dense", True), (9, 18, "normal", "dense", True), (5, 10, "rademacher", "dense", False), (16, 4, "normal", "dense", False), (7, None, "normal", "dense", False), (6, 5, "sphere", "dense", True))],
         thorough=[dict(n=24, m=12, pdf="normal", op="dense", sym=False), dict(n=14, m=28, pdf="normal", op="dense", sym=True), dict(n=40, m=5, pdf="rademacher", op="dense", sym=True)],
         bounds="t B for all t > 0 and one fixed matrix B of size n up to 16 (thorough: 40), fixed test vectors", opts=dict(max_witnesses=1, max_depth=200))
def wide(E, n, m, pdf, op, sym):
    """larger operators, more vectors"""
    t = E.real("t", pos=True)
    D = E.mod("diagonal")
    B = [[Fr(2 + (i * 5) % 7 if i == j else ((i + j) * (i + j + 1)) % 3 - 1 if abs(i - j) < 4 else 0) + (0 if sym or abs(i - j) > 2 else Fr((2 * i + 5 * j) % 4, 3)) for j in range(n)] for i in range(n)]
    k = n if m is None else min(n, (m + 1) // 2)
    if pdf == "sphere":
        H = householder(n); W = [[H[i][j] for i in range(n)] for j in range(k)]
    elif pdf == "normal": W = [[Fr(1 if i == j else (i + j) % 3 - 1 if i > j else 0) for i in range(n)] for j in range(k)]
    else: W = [[Fr(1 if (j * i * (i + 1) // 2 + i // (j + 1)) % 3 != 1 else -1) for i in range(n)] if n > 5 else [Fr(-1 if i == j else 1) for i in range(n)] for j in range(k)]
    for j in range(k):
        for i in range(n):
            if pdf == "rademacher": E.fix_draw(5, j * n + i, "u", E.frac(3 if W[j][i] > 0 else 1, 4))
            else: E.fix_draw(5, j * n + i, "n", E.frac(W[j][i].numerator, W[j][i].denominator))
    kw = {} if m is None else dict(m=m)
    M = E.array([[t * E.frac(x.numerator, x.denominator) for x in r] for r in B])
    d = D.xdiag(the_operator(E, op, M, n) if op == "op" else M, seed=5, pdf=pdf, **kw)
    tot = [Fr(0)] * n
    Y = [[sum(B[i][j] * w[j] for j in range(n)) for i in range(n)] for w in W]
    for q in range(k):
        Z = [y for i, y in enumerate(Y) if i != q]
        P = [[Fr(0)] * n for _ in range(n)]
        if Z:
            Gi = inv_frac([[sum(a * b for a, b in zip(x, y)) for y in Z] for x in Z])
            C = [[sum(Gi[a][b] * Z[b][j] for b in range(len(Z))) for j in range(n)] for a in range(len(Z))]
            P = [[sum(Z[a][i] * C[a][j] for a in range(len(Z))) for j in range(n)] for i in range(n)]
        for i in range(n):
            tot[i] += sum(P[i][j] * B[j][i] for j in range(n)) + W[q][i] * (n if pdf == "sphere" else 1) * (Y[q][i] - sum(P[i][j] * Y[q][j] for j in range(n)))
    E.true(tuple(d.shape) == (n,), "shape")
    E.eq(d, E.array([t * E.frac((x / k).numerator, (x / k).denominator) for x in tot]), "mean of the leave-one-out estimates")

@harness(quick=[dict(n=n, m=m) for n in (1, 2, 3, 5, 7) for m in (1, 2, 3, 4, 5, 6, 9, 14, 40, None)], bounds="sizes and requests listed; diagonal operators", opts=dict(max_witnesses=1, max_depth=200))
def number_of_vectors(E, n, m):
    """half the requested products rounded up, never more than n vectors; exact for diagonal operators with unit-like vectors"""
    D = E.mod("diagonal")
    a = E.real("a", nonzero=True)
    k = n if m is None else min(n, (m + 1) // 2)
    for j in range(n):
        for i in range(n): E.fix_draw(5, j * n + i, "n", E.const(int(i == j)))
    calls = []
    d = D.xdiag(a * E.np.eye(n), m=m, pdf="normal", seed=5)
    E.true(len(E.draws(("seed", 5), "n")) == n * k, "number of vectors drawn")
    E.eq(d, E.array([a * (i < k) for i in range(n)]), "value")

@harness(quick=[{}], bounds="the listed arguments")
def rejects(E):
    D = E.mod("diagonal"); M = E.reals("A", (2, 2))
    for bad in ("cauchy", ""): E.raises(lambda: D.xdiag(M, pdf=bad), f"unknown distribution {bad!r}")

@harness(quick=[dict(n=n, m=m, pdf=q, power=p) for n, m, q in ((1, 1, "normal"), (2, 2, "normal"), (2, 4, "rademacher"), (2, 4, "sphere")) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2, max_depth=120))
def units(E, n, m, pdf, power):
    """operators of any magnitude"""
    D = E.mod("diagonal")
    f = unit(E, power); B = symmetric(E, n, "full"); k = min(n, (m + 1) // 2)
    W = draws(E, n, k, pdf); independent(E, B, W)
    d = D.xdiag(E.array(times(f, B)), m=m, pdf=pdf, seed=5)
    want = leave_one_out(E, B, W)
    E.eq(d / f, E.array([sum(w[i] for w in want) / k for i in range(n)]), "mean of the leave-one-out estimates")
