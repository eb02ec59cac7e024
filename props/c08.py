"""C08: random symmetric matrices have the prescribed spectrum."""
from vsym.reg import harness
from props.util import unit, times
ASSUMPTIONS = ["the drawn entry matrix is invertible (probability one); QR and the orthogonal-group sampler return any orthogonal factor allowed by their contracts"]

def power_sums(E, A, n):
    """traces of A, A^2, ..., A^n: determine the spectrum of a symmetric matrix"""
    out = []; P = A
    for k in range(n):
        out.append(sum(P[i, i] for i in range(n)))
        if k < n - 1: P = P @ A
    return out

def spectrum_is(E, A, w, label):
    n = len(w)
    ps = power_sums(E, A, n)
    for k in range(n): E.eq(ps[k], sum(w[i] ** (k + 1) for i in range(n)), f"{label}: sum of eigenvalues to the power {k + 1}")

def symmetric_claim(E, A, n, label=""):
    E.true(tuple(A.shape) == (n, n), label + "shape")
    for i in range(n):
        for j in range(i): E.true(A[i, j] == A[j, i], f"{label}symmetric at {(i, j)}")

def maxi(E, w): return [v if E.is_true(E.ge(v, 0)) else E.const(0) for v in w]

@harness(quick=[dict(n=n, dist=d, pd=p) for n in (1, 2) for d in ("normal", "uniform") for p in (False, True)] + [dict(n=3, dist="normal", pd=False)], thorough=[dict(n=3, dist="uniform", pd=True)],
         bounds="every draw, every prescribed spectrum, n <= 3", opts=dict(max_witnesses=5))
def prescribed(E, n, dist, pd):
    R = E.mod("random")
    w = E.reals("w", n)
    snap = E.snapshot(w)
    kw = dict(pd=True) if pd else {}
    if dist != "normal": kw["dist"] = dist
    A = R.symmetric(n, ew=w, seed=5, **kw)
    symmetric_claim(E, A, n)
    E.unchanged(w, snap, "spectrum untouched")
    want = maxi(E, w) if pd else list(w)
    spectrum_is(E, A, want, "prescribed")
    B = R.symmetric(n, ew=w, seed=5, **kw)
    if n < 3: E.eq(B, A, "same seed")

@harness(quick=[dict(n=n, dist=d, pd=p) for n in (1, 2) for d in ("normal", "uniform") for p in (False, True)], bounds="every draw, n <= 2", opts=dict(max_witnesses=5))
def unprescribed(E, n, dist, pd):
    """eigenvalues lie in [-1, 1], respectively [0, 1]"""
    R = E.mod("random")
    A = R.symmetric(n, dist=dist, pd=pd, seed=5)
    symmetric_claim(E, A, n)
    lo = 0 if pd else -1
    tr = sum(A[i, i] for i in range(n)); det = A[0, 0] if n == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    if n == 1: E.holds_le(lo, tr, "at least the lower bound"); E.holds_le(tr, 1, "at most 1")
    else:
        # both eigenvalues in [lo, 1]: trace bounds and the characteristic polynomial at the ends
        E.holds_le(2 * lo, tr, "trace lower bound"); E.holds_le(tr, 2, "trace upper bound")
        E.holds_le(0, det - tr + 1, "charpoly(1) >= 0"); E.holds_le(0, det - lo * tr + lo * lo, "charpoly(lower end) >= 0")

@harness(quick=[dict(n=1, given=g) for g in (0, 1)] + [dict(n=2, given=g) for g in (0, 1)] + [dict(n=3, given=1)], bounds="every orthogonal factor (n <= 3), every spectrum", opts=dict(max_witnesses=5))
def haar(E, n, given):
    R = E.mod("random")
    if n == 1 and not given: E.ok("nothing to sample"); return
    if n == 1: E.ok("scipy samples groups of dimension 2 and up"); return
    w = E.reals("w", n)
    snap = E.snapshot(w)
    z = [[E.draw(5, n * i + j + (0 if given else n), "n") for j in range(n)] for i in range(n)]      # scipy fails on a singular draw (probability zero)
    E.assume(E.not_(E.eqv(z[0][0], 0))); E.assume(E.not_(E.eqv(z[0][0] * z[1][1] - z[0][1] * z[1][0], 0)))
    if n == 3: E.assume(E.not_(E.eqv(z[0][0] * (z[1][1] * z[2][2] - z[1][2] * z[2][1]) - z[0][1] * (z[1][0] * z[2][2] - z[1][2] * z[2][0]) + z[0][2] * (z[1][0] * z[2][1] - z[1][1] * z[2][0]), 0)))
    A = R.haar(n, ew=w, seed=5) if given else R.haar(n, seed=5)
    E.true(tuple(A.shape) == (n, n), "shape")
    E.eq(A, A.T, "symmetric")
    if given:
        spectrum_is(E, A, list(w), "prescribed"); E.unchanged(w, snap, "spectrum untouched")
    elif n == 2:
        tr = A[0, 0] + A[1, 1]; det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        E.holds_le(-2, tr, "trace lower bound"); E.holds_le(tr, 2, "trace upper bound")
        E.holds_le(0, det - tr + 1, "charpoly(1) >= 0"); E.holds_le(0, det + tr + 1, "charpoly(-1) >= 0")

@harness(quick=[dict(n=4, dist="normal", pd=False), dict(n=4, dist="uniform", pd=True), dict(n=7, dist="uniform", pd=True), dict(n=7, dist="normal", pd=False)], bounds="spectra t w_i for fixed w_i with repetitions, zeros and both signs, any real t; one matrix of draws", opts=dict(max_witnesses=2))
def large(E, n, dist, pd):
    R = E.mod("random")
    pick = lambda i: (i * 1103515245 + 12345) % 2 ** 31 // 4099 % 7
    E.fix_draws(lambda key, i, kind: E.frac(pick(i) - 3, 1) if kind == "n" else E.frac(pick(i), 8))
    w = E.array([E.frac((i * 7) % 5 - 2, 3) for i in range(n)]); t = E.real("t"); w = w * t
    kw = dict(pd=True) if pd else {}
    A = R.symmetric(n, ew=w, seed=5, dist=dist, **kw)
    symmetric_claim(E, A, n)
    spectrum_is(E, A, maxi(E, w) if pd else list(w), "prescribed")

@harness(quick=[{}], bounds="the listed bad arguments")
def rejects(E):
    R = E.mod("random")
    for bad in ("gaussian", "", "Normal", None): E.raises(lambda: R.symmetric(2, dist=bad, seed=5), f"entry distribution {bad!r}")
    E.raises(lambda: R.haar(2, ew=E.reals("w", 3), seed=5), "too many eigenvalues"); E.raises(lambda: R.haar(3, ew=E.reals("v", 2), seed=5), "too few eigenvalues")
    E.raises(lambda: R.symmetric(2, ew=E.reals("w", 3), seed=5), "too many eigenvalues (symmetric)")
    E.raises(lambda: R.symmetric(3, ew=E.reals("v", 2), seed=5), "too few eigenvalues (symmetric)")

@harness(quick=[dict(power=p, pd=d) for p in (-12, 9) for d in (False, True)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, power, pd):
    """prescribed spectra of any magnitude"""
    R = E.mod("random")
    f = unit(E, power); w = E.reals("w", 2)
    A = R.symmetric(2, ew=E.array([f * w[0], f * w[1]]), pd=pd, seed=5)
    symmetric_claim(E, A, 2)
    spectrum_is(E, A / f, maxi(E, w) if pd else list(w), "prescribed")
