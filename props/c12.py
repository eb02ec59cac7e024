"""C12: tridiagonal eigensolvers."""
from vsym.reg import harness
from props.util import *
ASSUMPTIONS = ["LAPACK's tridiagonal drivers return an orthonormal eigendecomposition or raise LinAlgError", "the QL iteration is decided in exact arithmetic: complete for couplings that leave blocks of size one and two; larger blocks: every truncated run is an exact orthogonal similarity"]

def arrays(E, d, e, zero):
    return E.array(d), E.array([E.const(0)] + list(e)) if zero else E.array(list(e))

def prep(E, d, e, zero):
    D, X = arrays(E, d, e, zero)
    return D, X, (E.snapshot(D), E.snapshot(X))

def run(E, f, d, e, zero, **kw):
    D, X, (s1, s2) = prep(E, d, e, zero)
    r = f(D, X, **kw)
    E.unchanged(D, s1, "diagonal untouched"); E.unchanged(X, s2, "subdiagonal untouched")
    return r, D, X

BLOCKS = [dict(pattern=p) for p in ("", "e", "0", "e0", "0e", "00", "e0e", "0e0", "000", "e00e")]
@harness(quick=[dict(pattern=p, method=m, zero=z) for p in ("", "e", "0", "e0", "0e") for m in ("tqli", "mrrr", "auto", "default", "fail") for z in (0, 1)] + [dict(pattern=p, method=m, zero=1) for p in ("00", "0e0") for m in ("tqli", "fail")],
         thorough=[dict(pattern=p, method=m, zero=z) for p in ("000", "e0e", "e00e", "0e0e", "e0e0e") for m in ("tqli", "auto", "fail") for z in (0, 1)],
         bounds="all diagonals and couplings; pattern: e = arbitrary coupling (zero included), 0 = coupling exactly zero; blocks of size at most two", opts=dict(max_witnesses=3, max_paths=600))
def blocks(E, pattern, method, zero):
    """eigenvalues and orthonormal eigenvectors, for every method, with LAPACK failing or not"""
    tm = E.mod("tridiag")
    n = len(pattern) + 1
    d = [E.real(f"d{i}") for i in range(n)]
    e = [E.real(f"e{i}") if c == "e" else E.const(0) for i, c in enumerate(pattern)]
    T = tridiag(E, d, e)
    E.lapack(method == "fail")
    kw = {} if method in ("default", "fail") else dict(method=method)
    r, D, X = run(E, tm.eigh_tridiag, d, e, zero, **kw)
    E.true(len(r) == 2, "values and vectors")
    w, V = r
    E.true(tuple(w.shape) == (n,) and tuple(V.shape) == (n, n), "shapes")
    eigen_claims(E, T, [w[i] for i in range(n)], rows(V), "")
    E.true(not E.shares(w, D) and not E.shares(V, D), "results are new arrays")
    wv, D, X = run(E, tm.eigvalsh_tridiag, d, e, zero, **kw)
    E.true(E.is_array(wv) and tuple(wv.shape) == (n,), "values only")
    power_sum_claims(E, T, [wv[i] for i in range(n)], "values only: ")
    E.true(not E.shares(wv, D) and not E.shares(wv, X), "values are a new array")

@harness(quick=[dict(pattern=p, method=m, power=k) for p in ("e", "e0") for m in ("tqli", "auto", "fail") for k in (-14, 9)], thorough=[dict(pattern="0e", method=m, power=k) for m in ("tqli", "fail") for k in (-30, -14, 9, 20)],
         bounds="all matrices with blocks of size at most two, times 10^power", opts=dict(max_witnesses=3, max_paths=400))
def scaled(E, pattern, method, power):
    """the decomposition does not depend on the units: a multiple of the matrix has the same vectors and that multiple of the values"""
    tm = E.mod("tridiag")
    n = len(pattern) + 1
    f = E.const(E.frac(10 ** power, 1) if power > 0 else E.frac(1, 10 ** -power))
    d = [E.real(f"d{i}") for i in range(n)]
    e = [E.real(f"e{i}") if c == "e" else E.const(0) for i, c in enumerate(pattern)]
    E.lapack(method == "fail")
    kw = {} if method == "fail" else dict(method=method)
    r, D, X = run(E, tm.eigh_tridiag, [f * x for x in d], [f * x for x in e], 1, **kw)
    eigen_claims(E, tridiag(E, d, e), [r[0][i] / f for i in range(n)], rows(r[1]), "")

@harness(quick=[dict(method=m) for m in ("mrrr", "auto")], bounds="all 3x3 Jacobi matrices", opts=dict(max_witnesses=4))
def lapack3(E, method):
    tm = E.mod("tridiag")
    d, e, w0, V0 = jacobi(E, 3)
    T = tridiag(E, d, e)
    for zero in (0, 1):
        (w, V), D, X = run(E, tm.eigh_tridiag, d, e, zero, method=method)
        eigen_claims(E, T, [w[i] for i in range(3)], rows(V), f"zero={zero}: ")
        wv, D, X = run(E, tm.eigvalsh_tridiag, d, e, zero, method=method)
        E.eq(wv, w, "values only")

@harness(quick=[dict(n=2, it=k) for k in (-1, 0, 1, 30)], bounds="all diagonals and nonzero couplings, n = 2; every iteration limit", opts=dict(max_witnesses=4))
def limit(E, n, it):
    """the automatic method hands the caller's iteration limit to the fallback"""
    tm = E.mod("tridiag")
    d = [E.real(f"d{i}") for i in range(n)]; e = [E.real(f"e{i}", nonzero=True) for i in range(n - 1)]
    (w1, V1), _, _ = run(E, tm.eigh_tridiag, d, e, 1, method="tqli", maxiter=it)
    v1, _, _ = run(E, tm.eigvalsh_tridiag, d, e, 0, method="tqli", maxiter=it)
    E.lapack(True)
    (w2, V2), _, _ = run(E, tm.eigh_tridiag, d, e, 1, maxiter=it)
    v2, _, _ = run(E, tm.eigvalsh_tridiag, d, e, 0, maxiter=it)
    E.eq(w2, w1, "values as the implicit-shift solver with that limit"); E.eq(V2, V1, "vectors as the implicit-shift solver with that limit", obs=False)
    E.eq(v2, v1, "values only")
    E.lapack(False)
    orthonormal(E, rows(V1), "vectors stay orthonormal whatever the limit: ")

@harness(quick=[dict(case=c) for c in ("golden", "golden2", "golden3")], thorough=[dict(case=c) for c in ("nonit", "couplings", "corner", "shift", "diag")], bounds="one sweep on 3x3 matrices of one-parameter families", opts=dict(max_witnesses=6, time=200, max_paths=60, max_replays=6))
def sweep3(E, case):
    """every truncated run of the implicit-shift solver is an orthogonal similarity: the diagonal is the diagonal of Z^T T Z and what is left over has the norm of the couplings it leaves"""
    q = E.mod("tqli")
    x = E.real("x")
    if case == "shift": d, e = [x, E.const(0), E.const(2)], [E.const(2), E.const(1)]; E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    elif case == "diag": d, e = [E.const(1), x, E.const(-1)], [E.const(1), E.const(1)]
    elif case == "golden": d, e = [E.const(0), E.const(0), x], [E.const(1), E.const(1)]
    elif case == "golden2": d, e = [x, x, E.const(1)], [E.const(1), E.const(2)]
    elif case == "golden3":
        E.assume(E.gt(x, 0)); u = (1 - x * x) / (2 * x)
        d, e = [E.const(0), E.const(0), u - E.frac(3, 4)], [E.frac(3, 4), E.const(1)]
    elif case == "nonit":
        E.assume(E.gt(x, 0)); g0 = E.frac(3, 4); u = (1 - x * x) / (2 * x)      # hypot(3/4, 1) = 5/4
        d, e = [E.const(0), 2 * g0 * 2, u - 2 / (g0 + E.frac(5, 4))], [E.const(2), E.const(1)]
    elif case == "couplings": d, e = [E.const(0), E.const(1), E.const(2)], [x, E.const(1)]; E.assume(E.not_(E.eqv(x, 0)))
    else: d, e = [E.const(0), E.const(0), E.const(0)], [E.const(1), x]; E.assume(E.not_(E.eqv(x, 0)))
    T = tridiag(E, d, e)
    D, X = E.array(d), E.array([E.const(0)] + e)
    Z = E.array(eye(E, 3))
    q.tqli(D, X, Z, 0)
    R = rows(Z)
    orthonormal(E, R, "")
    M = mm(tr(R), mm(T, R))
    for i in range(3): E.eq(D[i], M[i][i], f"diagonal entry {i}")

@harness(quick=[dict(n=n) for n in (3, 4, 5, 6)], bounds="run on the real code only, for any of the path's inputs", opts=dict(max_witnesses=8))
def converged(E, n):
    """full runs of every method agree (floating point, sampled: the symbolic side decides the orthogonality of the reference only)"""
    tm = E.mod("tridiag")
    d = [E.real(f"d{i}") for i in range(n)]; e = [E.real(f"e{i}") for i in range(n - 1)]
    if E.sym:
        # in exact arithmetic the iteration on larger blocks converges only in the limit: nothing to decide beyond the argument checks
        E.true(len(d) == n, "inputs"); return
    T = E.np.array(tridiag(E, d, e), dtype=float)
    for m in ("tqli", "mrrr", "auto"):
        for z in (0, 1):
            (w, V), _, _ = run(E, tm.eigh_tridiag, d, e, z, method=m)
            E.eq(V.T @ V, E.np.eye(n), f"{m}: orthonormal"); E.eq(V @ E.np.diag(w) @ V.T, T, f"{m}: decomposition")
            wv, _, _ = run(E, tm.eigvalsh_tridiag, d, e, z, method=m)
            E.eq(E.np.sort(wv), E.np.sort(w), f"{m}: values only")

@harness(quick=[{}], bounds="the listed arguments")
def rejects(E):
    tm = E.mod("tridiag")
    d, e = E.reals("d", 3), E.reals("e", 2)
    for f in (tm.eigh_tridiag, tm.eigvalsh_tridiag):
        for bad in ("qr", "", "TQLI", None, "stemr"): E.raises(lambda: f(d, e, method=bad), f"method {bad!r}")
        E.raises(lambda: f(d, E.reals("e1", 1)), "subdiagonal too short"); E.raises(lambda: f(d, E.reals("e4", 4)), "subdiagonal too long")

@harness(quick=[dict(n=n, method=m) for n in (8, 14) for m in ("tqli", "auto", "mrrr", "fail")] + [dict(n=20, method="tqli")], thorough=[dict(n=40, method="tqli")], bounds="n = 8, 14, 20, 40: matrices t T (t > 0) with T a fixed matrix of 2x2 blocks and single entries", opts=dict(max_witnesses=2))
def wide(E, n, method):
    """larger matrices that split"""
    tm = E.mod("tridiag")
    t = E.real("t", pos=True, lo=E.frac(1, 8), hi=8)
    trip = [(3, 4), (5, 12), (8, 15), (-3, 4), (7, 24), (-5, -12)]
    d, e = [], []
    while len(d) < n:
        k = len(d)
        a, b = trip[k % 6]
        if len(d) == n - 1 or k % 5 == 4: d.append((k - n) * t); e.append(E.const(0))
        else: d += [(a + 2 * k) * t, (2 * k - a) * t]; e += [b * t, E.const(0)]
    e = e[:n - 1]
    T = tridiag(E, d, e)
    E.lapack(method == "fail")
    kw = {} if method == "fail" else dict(method=method)
    (w, V), D, X = run(E, tm.eigh_tridiag, d, e, 1, **kw)
    E.true(tuple(w.shape) == (n,) and tuple(V.shape) == (n, n), "shapes")
    eigen_claims(E, T, [w[i] for i in range(n)], rows(V), "")
    wv, D, X = run(E, tm.eigvalsh_tridiag, d, e, 0, **kw)
    E.true(tuple(wv.shape) == (n,), "values only")
    power_sum_claims(E, T, [wv[i] for i in range(n)], "values only: ")
