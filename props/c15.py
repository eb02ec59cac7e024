"""C15: the Lanczos front end and Rayleigh-Ritz values, down to the native recurrence."""
from vsym.reg import harness
from props.util import *
from props.c13 import FAM
from props.c14 import make, the_basis, the_op
ASSUMPTIONS = ["operators are given as Q T Q^T with the start vector along the first column of Q (every symmetric operator and start vector of full grade has this form); Q is one fixed dense rational rotation, a one-parameter family (n = 3) or the identity",
               "the native module is the project's C++ on symbolic scalars; argument conversion of the binding layer (copies for arrays of another precision or layout) is modelled"]

def dense(E, T): return T.toarray() if hasattr(T, "toarray") else T

def check(E, out, sparse, basis, D, d, e, Q, w, n, sign=1):
    """the documented output for degree D"""
    if basis:
        E.true(isinstance(out, tuple) and len(out) == 2, w + "coefficients and basis")
        out, B = out
        E.true(E.np.shape(B) == (n, D), w + "basis has one column per step")
        for j in range(D):
            for i in range(n): E.eq(B[i, j], sign * Q[i][j], w + f"basis vector {j}", obs=False)
    if sparse:
        E.true(tuple(out.shape) == (D, D), w + "square sparse matrix of the degree")
        T = dense(E, out)
        for i in range(D):
            for j in range(D): E.eq(T[i, j], d[i] if i == j else (e[min(i, j)] if abs(i - j) == 1 else 0), w + f"tridiagonal entry {(i, j)}")
    else:
        E.true(isinstance(out, tuple) and len(out) == 2, w + "diagonal and subdiagonal")
        a, b = out
        E.true(E.np.shape(a) == (D,) and E.np.shape(b) == (D - 1,), w + "lengths deg and deg-1")
        for j in range(D): E.eq(a[j], d[j], w + f"diagonal {j}")
        for j in range(D - 1): E.eq(b[j], e[j], w + f"subdiagonal {j}")

@harness(native="sym", quick=[dict(n=n, rot=r, op=o) for n, r, o in ((1, "id", "dense"), (2, "fixed", "dense"), (2, "free", "py"), (3, "fixed", "dense"), (3, "line", "sparse"), (3, "fixed", "py"), (4, "fixed", "dense"))], thorough=[dict(n=5, rot="fixed", op="dense"), dict(n=3, rot="free", op="dense")],
         bounds="n <= 4: every degree up to one beyond the size and the default, every reorthogonalisation count from -1 to one beyond the degree, dense, sparse and matrix-free operators, both formats, with and without basis", opts=dict(max_witnesses=1))
def formats(E, n, rot, op):
    """diagonal and subdiagonal of the Jacobi matrix, in every output format; the start vector is copied"""
    L = E.mod("lanczos")
    A, d, e, Q, v = make(E, n, rot)
    M = the_op(E, op, A)
    v0 = E.array(v); snap = E.snapshot(v0)
    for deg in [None] + list(range(1, n + 2)):
        D = n if deg is None else min(deg, n)
        for orth in ([0, 1, -1] if deg is None else range(-1, D + 2)):
            for sparse in (False, True):
                for basis in (False, True):
                    w = f"(deg {deg}, orth {orth}, sparse {sparse}, basis {basis}) "
                    kw = {} if deg is None else dict(deg=deg)
                    if sparse: kw["sparse_mat"] = True
                    if basis: kw["return_basis"] = True
                    if orth: kw["orth"] = orth
                    out, exc = E.attempt(lambda: L.lanczos(M, v0, rtol=0.0, **kw))
                    E.true(exc is None, w + f"runs ({exc!r})"[:120])
                    if exc is None: check(E, out, sparse, basis, D, d, e, Q, w, n)
    E.unchanged(v0, snap, "start vector untouched")

@harness(native="sym", quick=[dict(n=n, rot=r, op=o, degs=g) for n, r, o, g in ((9, "fixed", "dense", [None, 9, 6]), (14, "id", "sparse", [None, 11]), (12, "fixed", "py", [12, 40, 7]), (23, "id", "dense", [21]))], bounds="n up to 30, listed degrees; two-parameter families of Jacobi matrices, all start-vector lengths", opts=dict(max_witnesses=1, confirm=10))
def longer(E, n, rot, op, degs):
    """larger operators and degrees"""
    L = E.mod("lanczos")
    s, t, q = E.real("s"), E.real("t", pos=True), E.real("q", pos=True)
    d = [s * (i % 3 - 1) + t * (i % 4) for i in range(n)]; e = [t * (1 + (i * 2) % 3) for i in range(n - 1)]
    Q = the_basis(E, n, rot)
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q)) if rot != "id" else tridiag(E, d, e)
    M = the_op(E, op, A); v0 = E.array([q * Q[i][0] for i in range(n)]); snap = E.snapshot(v0)
    for deg in degs:
        D = n if deg is None else min(deg, n)
        for orth, sparse, basis in ((0, False, False), (3, True, True), (-1, False, True)):
            kw = {} if deg is None else dict(deg=deg)
            out = L.lanczos(M, v0, rtol=0.0, orth=orth, sparse_mat=sparse, return_basis=basis, **kw)
            check(E, out, sparse, basis, D, d, e, Q, f"(deg {deg}, orth {orth}) ", n)
    E.unchanged(v0, snap, "start vector untouched")

@harness(native="sym", quick=[dict(which=w, extra=x, deg=g, form=f) for w, x, g, f in ((5, 0, None, "all"), (5, 4, 5, "plain"), (4, 8, 4, "vectors"), ("5a", 0, 30, "vectors"), ("4a", 0, 4, "basis"))], bounds="degrees four and five: s I + t J for fixed J, operators up to 12", opts=dict(max_witnesses=1, confirm=10))
def ritz_higher(E, which, extra, deg, form):
    L = E.mod("lanczos")
    d, e, w0, V0 = known_jacobi(E, which); k = len(d); n = k + extra
    if extra: e = e + [E.real("c", pos=True)] + [E.const(1)] * (extra - 1); d = d + [E.const(i % 3) for i in range(extra)]
    Q = the_basis(E, n, "fixed")
    M = E.array(mm(mm(Q, tridiag(E, d, e)), tr(Q))); v0 = E.array([2 * Q[i][0] for i in range(n)])
    vec, bas = form in ("vectors", "all"), form in ("basis", "all")
    kw = {} if deg is None else dict(deg=deg)
    if vec: kw["return_eigenvectors"] = True
    if bas: kw["return_basis"] = True
    r = L.rayleigh_ritz(M, v0=v0, rtol=0.0, **kw)
    parts = list(r) if (vec or bas) else [r]
    E.true(len(parts) == 1 + vec + bas, "number of results")
    rw = parts[0]; T = tridiag(E, d[:k], e[:k - 1])
    E.true(E.np.shape(rw) == (k,), "one value per step")
    power_sum_claims(E, T, [rw[i] for i in range(k)], "")
    if vec: eigen_claims(E, T, [rw[i] for i in range(k)], rows(parts[1]), "")
    if bas:
        for j in range(k): E.eq([parts[-1][i, j] for i in range(n)], [Q[i][j] for i in range(n)], f"basis vector {j}", obs=False)

@harness(native="sym", quick=[dict(n=n, op=o, dtype=t) for n, o, t in ((2, "dense", "float32"), (2, "sparse", "float32"), (2, "py", "float32"), (3, "dense", "float64"), (3, "py", "float64"))], bounds="n <= 3, operator, start vector and computation in either precision", opts=dict(max_witnesses=2))
def precisions(E, n, op, dtype):
    """computed and returned in the requested precision, whatever the precision of operator and start vector"""
    L = E.mod("lanczos")
    A, d, e, Q, v = make(E, n, "fixed")
    for x in e: E.assume(E.and_(E.ge(x, 1), E.le(x, 3)))
    for x in d: E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    E.assume(E.and_(E.ge(v[0], E.frac(1, 5)), E.le(v[0], 5)))
    M = the_op(E, op, A, dtype)
    for vd in ("float32", "float64"):
        v0 = E.array(v, dtype=vd); snap = E.snapshot(v0)
        for req in (None, "float32", "float64"):
            w = f"(start {vd}, requested {req}) "
            kw = {} if req is None else dict(dtype=E.np.dtype(req))
            out, exc = E.attempt(lambda: L.lanczos(M, v0=v0, rtol=0.0, return_basis=True, **kw))
            E.true(exc is None, w + f"runs ({exc!r})"[:120])
            if exc is not None: continue
            (a, b), B = out
            want = E.np.dtype(req or dtype)
            E.true(a.dtype == want and b.dtype == want and B.dtype == want, w + "precision of the results")
            single = want == E.np.dtype("float32") or dtype == "float32" or vd == "float32"
            for j in range(n): E.eq(a[j], d[j], w + f"diagonal {j}", obs=False, **tolerance(E, single))
            for j in range(n - 1): E.eq(b[j], e[j], w + f"subdiagonal {j}", obs=False, **tolerance(E, single))
        E.unchanged(v0, snap, "start vector untouched")

def tolerance(E, single):
    import inspect
    return dict(rtol=2e-2) if single and "rtol" in inspect.signature(E.eq).parameters else {}

@harness(native="sym", quick=[dict(n=n, deg=g) for n, g in ((2, 2), (3, 2), (3, 3), (3, 1))], bounds="n <= 3, arbitrary contents of the buffers supplied", opts=dict(max_witnesses=1))
def buffers(E, n, deg):
    """supplied buffers receive the coefficients and the basis; unsuitable ones are rejected"""
    L = E.mod("lanczos")
    A, d, e, Q, v = make(E, n, "fixed")
    M = E.array(A); v0 = E.array(v)
    al, be = E.reals("al", deg + 1), E.reals("be", deg + 1); Qb = E.reals("Qb", (n, deg), order="F")
    (a, b), B = L.lanczos(M, v0, deg=deg, rtol=0.0, return_basis=True, alpha=al, beta=be, Q=Qb)
    check(E, ((a, b), B), False, True, deg, d, e, Q, "", n)
    for j in range(deg): E.eq(al[j], d[j], f"diagonal buffer {j}")
    for j in range(deg - 1): E.eq(be[j + 1], e[j], f"subdiagonal buffer {j}")
    for j in range(deg):
        for i in range(n): E.eq(Qb[i, j], Q[i][j], f"basis buffer {j}", obs=False)
    E.raises(lambda: L.lanczos(M, v0, deg=deg, alpha=E.reals("x", deg)), "diagonal buffer too short")
    E.raises(lambda: L.lanczos(M, v0, deg=deg, beta=E.reals("x", deg)), "subdiagonal buffer too short")
    E.raises(lambda: L.lanczos(M, v0, deg=deg, alpha=E.reals("x", deg + 1, dtype="float32")), "diagonal buffer of another precision")
    E.raises(lambda: L.lanczos(M, v0, deg=deg, return_basis=True, Q=E.reals("y", (deg, n + 1), order="F")), "basis buffer of the wrong shape")
    if deg > 1: E.raises(lambda: L.lanczos(M, v0, deg=deg, return_basis=True, Q=E.reals("y", (n, deg))), "basis buffer in row-major order")

@harness(native="sym", quick=[dict(n=n) for n in (1, 2, 3)], bounds="all nonpositive degrees, start vectors of any other length up to n + 2", opts=dict(max_witnesses=2))
def rejects(E, n):
    """nonpositive degrees and start vectors of the wrong length are rejected"""
    L = E.mod("lanczos")
    M = E.sym_matrix("A", n)
    k = E.nat("k")
    for f in (L.lanczos, L.rayleigh_ritz): E.raises(lambda: f(M, deg=-k), "nonpositive degree")
    for m in range(0, n + 3):
        if m != n: E.raises(lambda: L.lanczos(M, E.reals("v0", m)), f"start vector of length {m}")
    E.raises(lambda: L.lanczos(E.array([[1, 2], [2, 1]], dtype="int64")), "integer operator")

@harness(native="sym", quick=[dict(n=n, deg=g, form=f) for n, g, f in ((2, None, "plain"), (2, 2, "all"), (2, None, "vectors"), (3, 2, "all"), (3, 2, "plain"), (3, 2, "basis"), (4, 2, "vectors"), (3, 3, "plain"), (3, 3, "vectors"))],
         bounds="n <= 4, degree 2 (all operators), degree 3 (one-parameter family of eigenbases, all spectra)", opts=dict(max_witnesses=1, confirm=20))
def ritz(E, n, deg, form):
    """Ritz values are the eigenvalues of the Jacobi matrix, with the solver that was asked for"""
    L = E.mod("lanczos"); T = E.mod("tridiag")
    D = n if deg is None else deg
    if D == 3:
        d, e, w, V = jacobi(E, 3, fix=FAM, split=True)
        Q = const_rows(E, householder(3))
    else:
        d = [E.real(f"d{i}") for i in range(n)]; e = [E.real(f"e{i}", pos=True) for i in range(n - 1)]
        Q = the_basis(E, n, "fixed")
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q)); s = E.real("s", pos=True)
    M = E.array(A); v0 = E.array([s * Q[i][0] for i in range(n)])
    vec, bas = form in ("vectors", "all"), form in ("basis", "all")
    for method in (None, "RRR", "rrr", "tqli", "TQLI"):
        if D == 3 and method not in (None, "rrr"): continue
        kw = {} if method is None else dict(method=method)
        if deg is not None: kw["deg"] = deg
        if vec: kw["return_eigenvectors"] = True
        if bas: kw["return_basis"] = True
        r = L.rayleigh_ritz(M, v0=v0, rtol=0.0, **kw)
        parts = list(r) if (vec or bas) else [r]
        E.true(len(parts) == 1 + vec + bas, f"{method}: number of results")
        rw = parts[0]
        E.true(E.np.shape(rw) == (D,), f"{method}: one value per step")
        power_sum_claims(E, tridiag(E, d[:D], e[:D - 1]), [rw[i] for i in range(D)], f"{method}: ")
        if vec: eigen_claims(E, tridiag(E, d[:D], e[:D - 1]), [rw[i] for i in range(D)], rows(parts[1]), f"{method}: ")
        if bas:
            for j in range(D):
                for i in range(n): E.eq(parts[-1][i, j], Q[i][j], f"{method}: basis vector {j}", obs=False)
    E.raises(lambda: L.rayleigh_ritz(M, v0=v0, method="qr"), "unknown solver")

@harness(native="sym", quick=[dict(n=n, op=o, dtype=t) for n, o, t in ((2, "dense", "float32"), (2, "py", "float64"), (3, "sparse", "float64"))], bounds="n <= 3, degree two, operator and computation in either precision, supplied buffers", opts=dict(max_witnesses=1))
def ritz_options(E, n, op, dtype):
    """options of the Lanczos method reach it in every output form"""
    L = E.mod("lanczos")
    A, d, e, Q, v = make(E, n, "fixed")
    for x in e: E.assume(E.and_(E.ge(x, 1), E.le(x, 3)))
    for x in d: E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    E.assume(E.and_(E.ge(v[0], E.frac(1, 5)), E.le(v[0], 5)))
    M = the_op(E, op, A, dtype)
    for vec in (False, True):
        for bas in (False, True):
            for req in ("float32", "float64"):
                w = f"(vectors {vec}, basis {bas}, requested {req}) "
                t = E.np.dtype(req); single = req == "float32" or dtype == "float32"
                al, be = E.reals("x", 3, dtype=req), E.reals("y", 3, dtype=req)
                out, exc = E.attempt(lambda: L.rayleigh_ritz(M, deg=2, v0=E.array(v), rtol=0.0, dtype=t, alpha=al, beta=be, return_eigenvectors=vec, return_basis=bas))
                E.true(exc is None, w + f"runs ({exc!r})"[:120])
                if exc is not None: continue
                for j in range(2): E.eq(al[j], d[j], w + f"supplied buffer, diagonal {j}", obs=False, **tolerance(E, single))
                E.eq(be[1], e[0], w + "supplied buffer, subdiagonal", obs=False, **tolerance(E, single))
                if bas: E.true(out[-1].dtype == t, w + "precision of the basis")

@harness(native="sym", quick=[dict(n=n, deg=g) for n, g in ((2, 2), (3, 2), (3, 3), (4, 3))], bounds="all Jacobi matrices of size n <= 4, an iteration limit that forbids any iteration", opts=dict(max_witnesses=1))
def solver(E, n, deg):
    """the implicit-shift solver runs exactly when asked for, with the caller's iteration limit"""
    L = E.mod("lanczos"); T = E.mod("tridiag")
    A, d, e, Q, v = make(E, n, "id")
    M = E.array(A); v0 = E.array(v)
    d0, e0 = E.array(d[:deg]), E.array(e[:deg - 1])
    for vec in (False, True):
        ref = T.eigh_tridiag if vec else T.eigvalsh_tridiag
        got, x1 = E.attempt(lambda: L.rayleigh_ritz(M, deg=deg, v0=v0, rtol=0.0, method="tqli", maxiter=-1, return_eigenvectors=vec))
        want, x2 = E.attempt(lambda: ref(d0, e0, method="tqli", maxiter=-1))
        E.true((x1 is None) == (x2 is None), "fails exactly when the tridiagonal solver does")
        if x1 is None and x2 is None:
            E.eq(got[0] if vec else got, want[0] if vec else want, "values of the truncated implicit-shift solver")
            if vec: E.eq(got[1], want[1], "vectors of the truncated implicit-shift solver")
    if deg == 2:
        rw = L.rayleigh_ritz(M, deg=deg, v0=v0, rtol=0.0, method="rrr", maxiter=-1)
        power_sum_claims(E, tridiag(E, d[:deg], e[:deg - 1]), [rw[i] for i in range(deg)], "the default solver ignores the limit: ")

@harness(native="sym", quick=[dict(power=p, what=q) for p in (-12, 9) for q in ("operator", "vector")], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, power, what):
    """with tolerance zero the result does not depend on the units of the operator or of the start vector"""
    L = E.mod("lanczos")
    f = unit(E, power); g, h = (f, 1) if what == "operator" else (1, f)
    A, d, e, Q, v = make(E, 3, "fixed")
    for kw in (dict(), dict(deg=2, orth=1)):
        D = kw.get("deg", 3)
        a, b = L.lanczos(the_op(E, "dense", times(g, A)), E.array(times(h, v)), rtol=0.0, **kw)
        check(E, (a / g, b / g), False, False, D, d, e, Q, f"({kw}) ", 3)
