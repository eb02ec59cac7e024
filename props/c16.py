"""C16: matrix functions, from the operator class through the front end down to the native recurrence."""
from vsym.reg import harness
from props.util import *
from props.c13 import FAM
from props.c14 import the_basis, the_op
ASSUMPTIONS = ["operators Q T Q^T with vectors along the first or last column of Q (or combinations lying in small invariant subspaces); couplings are zero or at least 1/1000 (the recurrence's tolerance is 1e-8)",
               "spectral functions are polynomials with arbitrary coefficients of degree below the Krylov degree plus one: on k nodes these take arbitrary values"]

def poly(c): return lambda x: sum(ci * x ** i for i, ci in enumerate(c)) + 0 * x

def polymat(E, c, T, v):
    """p(T) v"""
    out = [E.const(0)] * len(v); w = list(v)
    for ci in c:
        out = [o + ci * x for o, x in zip(out, w)]
        w = [sum(T[i][k] * w[k] for k in range(len(w))) for i in range(len(w))]
    return out

def setup(E, n, deg, rot, zeros=(), both=False):
    """(A, T, Q): every Krylov space from the first (and, on request, last) basis vector is known"""
    D = min(n, deg)
    if D >= 3 and not zeros:
        d, e, w, V = jacobi(E, 3, fix=FAM, split=True)
        if n > 3: d = list(d) + [E.real("d3")]; e = list(e) + [E.real("e2", pos=True)]
        if both: E.register(d[::-1], e[::-1], w, V[::-1])
    else:
        d = [E.real(f"d{i}") for i in range(n)]
        e = [E.const(0) if i in zeros else E.real(f"e{i}", pos=True) for i in range(n - 1)]
    for i in range(n - 1):
        if i not in zeros: E.assume(E.ge(e[i], E.frac(1, 1000)))
    Q = the_basis(E, n, rot)
    return mm(mm(Q, tridiag(E, d, e)), tr(Q)), d, e, Q

def krylov(E, d, e, deg, c, zeros=(), last=False):
    """coordinates, in the basis, of the Lanczos approximation of p(A) q for q the first (last) basis vector, and its quadratic form"""
    n = len(d)
    if last: d, e = d[::-1], e[::-1]; zeros = [n - 2 - z for z in zeros]
    D = min([n, deg] + [z + 1 for z in zeros])
    T = tridiag(E, d[:D], e[:D - 1])
    y = polymat(E, c, T, [E.const(1)] + [E.const(0)] * (D - 1)) + [E.const(0)] * (n - D)
    return (y[::-1], y[0]) if last else (y, y[0])

def col(Q, j): return [r[j] for r in Q]
def lin(Q, y): return [sum(Q[i][k] * y[k] for k in range(len(y))) for i in range(len(Q))]

@harness(native="sym", quick=[dict(n=n, deg=g, rot=r, op=o, orth=k) for n, g, r, o, k in ((1, 2, "id", "dense", None), (2, 2, "free", "dense", None), (2, 20, "fixed", "sparse", 0), (2, 2, "fixed", "py", -1), (3, 2, "fixed", "dense", 0), (3, 2, "fixed", "py", 1), (3, 3, "fixed", "dense", None), (4, 2, "fixed", "dense", 2), (4, 3, "fixed", "sparse", 3), (3, 3, "fixed", "dense", 0), (3, 20, "fixed", "py", -1))],
         bounds="n <= 4, Krylov degree 2 (all operators) and 3 (one-parameter family of eigenbases), all spectral functions on the nodes, all vector lengths", opts=dict(max_witnesses=1, confirm=20))
def action(E, n, deg, rot, op, orth):
    """f(A) v (Lanczos approximation for smaller degree) and v^T f(A) v"""
    O = E.mod("operators")
    A, d, e, Q = setup(E, n, deg, rot)
    D = min(n, deg)
    c = [E.real(f"c{i}") for i in range(D + 1)]
    s = E.real("s", nonzero=True)
    v = [s * x for x in col(Q, 0)]
    kw = {} if orth is None else dict(orth=orth)
    M = O.MatrixFunction(the_op(E, op, A), fun=poly(c), deg=deg, **kw)
    E.true(M.degree == D and tuple(M.shape) == (n, n), "degree and shape")
    y, q = krylov(E, d, e, deg, c)
    want = [s * t for t in lin(Q, y)]
    x = E.array(v); snap = E.snapshot(x)
    for k in range(2):
        r = M.matvec(x) if k else M @ x
        E.true(E.np.shape(r) == (n,), "shape of the product")
        for i in range(n): E.eq(r[i], want[i], f"product, call {k}, component {i}")
        z = M.quad(x)
        E.true(E.np.size(z) == 1, "one quadratic form")
        E.eq(E.np.reshape(z, (-1,))[0], s * s * q, f"quadratic form, call {k}")
    if D == n:
        full = polymat(E, c, A, v)
        for i in range(n): E.eq(r[i], full[i], f"f(A) v, component {i}", obs=False)
        E.eq(E.np.reshape(z, (-1,))[0], sum(a * b for a, b in zip(v, full)), "v^T f(A) v", obs=False)
    E.unchanged(x, snap, "vector untouched")

@harness(native="sym", quick=[dict(n=n, k=k, deg=g, orth=o) for n, k, g, o in ((2, 1, 2, 3), (3, 1, 3, 3), (3, 2, 3, 3), (3, 2, 2, 0), (4, 1, 4, 3), (4, 2, 4, 0), (4, 2, 3, 2), (4, 2, 20, -1), (5, 2, 4, 3))],
         bounds="vectors spanning an invariant subspace of dimension k <= 2 of operators of size n <= 5", opts=dict(max_witnesses=1, confirm=20))
def invariant(E, n, k, deg, orth):
    """exact on vectors spanning a proper invariant subspace, and independent of earlier calls with richer vectors"""
    O = E.mod("operators")
    A, d, e, Q = setup(E, n, 2, "fixed", zeros=(k - 1,) if n - k <= 2 else tuple(j for j in range(n - 1) if j % 2 == k - 1 or j == k - 1))
    zs = [j for j in range(n - 1) if j == k - 1 or (n - k > 2 and j % 2 == k - 1)]
    c = [E.real(f"c{i}") for i in range(3)]
    s = E.real("s", pos=True)
    M = O.MatrixFunction(E.array(A), fun=poly(c), deg=deg, orth=orth)
    x = E.array([s * t for t in col(Q, 0)]); u = E.array(col(Q, n - 1))
    full = polymat(E, c, A, rows_of(x)); q = sum(a * b for a, b in zip(rows_of(x), full))
    fu = polymat(E, c, A, rows_of(u)); qu = sum(a * b for a, b in zip(rows_of(u), fu))
    for name in ("first call", "after another vector"):
        r = M @ x
        for i in range(n): E.eq(r[i], full[i], f"{name}: f(A) v, component {i}")
        E.eq(M.quad(x)[0], q, f"{name}: v^T f(A) v")
        r = M @ u
        for i in range(n): E.eq(r[i], fu[i], f"{name}: f(A) u, component {i}")
        E.eq(M.quad(u)[0], qu, f"{name}: u^T f(A) u")

def rows_of(x): return [x[i] for i in range(x.shape[0])]

@harness(native="sym", quick=[dict(n=n, deg=g, order=o) for n, g in ((2, 2), (3, 2), (4, 2)) for o in ("mv", "qm")] + [dict(n=3, deg=3, order="mv")], bounds="n <= 4, vectors along the first and last basis vectors and zero columns, in every batch position", opts=dict(max_witnesses=1, confirm=20))
def batches(E, n, deg, order):
    """a column's result does not depend on other columns or earlier calls; shapes agree"""
    O = E.mod("operators")
    A, d, e, Q = setup(E, n, deg, "fixed", both=True)
    c = [E.real(f"c{i}") for i in range(min(n, deg) + 1)]
    s, t = E.real("s", nonzero=True), E.real("t", nonzero=True)
    M = O.MatrixFunction(E.array(A), fun=poly(c), deg=deg)
    y0, q0 = krylov(E, d, e, deg, c); y1, q1 = krylov(E, d, e, deg, c, last=True)
    vecs = {"a": ([s * x for x in col(Q, 0)], [s * x for x in lin(Q, y0)], s * s * q0), "b": ([t * x for x in col(Q, n - 1)], [t * x for x in lin(Q, y1)], t * t * q1), "0": ([E.const(0)] * n, [E.const(0)] * n, E.const(0))}
    for batch in ("ab", "ba", "a0b", "b"):
        X = E.array([[vecs[k][0][i] for k in batch] for i in range(n)]); snap = E.snapshot(X)
        for what in order:
            if what in "mv":
                Y = M @ X if what == "m" else M.matmat(X)
                E.true(E.np.shape(Y) == (n, len(batch)), f"{batch}: one column per vector")
                for j, k in enumerate(batch):
                    for i in range(n): E.eq(Y[i, j], vecs[k][1][i], f"{batch}: column {j}, component {i}")
            else:
                z = M.quad(X)
                E.true(E.np.shape(z) == (len(batch),), f"{batch}: one quadratic form per vector")
                for j, k in enumerate(batch): E.eq(z[j], vecs[k][2], f"{batch}: quadratic form {j}")
        E.unchanged(X, snap, f"{batch}: vectors untouched")
        k = batch[0]
        r = M @ E.array([[x] for x in vecs[k][0]])
        E.true(E.np.shape(r) == (n, 1), "column vectors give column vectors")
        for i in range(n): E.eq(r[i, 0], vecs[k][1][i], f"column vector, component {i}")

@harness(native="sym", quick=[dict(n=1), dict(n=2), dict(n=3)], bounds="sizes 1 to 3; exponential, soft and sharp thresholds, inverse, square root, identity by name and as callables", opts=dict(max_witnesses=2))
def functions(E, n):
    """functions by name with parameters, callables, the default, and replacing the function"""
    O, S = E.mod("operators"), E.mod("special")
    d = [E.real(f"d{i}", pos=True) for i in range(n)]
    for x in d: E.assume(E.and_(E.ge(x, E.frac(1, 10)), E.le(x, 10)))
    A = E.array(tridiag(E, d, [E.const(0)] * (n - 1)))
    x = E.array([E.real("s", nonzero=True)] + [E.const(0)] * (n - 1))
    def check(M, f, name):
        want = f(E.array([d[0]]))
        r = M @ x
        E.eq(r[0], E.np.reshape(want, (-1,))[0] * x[0], f"{name}: product")
        for i in range(1, n): E.eq(r[i], 0, f"{name}: component {i}")
        E.eq(M.quad(x)[0], E.np.reshape(want, (-1,))[0] * x[0] * x[0], f"{name}: quadratic form")
    check(O.MatrixFunction(A), lambda t: t, "default")
    check(O.MatrixFunction(A, fun=None, deg=5), lambda t: t, "none")
    for nm, kw in (("identity", {}), ("sqrt", {}), ("inv", {}), ("exp", {}), ("exp", dict(t=2)), ("smoothstep", dict(a=0.25, b=2.0)), ("numrank", dict(threshold=0.5)), ("abs", {})):
        check(O.MatrixFunction(A, fun=nm, deg=3, **kw), S.param_callable(nm, **kw), f"{nm} {kw}")
    M = O.MatrixFunction(A, fun="inv")
    check(M, lambda t: 1 / t, "before replacing")
    M.fun = lambda t: t * t
    check(M, lambda t: t * t, "after replacing")
    check(O.matrix_function(A, fun=lambda t: 2 * t, deg=4), lambda t: 2 * t, "constructor function")
    r = O.matrix_function(A, fun=lambda t: 2 * t, v=x, deg=4)
    E.eq(E.np.reshape(r, (-1,))[0], 2 * d[0] * x[0], "direct application")

@harness(quick=[dict()], bounds="all degrees below two, invalid operators, non-callable functions", opts=dict(max_witnesses=2))
def rejects(E):
    """degrees below two, invalid operators and functions are rejected"""
    O = E.mod("operators")
    k = E.nat("k")
    A = E.sym_matrix("A", 2)
    E.raises(lambda: O.MatrixFunction(A, fun=lambda x: x, deg=1 - k), "degree below two")
    E.raises(lambda: O.MatrixFunction(E.reals("R", (2, 3)), fun=lambda x: x, deg=2), "rectangular operator")
    E.raises(lambda: O.MatrixFunction(A, fun=3.0, deg=2), "function that is not callable")
    E.raises(lambda: O.MatrixFunction(A, fun="nosuch", deg=2), "unknown function")

@harness(native="sym", quick=[dict(which=w, extra=x, deg=g, rot=r, op=o, orth=k, batch=b) for w, x, g, r, o, k, b in ((4, 0, 4, "fixed", "dense", 0, 1), (5, 0, 20, "fixed", "dense", 3, 1), (5, 0, "default", "fixed", "py", "default", 3), ("4a", 4, 4, "fixed", "sparse", 2, 2), (5, 3, 5, "id", "dense", 5, 9), ("5a", 19, "default", "fixed", "dense", "default", 2), (5, 31, 30, "id", "py", 4, 1))],
         bounds="n <= 36, Krylov degrees 4 and 5: s I + t J for fixed matrices J; sizes above the default degree with an invariant subspace of dimension 5; batches of up to nine multiples", opts=dict(max_witnesses=1, confirm=20))
def larger(E, which, extra, deg, rot, op, orth, batch):
    """f(A) v and v^T f(A) v at larger degrees and sizes"""
    O = E.mod("operators")
    s, t = E.real("s", lo=-2, hi=2), E.real("t", lo=E.frac(1, 4), hi=4)
    d, e, w, V = known_jacobi(E, which, s, t)
    k = len(d); n = k + extra
    d = list(d) + [E.const(i % 3 - 1) for i in range(extra)]
    e = list(e) + ([E.const(1) if type(deg) is int and deg <= k else E.const(0)] + [E.const(1 + i % 2) for i in range(extra - 1)] if extra else [])
    for i in range(k - 1): E.assume(E.ge(e[i], E.frac(1, 1000)))
    Q = the_basis(E, n, rot)
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q)) if rot != "id" else tridiag(E, d, e)
    c = [E.real(f"c{i}") for i in range(3)] + [E.const(0)] * (k - 3) + [E.const(1)]
    kw = {} if deg == "default" else dict(deg=deg)
    if orth != "default": kw["orth"] = orth
    M = O.MatrixFunction(the_op(E, op, A), fun=poly(c), **kw)
    y, q = krylov(E, d, e, k, c)
    f = lin(Q, y)
    m = [(-1) ** j * E.frac(1 + j, 2) for j in range(batch)]
    X = E.array([[mj * Q[i][0] for mj in m] for i in range(n)])
    if batch == 1: X = E.array([r[0] for r in rows(X)])
    r = E.np.reshape(M @ X, (n, batch)); z = E.np.reshape(M.quad(X), (-1,))
    E.true(E.np.size(z) == batch, "one quadratic form per vector")
    for j in range(batch):
        for i in range(n): E.eq(r[i, j], m[j] * f[i], f"product {j}, component {i}")
        E.eq(z[j], m[j] * m[j] * q, f"quadratic form {j}")
    if batch == 1: E.true(E.np.shape(M.matvec(X)) == (n,), "shape")
