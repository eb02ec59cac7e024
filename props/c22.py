"""C22: the Toeplitz operator."""
from vsym.reg import harness
from props.util import *
ASSUMPTIONS = ["np.fft.fft and ifft compute the discrete Fourier transform exactly (lengths dividing 480)"]

def dense(E, c, r):
    n = len(c)
    return [[c[i - j] if i >= j else r[j - i] for j in range(n)] for i in range(n)]
def apply(T, x): return [sum(T[i][j] * x[j] for j in range(len(x))) for i in range(len(T))]

@harness(quick=[dict(n=n, sym=s, arg=a) for n in (1, 2, 3, 4) for s in (0, 1) for a in ("vector", "column", "matrix", "matvec", "dot")] + [dict(n=6, sym=0, arg="vector"), dict(n=6, sym=1, arg="matrix"), dict(n=5, sym=0, arg="matvec"), dict(n=8, sym=0, arg="vector"), dict(n=10, sym=1, arg="column"), dict(n=12, sym=0, arg="dot")],
         thorough=[dict(n=6, sym=s, arg=a) for s in (0, 1) for a in ("vector", "column", "matrix")], bounds="all first columns, first rows and vectors of length n", opts=dict(max_witnesses=2))
def product(E, n, sym, arg):
    """product with a vector, a column, a matrix; used repeatedly"""
    O = E.mod("operators")
    c = E.reals("c", n); r = E.reals("r", n)
    snaps = [(c, E.snapshot(c)), (r, E.snapshot(r))]
    op = O.Toeplitz(c) if sym else O.Toeplitz(c, r)
    T = dense(E, c, c if sym else r)
    E.true(tuple(op.shape) == (n, n), "shape")
    out = []
    for rep in range(2):
        if arg in ("vector", "matvec", "dot"):
            x = E.reals(f"x{rep}", n)
            y = op @ x if arg == "vector" else op.matvec(x) if arg == "matvec" else op.dot(x)
            want = apply(T, [x[i] for i in range(n)])
            E.true(tuple(y.shape) == (n,), "shape of the product")
        else:
            k = 1 if arg == "column" else 2
            x = E.reals(f"x{rep}", (n, k)); y = op @ x
            cols = [apply(T, [x[i, j] for i in range(n)]) for j in range(k)]
            want = [[cols[j][i] for j in range(k)] for i in range(n)]
            E.true(tuple(y.shape) == (n, k), "shape of the product")
        snaps.append((x, E.snapshot(x)))
        E.eq(y, E.array(want), f"product {rep}")
        out.append((y, E.array(want), E.snapshot(y)))
    for k, (y, want, sn) in enumerate(out): E.unchanged(y, sn, f"product {k} unchanged by later use"); E.eq(y, want, f"product {k} after later use", obs=False)
    for k, (a, sn) in enumerate(snaps): E.unchanged(a, sn, f"argument {k} untouched")
    E.true(not E.shares(out[0][0], out[1][0]), "products do not share memory")
    E.true(not E.shares(out[0][0], snaps[2][0]), "products do not alias their argument")

@harness(quick=[dict(n=n, sym=s, arg=a) for n, s, a in ((5, 0, "vector"), (8, 0, "vector"), (8, 1, "matrix"), (10, 0, "column"), (12, 0, "vector"), (12, 1, "matvec"), (15, 0, "dot"), (16, 0, "vector"), (40, 1, "vector"), (48, 0, "vector"))],
         thorough=[dict(n=20, sym=0, arg="vector"), dict(n=24, sym=1, arg="vector"), dict(n=30, sym=0, arg="vector"), dict(n=80, sym=0, arg="vector"), dict(n=120, sym=1, arg="vector")],
         bounds="all first columns and rows of the form p + t q with fixed rational p, q of length n up to 48 (thorough: 120), one fixed vector scaled by any factor", opts=dict(max_witnesses=1))
def wide(E, n, sym, arg):
    """longer operators: every transform length 2n dividing 480"""
    O = E.mod("operators")
    t = E.real("t"); a = E.real("a")
    c = [E.frac(1 + (i * 5) % 7, 1 + i % 3) * (-1) ** (i * i % 3) + t * ((i * 3) % 4 - 1) for i in range(n)]
    r = [E.frac((i * 4) % 9 - 4, 1 + i % 2) - t * ((i * i) % 5 - 2) for i in range(n)]
    C = E.array(c)
    op = O.Toeplitz(C) if sym else O.Toeplitz(C, E.array(r))
    T = dense(E, c, c if sym else r)
    k = 2 if arg == "matrix" else 1
    X = [[E.frac((i * (j + 2) + j) % 6 - 2, 1 + (i + j) % 2) * (a if j == 0 else 1) for j in range(k)] for i in range(n)]
    cols = [apply(T, [X[i][j] for i in range(n)]) for j in range(k)]
    if arg in ("vector", "matvec", "dot"):
        x = E.array([X[i][0] for i in range(n)])
        y = op @ x if arg == "vector" else op.matvec(x) if arg == "matvec" else op.dot(x)
        E.true(tuple(y.shape) == (n,), "shape of the product")
        E.eq(y, E.array(cols[0]), "product")
    else:
        x = E.array(X); y = op @ x
        E.true(tuple(y.shape) == (n, k), "shape of the product")
        E.eq(y, E.array([[cols[j][i] for j in range(k)] for i in range(n)]), "product")

@harness(quick=[dict(n=n) for n in (2, 3)], bounds="all first columns and rows", opts=dict(max_witnesses=2))
def same_as_scipy(E, n):
    """the dense matrix, column by column"""
    O = E.mod("operators")
    c = E.reals("c", n); r = E.reals("r", n)
    D = O.Toeplitz(c, r) @ E.np.eye(n)
    E.eq(D, E.sp("scipy.linalg").toeplitz(c, r), "dense matrix")
    c2, r2 = E.array([c[i] for i in range(n)]), E.array([r[i] for i in range(n)])
    op = O.Toeplitz(c2, r2)
    c2[0] = 7; r2[n - 1] = -3                   # the operator keeps its own data
    E.eq(op @ E.np.eye(n), D, "operator does not follow later changes of its arguments")
    i = E.array([int(v) for v in range(n)], dtype="int64")
    E.eq(O.Toeplitz(c, r) @ i, E.array(apply(dense(E, c, r), list(range(n)))), "integer vector")

@harness(quick=[{}], bounds="the listed arguments")
def rejects(E):
    O = E.mod("operators")
    op = O.Toeplitz(E.reals("c", 3))
    for k in (1, 2, 4): E.raises(lambda: op @ E.reals("x", k), f"vector of length {k}")

@harness(quick=[dict(n=n, sym=s, power=p) for n, s in ((1, 0), (3, 0), (4, 1)) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, sym, power):
    """entries and vectors of any magnitude"""
    O = E.mod("operators")
    f = unit(E, power); c, r, x = E.reals("c", n), E.reals("r", n), E.reals("x", n)
    want = E.array(apply(dense(E, c, c if sym else r), [x[i] for i in range(n)]))
    op = O.Toeplitz(c * f) if sym else O.Toeplitz(c * f, r * f)
    E.eq((op @ x) / f, want, "scaled entries")
    op = O.Toeplitz(c) if sym else O.Toeplitz(c, r)
    E.eq((op @ (x * f)) / f, want, "scaled vector")
