"""Shared oracles: dense reference formulas written from the definitions."""

def mat(E, rows): return E.array(rows)
def eye(E, n): return [[E.const(1 if i == j else 0) for j in range(n)] for i in range(n)]
def mm(A, B): return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]
def tr(A): return [list(r) for r in zip(*A)]
def rows(A): return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]
def tridiag(E, d, e):
    n = len(d)
    T = [[E.const(0)] * n for _ in range(n)]
    for i in range(n):
        T[i][i] = d[i]
        if i + 1 < n: T[i][i + 1] = T[i + 1][i] = e[i]
    return T

def cayley(E, name, n, fix=None):
    """all rotations (without eigenvalue -1) of dimension n, rational in their parameters"""
    if n == 1: return [[E.const(1)]]
    if n == 2:
        t = E.real(name + ".t"); q = 1 + t * t
        return [[(1 - t * t) / q, -2 * t / q], [2 * t / q, (1 - t * t) / q]]
    x, y, z = (E.real(f"{name}.{c}") if not fix or c not in fix else E.const(fix[c]) for c in "xyz")
    s = 1 + x * x + y * y + z * z
    return [[(1 + x * x - y * y - z * z) / s, 2 * (x * y - z) / s, 2 * (x * z + y) / s],
            [2 * (x * y + z) / s, (1 - x * x + y * y - z * z) / s, 2 * (y * z - x) / s],
            [2 * (x * z - y) / s, 2 * (y * z + x) / s, (1 - x * x - y * y + z * z) / s]]

def jacobi(E, n, positive=True, name="J", ascending=True, fix=None, split=False):
    """a Jacobi matrix of size n <= 3: diagonal, couplings; for n = 3 given by its eigenpairs, which the eigen-solver stub then knows"""
    if n < 3:
        d = [E.real(f"{name}.d{i}") for i in range(n)]
        e = [E.real(f"{name}.e{i}", pos=positive) for i in range(n - 1)]
        return d, e, None, None
    V = cayley(E, name, 3, fix)
    w = [E.real(f"{name}.w0"), E.real(f"{name}.w1")]
    den = V[0][2] * V[2][2]
    E.assume(E.not_(E.eqv(den, 0)))
    if split: E.is_true(E.gt(V[0][2], 0)); E.is_true(E.gt(V[2][2], 0))     # one path per sign pattern
    w.append(-(w[0] * V[0][0] * V[2][0] + w[1] * V[0][1] * V[2][1]) / den)
    d = [sum(w[k] * V[i][k] * V[i][k] for k in range(3)) for i in range(3)]
    e = [sum(w[k] * V[i][k] * V[i + 1][k] for k in range(3)) for i in range(2)]
    if positive:
        for v in e: E.assume(E.gt(v, 0))
    E.assume(E.lt(w[0], w[1])); E.assume(E.lt(w[1], w[2]))
    E.register(d, e, w, V)
    return d, e, w, V

def orthonormal(E, V, label, cols=None):
    n = len(V); c = len(V[0]) if cols is None else cols
    for i in range(c):
        for j in range(i + 1): E.eq(sum(V[k][i] * V[k][j] for k in range(n)), E.const(1 if i == j else 0), f"{label}orthonormal at {(i, j)}")

def eigen_claims(E, T, w, V, label):
    """columns of V are orthonormal and V^T T V = diag(w)"""
    n = len(T)
    orthonormal(E, V, label)
    TV = mm(T, V)
    for j in range(n):
        for i in range(n): E.eq(TV[i][j], w[j] * V[i][j], f"{label}eigenpair {j}, component {i}", obs=False)

def power_sum_claims(E, T, w, label):
    """w are the eigenvalues of T with multiplicity"""
    P = T; n = len(T)
    for k in range(1, n + 1):
        E.eq(sum(x ** k for x in w), sum(P[i][i] for i in range(n)), f"{label}sum of powers {k} of the eigenvalues")
        if k < n: P = mm(P, T)

def const_rows(E, L): return [[E.const(0) + E.frac(x.numerator, x.denominator) if hasattr(x, "denominator") else E.const(x) for x in r] for r in L]
def inv_frac(L):
    """inverse of a rational matrix"""
    from fractions import Fraction as F
    n = len(L); M = [[F(x) for x in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(L)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0); M[i], M[p] = M[p], M[i]
        q = M[i][i]; M[i] = [x / q for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0: M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [r[n:] for r in M]
def vandermonde_like(n):
    """a dense invertible rational matrix with entries of mixed sign and size"""
    from fractions import Fraction as F
    return [[F((-1) ** (i * j) * (1 + (i + 2 * j) % 3 + (2 if i == j else 0)), 1) for j in range(n)] for i in range(n)]
def known_sketch(E, n, k, rot="fixed", name="S"):
    """A matrix and k test vectors whose images have a QR factorisation in closed form: A W = Q[:, :k] R.
    Up to the chosen basis Q every matrix is of this form. Returns A, W (rows), Q, R."""
    from fractions import Fraction as F
    if rot == "fixed" or n > 4: Q = const_rows(E, householder(n))
    if rot == "free":
        t = E.real(name + ".t"); q = 1 + t * t; c, s = (1 - t * t) / q, 2 * t / q
        G = eye(E, n); G[0][0] = c; G[0][n - 1] = -s; G[n - 1][0] = s; G[n - 1][n - 1] = c
        Q = mm(const_rows(E, householder(n)), G)
    R = [[E.real(f"{name}.R{i}{j}", pos=(i == j)) if i <= j else E.const(0) for j in range(k)] for i in range(k)]
    B = [[(R[i][j] if i < k else E.const(0)) if j < k else E.real(f"{name}.B{i}{j}") for j in range(n)] for i in range(n)]
    T = vandermonde_like(n)
    W = [[E.frac(int(T[i][j]), 1) for j in range(k)] for i in range(n)]
    A = mm(mm(Q, B), const_rows(E, inv_frac(T)))
    return A, W, Q, R
def householder(n):
    """a dense rational orthogonal matrix"""
    from fractions import Fraction as F
    v = [F(1 + (i % 3) if i % 2 == 0 else -(1 + (i % 2))) for i in range(n)]; q = sum(x * x for x in v)
    return [[F(int(i == j)) - 2 * v[i] * v[j] / q for j in range(n)] for i in range(n)]

def affine(E, shape, name="t", lo=-4, hi=4, seed=1):
    """an array of any size whose entries are p + q t: fixed integers p, q of mixed sign, one arbitrary real t"""
    n = 1
    for k in (shape if isinstance(shape, tuple) else (shape,)): n *= k
    t = E.real(name); x = seed * 7919 + 12345; out = []
    for _ in range(2 * n):
        x = (1103515245 * x + 12345) % 2 ** 31; out.append(lo + (x >> 12) % (hi - lo + 1))
    return E.array([E.const(out[2 * i]) + out[2 * i + 1] * t for i in range(n)]).reshape(shape)

KNOWN = {4: ([-7, -1, 1, 7], [1, 1, 1, 1], 2), "4a": ([-6, -4, 4, 6], [6, 10, 8, 5], 15), 5: ([-3, -1, 0, 1, 3], [3, 9, 12, 9, 3], 18), "5a": ([-7, -1, 0, 1, 7], [12, 12, 7, 12, 12], 25)}
def known_jacobi(E, which, s=None, t=None):
    """s I + t J (t > 0) for a fixed Jacobi matrix J of order 4 or 5 with rational eigenpairs, registered with the eigen-solver stub: diagonal, couplings, eigenvalues, eigenvectors"""
    from fractions import Fraction as F
    from math import isqrt
    x, q, N = KNOWN[which]; n = len(x)
    s = E.real("s") if s is None else s
    t = E.real("t", pos=True) if t is None else t
    w = [F(v, N) ** 2 for v in q]
    P, nr, d, e = [[F(1)] * n], [F(1)], [], []
    for j in range(n):
        d.append(sum(w[i] * x[i] * P[j][i] ** 2 for i in range(n)) / nr[j])
        if j == n - 1: break
        P.append([(x[i] - d[j]) * P[j][i] - (e[j - 1] ** 2 * P[j - 1][i] if j else 0) for i in range(n)])
        nr.append(sum(w[i] * P[j + 1][i] ** 2 for i in range(n)))
        b = nr[j + 1] / nr[j]; e.append(F(isqrt(b.numerator), isqrt(b.denominator)))
    c = [F(1)]
    for b in e: c.append(c[-1] * b)
    V = [[E.frac((P[j][i] * q[i] / N / c[j]).numerator, (P[j][i] * q[i] / N / c[j]).denominator) for i in range(n)] for j in range(n)]
    fr = lambda v: E.frac(v.numerator, v.denominator)
    D, O, W = [s + t * fr(v) for v in d], [t * fr(v) for v in e], [s + t * v for v in x]
    E.register(D, O, W, [[E.const(0) + v for v in r] for r in V])
    return D, O, W, V

def unit(E, power):
    """ten to the given power"""
    return E.frac(10 ** power, 1) if power >= 0 else E.frac(1, 10 ** -power)
def times(f, M): return [[f * x for x in r] for r in M] if M and isinstance(M[0], (list, tuple)) else [f * x for x in M]
