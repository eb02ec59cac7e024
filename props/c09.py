"""C09: growing a triangular inverse by a column."""
import inspect
from vsym.reg import harness
from props.util import unit, times

def tri(E, name, n):
    """an arbitrary invertible upper-triangular matrix and its inverse's entries are inputs of the oracle only through B"""
    M = [[E.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n): M[i][j] = E.real(f"{name}[{i},{j}]", nonzero=i == j)
    return M

def tri_inv(E, B):
    """inverse by back substitution (oracle)"""
    n = len(B); X = [[E.const(0)] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, -1, -1):
            s = E.const(1 if i == j else 0)
            for k in range(i + 1, j + 1): s = s - B[i][k] * X[k][j]
            X[i][j] = s / B[i][i]
    return X

def mat(E, M, n): return E.array(M) if n else E.np.zeros((0, 0))

def claim_inverse(E, R, G, label):
    m = len(G)
    E.true(tuple(R.shape) == (m, m), label + "shape")
    if tuple(R.shape) != (m, m): return
    for i in range(m):
        for j in range(m):
            E.eq(sum(R[i, k] * G[k][j] for k in range(m)), E.const(1 if i == j else 0), f"{label}inverse times matrix at {(i, j)}")
            if j < i: E.eq(R[i, j], E.const(0), f"{label}zero below the diagonal at {(i, j)}")

@harness(quick=[dict(n=n, col=c) for n in (0, 1, 2, 3) for c in ("flat", "column")], thorough=[dict(n=4, col="flat"), dict(n=5, col="flat")],
         bounds="all invertible upper-triangular matrices of size n and all columns with nonzero last entry", opts=dict(max_witnesses=4))
def grow(E, n, col):
    L = E.mod("linalg")
    B = tri(E, "B", n)
    b = [E.real(f"b[{i}]", nonzero=i == n) for i in range(n + 1)]
    Bi = mat(E, tri_inv(E, B), n)
    bb = E.array(b) if col == "flat" else E.array([[v] for v in b])
    s1, s2 = E.snapshot(Bi), E.snapshot(bb)
    R = L.update_trinv(Bi, bb)
    G = [B[i] + [b[i]] for i in range(n)] + [[E.const(0)] * n + [b[n]]]
    claim_inverse(E, R, G, "")
    E.unchanged(Bi, s1, "inverse argument untouched"); E.unchanged(bb, s2, "column argument untouched")
    E.true(not E.shares(R, Bi) and not E.shares(R, bb), "result is a new array")

@harness(quick=[dict(m=2), dict(m=3)], thorough=[dict(m=4)], bounds="inverse built column by column from the empty matrix", opts=dict(max_witnesses=4))
def repeated(E, m):
    L = E.mod("linalg")
    B = tri(E, "B", m)
    R = E.np.zeros((0, 0)); keep = []
    for j in range(m):
        R = L.update_trinv(R, E.array([B[i][j] for i in range(j + 1)]))
        keep.append((R, E.snapshot(R)))
        claim_inverse(E, R, [row[: j + 1] for row in B[: j + 1]], f"after {j + 1} columns: ")
    for R, s in keep: E.unchanged(R, s, "earlier results untouched")

@harness(quick=[dict(m=3, dtype=t) for t in ("float32", "float64")], bounds="inverse built column by column from the empty matrix, in single and double precision", opts=dict(max_witnesses=2))
def precision(E, m, dtype):
    """the result keeps the precision of its arguments, so it can be grown again"""
    L = E.mod("linalg")
    B = tri(E, "B", m)
    tol = dict(rtol=1e-2) if "rtol" in inspect.signature(E.eq).parameters and dtype == "float32" else {}
    if tol:
        for i in range(m): E.assume(E.ge(abs(B[i][i]), E.frac(1, 2)))
    R = E.np.zeros((0, 0), dtype=dtype); X = tri_inv(E, B)
    for j in range(m):
        R = L.update_trinv(R, E.array([B[i][j] for i in range(j + 1)], dtype=dtype))
        E.true(str(R.dtype) == dtype, f"precision after {j + 1} columns ({R.dtype})")
        E.eq(R, E.array([r[: j + 1] for r in X[: j + 1]]), f"inverse after {j + 1} columns", **tol)

@harness(quick=[{}], bounds="the listed shapes")
def rejects(E):
    L = E.mod("linalg")
    for n, m, k in ((2, 2, 2), (2, 2, 4), (2, 3, 3), (3, 2, 3), (1, 1, 1), (1, 1, 3), (0, 0, 2), (3, 2, 4)):
        E.raises(lambda: L.update_trinv(E.reals(f"B{n}{m}{k}", (n, m)) if n else E.np.zeros((0, 0)), E.reals(f"b{n}{m}{k}", k)), f"matrix {n}x{m} with column of length {k}")

@harness(quick=[dict(n=n) for n in (5, 9, 17)], thorough=[dict(n=40)], bounds="a fixed dense upper-triangular integer matrix of size n, all columns with nonzero last entry")
def large(E, n):
    L = E.mod("linalg")
    B = [[E.const(((i * 5 + j * 3) % 7 - 3) if i < j else (1 if i % 3 else -2) if i == j else 0) for j in range(n)] for i in range(n)]
    b = [E.real(f"b[{i}]", nonzero=i == n) for i in range(n + 1)]
    R = L.update_trinv(mat(E, tri_inv(E, B), n), E.array(b))
    claim_inverse(E, R, [B[i] + [b[i]] for i in range(n)] + [[E.const(0)] * n + [b[n]]], "")

@harness(quick=[dict(n=n, power=p) for n in (1, 2, 3) for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, power):
    """matrices of any magnitude"""
    L = E.mod("linalg")
    f = unit(E, power)
    B = tri(E, "B", n); b = [E.real(f"b[{i}]", nonzero=i == n) for i in range(n + 1)]
    R = L.update_trinv(mat(E, times(1 / f, tri_inv(E, B)), n), E.array(times(f, b)))
    claim_inverse(E, R * f, [B[i] + [b[i]] for i in range(n)] + [[E.const(0)] * n + [b[n]]], "")
