"""C14: the native Lanczos recurrence, executed as C++ on symbolic scalars."""
from vsym.reg import harness
from props.util import *
ASSUMPTIONS = ["the C++ sources are compiled as they are with the scalar type replaced by a symbolic one (machine epsilon 0); Eigen's kernels for custom scalars stand for its vectorised ones",
               "every pair (A, v) is orthogonally equivalent to a Jacobi matrix and a first basis vector; the basis is symbolic for n <= 3 where stated and one fixed dense rational rotation otherwise"]
G = 3   # guard cells on each side of every buffer

class Buffers:
    """every buffer sits inside a larger one filled with arbitrary values that must be neither read nor written"""
    def __init__(self, E, n, deg, ncv, v, dtype="float64"):
        self.E = E
        def one(name, size, fill=None):
            full = E.reals(name, size + 2 * G, dtype=dtype)
            if fill is not None:
                for i in range(size): full[G + i] = fill[i]
            return full
        self.full = [one("v", n, v), one("alpha", deg + 1), one("beta", deg + 1), one("Q", n * ncv)]
        sizes = [n, deg + 1, deg + 1, n * ncv]
        self.v, self.alpha, self.beta = (f[G:G + s] for f, s in zip(self.full[:3], sizes))
        self.Q = self.full[3][G:G + n * ncv].reshape((n, ncv), order="F")
        self.guards = [(f[:G], f[G + s:]) for f, s in zip(self.full, sizes)]
        self.snaps = [(E.snapshot(a), E.snapshot(b)) for a, b in self.guards]
    def check(self):
        for (a, b), (sa, sb), nm in zip(self.guards, self.snaps, ("start vector", "diagonal", "subdiagonal", "basis")):
            self.E.unchanged(a, sa, f"nothing written before the {nm} buffer"); self.E.unchanged(b, sb, f"nothing written past the {nm} buffer")

def the_basis(E, n, rot):
    if rot == "id": return eye(E, n)
    if rot == "free": return cayley(E, "Q", n)
    if rot == "line": return cayley(E, "Q", n, fix=dict(y=2, z=-1))
    return const_rows(E, householder(n))

def make(E, n, rot, zeros=(), scale=1):
    """A = Q T Q^T and a start vector along the first basis vector; couplings in `zeros` vanish"""
    d = [E.real(f"d{i}") for i in range(n)]
    e = [E.const(0) if i in zeros else E.real(f"e{i}", pos=True) for i in range(n - 1)]
    Q = the_basis(E, n, rot)
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q))
    s = E.real("s", pos=True) * scale
    return A, d, e, Q, [s * Q[i][0] for i in range(n)]

def the_op(E, kind, A, dtype="float64"):
    M = E.array(A, dtype=dtype)
    return {"dense": lambda: M, "denseC": lambda: M, "sparse": lambda: E.sparse(M, dtype), "py": lambda: E.operator(M, dtype)}[kind]()

def combos(n):
    out = []
    for deg in range(1, n + 1):
        for ncv in ([1] if deg == 1 else range(2, deg + 1)):
            for orth in ([0, 1] if ncv == 1 else range(0, ncv + 1)): out.append((deg, ncv, orth))
    return out

@harness(native="sym", quick=[dict(n=n, rot=r, op="dense", sign=1) for n, r in ((1, "id"), (2, "free"), (3, "line"), (3, "fixed"), (4, "fixed"))] + [dict(n=3, rot="fixed", op="sparse", sign=1), dict(n=3, rot="fixed", op="py", sign=-1), dict(n=5, rot="id", op="dense", sign=-1)],
         thorough=[dict(n=3, rot="free", op="dense", sign=1), dict(n=5, rot="fixed", op="dense", sign=1), dict(n=6, rot="id", op="dense", sign=1), dict(n=4, rot="fixed", op="sparse", sign=-1)],
         bounds="all admissible degrees, buffer widths and reorthogonalisation counts for n <= 4 (5: tridiagonal operators; thorough: 5 and 6), all Jacobi matrices with positive couplings, all start-vector lengths, arbitrary initial buffer contents", opts=dict(max_witnesses=1))
def recurrence(E, n, rot, op, sign):
    """coefficients and basis equal the ones of the Krylov decomposition, whatever is kept; nothing outside the buffers is touched"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, n, rot, scale=sign)
    M = the_op(E, op, A)
    for deg, ncv, orth in combos(n):
        B = Buffers(E, n, deg, ncv, v)
        L.lanczos(M, B.v, deg, 0.0, orth, B.alpha, B.beta, B.Q)
        w = f"(deg {deg}, ncv {ncv}, orth {orth}) "
        for j in range(deg): E.eq(B.alpha[j], d[j], w + f"diagonal {j}")
        E.eq(B.beta[0], 0, w + "leading subdiagonal entry")
        for j in range(deg - 1): E.eq(B.beta[j + 1], e[j], w + f"subdiagonal {j}")
        if ncv == deg:
            for j in range(deg):
                for i in range(n): E.eq(B.Q[i, j], sign * Q[i][j], w + f"basis vector {j}", obs=False)
        B.check()
    if op == "dense":
        for i in range(n):
            for j in range(n): E.eq(M[i, j], A[i][j], "operator untouched")

@harness(native="sym", quick=[dict(n=n, rot=r, op=o, runs=k) for n, r, o, k in ((8, "fixed", "dense", [[8, 8, 8], [8, 2, 2], [6, 3, 1]]), (12, "id", "sparse", [[12, 12, 0], [12, 2, 1], [12, 5, 4]]), (12, "fixed", "py", [[12, 12, 5], [7, 4, 0]]), (20, "fixed", "dense", [[12, 6, 6], [4, 4, 4]]), (33, "id", "dense", [[33, 33, 2], [33, 2, 0]]))],
         thorough=[dict(n=70, rot="id", op="dense", runs=[[70, 70, 3], [70, 16, 16]]), dict(n=40, rot="fixed", op="dense", runs=[[20, 20, 20]])], bounds="n up to 33 (thorough: 70), listed degrees, widths and reorthogonalisation counts; two-parameter families of Jacobi matrices, all start-vector lengths", opts=dict(max_witnesses=1, confirm=10))
def longer(E, n, rot, op, runs):
    """larger operators and degrees"""
    L = E.mod("_lanczos")
    s, t, q = E.real("s"), E.real("t", pos=True), E.real("q", pos=True)
    d = [s * (i % 3 - 1) + t * (i % 4) for i in range(n)]; e = [t * (1 + (i * 2) % 3) for i in range(n - 1)]
    Q = the_basis(E, n, rot)
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q)) if rot != "id" else tridiag(E, d, e)
    M = the_op(E, op, A)
    for deg, ncv, orth in runs:
        B = Buffers(E, n, deg, ncv, [q * Q[i][0] for i in range(n)])
        L.lanczos(M, B.v, deg, 0.0, orth, B.alpha, B.beta, B.Q)
        w = f"(deg {deg}, ncv {ncv}, orth {orth}) "
        for j in range(deg): E.eq(B.alpha[j], d[j], w + f"diagonal {j}")
        for j in range(deg - 1): E.eq(B.beta[j + 1], e[j], w + f"subdiagonal {j}")
        if ncv == deg:
            for j in range(deg): E.eq([B.Q[i, j] for i in range(n)], [Q[i][j] for i in range(n)], w + f"basis vector {j}", obs=False)
        B.check()

@harness(native="sym", quick=[dict(n=2, orth=o, op=p) for o, p in ((0, "dense"), (1, "sparse"), (2, "py"))] + [dict(n=3, orth=0, op="dense")], bounds="all symmetric matrices of order 2 and all start vectors (order 3: two steps)", opts=dict(max_witnesses=2))
def general(E, n, orth, op):
    """orthonormal basis starting at the normalised start vector, and Q^T A Q = T, for an arbitrary matrix and vector"""
    L = E.mod("_lanczos")
    A = E.sym_matrix("A", n); v = E.reals("v0", n)
    z = sum(v[i] * v[i] for i in range(n))
    E.assume(E.gt(z, 0))
    Av = [sum(A[i, j] * v[j] for j in range(n)) for i in range(n)]
    # not an eigenvector
    minors = [Av[i] * v[j] - Av[j] * v[i] for i in range(n) for j in range(i)]
    E.assume(E.gt(sum(m * m for m in minors), 0))
    B = Buffers(E, n, 2, 2, [v[i] for i in range(n)])
    L.lanczos(the_op(E, op, rows(A)), B.v, 2, 0.0, orth, B.alpha, B.beta, B.Q)
    Q = rows(B.Q)
    nrm = E.sqrt(z)
    for i in range(n): E.eq(Q[i][0] * nrm, v[i], "first basis vector", obs=False)
    orthonormal(E, Q, "")
    AQ = [[sum(A[i, k] * Q[k][j] for k in range(n)) for j in range(2)] for i in range(n)]
    for i in range(n): E.eq(AQ[i][0], B.alpha[0] * Q[i][0] + B.beta[1] * Q[i][1], "first column of A Q - Q T vanishes", obs=False)
    for i in range(2):
        E.eq(sum(Q[k][i] * AQ[k][i] for k in range(n)), B.alpha[i], f"diagonal {i}")
    E.eq(sum(Q[k][0] * AQ[k][1] for k in range(n)), B.beta[1], "subdiagonal")
    E.true(E.gt(B.beta[1], 0), "positive coupling")
    B.check()

@harness(native="sym", quick=[dict(n=n, k=k, orth=o, rtol=r) for n, k, o, r in ((1, 1, 0, 0), (2, 1, 0, 0), (2, 1, 1, 1), (3, 1, 3, 0), (3, 2, 0, 0), (3, 2, 1, 1), (3, 2, 2, 0), (4, 2, 1, 0), (4, 3, 3, 1), (4, 1, 0, 1))], thorough=[dict(n=5, k=k, orth=o, rtol=r) for k in (1, 2, 3, 4) for o in (0, 2) for r in (0, 1)],
         bounds="start vectors spanning an invariant subspace of dimension k < n <= 4, tolerance zero (tridiagonal operators) or any positive one below the couplings", opts=dict(max_witnesses=2))
def invariant(E, n, k, orth, rtol):
    """stops at an exactly invariant subspace: the coefficients of that subspace, then zeros"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, n, "fixed" if n > 1 and rtol else "id", zeros=(k - 1,))
    t = E.const(0) if not rtol else E.real("rtol", nonneg=True)
    for j in range(k - 1): E.assume(E.gt(e[j], t * E.sqrt(E.const(n))))
    if rtol: E.assume(E.gt(t, 0))
    for deg in range(k, n + 1):
        ncv = max(deg, 1); o = min(orth, ncv)
        B = Buffers(E, n, deg, ncv, v)
        L.lanczos(the_op(E, "dense", A), B.v, deg, t if rtol else 0.0, o, B.alpha, B.beta, B.Q)
        w = f"(deg {deg}) "
        for j in range(deg + 1): E.eq(B.alpha[j], d[j] if j < k else 0, w + f"diagonal {j}")
        for j in range(deg): E.eq(B.beta[j + 1], e[j] if j < k - 1 else 0, w + f"subdiagonal {j}")
        for j in range(min(k, deg)):
            for i in range(n): E.eq(B.Q[i, j], Q[i][j], w + f"basis vector {j}", obs=False)
        B.check()

@harness(native="sym", quick=[dict(n=n, deg=g, orth=o) for n, g, o in ((2, 2, 0), (3, 3, 1), (4, 4, 0), (4, 3, 2))], bounds="n <= 4, all tolerances, couplings either below the tolerance or above sqrt(n) times it", opts=dict(max_witnesses=2))
def tolerance(E, n, deg, orth):
    """stops exactly at the first coupling within the tolerance; later entries are zero"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, n, "fixed")
    t = E.real("rtol", pos=True)
    small = []
    for j in range(n - 1):
        s = E.choice(f"small{j}", [0, 1]); small.append(s)
        E.assume(E.lt(e[j], t) if s else E.gt(e[j], t * E.sqrt(E.const(n))))
    stop = min([j + 1 for j in range(deg - 1) if small[j]] + [deg])
    B = Buffers(E, n, deg, deg, v)
    L.lanczos(the_op(E, "dense", A), B.v, deg, t, orth, B.alpha, B.beta, B.Q)
    for j in range(deg): E.eq(B.alpha[j], d[j] if j < stop else 0, f"diagonal {j}")
    for j in range(deg - 1): E.eq(B.beta[j + 1], e[j] if j < stop else 0, f"subdiagonal {j}")
    for j in range(stop):
        for i in range(n): E.eq(B.Q[i, j], Q[i][j], f"basis vector {j}", obs=False)
    B.check()

@harness(native="sym", quick=[dict(n=n, m=m) for n, m in ((2, 1), (2, 2), (3, 2), (3, 3), (4, 3))], thorough=[dict(n=5, m=4), dict(n=6, m=5)], bounds="all vectors of length n <= 4, orthonormal columns (scaled by arbitrary nonzero lengths), every start, count up to the number of columns, both directions", opts=dict(max_witnesses=1))
def reorthogonalise(E, n, m):
    """removes the components along exactly the requested columns, cyclically; zero columns are ignored"""
    Q = the_basis(E, n, "free" if n == 2 else "fixed")
    sc = [E.real(f"c{j}", nonzero=True) for j in range(m)]
    v = [E.real(f"v{i}") for i in range(n)]
    zero = E.choice("zero", [None, 0] + ([m - 1] if m > 1 else []))
    if zero is not None: sc[zero] = E.const(0)
    U = E.array([[sc[j] * Q[i][j] for j in range(m)] for i in range(n)])
    snap = E.snapshot(U)
    for start in (0, 1, m - 1, -1, m):
        for p in range(0, m + 1):
            for rev in (False, True):
                full = E.reals("g", n + 2 * G)
                for i in range(n): full[G + i] = v[i]
                gs = E.snapshot(full[:G]), E.snapshot(full[G + n:])
                x = full[G:G + n]
                E.orth_vector(x, U, start, p, rev)
                cols = {(start + (-c if rev else c)) % m for c in range(p)}
                want = list(v)
                for c in cols:
                    if c == zero: continue
                    ip = sum(Q[i][c] * v[i] for i in range(n))
                    want = [want[i] - ip * Q[i][c] for i in range(n)]
                E.eq(x, E.array(want), f"start {start}, {p} columns, {'backwards' if rev else 'forwards'}", obs=False)
                E.unchanged(full[:G], gs[0], "nothing written before"); E.unchanged(full[G + n:], gs[1], "nothing written past")
    E.unchanged(U, snap, "columns untouched")

@harness(native="sym", quick=[dict(n=n, rot=r, op=o, power=p, what=q) for n, r, o in ((2, "fixed", "sparse"), (3, "fixed", "dense")) for p in (-12, 9) for q in ("operator", "vector")], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, rot, op, power, what):
    """with tolerance zero the recurrence does not depend on the units of the operator or of the start vector"""
    L = E.mod("_lanczos")
    f = unit(E, power); g, h = (f, 1) if what == "operator" else (1, f)
    A, d, e, Q, v = make(E, n, rot)
    M = the_op(E, op, times(g, A))
    for deg, ncv, orth in ((n, n, n), (n, n, 0), (n, 2, 1), (2, 2, 2)):
        B = Buffers(E, n, deg, ncv, times(h, v))
        L.lanczos(M, B.v, deg, 0.0, orth, B.alpha, B.beta, B.Q)
        w = f"(deg {deg}, ncv {ncv}, orth {orth}) "
        for j in range(deg): E.eq(B.alpha[j] / g, d[j], w + f"diagonal {j}")
        for j in range(deg - 1): E.eq(B.beta[j + 1] / g, e[j], w + f"subdiagonal {j}")
        if ncv == deg:
            for j in range(deg):
                for i in range(n): E.eq(B.Q[i, j], Q[i][j], w + f"basis vector {j}", obs=False)
