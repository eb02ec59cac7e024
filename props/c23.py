"""C23: normalising an operator."""
from vsym.reg import harness
from props.util import *
from props.c17 import the_operator
ASSUMPTIONS = ["eigsh(k=1, which='LM') returns an eigenvalue of largest magnitude", "the operator is symmetric and not zero"]

def spectrum(E, n, name="w"):
    """eigenvalues and eigenvectors (rational parametrisation), matrix"""
    if n == 2: V = cayley(E, name + "V", 2)
    else: V = const_rows(E, householder(n))
    w = [E.real(f"{name}{i}") for i in range(n)]
    A = [[sum(w[k] * V[i][k] * V[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return A, w, V

@harness(quick=[dict(n=n, op=o) for n in (2, 3) for o in ("dense", "op")] + [dict(n=4, op="dense")], bounds="all symmetric 2x2 matrices and, for n = 3, 4, all spectra on a fixed eigenbasis", opts=dict(max_witnesses=4, max_paths=200))
def normalised(E, n, op):
    normalised_claims(E, n, op, *spectrum(E, n), affine_all=True)

@harness(quick=[dict(n=n, op=o) for n, o in ((6, "dense"), (9, "op"), (12, "dense"), (20, "op"))], thorough=[dict(n=40, op="dense")],
         bounds="operators of size up to 20 (thorough: 40) on a fixed eigenbasis with spectrum s, -t, and fixed multiples of t; all s and t", opts=dict(max_witnesses=4))
def wide(E, n, op):
    """larger operators: the outcome must not depend on which end dominates, nor on the size"""
    s, t = E.real("s"), E.real("t")
    w = [E.frac(3, 4 + k) * t if k % 3 else E.frac(-1, 2 + k) * t for k in range(n)]
    w[n // 2] = s; w[n - 1] = -t
    V = const_rows(E, householder(n))
    A = [[sum(w[k] * V[i][k] * V[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    normalised_claims(E, n, op, A, w, V, affine_all=False)

def normalised_claims(E, n, op, A, w, V, affine_all):
    O = E.mod("operators")
    E.assume(E.or_(*[E.not_(E.eqv(x, 0)) for x in w]))
    M = E.array(A); snap = E.snapshot(M)
    E.register_sym(M, w, V)
    B = O.normalize_unit(the_operator(E, op, M, n))
    E.true(tuple(B.shape) == (n, n), "shape")
    D = B @ E.np.eye(n)
    E.unchanged(M, snap, "operator untouched")
    mu = []
    for k in range(n):
        v = [V[i][k] for i in range(n)]
        Bv = [sum(D[i, j] * v[j] for j in range(n)) for i in range(n)]
        m = sum(a * b for a, b in zip(v, Bv)); mu.append(m)
        for i in range(n): E.eq(Bv[i], m * v[i], f"eigenvector {k} kept, component {i}", obs=False)
        E.holds_le(m, 1, f"eigenvalue {k} at most one"); E.holds_le(-1, m, f"eigenvalue {k} at least minus one")
    top = [E.and_(*[E.le(abs(x), abs(w[k])) for x in w]) for k in range(n)]
    E.true(E.or_(*[E.and_(top[k], E.or_(E.eqv(mu[k], 1), E.eqv(mu[k], -1))) for k in range(n)]), "an eigenvalue of largest magnitude is sent to an endpoint")
    for i in range(n):          # affine: equal differences map to equal differences
        for j in range(i):
            for k in range(n):
                if k not in (i, j) and (affine_all or (i, j) == (n - 1, n // 2)): E.eq((mu[i] - mu[j]) * (w[i] - w[k]), (mu[i] - mu[k]) * (w[i] - w[j]), f"affine on {(i, j, k)}", obs=False)
    x = E.reals("x", n)
    E.eq(B @ x, D @ x, "action on a vector")

