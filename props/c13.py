"""C13: Gauss quadrature of a Jacobi matrix."""
import inspect
from vsym.reg import harness
from props.util import *
ASSUMPTIONS = ["LAPACK's tridiagonal drivers return an orthonormal eigendecomposition", "subdiagonals are positive (Jacobi matrices)"]

from fractions import Fraction as Fr
FAM = dict(y=Fr(-1), z=Fr(-1, 3))   # one-parameter family of eigenbases for the costly rules of degree three

def rule(E, d, e, deg, quad, zero=1, out=False, **kw):
    I = E.mod("integrate")
    D = E.array(d); X = E.array([E.const(0)] + list(e)) if zero else E.array(list(e))
    s1, s2 = E.snapshot(D), E.snapshot(X)
    if quad is not None: kw["quad"] = quad
    if deg is not None: kw["deg"] = deg
    if out:
        N, W = E.reals("N", out), E.reals("W", out); kw.update(nodes=N, weights=W)
    r = I.quadrature(D, X, **kw)
    E.unchanged(D, s1, "diagonal untouched"); E.unchanged(X, s2, "subdiagonal untouched")
    E.true(len(r) == 2, "nodes and weights")
    x, w = r
    if out: E.eq(N, x, "output nodes"); E.eq(W, w, "output weights")
    E.true(not E.shares(x, D) and not E.shares(w, D) and not E.shares(x, X) and not E.shares(w, X), "results are new arrays")
    return x, w

def gauss_claims(E, T, x, w, k, label=""):
    """moments up to 2k - 1, weights nonnegative with sum one"""
    E.true(tuple(x.shape) == (k,) and tuple(w.shape) == (k,), label + "as many nodes and weights as the degree")
    xs, ws = [x[i] for i in range(k)], [w[i] for i in range(k)]
    for i in range(k): E.holds_le(0, ws[i], f"{label}weight {i} nonnegative")
    v = [E.const(1 if i == 0 else 0) for i in range(len(T))]
    for p in range(2 * k):
        E.eq(sum(ws[i] * xs[i] ** p for i in range(k)), v[0], f"{label}moment {p}")
        v = [sum(T[i][j] * v[j] for j in range(len(T))) for i in range(len(T))]
    power_sum_claims(E, [r[:k] for r in T[:k]], xs, label + "nodes: ")

@harness(quick=[dict(n=n, deg=k, quad=q) for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (2, None), (1, None), (2, 5)) for q in ("gw", "golub_welsch", "fttr")] + [dict(n=3, deg=3, quad="gw"), dict(n=4, deg=3, quad="gw"), dict(n=3, deg=None, quad="gw"), dict(n=3, deg=3, quad="fttr"), dict(n=4, deg=3, quad="fttr")],
         bounds="all diagonals, all positive couplings; sections of size up to 3 in matrices of size up to 4", opts=dict(max_witnesses=3))
def gauss(E, n, deg, quad):
    """the rule integrates all polynomials of degree below twice the rule's degree exactly"""
    k = n if deg is None else min(deg, n)
    if k == 3:
        d, e, _, _ = jacobi(E, 3, fix=FAM if quad == "fttr" else None)
        d = d + [E.real(f"d{i}") for i in range(3, n)]; e = e + [E.real(f"e{i}", pos=True) for i in range(2, n - 1)]
    else:
        d = [E.real(f"d{i}") for i in range(n)]; e = [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    T = tridiag(E, d, e)
    x, w = rule(E, d, e, deg, quad)
    gauss_claims(E, T, x, w, k)
    if n > 1:
        x2, w2 = rule(E, d, e, deg, quad, zero=0)
        E.eq(x2, x, "subdiagonal without its leading zero: nodes"); E.eq(w2, w, "subdiagonal without its leading zero: weights")
    x3, w3 = rule(E, d, e, deg, quad, out=k)
    E.eq(x3, x, "with output arrays: nodes"); E.eq(w3, w, "with output arrays: weights")

@harness(quick=[dict(which=w, extra=x, quad=q) for w in (4, "4a", 5, "5a") for x, q in ((0, "gw"), (3, "fttr"))] + [dict(which=5, extra=x, quad=q) for x, q in ((9, "gw"), (0, "fttr"))], bounds="s I + t J for fixed Jacobi matrices J of order 4 and 5, leading sections of larger matrices", opts=dict(max_witnesses=3))
def higher(E, which, extra, quad):
    """rules of degree four and five"""
    d, e, w0, V0 = known_jacobi(E, which)
    k = len(d)
    if extra: e = e + [E.real("c", pos=True)] + [E.const(1)] * (extra - 1); d = d + [E.real("a")] + [E.const(2)] * (extra - 1)
    x, w = rule(E, d, e, k if extra else None, quad)
    gauss_claims(E, tridiag(E, d, e), x, w, k)
    x2, w2 = rule(E, d, e, k, quad, zero=0)
    E.eq(x2, x, "subdiagonal without its leading zero: nodes"); E.eq(w2, w, "subdiagonal without its leading zero: weights")

@harness(quick=[dict(which=w, quad=q, deg=k) for w in ("nodes", "weights") for q in ("gw", "fttr") for k in (1, 2)], bounds="all 2x2 Jacobi matrices, degree one and two", opts=dict(max_witnesses=3))
def one_output(E, which, quad, deg):
    """an output array given alone receives its values"""
    I = E.mod("integrate")
    D, X = E.array([E.real("d0"), E.real("d1")]), E.array([E.const(0), E.real("e0", pos=True)])
    x, w = I.quadrature(D, X, deg=deg, quad=quad)
    O = E.reals("O", deg)
    x2, w2 = I.quadrature(D, X, deg=deg, quad=quad, **{which: O})
    E.eq(x2, x, "returned nodes"); E.eq(w2, w, "returned weights")
    E.eq(O, x if which == "nodes" else w, f"output {which}")
    E.raises(lambda: I.quadrature(D, X, deg=deg, quad=quad, **{which: E.reals("P", deg + 1)}), f"output {which} of the wrong length")

@harness(quick=[dict(n=n, deg=k) for n, k in ((1, 1), (2, 1), (2, 2), (3, 2))] + [dict(n=3, deg=3)], bounds="all diagonals, all positive couplings", opts=dict(max_witnesses=3))
def same_rule(E, n, deg):
    """both weight methods return the same rule; the default is Golub-Welsch"""
    d, e, _, _ = jacobi(E, n, fix=FAM) if deg == 3 else ([E.real(f"d{i}") for i in range(n)], [E.real(f"e{i}", pos=True) for i in range(n - 1)], 0, 0)
    x1, w1 = rule(E, d, e, deg, "gw"); x2, w2 = rule(E, d, e, deg, "fttr"); x3, w3 = rule(E, d, e, deg, None)
    E.eq(x2, x1, "nodes"); E.eq(w2, w1, "weights"); E.eq(x3, x1, "default nodes"); E.eq(w3, w1, "default weights")

@harness(quick=[dict(method=m, quad=q) for m in ("tqli", "mrrr", "auto") for q in ("gw", "fttr") if m != "tqli" or q == "gw"], thorough=[dict(method="tqli", quad="fttr")], bounds="all 2x2 Jacobi matrices", opts=dict(max_witnesses=3))
def solver_passthrough(E, method, quad):
    d = [E.real("d0"), E.real("d1")]; e = [E.real("e0", pos=True)]
    x, w = rule(E, d, e, None, quad, method=method)
    gauss_claims(E, tridiag(E, d, e), x, w, 2)
    x2, w2 = rule(E, d, e, None, quad, out=2, method=method)
    E.eq(x2, x, "with output arrays: nodes"); E.eq(w2, w, "with output arrays: weights")
    I = E.mod("integrate")
    N, W = E.reals("P", 2, dtype="float32"), E.reals("U", 2, dtype="float32")
    x3, w3 = I.quadrature(E.array(d), E.array(e), quad=quad, method=method, nodes=N, weights=W)
    tol = dict(rtol=1e-3) if "rtol" in inspect.signature(E.eq).parameters else {}       # real runs only
    E.eq(N, x, "output nodes in single precision", **tol); E.eq(W, w, "output weights in single precision", **tol)

@harness(quick=[dict(zero_node=z) for z in (0, 1)], bounds="2x2 Jacobi matrices with a node at zero; diagonal entry zero")
def special(E, zero_node):
    a = E.real("a", pos=True); b = E.real("b", pos=True)
    d = [a * a / b, b] if zero_node else [E.const(0), a]
    for q in ("gw", "fttr"):
        x, w = rule(E, d, [a] if zero_node else [b], None, q)
        gauss_claims(E, tridiag(E, d, [a] if zero_node else [b]), x, w, 2, q + ": ")

@harness(quick=[{}], bounds="the listed arguments")
def rejects(E):
    I = E.mod("integrate")
    d, e = E.array([1, 2, 3]), E.array([0, 1, 1])
    for bad in ("", "gauss", "GW", "golub", None): E.raises(lambda: I.quadrature(d, e, quad=bad), f"method {bad!r}")
    E.raises(lambda: I.quadrature(d, E.array([1, 1, 1])), "first subdiagonal entry must vanish")
    E.raises(lambda: I.quadrature(d, E.array([1.0])), "lengths"); E.raises(lambda: I.quadrature(d, E.array([0, 1, 1, 1])), "lengths")
    E.raises(lambda: I.quadrature(d, e, deg=2, nodes=E.reals("N", 3), weights=E.reals("W", 3)), "output arrays of the wrong length")

@harness(quick=[dict(n=n, quad=q, power=p) for n in (2, 3) for q in ("gw", "fttr") for p in (-12, 9)], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, n, quad, power):
    """nodes scale with the matrix, weights do not change"""
    f = unit(E, power)
    d = [E.real(f"d{i}") for i in range(n)]; e = [E.real(f"e{i}", pos=True) for i in range(n - 1)]
    x, w = rule(E, times(f, d), times(f, e), 2, quad)
    gauss_claims(E, tridiag(E, d, e), x / f, w, 2)
