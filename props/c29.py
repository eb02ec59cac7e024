"""C29: one answer whatever the storage of the operator, and exceptions raised by the operator reach the caller."""
from vsym.reg import harness
from props.util import *
from props.c14 import Buffers, make, the_op, the_basis, G
from props.c15 import tolerance
ASSUMPTIONS = ["exact arithmetic: agreement 'up to rounding' is decided as equality; precision is a type label", "the overloads' argument conversions are modelled (vsym/native.py) and compared with the real binding on one input per path",
               "every pair (A, v) is orthogonally equivalent to a Jacobi matrix and a first basis vector"]

class Boom(Exception): pass
class Loud(ValueError): pass

class Py:
    """a Python object offering shape and matvec only, with the habits such objects have"""
    def __init__(self, E, M, n, habit="plain", fail_at=None, exc=Boom):
        self.E, self.M, self.shape, self.habit, self.fail_at, self.exc, self.calls, self.buf, self.given = E, M, (n, n), habit, fail_at, exc, 0, None, []
    def matvec(self, x):
        self.calls += 1
        if self.fail_at is not None and self.calls - 1 == self.fail_at: raise self.exc("on purpose")
        y = self.M @ x
        if self.habit == "reuse":             # one output buffer for all calls
            if self.buf is None: self.buf = self.E.np.zeros_like(y)
            self.buf[:] = y; return self.buf
        if self.habit == "scribble": x[:] = 0 * x; return y   # uses its argument as a workspace
        if self.habit == "keep": self.given.append(x); return y
        if self.habit == "column": return y.reshape((-1, 1))
        if self.habit == "strided":
            w = self.E.np.zeros_like(self.E.np.concatenate([y, y])); w[::2] = y; return w[::2]
        if self.habit == "list": return list(y)
        return y

KINDS = ["dense", "sparse", "py", "plain", "reuse", "scribble", "keep", "column", "strided", "list"]

def operand(E, kind, A, dtype):
    M = E.array(A, dtype=dtype)
    if kind in ("dense", "sparse", "py"): return the_op(E, kind, A, dtype)
    return Py(E, M, len(A), kind)

@harness(native="sym", quick=[dict(n=n, rot=r, adt=a, bdt=b) for n, r, a, b in ((1, "id", "float64", "float64"), (2, "free", "float64", "float64"), (2, "fixed", "float32", "float32"), (3, "fixed", "float64", "float64"), (3, "fixed", "float64", "float32"), (3, "id", "float32", "float64"), (4, "id", "float64", "float64"))],
         thorough=[dict(n=4, rot="fixed", adt="float64", bdt="float64"), dict(n=3, rot="line", adt="float64", bdt="float64"), dict(n=5, rot="id", adt="float32", bdt="float64")],
         bounds="n <= 4, all Jacobi matrices with couplings in [1, 3] and diagonals in [-3, 3], operators and buffers in either precision, ten kinds of operator", opts=dict(max_witnesses=1))
def agree(E, n, rot, adt, bdt):
    """dense, sparse and Python operators give the same coefficients and basis in either precision"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, n, rot)
    for x in e: E.assume(E.and_(E.ge(x, 1), E.le(x, 3)))
    for x in d: E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    if rot in ("id", "fixed"): E.assume(E.and_(E.ge(v[0], E.frac(1, 5)), E.le(v[0], 5)))
    single = "float32" in (adt, bdt)
    for deg, ncv, orth in {(n, n, 0), (n, n, n), (max(n - 1, 1), max(n - 1, 1), 0)} | ({(n, 2, 2)} if n > 2 else set()):
        for kind in KINDS:
            w = f"({kind}, deg {deg}, width {ncv}, orth {orth}) "
            B = Buffers(E, n, deg, ncv, v, dtype=bdt)
            M = operand(E, kind, A, adt)
            out, exc = E.attempt(lambda: L.lanczos(M, B.v, deg, 0.0, orth, B.alpha, B.beta, B.Q))
            E.true(exc is None, w + f"accepted ({exc!r})"[:100])
            if exc is not None: continue
            for j in range(deg): E.eq(B.alpha[j], d[j], w + f"diagonal {j}", obs=False, **tolerance(E, single))
            E.eq(B.beta[0], 0, w + "leading subdiagonal entry")
            for j in range(deg - 1): E.eq(B.beta[j + 1], e[j], w + f"subdiagonal {j}", obs=False, **tolerance(E, single))
            if ncv == deg:
                for j in range(deg):
                    for i in range(n): E.eq(B.Q[i, j], Q[i][j], w + f"basis vector {j}", obs=False, **tolerance(E, single))
            B.check()

@harness(native="sym", quick=[dict(n=n, rot=r, adt=a, bdt=b, run=u) for n, r, a, b, u in ((8, "fixed", "float64", "float64", [8, 8, 0]), (12, "id", "float64", "float32", [12, 4, 3]), (17, "id", "float64", "float64", [17, 17, 2]), (33, "id", "float32", "float32", [12, 2, 0]))],
         thorough=[dict(n=40, rot="id", adt="float64", bdt="float64", run=[40, 40, 0]), dict(n=17, rot="fixed", adt="float32", bdt="float64", run=[17, 5, 5])],
         bounds="n <= 33 (thorough: 40), two-parameter families of tridiagonal or rotated operators, ten kinds of operator", opts=dict(max_witnesses=1))
def longer(E, n, rot, adt, bdt, run):
    """larger operators: every kind gives the same coefficients"""
    L = E.mod("_lanczos")
    s, t, q = E.real("s", lo=-2, hi=2), E.real("t", lo=1, hi=2), E.real("q", lo=1, hi=3)
    d = [s * (i % 3 - 1) + t * (i % 4) for i in range(n)]; e = [t * (1 + (i * 2) % 3) for i in range(n - 1)]
    Q = the_basis(E, n, rot)
    A = mm(mm(Q, tridiag(E, d, e)), tr(Q)) if rot != "id" else tridiag(E, d, e)
    v = [q * Q[i][0] for i in range(n)]
    single = "float32" in (adt, bdt)
    deg, ncv, orth = run
    for kind in KINDS:
        B = Buffers(E, n, deg, ncv, v, dtype=bdt)
        op = operand(E, kind, A, adt)
        out, exc = E.attempt(lambda: L.lanczos(op, B.v, deg, 0.0, orth, B.alpha, B.beta, B.Q))
        E.true(exc is None, f"({kind}) accepted ({exc!r})"[:100])
        if exc is not None: continue
        for j in range(deg): E.eq(B.alpha[j], d[j], f"({kind}) diagonal {j}", obs=False, **tolerance(E, single))
        for j in range(deg - 1): E.eq(B.beta[j + 1], e[j], f"({kind}) subdiagonal {j}", obs=False, **tolerance(E, single))
        if isinstance(op, Py): E.true(op.calls == deg, f"({kind}) one product per step")
        B.check()

@harness(native="sym", quick=[dict(n=n) for n in (2, 3, 4)], thorough=[dict(n=5)], bounds="n <= 4, every product of the run failing in turn, five exception classes", opts=dict(max_witnesses=1))
def exceptions(E, n):
    """the operator's own exception reaches the caller, nothing is called afterwards, and the next run is unaffected"""
    L, F = E.mod("_lanczos"), E.mod("lanczos")
    A, d, e, Q, v = make(E, n, "fixed" if n < 4 else "id")
    for x in e: E.assume(E.and_(E.ge(x, 1), E.le(x, 3)))
    for x in d: E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    M = E.array(A)
    for k in range(n + 1):
        for kind in (Boom, Loud, TypeError, IndexError, StopIteration):
            op = Py(E, M, n, fail_at=k, exc=kind)
            B = Buffers(E, n, n, n, v)
            out, exc = E.attempt(lambda: L.lanczos(op, B.v, n, 0.0, 0, B.alpha, B.beta, B.Q))
            w = f"({kind.__name__} from product {k}) "
            if k < n:
                E.true(type(exc) is kind and exc.args == ("on purpose",), w + f"reaches the caller ({exc!r})"[:100])
                E.true(op.calls == k + 1, w + "nothing is called afterwards")
            else:
                E.true(exc is None and op.calls == n, w + "exactly n products")
                for j in range(n): E.eq(B.alpha[j], d[j], w + f"diagonal {j}")
            B.check()
        if k < n:
            class LO(Py):
                dtype = E.np.dtype("float64")
            out, exc = E.attempt(lambda: F.lanczos(LO(E, M, n, fail_at=k), v0=E.array(v), rtol=0.0))
            E.true(type(exc) is Boom, f"front end, product {k}: reaches the caller ({exc!r})"[:100])
        B = Buffers(E, n, n, n, v)
        L.lanczos(Py(E, M, n), B.v, n, 0.0, 0, B.alpha, B.beta, B.Q)
        for j in range(n): E.eq(B.alpha[j], d[j], f"healthy run after a failure at {k}: diagonal {j}")
        for j in range(n - 1): E.eq(B.beta[j + 1], e[j], f"healthy run after a failure at {k}: subdiagonal {j}")

@harness(native="sym", quick=[dict()], bounds="objects lacking matvec, shape or both", opts=dict(max_witnesses=1))
def unsuitable(E):
    """objects that are no operators are rejected"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, 2, "fixed")
    class NoShape:
        def matvec(self, x): return x
    class NoProduct: shape = (2, 2)
    class BadShape:
        shape = ("a", "b")
        def matvec(self, x): return x
    for bad in (NoShape(), NoProduct(), BadShape(), object()):
        B = Buffers(E, 2, 2, 2, v)
        E.raises(lambda: L.lanczos(bad, B.v, 2, 0.0, 0, B.alpha, B.beta, B.Q), type(bad).__name__)
        B.check()
    for size in (0, 1, 3):
        class Wrong:
            shape = (2, 2)
            def matvec(self, x): return E.np.zeros(size)
        B = Buffers(E, 2, 2, 2, v)
        E.raises(lambda: L.lanczos(Wrong(), B.v, 2, 0.0, 0, B.alpha, B.beta, B.Q), f"results of length {size} instead of 2")
        B.check()

@harness(native="sym", quick=[dict(n=3, k=k, rtol=r) for k in (1, 2) for r in (0, 1)], bounds="operators of size 3 with an invariant subspace of dimension 1 or 2", opts=dict(max_witnesses=1))
def breakdown(E, n, k, rtol):
    """all kinds of operator stop at the same invariant subspace"""
    L = E.mod("_lanczos")
    A, d, e, Q, v = make(E, n, "id", zeros=(k - 1,))
    t = E.frac(1, 1000) if rtol else 0.0
    for x in d: E.assume(E.and_(E.ge(x, -3), E.le(x, 3)))
    for j in range(k - 1): E.assume(E.and_(E.ge(e[j], 1), E.le(e[j], 3)))
    for kind in KINDS:
        B = Buffers(E, n, n, n, v)
        op = operand(E, kind, A, "float64")
        L.lanczos(op, B.v, n, t, 0, B.alpha, B.beta, B.Q)
        for j in range(n): E.eq(B.alpha[j], d[j] if j < k else 0, f"({kind}) diagonal {j}")
        for j in range(n - 1): E.eq(B.beta[j + 1], e[j] if j < k - 1 else 0, f"({kind}) subdiagonal {j}")
        if isinstance(op, Py): E.true(op.calls == k, f"({kind}) no product beyond the subspace")
