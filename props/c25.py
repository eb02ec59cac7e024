"""C25: operator validation."""
from vsym.reg import harness
from props.c17 import Sampler
ASSUMPTIONS = ["an argument with more than two dimensions counts as accepted when its first two agree (the documented message says 'at least two dimensional')"]
PRODUCTS = ["__matmul__", "matmul", "dot", "matvec"]
DTYPES = ["float32", "float64", "float16", "longdouble", "int64", "int32", "uint8", "bool", "complex64", "complex128", "object"]
GOOD = ("float32", "float64")

def make(E, offered, shape, dtype, infer=None, calls=None):
    """a duck-typed operator; `infer`: dtype of its products"""
    ns = {}
    n = shape[0] if shape is not None and len(shape) else 0
    def prod(self, x):
        if calls is not None: calls.append(E.np.shape(x))
        return E.array([0] * n, dtype=infer or "float64")
    for p in offered: ns[p] = prod
    T = type("Op", (), ns)
    o = T()
    if shape is not None: o.shape = shape
    if dtype is not None: o.dtype = E.np.dtype(dtype)
    return o

@harness(quick=[dict(offered=o) for o in (["__matmul__"], ["matmul"], ["dot"], ["matvec"], ["__matmul__", "dot"], [])], bounds="all pairs of dimensions (any natural numbers), all real, integer and complex dtypes, every single product attribute", opts=dict(max_witnesses=6, max_paths=400))
def shapes(E, offered):
    """accepted iff a product is offered, the dimensions agree and the dtype is a 32- or 64-bit float"""
    O = E.mod("operators")
    n, m = E.nat("n", lo=0), E.nat("m", lo=0)
    dt = E.choice("dtype", DTYPES); rank = E.choice("rank", [2, 1, 0, 3, None])
    shape = {2: (n, m), 1: (n,), 0: (), 3: (n, m, 2), None: None}[rank]
    op = make(E, offered, shape, dt)
    r, exc = E.attempt(lambda: O.is_valid_operator(op))
    if exc is None:
        E.true(len(offered) > 0 and rank in (2, 3) and dt in GOOD, "accepted only with a product, two dimensions and a supported dtype")
        E.true(E.eqv(n, m) if rank in (2, 3) else False, "accepted only when square")
        E.true(r == E.np.dtype(dt), "reported dtype is the operator's own")
    else:
        ok = len(offered) > 0 and rank in (2, 3) and dt in GOOD
        E.true(E.not_(E.eqv(n, m)) if ok else True, "rejected only when not square")
    v, exc = E.attempt(lambda: O.is_linear_op(op))
    E.true(exc is None, "the predicate answers")
    if exc is not None: return
    ok = len(offered) > 0 and rank in (2, 3)
    E.same(v, E.eqv(n, m) if ok else False, "predicate: a product, two dimensions, square")

@harness(quick=[dict(n=n) for n in (1, 2)], bounds="all dtypes of products of an operator without a dtype", opts=dict(max_witnesses=20))
def inferred(E, n):
    """without a dtype the one of a product is reported"""
    O = E.mod("operators")
    dt = E.choice("dtype", ["float32", "float64", "int64", "float16", "complex128", "bool"])
    calls = []
    op = make(E, ["__matmul__"], (n, n), None, infer=dt, calls=calls)
    r, exc = E.attempt(lambda: O.is_valid_operator(op))
    E.true((exc is None) == (dt in GOOD), "accepted iff products are 32- or 64-bit floats")
    if exc is None: E.true(r == E.np.dtype(dt), "inferred dtype")
    E.true(all(tuple(c) in ((n,), (n, 1)) for c in calls), "probed with a vector of matching length")

@harness(quick=[dict(kind=k) for k in ("dense", "op", "object")], bounds="dense arrays, linear operators, other objects", opts=dict(max_witnesses=20))
def kinds(E, kind):
    O = E.mod("operators")
    if kind == "dense":
        for dt in ("float32", "float64"): E.true(O.is_valid_operator(E.reals("A", (2, 2)).astype(dt)) == E.np.dtype(dt), dt)
        for bad in (E.reals("B", (2, 3)), E.reals("c", 3), E.array([[1, 2], [3, 4]], dtype="int64")): E.raises(lambda: O.is_valid_operator(bad), "invalid array")
        E.true(bool(O.is_linear_op(E.reals("A", (3, 3)))), "square array"); E.true(not O.is_linear_op(E.reals("B", (2, 3))), "rectangular array"); E.true(not O.is_linear_op(E.reals("c", 3)), "vector")
    elif kind == "op":
        for dt in ("float32", "float64"): E.true(O.is_valid_operator(E.operator(E.reals("A", (2, 2)), dt)) == E.np.dtype(dt), dt)
        E.raises(lambda: O.is_valid_operator(E.operator(E.reals("A", (2, 2)), "int64")), "integer operator")
        E.raises(lambda: O.is_valid_operator(E.operator(E.reals("B", (2, 3)))), "rectangular operator")
    else:
        for bad in (3.0, None, "A", [[1.0, 0.0], [0.0, 1.0]]):
            E.raises(lambda: O.is_valid_operator(bad), f"not an operator: {bad!r}")
            v, exc = E.attempt(lambda: O.is_linear_op(bad))
            E.true(exc is None and not v, f"predicate on {bad!r}")

BAD = ["vector", "rect", "ints", "complex", "none", "half"]
def bad_operator(E, kind):
    if kind == "vector": return E.reals("v", 2)
    if kind == "rect": return E.reals("R", (2, 3))
    if kind == "ints": return E.array([[1, 2], [2, 1]], dtype="int64")
    if kind == "complex": return make(E, ["__matmul__"], (2, 2), "complex128")
    if kind == "half": return make(E, ["__matmul__", "matvec", "dot"], (2, 2), "float16")
    class No: shape = (2, 2); dtype = E.np.dtype("float64")
    return No()

@harness(quick=[dict(fn=f, kind=k) for f in ("hutch", "hutchpp", "diag") for k in BAD], bounds="one representative of every reason for rejection", opts=dict(max_witnesses=1))
def estimators_reject(E, fn, kind):
    """estimators reject invalid operators before drawing"""
    f = getattr(E.mod("diagonal" if fn == "diag" else "trace"), fn)
    A = bad_operator(E, kind)
    s = Sampler(E)
    kw = {} if fn == "hutchpp" else dict(converge="count", count=1)
    E.raises(lambda: f(A, pdf=s, **kw), "invalid operator with a sampler")
    E.true(len(s.batches) == 0, "no vector requested")
    g = E.np.random.default_rng(5)
    E.raises(lambda: f(A, seed=g, **kw), "invalid operator with a generator")
    E.true(len(E.all_draws()) == 0, "nothing drawn")
