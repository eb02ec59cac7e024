"""C18: Hutch++."""
from vsym.reg import harness
from props.util import *
from props.c17 import Sampler, the_operator
ASSUMPTIONS = ["np.linalg.qr returns an orthonormal basis of the column space, signs arbitrary; for dependent columns some orthonormal completion", "samplers are called as sampler(size=(n, k)), first for the sketch, then for the residual"]

def run(E, A, mode, full, **kw):
    T = E.mod("trace")
    if mode is not None: kw["mode"] = mode
    if full: kw["full"] = True
    r = T.hutchpp(A, **kw)
    if not full: return r, None
    E.true(isinstance(r, tuple) and len(r) == 2, "estimate and result")
    return r

def bilin(u, A, v): return sum(u[i] * sum(A[i][j] * v[j] for j in range(len(v))) for i in range(len(u)))

class Vectors(Sampler):
    """first batch given (the sketch), later ones arbitrary"""
    def __init__(self, E, W, name="g"):
        Sampler.__init__(self, E, name); self.W = W
    def __call__(self, size):
        n, b = size
        if not self.batches:
            self.batches.append(b)
            return self.E.array([[self.W[i][j] if j < len(self.W[0]) else self.E.const(1 if i == j % n else 0) for j in range(b)] for i in range(n)])
        return Sampler.__call__(self, size)

@harness(quick=[dict(n=4, rot=r, mode=m, full=f, op=o, m=k) for r, m, f, o, k in (("fixed", None, 0, "dense", None), ("fixed", "full", 0, "dense", 3), ("fixed", "reduced", 1, "op", 2), ("fixed", "full", 1, "op", 1), ("fixed", "reduced", 0, "quad", 3), ("free", "reduced", 0, "dense", 3), ("free", "full", 0, "op", None))]
         + [dict(n=5, rot="fixed", mode=m, full=f, op="dense", m=3) for m, f in (("reduced", 0), ("full", 1))],
         thorough=[dict(n=n, rot="fixed", mode=m, full=1, op="op", m=3) for n in (6,) for m in ("reduced", "full")] + [dict(n=7, rot="fixed", mode="reduced", full=0, op="dense", m=4)],
         bounds="matrices of size n, three test vectors per phase (six for n = 7), sketches with linearly independent images", opts=dict(max_witnesses=2))
def estimate(E, n, rot, mode, full, op, m):
    """trace on the range of the sketch plus the mean residual quadratic form"""
    k = max(3, (n // 3 if m is None else m)); k += -k % 3
    A, W, Q, R = known_sketch(E, n, k, rot)
    M = E.array(A); snap = E.snapshot(M)
    class Quad:
        shape = (n, n); dtype = E.np.dtype("float64")
        def __matmul__(s, x): return M @ x
        def quad(s, x): return E.np.einsum("i...,i...->...", x, M @ x)
    s = Vectors(E, W)
    kw = {} if m is None else dict(m=m)
    est, res = run(E, Quad() if op == "quad" else the_operator(E, op, M, n), mode, full, pdf=s, **kw)
    E.true(s.batches == [k, k], f"draws {k} vectors for each phase ({s.batches})")
    q = [[Q[i][j] for i in range(n)] for j in range(k)]
    want = sum(bilin(v, A, v) for v in q)
    defl = 0
    for g in s.cols:
        c = [sum(v[i] * g[i] for i in range(n)) for v in q]
        h = [g[i] - sum(c[j] * q[j][i] for j in range(k)) for i in range(n)]
        defl = defl + bilin(h, A, h)
    E.eq(est, want + defl / k, "range trace plus deflated residual")
    E.unchanged(M, snap, "operator untouched")
    if full: E.eq(res.estimate, est, "result carries the estimate"); E.true(res.nit == 2 * k, "number of vectors")

@harness(quick=[dict(n=n, mode=m, op=o, full=f) for n, m, o, f in ((1, "reduced", "dense", 0), (1, "full", "op", 1), (2, "reduced", "dense", 0), (2, "full", "dense", 0), (2, "full", "op", 1))], bounds="all matrices of size n <= 2 (the sketch spans everything), all nonzero sketches", opts=dict(max_witnesses=2))
def small(E, n, mode, op, full):
    """n at most three vectors: exact trace"""
    M = E.reals("A", (n, n))
    s = Sampler(E) if n == 1 else Vectors(E, [[E.const(1), E.const(2), E.const(-1)], [E.const(0), E.const(1), E.const(1)]])
    if n == 1: E.assume(E.not_(E.eqv(M[0, 0], 0)))
    else: E.assume(E.not_(E.eqv(M[0, 0] * M[1, 1], M[0, 1] * M[1, 0])))
    est, res = run(E, the_operator(E, op, M, n), mode, full, pdf=s)
    E.eq(est, sum(M[i, i] for i in range(n)), "exact trace")

@harness(quick=[dict(n=4, rank=r, mode=m) for r in (1, 2) for m in ("reduced", "full")] + [dict(n=5, rank=2, mode="full"), dict(n=4, rank=0, mode="reduced"), dict(n=3, rank=1, mode="full")], bounds="matrices of rank r < 3 with range spanned by the first r columns of a fixed orthogonal matrix, sketches that span the range", opts=dict(max_witnesses=2))
def exact_low_rank(E, n, rank, mode):
    """rank at most the sketch size: exact trace"""
    Q = const_rows(E, householder(n))
    T = vandermonde_like(n)
    W = [[E.frac(int(x), 1) for x in r[:3]] for r in T]
    # images of the first `rank` test vectors: Q R with R triangular; everything else arbitrary within the range
    B = [[(E.real(f"B{i}{j}", pos=(i == j)) if i <= j else E.const(0)) if i < rank else E.const(0) for j in range(n)] for i in range(n)]
    A = mm(mm(Q, B), const_rows(E, inv_frac(T)))
    s = Vectors(E, W)
    est, _ = run(E, E.array(A), mode, 0, pdf=s)
    E.eq(est, sum(A[i][i] for i in range(n)), "exact trace")

@harness(quick=[dict(n=n, m=m) for n in (1, 2, 3, 5) for m in (None, 0, 1, 2, 3)] + [dict(n=n, m=m) for n, m in ((4, 4), (6, 5), (6, 6), (8, None), (9, None), (10, None), (12, None), (13, None), (15, None), (18, None), (20, None), (21, None), (12, 7), (12, 9), (13, 10), (1, 7), (2, 9), (3, 8), (4, 12), (5, 16))],
         bounds="scalar multiples of the identity, unit test vectors", opts=dict(max_witnesses=1))
def number_of_vectors(E, n, m):
    """smallest multiple of three covering the request (a third of the size by default), at least three"""
    a = E.real("a", nonzero=True); M = a * E.np.eye(n)
    class Units(Sampler):
        def __call__(s, size):
            nn, b = size; s.batches.append(b)
            W = E.np.zeros((nn, b))
            for j in range(b): W[j % nn, j] = 1
            return E.array([[W[i, j] * (1 if len(s.batches) == 1 else 3) for j in range(b)] for i in range(nn)])
    s = Units(E)
    est, res = run(E, M, "full", 1, pdf=s, m=m)
    want = n // 3 if m is None else m
    k = max(3, -(-want // 3) * 3)
    E.true(s.batches == [k, k], f"number of vectors ({s.batches}, expected {k} twice)")
    E.true(res.nit == 2 * k, "reported number of vectors")
    E.eq(est, a * min(k, n), "trace of the identity's multiple on the covered coordinates")

@harness(quick=[dict(pdf=p) for p in ("rademacher", "normal", "sphere", "default")], bounds="n = 1, every generator output", opts=dict(max_witnesses=3, max_paths=300))
def named_samplers(E, pdf):
    T = E.mod("trace")
    a = E.real("a", nonzero=True)
    for i in range(6): E.assume(E.not_(E.eqv(E.draw(5, i, "n"), 0))) if pdf in ("normal", "sphere") else None
    kw = {} if pdf == "default" else dict(pdf=pdf)
    E.eq(T.hutchpp(E.array([[a]]), seed=5, **kw), a, "exact in one dimension")
    E.true(len(E.draws(("seed", 5), "n" if pdf in ("normal", "sphere") else "u")) == 6, "three draws per phase")
    for bad in ("cauchy", ""): E.raises(lambda: T.hutchpp(E.array([[a]]), pdf=bad), f"unknown distribution {bad!r}")
    E.eq(T.hutchpp(E.np.zeros((0, 0))), 0, "empty operator", shape=False)

@harness(quick=[dict(n=n, mode=m, full=f, op=o, m=k) for n, m, f, o, k in ((12, "reduced", 0, "dense", 6), (12, "full", 1, "op", None), (10, "reduced", 1, "op", 9), (16, "full", 0, "dense", 12), (20, "reduced", 0, "dense", None))],
         bounds="n up to 20, sketches up to 12 vectors: matrices P + t Q with known images of the fixed sketch, fixed residual vectors", opts=dict(max_witnesses=1))
def wide(E, n, mode, full, op, m):
    """larger operators and sketches"""
    k = max(3, (n // 3 if m is None else m)); k += -k % 3
    Q = const_rows(E, householder(n)); t = E.real("t")
    R = [[E.const(2 + i % 3 if i == j else (i * 3 + j) % 5 - 2 if i < j else 0) for j in range(k)] for i in range(k)]
    B = [[(R[i][j] if i < k else E.const(0)) if j < k else E.const((i * j) % 7 - 3) + t * ((i + 2 * j) % 5 - 2) for j in range(n)] for i in range(n)]
    # a unimodular basis whose first k members are the sketch
    T = [[(1 if i == j else (i + j) % 3 - 1 if i > j else 0) for j in range(n)] for i in range(n)]
    A = mm(mm(Q, B), const_rows(E, inv_frac(T)))
    W = [[E.const(T[i][j]) for j in range(k)] for i in range(n)]
    class Fixed(Vectors):
        def __call__(s, size):
            if not s.batches: return Vectors.__call__(s, size)
            s.batches.append(size[1]); G = [[E.const((i * 5 + j * 3) % 7 - 3) for j in range(size[1])] for i in range(size[0])]
            s.cols += [[G[i][j] for i in range(n)] for j in range(size[1])]
            return E.array(G)
    s = Fixed(E, W)
    est, res = run(E, the_operator(E, op, E.array(A), n), mode, full, pdf=s, **({} if m is None else dict(m=m)))
    E.true(s.batches == [k, k], f"draws {k} vectors for each phase ({s.batches})")
    q = [[Q[i][j] for i in range(n)] for j in range(k)]
    want = sum(bilin(v, A, v) for v in q); defl = 0
    for g in s.cols:
        c = [sum(v[i] * g[i] for i in range(n)) for v in q]
        h = [g[i] - sum(c[j] * q[j][i] for j in range(k)) for i in range(n)]
        defl = defl + bilin(h, A, h)
    E.eq(est, want + defl / k, "range trace plus deflated residual")
    if full: E.eq(res.estimate, est, "result carries the estimate"); E.true(res.nit == 2 * k, "number of vectors")

@harness(quick=[dict(mode=m, power=p, what=q) for m in ("reduced", "full") for p in (-12, 9) for q in ("operator", "sketch")], bounds="inputs in units of 10^power", opts=dict(max_witnesses=2))
def units(E, mode, power, what):
    """operators and sketches of any magnitude"""
    f = unit(E, power); g, h = (f, 1) if what == "operator" else (1, f)
    A, W, Q, R = known_sketch(E, 4, 3)
    s = Vectors(E, times(h, W))
    est, _ = run(E, E.array(times(g, A)), mode, 0, pdf=s)
    q = [[Q[i][j] for i in range(4)] for j in range(3)]; defl = 0
    for v in s.cols:
        c = [sum(a * b for a, b in zip(u, v)) for u in q]
        r = [v[i] - sum(c[j] * q[j][i] for j in range(3)) for i in range(4)]
        defl = defl + bilin(r, A, r)
    E.eq(est / g, sum(bilin(u, A, u) for u in q) + defl / 3, "range trace plus deflated residual")
