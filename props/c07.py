"""C07: isotropic samplers."""
from vsym.reg import harness
ASSUMPTIONS = ["draws are uniform in [0,1) respectively any real; the floating-point map of a draw to a sign is exact (2u and floor are exact in binary64)"]
NAMES = ["rademacher", "signs", "normal", "gaussian", "sphere"]
KIND = dict(rademacher="rademacher", signs="rademacher", normal="normal", gaussian="normal", sphere="sphere")

def positions(shape, order):
    import itertools
    idx = list(itertools.product(*[range(k) for k in shape]))
    if order == "F": idx = [t[::-1] for t in itertools.product(*[range(k) for k in shape[::-1]])]
    return {t: i for i, t in enumerate(idx)}

def check(E, W, shape, pdf, key, base=0, label=""):
    """W holds valid vectors, one distinct draw of stream `key` behind each entry"""
    pdf = KIND[pdf]
    E.true(tuple(W.shape) == tuple(shape), label + "shape")
    if tuple(W.shape) != tuple(shape): return
    N = 1
    for k in shape: N *= k
    kind = "u" if pdf == "rademacher" else "n"
    if pdf == "rademacher":
        for t in E.np.ndindex(*shape): E.true(E.or_(E.eqv(W[t], 1), E.eqv(W[t], -1)), label + f"sign at {t}")
    if pdf == "sphere":
        for j in E.np.ndindex(*shape[1:]):
            ok = sum(E.draw_of(key, base + k, kind) ** 2 for k in range(N))
            c = W[(slice(None),) + tuple(j)]
            E.eq(sum(c[i] * c[i] for i in range(shape[0])), E.const(shape[0]), label + f"squared norm of column {j}")
    have = [n for n in E.draws(key, kind) if int(n.split("|")[-1]) >= base]
    if len(have) != N or len(E.draws(key, "n" if kind == "u" else "u")) > 0: return None      # another way of drawing: only validity is claimed
    rules = []
    for order in ("F", "C"):
        pos = positions(shape, order)
        d = {t: E.draw_of(key, base + pos[t], kind) for t in pos}
        if pdf == "rademacher":
            up = E.and_(*[E.iff(E.gt(W[t], 0), E.ge(d[t], E.frac(1, 2))) for t in pos]); dn = E.and_(*[E.iff(E.gt(W[t], 0), E.lt(d[t], E.frac(1, 2))) for t in pos])
            rules += [up, dn]
        elif pdf == "normal": rules.append(E.and_(*[E.eqv(W[t], d[t]) for t in pos]))
        else:
            cl = []
            for j in E.np.ndindex(*shape[1:]):
                col = [(i,) + tuple(j) for i in range(shape[0])]
                nn = sum(d[t] ** 2 for t in col)
                cl += [E.and_(E.eqv(W[t] ** 2 * nn, d[t] ** 2 * shape[0]), E.ge(W[t] * d[t], 0)) for t in col]
            rules.append(E.and_(*cl))
        if len([k for k in shape if k > 1]) < 2: break
    E.true(E.or_(*rules), label + "each entry is the documented function of its own draw")
    return N

def nonzero_columns(E, shape, key, base=0):
    """no sampled column is the zero vector (probability zero)"""
    N = 1
    for k in shape: N *= k
    for order in ("F", "C"):
        pos = positions(shape, order)
        for j in E.np.ndindex(*shape[1:]):
            E.assume(E.gt(sum(E.draw_of(key, base + pos[(i,) + tuple(j)], "n") ** 2 for i in range(shape[0])), 0))

SIZES = [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3), (4,)]
@harness(quick=[dict(pdf=p, size=s) for p in NAMES for s in SIZES] + [dict(pdf=p, size=s) for p in NAMES for s in (1, 2, 4)] + [dict(pdf=p, size=s) for p in ("rademacher", "normal", "sphere") for s in ((17, 3), (2, 33), (5, 2, 2))], thorough=[dict(pdf=p, size=s) for p in NAMES for s in ((5, 3), (64, 5), (8, 2), (7, 1), (2, 2, 2), 9)],
         bounds="every generator output, the listed shapes", opts=dict(max_witnesses=3, max_paths=3000))
def direct(E, pdf, size):
    """values, shape, deferred and repeated sampling"""
    R = E.mod("random")
    arg = tuple(size) if isinstance(size, (list, tuple)) else size
    shape = arg if isinstance(arg, tuple) else (arg, 1)
    key = ("seed", 5)
    N = 1
    for k in shape: N *= k
    if KIND[pdf] == "sphere": nonzero_columns(E, shape, key); nonzero_columns(E, shape, key, N)
    W = R.isotropic(arg, pdf=pdf, seed=5)
    check(E, W, shape, pdf, key)
    f = R.isotropic(pdf=pdf, seed=5)
    E.true(callable(f), "without a size a sampler is returned")
    V = f(arg)
    E.eq(V, W, "deferred sampling draws the same stream")
    snap = E.snapshot(V)
    V2 = f(arg)
    check(E, V2, shape, pdf, key, N, "second call: ")
    E.true(len(E.draws(key, "u")) + len(E.draws(key, "n")) == 2 * N, "a further call uses fresh draws")
    E.unchanged(V, snap, "earlier sample untouched")
    other = [q for q in NAMES if KIND[q] == KIND[pdf]]
    for q in other: E.eq(R.isotropic(arg, pdf=q, seed=5), W, f"synonym {q}")
    if pdf == "signs": E.eq(R.isotropic(arg, seed=5), W, "sign vectors are the default")

@harness(quick=[dict(pdf=p, shape=s, order=o) for p in NAMES for s in ((2, 2), (3, 1)) for o in "CF"] + [dict(pdf=p, shape=(3,), order="C") for p in NAMES] + [dict(pdf=p, shape=(12, 7) if p != "rademacher" else (7, 3), order=o) for p in ("rademacher", "normal", "sphere") for o in "CF"], thorough=[dict(pdf=p, shape=(4, 3), order=o) for p in NAMES for o in "CF"],
         bounds="every generator output, previous contents arbitrary", opts=dict(max_witnesses=3, max_paths=3000))
def inplace(E, pdf, shape, order):
    R = E.mod("random")
    shape = tuple(shape); key = ("seed", 5)
    if KIND[pdf] == "sphere": nonzero_columns(E, shape, key)
    W = E.reals("old", shape, order=order)
    r = R.isotropic(pdf=pdf, seed=5, out=W)
    E.true(r is None, "in-place sampling returns nothing")
    check(E, W, shape, pdf, key)
    W2 = E.reals("old2", shape, order=order)
    R.isotropic(size=shape, pdf=pdf, seed=5, out=W2)
    E.eq(W2, W, "a size beside out changes nothing")

@harness(quick=[dict(pdf=p) for p in NAMES], bounds="a generator object as seed", opts=dict(max_witnesses=3))
def stream(E, pdf):
    R = E.mod("random"); key = ("seed", 5)
    if KIND[pdf] == "sphere":
        for b in (0, 2, 4): nonzero_columns(E, (2, 1), key, b)
    rng = E.np.random.default_rng(5)
    k = "u" if KIND[pdf] == "rademacher" else "n"
    a = R.isotropic((2, 1), pdf=pdf, seed=rng); n1 = len(E.draws(key, k))
    b = R.isotropic((2, 1), pdf=pdf, seed=rng); n2 = len(E.draws(key, k))
    E.true(n1 > 0 and n2 == 2 * n1, "a generator passed as seed is advanced")
    check(E, b, (2, 1), pdf, key, 2)

@harness(quick=[dict(pdf=p, shape=s, threads=t) for p in ("rademacher", "normal", "sphere") for s, t in (((2, 19), 4), ((7, 5), 3), ((3, 16), 8), ((2, 3), 7), ((1, 9), 8), ((2, 1), 8), ((1, 6), 5))], thorough=[dict(pdf=p, shape=(4, 70), threads=16) for p in ("rademacher", "normal", "sphere")],
         bounds="every generator output, tasks run in the order of submission", opts=dict(max_witnesses=3, max_paths=3000))
def filler_wide(E, pdf, shape, threads):
    """many columns and threads, more threads than columns"""
    R = E.mod("random"); shape = tuple(shape); N = shape[0] * shape[1]
    E.opt(schedules=False)
    F = R.Isotropic(shape, seed=5, threads=threads, pdf=pdf)
    F.fill()
    names = list(E.all_draws()); A = F.values
    E.true(tuple(A.shape) == shape, "shape")
    E.true(len(set(names)) == len(names) and len(names) == N, "one draw per entry")
    if pdf == "sphere":
        for n in names: E.assume(E.not_(E.eqv(E.draw_named(n), 0)))
    for j in range(shape[1]):
        if pdf == "rademacher":
            for i in range(shape[0]): E.true(E.or_(E.eqv(A[i, j], 1), E.eqv(A[i, j], -1)), f"sign at {(i, j)}")
        elif pdf == "sphere": E.eq(sum(A[i, j] ** 2 for i in range(shape[0])), E.const(shape[0]), f"squared norm of column {j}")
    if pdf == "normal": E.eq(sum(A[i, j] for i in range(shape[0]) for j in range(shape[1])), sum(E.draw_named(n) for n in names), "every draw is used once")
    snap = E.snapshot(A)
    F.fill()
    E.true(len(E.all_draws()) == 2 * N, "filling again uses fresh draws")
    if pdf == "normal": E.eq(sum(F.values[i, j] for i in range(shape[0]) for j in range(shape[1])), sum(E.draw_named(n) for n in E.all_draws() if n not in names), "the second filling replaces the first")

@harness(quick=[{}], bounds="the listed names")
def names(E):
    R = E.mod("random")
    for bad in ("", "Rademacher", "sign", "uniform", "haar", None, 3):
        E.raises(lambda: R.isotropic((2, 1), pdf=bad), f"rejects {bad!r}")
        E.raises(lambda: R.isotropic(pdf=bad), f"rejects {bad!r} deferred")
        E.raises(lambda: R.Isotropic((2, 2), pdf=bad, threads=1), f"filler rejects {bad!r}")
    E.raises(lambda: R.isotropic((2, 1), out=[1.0, 2.0]), "out must be an array")

@harness(quick=[dict(pdf=p, shape=s, threads=t) for p in NAMES for s, t in (((2, 2), 1), ((2, 2), 2), ((2, 3), 2), ((1, 3), 3))] + [dict(pdf="default", shape=(2, 4), threads=None)],
         thorough=[dict(pdf=p, shape=s, threads=t) for p in NAMES for s, t in (((2, 5), 2), ((2, 4), 3), ((2, 4), 4), ((2, 2), 3), ((1, 6), 4))],
         bounds="every generator output, every order of the filling tasks", opts=dict(max_witnesses=4, max_paths=600))
def filler(E, pdf, shape, threads):
    """multi-threaded filling: valid vectors, independent of the order in which tasks run"""
    R = E.mod("random"); shape = tuple(shape)
    kw = {} if pdf == "default" else dict(pdf=pdf)
    k = KIND["signs" if pdf == "default" else pdf]; kind = "u" if k == "rademacher" else "n"
    N = shape[0] * shape[1]
    E.opt(schedules=False)
    F = R.Isotropic(shape, seed=5, threads=threads, **kw); G = R.Isotropic(shape, seed=5, threads=threads, **kw)
    E.true(tuple(F.values.shape) == shape, "shape")
    F.fill()
    names = [n for n in E.all_draws()]
    E.true(len(set(names)) == len(names) and len(names) == N, "one draw per entry")
    E.opt(schedules=True); G.fill(); E.opt(schedules=False)
    A, Bv = F.values, G.values
    if k == "sphere": 
        for n in names: E.assume(E.not_(E.eqv(E.draw_named(n), 0)))
    E.eq(A, Bv, "the same seed gives the same values whatever the order of the tasks")
    for j in range(shape[1]):
        if k == "rademacher":
            for i in range(shape[0]): E.true(E.or_(E.eqv(A[i, j], 1), E.eqv(A[i, j], -1)), f"sign at {(i, j)}")
        elif k == "sphere": E.eq(sum(A[i, j] ** 2 for i in range(shape[0])), E.const(shape[0]), f"squared norm of column {j}")
        else:
            for i in range(shape[0]): E.true(E.or_(*[E.eqv(A[i, j], E.draw_named(n)) for n in names]), f"entry {(i, j)} is a draw")
    if k == "normal": E.eq(sum(A[i, j] for i in range(shape[0]) for j in range(shape[1])), sum(E.draw_named(n) for n in names), "every draw is used once")
    F.fill()
    now = E.all_draws()
    E.true(len(now) == 2 * N, "filling again uses fresh draws")
