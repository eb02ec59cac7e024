"""C28: equal seeds give equal results; generators are consumed, not reset; no other source of randomness."""
import hashlib
from fractions import Fraction
from vsym.reg import harness
from props.util import *
ASSUMPTIONS = ["numpy's bit streams are modelled as one arbitrary sequence of draws per seed, spawned child or entropy request (numpy's own determinism is trusted)",
               "the heavier entry points use fixed rational draws and operators with a free parameter; provenance of the draws is exact either way"]

def fixed(key, i, kind):
    """a fixed value for each draw"""
    h = int.from_bytes(hashlib.sha256(repr((kind, i, len(key), key[0] == "fresh", [int(k) for k in key[1:]])).encode()).digest()[:2], "big")
    return Fraction(1 + h % 62, 64) if kind == "u" else Fraction(1 + h % 29, 16) * (-1 if (h >> 8) & 1 else 1)

def operator(E, n, free):
    if free: return E.sym_matrix("A", n)
    a = E.real("a", lo=1, hi=2)
    return E.array([[E.const(3 + i) + a if i == j else E.frac(1, 2 + i + j) for j in range(n)] for i in range(n)])

ISO = ["rademacher", "normal", "sphere", "signs", "gaussian"]

def entry(E, fn, n):
    """fn -> callable taking a seed and returning a list of results"""
    R, T, D, L = E.mod("random"), E.mod("trace"), E.mod("diagonal"), E.mod("lanczos")
    name, _, arg = fn.partition(":")
    if name == "isotropic": return lambda s: [R.isotropic((n, 2), pdf=arg, seed=s)]
    if name == "sampler":
        def f(s):
            g = R.isotropic(pdf=arg, seed=s)
            return [g((n, 1)), g((n, 2)), g(n)]
        return f
    if name == "inplace":
        def f(s):
            W = E.np.zeros((n, 2)); R.isotropic(pdf=arg, seed=s, out=W)
            return [W]
        return f
    if name == "Isotropic":
        th, pdf = arg.split(",")
        def f(s):
            I = R.Isotropic((n, 3), pdf=pdf, seed=s, threads=int(th))
            I.fill(); a = E.np.array(I.values); I.fill()
            return [a, E.np.array(I.values)]
        return f
    if name == "symmetric": return lambda s: [R.symmetric(n, dist=arg.split(",")[0], pd="pd" in arg, ew=E.np.arange(1.0, n + 1) if "ew" in arg else None, seed=s)]
    if name == "haar": return lambda s: [R.haar(n, ew=E.np.arange(1.0, n + 1) if arg else None, seed=s)]
    A = operator(E, n, name in ("hutch", "diag"))
    if name == "hutch":
        es = E.mod("estimators")
        return lambda s: [T.hutch(A, batch=2, pdf=arg, converge=es.CountCriterion(3), seed=s)]
    if name == "hutchpp": return lambda s: [T.hutchpp(A, m=3, pdf=arg, seed=s)]
    if name == "xtrace": return lambda s: [T.xtrace(A, batch=1, pdf=arg, seed=s)]
    if name == "diag":
        es = E.mod("estimators")
        return lambda s: [D.diag(A, pdf=arg, converge=es.CountCriterion(2), seed=s)]
    if name == "xdiag": return lambda s: [D.xdiag(A, m=2, pdf=arg, seed=s)]
    if name == "lanczos": return lambda s: list(L.lanczos(A, deg=n, rtol=0.0, seed=s))
    if name == "ritz": return lambda s: [L.rayleigh_ritz(A, deg=2, rtol=0.0, seed=s)]
    raise ValueError(fn)

CHEAP = [f"{k}:{p}" for k in ("isotropic", "sampler", "inplace") for p in ISO] + ["Isotropic:1,signs", "Isotropic:2,normal", "Isotropic:3,sphere", "hutch:rademacher", "hutch:normal", "diag:normal"]
HEAVY = ["symmetric:normal", "symmetric:uniform,pd", "symmetric:normal,ew", "haar:", "haar:ew", "hutch:sphere", "hutchpp:rademacher", "hutchpp:normal", "xtrace:sphere", "xtrace:normal", "diag:rademacher", "diag:sphere", "xdiag:sphere", "xdiag:normal"]
NATIVE = ["lanczos", "ritz"]

def run(E, f, seed):
    """(results or exception, the draws made)"""
    k = len(E.drawlog())
    out, exc = E.attempt(lambda: f(seed))
    return (out, exc), sorted(E.drawlog()[k:])      # per stream; threads interleave streams freely

def equal(E, a, b, label):
    (x, ex), (y, ey) = a, b
    E.true(type(ex) is type(ey), label + f": same outcome ({ex!r} / {ey!r})"[:150])
    if ex is not None or ey is not None: return
    E.true(len(x) == len(y), label + ": same number of results")
    for i, (p, q) in enumerate(zip(x, y)):
        E.true(E.np.shape(p) == E.np.shape(q), label + f": same shape of result {i}")
        E.eq(E.np.ravel(p), E.np.ravel(q), label + f": same result {i}", obs=False)

def from_start(E, log, label):
    """the positions drawn from every stream begin at the beginning and leave no gaps"""
    for key in {k for k, _, _ in log}:
        pos = [i for k, i, _ in log if k == key]
        E.true(pos == list(range(len(pos))), label + f": stream {key} read from its start")

def check(E, fn, n):
    f = entry(E, fn, n)
    default_rng = E.np.random.default_rng
    first = {}
    for seed in (5, 0, E.np.int64(7)):
        first[int(seed)] = r, log = run(E, f, seed)
        E.true(r[1] is None, f"seed {seed}: runs ({r[1]!r})"[:150])
        E.true(len(log) > 0 and all(k[:2] == ("seed", int(seed)) for k, _, _ in log), f"seed {seed}: every draw comes from that seed's stream")
        from_start(E, log, f"seed {seed}")
    fresh = [run(E, f, None) for _ in range(2)]
    for r, log in fresh: E.true(len(log) > 0 and all(k[0] == "fresh" for k, _, _ in log), "no seed: every draw comes from fresh entropy")
    E.true(not {k for k, _, _ in fresh[0][1]} & {k for k, _, _ in fresh[1][1]}, "no seed: new entropy for every call")
    for seed in (0, 5):
        r, log = run(E, f, seed)
        equal(E, r, first[seed][0], f"seed {seed} again, after other calls")
        E.true(log == first[seed][1], f"seed {seed} again: the same draws")
    g = default_rng(5)
    r1, l1 = run(E, f, g); r2, l2 = run(E, f, g)
    E.true(all(k[:2] == ("seed", 5) for k, _, _ in l1 + l2) and len(l1) > 0 and len(l2) > 0, "generator: every draw comes from it")
    E.true(not set((k, i) for k, i, _ in l1) & set((k, i) for k, i, _ in l2), "generator: consecutive calls use disjoint draws")
    E.true(len({(k, i) for k, i, _ in l1 + l2}) == len(l1 + l2), "generator: no draw is used twice")
    equal(E, r1, first[5][0], "generator at its start equals its seed")
    h = default_rng(5)
    if all(k == ("seed", 5) for k, _, _ in l1): h.random(size=len(l1))
    else: f(h)
    r3, l3 = run(E, f, h)
    E.true(l3 == l2, "generator: a call continues where the stream stands")
    equal(E, r3, r2, "generator: a call continues where the stream stands")

@harness(quick=[dict(fn=f, n=2) for f in CHEAP] + [dict(fn="isotropic:signs", n=3), dict(fn="hutch:rademacher", n=3)], thorough=[dict(fn=f, n=4) for f in CHEAP], bounds="vectors of length 2 and 3, all draws and operators; seeds 0, 5, 7, none, a generator at two positions; one arbitrary thread schedule against the submission order", opts=dict(max_witnesses=2, max_depth=200))
def light(E, fn, n):
    """samplers and sampled estimators over arbitrary draws"""
    E.free_schedules(4)
    # one nonzero coordinate in every normalised vector, no coordinate that vanishes in all vectors of a diagonal estimate
    some = (lambda i: (i // n) % 2 == 0) if "diag" in fn else (lambda i: i % (2 * n) < 2) if "inplace" in fn else (lambda i: i % n == 0)
    if "sphere" in fn or "diag" in fn: E.fix_draws(lambda key, i, kind: fixed(key, i, kind) if some(i) else None)
    check(E, fn, n)

@harness(quick=[dict(fn=f, n=n) for f in HEAVY for n in (2, 3) if not (n == 3 and f.split(":")[0] in ("xtrace", "xdiag", "hutch", "symmetric", "haar"))], thorough=[dict(fn=f, n=3) for f in HEAVY], bounds="operators of size 2 and 3 with a free parameter, one value for every draw of every stream; seeds 0, 5, 7, none, a generator at two positions", opts=dict(max_witnesses=2, max_depth=200))
def heavy(E, fn, n):
    """functions with factorisations over fixed draws"""
    E.fix_draws(fixed)
    check(E, fn, n)

@harness(native="sym", quick=[dict(fn=f, n=n) for f in NATIVE for n in (2, 3)], bounds="operators of size 2 and 3 with a free parameter; start vectors from fixed draws", opts=dict(max_witnesses=2))
def start_vectors(E, fn, n):
    """the Lanczos start vector comes from the seed"""
    E.fix_draws(fixed)
    check(E, fn, n)

@harness(quick=[dict(order=o) for o in range(4)], bounds="sequences of six entry points sharing one generator", opts=dict(max_witnesses=2, max_depth=200))
def shared(E, order):
    """different functions sharing a generator never see the same draw twice, and nothing else is drawn from"""
    E.fix_draws(fixed)
    seq = ["isotropic:normal", "hutch:rademacher", "xtrace:sphere", "diag:normal", "xdiag:sphere", "hutchpp:normal", "symmetric:uniform", "haar:", "Isotropic:1,signs"]
    seq = seq[order:] + seq[:order]
    g = E.np.random.default_rng(3)
    used = []
    for fn in seq[:6]:
        r, log = run(E, entry(E, fn, 2), g)
        E.true(r[1] is None, f"{fn} runs ({r[1]!r})"[:150])
        E.true(all(k == ("seed", 3) for k, _, _ in log) and len(log) > 0, f"{fn}: draws from the shared generator only")
        used += [(k, i) for k, i, _ in log]
    E.true(used == [(("seed", 3), i) for i in range(len(used))], "the shared stream is read once, in order")
