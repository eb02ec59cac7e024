"""C10: built-in spectral functions."""
from vsym.reg import harness
from fractions import Fraction as F

def soft(E, x, q):
    """defining polynomial, equation (60) of Musco, Musco, Sidford"""
    if E.is_true(E.gt(x, 1)): x = E.const(1)
    elif E.is_true(E.lt(x, -1)): x = E.const(-1)
    s = E.const(0); c = F(1)
    for i in range(q + 1):
        if i: c *= F(2 * i - 1, 2 * i)
        s = s + x * (1 - x * x) ** i * E.frac(c.numerator, c.denominator)
    return s

@harness(quick=[dict(q=q) for q in (0, 1, 2, 3, 5, 10)] + [dict(q="default")], thorough=[dict(q=q) for q in (4, 6, 8, 15, 20)], bounds="all reals; degrees as listed", opts=dict(max_witnesses=6))
def softsign(E, q):
    sp = E.mod("special")
    kw = {} if q == "default" else dict(q=q)
    k = 1 if q == "default" else q
    f = sp.softsign(**kw)
    x = E.real("x")
    y = f(x)
    E.true(E.np.shape(y) in ((1,), ()), "one value for one number")
    E.eq(E.sc(y), soft(E, x, k), "defining polynomial")
    E.eq(E.sc(sp.softsign(x, **kw)), E.sc(y), "data first or function first")
    E.eq(E.sc(f(-x)), -E.sc(y), "odd")
    E.eq(E.sc(f(E.const(1))), E.const(1), "one at 1"); E.eq(E.sc(f(E.const(-1))), E.const(-1), "minus one at -1"); E.eq(E.sc(f(E.const(0))), E.const(0), "zero at 0")
    E.holds_le(E.sc(y), 1, "at most one"); E.holds_le(-1, E.sc(y), "at least minus one")

@harness(quick=[dict(q=q, n=n) for q, n in ((1, 1), (1, 2), (1, 3), (2, 2), (3, 3), (2, 4), (10, 2))], thorough=[dict(q=10, n=5), dict(q=4, n=5)], bounds="all vectors of length n", opts=dict(max_witnesses=6))
def softsign_vector(E, q, n):
    sp = E.mod("special")
    X = E.reals("x", n); s = E.snapshot(X)
    Y = sp.softsign(q=q)(X)
    E.true(tuple(Y.shape) == (n,), "input length")
    for i in range(n): E.eq(Y[i], soft(E, X[i], q), f"entry {i}")
    E.unchanged(X, s, "input untouched")
    E.eq(sp.softsign(X, q=q), Y, "data first or function first")

@harness(quick=[dict(q=q) for q in (0, 1, 2, 3)], thorough=[dict(q=4)], bounds="all pairs x <= y", opts=dict(max_witnesses=4, obl_ms=60000))
def softsign_monotone(E, q):
    sp = E.mod("special")
    f = sp.softsign(q=q)
    x, y = E.real("x"), E.real("y")
    E.assume(E.le(x, y))
    E.holds_le(E.sc(f(x)), E.sc(f(y)), "nondecreasing")

@harness(quick=[dict(ab="any"), dict(ab="default")], bounds="all reals x, y and a < b", opts=dict(max_witnesses=6))
def smoothstep(E, ab):
    sp = E.mod("special")
    if ab == "any":
        a, b = E.real("a"), E.real("b"); E.assume(E.lt(a, b)); kw = dict(a=a, b=b)
    else: a, b, kw = E.const(0), E.const(1), {}
    f = sp.smoothstep(**kw)
    x, y = E.real("x"), E.real("y")
    fx = f(x)
    if E.is_true(E.le(x, a)): E.eq(fx, E.const(0), "zero up to a")
    elif E.is_true(E.ge(x, b)): E.eq(fx, E.const(1), "one from b")
    else:
        t = (x - a) / (b - a)
        E.eq(fx, 3 * t * t - 2 * t * t * t, "cubic in between")
    E.eq(fx + f(a + b - x), E.const(1), "symmetric about the midpoint")
    E.eq(sp.smoothstep(x, **kw), fx, "data first or function first")
    E.assume(E.le(x, y))
    E.holds_le(fx, f(y), "nondecreasing")

@harness(quick=[dict(n=2)], thorough=[dict(n=3)], bounds="all vectors of length n", opts=dict(max_witnesses=8))
def elementwise(E, n):
    sp = E.mod("special")
    X = E.reals("x", n); s = E.snapshot(X)
    a, b, t, c = E.real("a"), E.real("b"), E.real("t"), E.real("c")
    E.assume(E.lt(a, b))
    for nm, f in (("smoothstep", sp.smoothstep(a=a, b=b)), ("step", sp.step(c=c)), ("nonnegative step", sp.step(c=c, nonnegative=True)), ("exp", sp.exp(t=t))):
        Y = f(X)
        E.true(tuple(E.np.shape(Y)) == (n,), nm + ": input length")
        E.eq(Y, [E.sc(f(X[i])) for i in range(n)], nm + ": entry by entry")
    E.unchanged(X, s, "input untouched")

@harness(quick=[dict(fn="softsign", q=30, n=1), dict(fn="softsign", q=3, n=40), dict(fn="softsign", q=10, n=17)], thorough=[dict(fn="softsign", q=60, n=1), dict(fn="softsign", q=101, n=1), dict(fn="softsign", q=2, n=300)],
         bounds="higher degrees on all reals in [-1, 1]; longer vectors of entries x/k, x in [-1, 1]", opts=dict(max_witnesses=2))
def softsign_long(E, fn, q, n):
    """high degrees, long vectors"""
    sp = E.mod("special")
    x = E.real("x", lo=-1, hi=1)
    f = sp.softsign(q=q)
    one = soft_inside(E, x, q)
    E.eq(E.sc(f(x)), one, "defining polynomial")
    E.eq(E.sc(f(-x)), -one, "odd"); E.eq(E.sc(f(E.const(1))), E.const(1), "one at 1"); E.eq(E.sc(f(E.const(-3))), E.const(-1), "minus one below -1")
    if n > 1:
        X = E.array([x * E.frac((-1) ** i, 1 + i % 4) for i in range(n)]); s = E.snapshot(X)
        Y = sp.softsign(X, q=q)
        E.true(tuple(Y.shape) == (n,), "input length"); E.unchanged(X, s, "input untouched")
        E.eq(Y, E.array([soft_inside(E, x * E.frac((-1) ** i, 1 + i % 4), q) for i in range(n)]), "entry by entry")
        E.eq(f(X), Y, "function first")

def soft_inside(E, x, q):
    """the defining polynomial, summed over binomials instead of the recursion"""
    from math import comb
    s = E.const(0); p = x
    for i in range(q + 1):
        s = s + p * E.frac(comb(2 * i, i), 4 ** i); p = p * (1 - x * x)
    return s

@harness(quick=[dict(n=n, lo=b) for n in (17, 40) for b in ("below", "inside", "above")], thorough=[dict(n=200, lo="inside")], bounds="vectors of up to 40 (thorough: 200) entries u + k/8 v, each region", opts=dict(max_witnesses=2))
def long_vectors(E, n, lo):
    """smoothstep, step, exp and identity on long vectors, entry by entry"""
    sp = E.mod("special")
    u, v = E.real("u", lo=0, hi=1), E.real("v", lo=0, hi=1)
    if lo == "inside": E.assume(E.and_(E.gt(u, 0), E.gt(v, 0), E.lt(u + v, 1)))
    shift = {"below": -3, "inside": 0, "above": 2}[lo]
    x = [shift + u + v * E.frac(i % 8, 8) for i in range(n)]
    X = E.array(x); s = E.snapshot(X)
    Y = sp.smoothstep(X)
    E.true(tuple(Y.shape) == (n,), "smoothstep: input length")
    E.eq(Y, E.array([E.const(0) if lo == "below" else E.const(1) if lo == "above" else 3 * a * a - 2 * a * a * a for a in x]), "smoothstep")
    E.eq(sp.smoothstep(a=0, b=1)(X), Y, "smoothstep: function first")
    for nn in (False, True):
        Z = sp.step(X, c=1.5, nonnegative=nn)
        E.true(tuple(Z.shape) == (n,), "step: input length")
        E.eq(Z, E.array([E.const(1) if lo == "above" else E.const(0) if lo == "inside" or not nn else (E.const(1) if E.is_true(E.ge(abs(a), E.frac(3, 2))) else E.const(0)) for a in x]), f"step {nn}")
    E.eq(sp.exp(X, t=2), E.array([E.uf("exp", 2 * a) for a in x]), "exp"); E.eq(sp.identity(X), X, "identity")
    E.unchanged(X, s, "input untouched")

@harness(quick=[dict(nn=0, c="any"), dict(nn=1, c="any"), dict(nn=0, c="default"), dict(nn=1, c="default")], bounds="all reals x, c", opts=dict(max_witnesses=6))
def step(E, nn, c):
    sp = E.mod("special")
    x = E.real("x"); cv = E.real("c") if c == "any" else E.const(0)
    kw = {} if c != "any" else dict(c=cv)
    if nn: kw["nonnegative"] = True
    f = sp.step(**kw)
    z = abs(x) if nn else x
    want = E.const(1) if E.is_true(E.ge(z, cv)) else E.const(0)
    E.eq(E.sc(f(x)), want, "indicator"); E.eq(E.sc(sp.step(x, **kw)), want, "data first")
    if c == "any": E.eq(E.sc(f(cv)), E.const(1) if not nn or E.is_true(E.ge(abs(cv), cv)) else E.const(0), "at the threshold")

@harness(quick=[{}], bounds="all reals x, t in [-3, 3]", opts=dict(max_witnesses=6))
def exp(E):
    sp = E.mod("special")
    x, t = E.real("x", lo=-3, hi=3), E.real("t", lo=-3, hi=3)
    E.eq(sp.exp(t=t)(x), E.uf("exp", t * x), "exp(t x)"); E.eq(sp.exp(x, t=t), E.uf("exp", t * x), "data first")
    E.eq(sp.exp()(x), E.uf("exp", x), "default t"); E.eq(sp.exp(x), E.uf("exp", x), "default t, data first")
    E.eq(sp.identity(x), x, "identity")

@harness(quick=[{}])
def rejects(E):
    sp = E.mod("special")
    for d in (0, 2, 4): E.raises(lambda: sp.smoothstep(deg=d), f"even degree {d}")
    sp.smoothstep(deg=3); E.ok("odd degree")
