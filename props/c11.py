"""C11: the spectral-function registry."""
from vsym.reg import harness
DOC = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]

def apply(E, f, x): return E.sc(f(x))

@harness(quick=[dict(name=n, params=p) for n in DOC for p in ("default", "given") if p == "default" or n in ("exp", "smoothstep", "softsign", "numrank")] + [dict(name="smoothstep", params=p) for p in ("a", "b")], bounds="all arguments and parameter values", opts=dict(max_witnesses=6, eps="2^-52"))
def resolves(E, name, params):
    sp = E.mod("special")
    given = params == "given"
    lo, hi = (-3, 3) if name == "exp" else (None, None)
    x = E.real("x", lo=lo, hi=hi)
    kw = {}
    if name == "exp" and given: kw = dict(t=E.real("t", lo=-2, hi=2))
    if name == "smoothstep" and given:
        kw = dict(a=E.real("a"), b=E.real("b")); E.assume(E.lt(kw["a"], kw["b"]))
    if params == "a": kw = dict(a=E.real("a")); E.assume(E.lt(kw["a"], 1))
    if params == "b": kw = dict(b=E.real("b")); E.assume(E.gt(kw["b"], 0))
    if name == "softsign" and given: kw = dict(q=E.choice("q", [0, 1, 2, 3, 7]))
    if name == "numrank" and given: kw = dict(threshold=E.real("thr", nonneg=True))
    f = sp.param_callable(name, **kw)
    E.true(callable(f), "a function")
    if name == "identity": E.eq(apply(E, f, x), x, "identity")
    elif name == "abs": E.eq(apply(E, f, x), abs(x), "absolute value")
    elif name == "sqrt":
        E.assume(E.ge(x, 0)); E.eq(apply(E, f, x), E.sqrt(x), "square root")
    elif name == "log":
        if E.is_true(E.ge(x, E.frac(1, 10 ** 15))): E.eq(apply(E, f, x), E.uf("log", x), "logarithm")
        else: E.defined(apply(E, f, x), "guarded near zero")
        E.defined(apply(E, f, E.const(0)), "guarded at zero"); E.eq(apply(E, f, E.const(-1)), apply(E, f, E.const(0)), "guarded below zero")
    elif name == "inv":
        E.assume(E.not_(E.eqv(x, 0))); E.eq(apply(E, f, x), 1 / x, "reciprocal")
    elif name == "exp": E.eq(apply(E, f, x), E.uf("exp", kw.get("t", E.const(1)) * x), "exponential")
    elif name == "smoothstep":
        a, b = kw.get("a", E.const(0)), kw.get("b", E.const(1))
        t = (x - a) / (b - a)
        want = E.const(0) if E.is_true(E.le(t, 0)) else E.const(1) if E.is_true(E.ge(t, 1)) else 3 * t * t - 2 * t ** 3
        E.eq(apply(E, f, x), want, "smoothstep")
    elif name == "softsign":
        from props.c10 import soft
        E.eq(apply(E, f, x), soft(E, x, kw.get("q", 10)), "softsign")
    else:
        thr = kw.get("threshold", E.const(0.000001))
        E.eq(apply(E, f, x), E.const(1) if E.is_true(E.ge(abs(x), thr)) else E.const(0), "numrank")
    X = E.array([x, x])
    if name not in ("log", "inv", "sqrt"): E.eq(f(X), [apply(E, f, x)] * 2, "on arrays")
    other = dict(kw); other["unrelated"] = 3
    g = sp.param_callable(name, **other)
    E.eq(apply(E, g, x), apply(E, f, x), "unrelated keywords are ignored")

@harness(quick=[{}], bounds="the names in the library's list")
def listed(E):
    sp = E.mod("special")
    names = list(getattr(sp, "_BUILTIN_MATRIX_FUNCTIONS", DOC))
    for n in DOC: E.true(n in names, f"{n} is listed")
    for n in names: E.true(callable(sp.param_callable(n)), f"{n} resolves")

@harness(quick=[{}], bounds="all arguments")
def others(E):
    sp = E.mod("special")
    x = E.real("x")
    E.eq(sp.param_callable(None)(x), x, "None is the identity")
    for f in (lambda t: t * t + 1, sp.identity, sp.step(c=0.5)):
        E.true(sp.param_callable(f) is f, "callables are returned as given"); E.true(sp.param_callable(f, t=2.0) is f, "callables are returned as given, with keywords")
    for bad in ("", "Exp", "logarithm", "step", "cube", "sign", "numran", 3, 2.5):
        E.raises(lambda: sp.param_callable(bad), f"unknown {bad!r}")
