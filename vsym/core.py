"""Symbolic scalars, booleans, path exploration and solver queries."""
import math, numbers, time, itertools, sys
from fractions import Fraction
import z3
from . import poly as P
from .poly import RF, Budget

class Engine(BaseException): pass
class Unsupported(Engine): pass
class PathAbort(Engine): pass          # infeasible or assumption false
class Violation(Engine):
    def __init__(self, msg, formula=None): super().__init__(msg); self.msg, self.formula = msg, formula

INF = float("inf")

# ------------------------------------------------------------------ constants
_small = {}
def nice(x):
    """the exact value meant by a Python/numpy number: nearby simple rational, otherwise its shortest decimal"""
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, Fraction): return x
    t = type(x)
    if t.__module__ == "numpy":
        if "int" in t.__name__ or t.__name__ == "bool": return Fraction(int(x))
        if t.__name__ == "float32":
            f = Fraction(str(x)); return f
        x = float(x)
    x = float(x)
    v = _small.get(x)
    if v is None:
        if x == int(x): v = Fraction(int(x))
        else:
            f = Fraction(x).limit_denominator(2000)
            if f != 0 and abs(float(f) - x) <= 3e-16 * abs(x): v = f
            else: v = Fraction(repr(x))
        _small[x] = v
    return v

def to_S(x):
    if isinstance(x, S): return x
    if isinstance(x, B): return x.as_S()
    if isinstance(x, (int, Fraction)): return const(x)
    if isinstance(x, numbers.Number):
        if isinstance(x, complex): raise Unsupported("complex constant")
        f = float(x)
        if f != f or f in (INF, -INF): return f
        # sqrt-like constants:  x*x a small integer or simple fraction
        v = nice(f)
        if v.denominator > 2000:
            sq = Fraction(f * f).limit_denominator(200)
            if sq > 0 and sq.numerator <= 20000 and abs(math.sqrt(sq.numerator / sq.denominator) - abs(f)) <= 4e-16 * abs(f):
                r = s_sqrt(const(sq))
                return r if f > 0 else -r
        return const(v)
    try:
        import numpy as np
        if isinstance(x, np.ndarray) and x.shape == (): return to_S(x.item())
    except ImportError: pass
    raise Unsupported(f"not a number: {type(x)}")

_consts = {}
def const(c):
    c = Fraction(c)
    s = _consts.get(c)
    if s is None:
        s = _consts[c] = S("c", (c,), P.rf_const(c))
    return s

def nonfinite(x): return isinstance(x, float) and (x != x or x in (INF, -INF))

# ------------------------------------------------------------------ scalars
NODEF = frozenset()

class S:
    __slots__ = ("op", "a", "_rf", "df", "_f64")
    __array_priority__ = 2000
    def __init__(self, op, a, rf=None, df=NODEF):
        self.op, self.a, self._rf, self.df = op, a, rf, df

    # --- normal form
    @property
    def rf(self):
        r = self._rf
        if r is None:
            r = self._rf = _eval_rf(self)
        return r
    def is_const(self): return self.op == "c" or self.rf.is_const()
    def cval(self):
        return self.a[0] if self.op == "c" else self.rf.const()

    # --- numpy-scalar look and feel
    @property
    def dtype(self):
        import numpy as np
        return np.dtype("float64")
    @property
    def shape(self): return ()
    ndim = 0
    size = 1
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return const(0)
    def item(self): return self
    def conjugate(self): return self
    conj = conjugate
    def astype(self, *a, **k): return self
    def copy(self): return self
    def ravel(self):
        from . import arr
        return arr.sa([self])
    flatten = ravel
    def reshape(self, *shape, **kw):
        from . import arr
        return arr.sa([self]).reshape(*shape)
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def squeeze(self, *a): return self
    def tolist(self): return self
    def is_integer(self): return self.is_const() and self.cval().denominator == 1
    def __array__(self, dtype=None, copy=None):
        import numpy as np
        o = np.empty((), dtype=object); o[()] = self
        return o
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.func_dispatch(func, args, kwargs)
    def __getitem__(self, k):
        from . import arr
        if k == () or k is Ellipsis: return self
        return arr.sa0(self)[k]

    # --- arithmetic
    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o): return o
        if self.op == "c":
            if o.op == "c": return const(self.a[0] + o.a[0])
            if self.a[0] == 0: return o
        elif o.op == "c" and o.a[0] == 0: return self
        return S("+", (self, o), None, _ud(self, o))
    __radd__ = __add__
    def __sub__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o): return -o
        if o.op == "c":
            if self.op == "c": return const(self.a[0] - o.a[0])
            if o.a[0] == 0: return self
        return S("-", (self, o), None, _ud(self, o))
    def __rsub__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o): return o
        return o - self
    def __neg__(self):
        if self.op == "c": return const(-self.a[0])
        if self.op == "neg": return self.a[0]
        return S("neg", (self,), None, self.df)
    def __pos__(self): return self
    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o):
            if o != o: return o
            if self == 0: return float("nan")
            return o if self > 0 else -o
        if self.op == "c":
            if o.op == "c": return const(self.a[0] * o.a[0])
            if self.a[0] == 1: return o
            if self.a[0] == 0 and not o.df: return self
        elif o.op == "c":
            if o.a[0] == 1: return self
            if o.a[0] == 0 and not self.df: return o
        return S("*", (self, o), None, _ud(self, o))
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o): return float("nan") if o != o else const(0)
        if o.is_const():
            d = o.cval()
            if d == 0:
                if self.is_const():
                    v = self.cval()
                    return float("nan") if v == 0 else math.copysign(INF, v)
                if CTX is not None:
                    if decide(B_cmp(self, const(0), ">")): return INF
                    if decide(B_cmp(self, const(0), "<")): return -INF
                return float("nan")
            if self.op == "c": return const(self.a[0] / d)
            if d == 1 and not o.df: return self
            return S("/", (self, o), None, _ud(self, o))
        return S("/", (self, o), None, _ud(self, o) | {B_cmp(o, const(0), "!=")})
    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented: return o
        if nonfinite(o):
            if o != o: return o
            if self == 0: return o
            return o if self > 0 else -o
        return o / self
    def __pow__(self, k, mod=None):
        if isinstance(k, S):
            if not k.is_const(): return s_uf("pow", self, k)
            k = k.cval()
        k = nice(k)
        if k.denominator == 2:
            r = s_sqrt(self)
            return r ** int(k.numerator)
        if k.denominator != 1: return s_uf("pow", self, const(k))
        k = int(k)
        if k < 0: return const(1) / (self ** (-k))
        if self.op == "c": return const(self.a[0] ** k)
        if k == 0: return const(1)
        r, b = None, self
        while k:
            if k & 1: r = b if r is None else r * b
            k >>= 1
            if k: b = b * b
        return r
    def __rpow__(self, o):
        if self.is_const(): return _co(o) ** self.cval()
        return s_uf("pow", _co(o), self)
    def __floordiv__(self, o): return s_floor(self / o)
    def __rfloordiv__(self, o): return s_floor(to_S(o) / self)
    def __mod__(self, o): return self - s_floor(self / o) * o
    def __rmod__(self, o): return to_S(o) % self
    def __divmod__(self, o): return (self // o, self % o)
    def __abs__(self): return s_abs(self)
    def __matmul__(self, o): return NotImplemented
    # methods numpy's object loops call
    def sqrt(self): return s_sqrt(self)
    def square(self): return self * self
    def floor(self): return s_floor(self)
    def ceil(self): return -s_floor(-self)
    def trunc(self): return s_floor(self) if self >= 0 else -s_floor(-self)
    def rint(self): raise Unsupported("rint")
    def exp(self): return s_uf("exp", self)
    def log(self): return s_uf("log", self)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return self.ceil()
    def __round__(self, n=None): raise Unsupported("round")
    def __getattr__(self, name):
        if name in UFUN: return lambda: s_uf(name, self)
        raise AttributeError(name)

    # --- comparison
    def __lt__(self, o): return _cmp(self, o, "<")
    def __le__(self, o): return _cmp(self, o, "<=")
    def __gt__(self, o): return _cmp(self, o, ">")
    def __ge__(self, o): return _cmp(self, o, ">=")
    def __eq__(self, o): return _cmp(self, o, "==")
    def __ne__(self, o): return _cmp(self, o, "!=")
    __hash__ = object.__hash__
    def __bool__(self): return bool(_cmp(self, 0, "!="))
    def __float__(self):
        if self.is_const(): return float(self.cval())
        raise Unsupported("float() of a symbolic value at a C boundary")
    def __int__(self):
        if self.is_const(): return int(self.cval())
        raise Unsupported("int() of a symbolic value")
    def __index__(self):
        if self.is_const() and self.cval().denominator == 1: return int(self.cval())
        return concretize_int(self)
    def __complex__(self): raise Unsupported("complex()")
    def __repr__(self):
        return f"{self.cval()}" if self.is_const() else "<S>"
    def __format__(self, spec): return "<sym>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

numbers.Real.register(S)
UFUN = {"sin", "cos", "tan", "tanh", "arctan", "log1p", "expm1", "log2", "log10", "exp2", "cbrt", "arccos", "arcsin", "sinh", "cosh", "erf", "erfinv"}

def _co(o):
    if isinstance(o, S): return o
    try:
        import numpy as np
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, (B, int, float, Fraction, np.number, np.bool_)): return to_S(o)
    except Unsupported: raise
    return NotImplemented

def _ud(a, b):
    if not a.df: return b.df
    if not b.df or a.df is b.df: return a.df
    return a.df | b.df

def _eval_rf(s):
    stack = [s]
    while stack:
        t = stack[-1]
        if t._rf is not None: stack.pop(); continue
        need = [x for x in t.a if isinstance(x, S) and x._rf is None]
        if need: stack.extend(need); continue
        op = t.op
        if op == "+": r = P.rf_add(t.a[0]._rf, t.a[1]._rf)
        elif op == "-": r = P.rf_add(t.a[0]._rf, t.a[1]._rf, -1)
        elif op == "neg": r = P.rf_neg(t.a[0]._rf)
        elif op == "*": r = P.rf_mul(t.a[0]._rf, t.a[1]._rf)
        elif op == "/":
            d = t.a[1]._rf
            if d.is_zero(): raise PathAbort("division by identically zero")
            r = P.rf_mul(t.a[0]._rf, P.rf_inv(d))
        else: raise AssertionError(op)
        t._rf = r
        stack.pop()
    return s._rf

# ------------------------------------------------------------------ booleans
_btab = {}
class B:
    """interned symbolic truth value"""
    __slots__ = ("op", "a")
    def __new__(cls, op, a):
        key = (op, a[0].id, a[1]) if op == "atom" else (op,) + tuple(id(x) for x in a)
        b = _btab.get(key)
        if b is None:
            b = object.__new__(cls); b.op, b.a = op, a
            _btab[key] = b
        return b
    __hash__ = object.__hash__
    def __eq__(self, o):
        if isinstance(o, B):
            if self is o: return True
            return (self & o) | (~self & ~o)
        if isinstance(o, (bool, int)): return self if o else ~self
        try:
            import numpy as np
            if isinstance(o, np.bool_): return self if o else ~self
        except Exception: pass
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)
    def __bool__(self): return decide(self)
    def __and__(self, o): return b_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return b_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__
    def __invert__(self): return b_not(self)
    def logical_not(self): return b_not(self)
    def as_S(self):
        s = coin(self)
        return const(1 if decide(self) else 0) if s is None else (const(1) + s) / 2
    def __add__(self, o): return self.as_S() + o
    __radd__ = __add__
    def __sub__(self, o): return self.as_S() - o
    def __rsub__(self, o): return o - self.as_S()
    def __mul__(self, o): return self.as_S() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.as_S() / o
    def __neg__(self): return -self.as_S()
    def __int__(self): return int(decide(self))
    def __index__(self): return int(decide(self))
    def __float__(self): return float(decide(self))
    def __lt__(self, o): return self.as_S() < o
    def __gt__(self, o): return self.as_S() > o
    def __le__(self, o): return self.as_S() <= o
    def __ge__(self, o): return self.as_S() >= o
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1
    def item(self): return decide(self)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def astype(self, t=None, *a, **k): return self.as_S()
    def copy(self): return self
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)
    def __repr__(self): return f"B({self.op},{self.a})"
    def __deepcopy__(self, memo): return self

def _isb(x):
    import numpy as np
    return isinstance(x, (bool, np.bool_, int))
def b_not(a):
    if isinstance(a, B):
        if a.op == "not": return a.a[0]
        if a.op == "atom":
            p, r = a.a
            if r == "=": return B("not", (a,))
            if r == ">": return B("not", (a,))
            if r == ">=": return B("not", (a,))
            if r == "<": return B("not", (a,))
            if r == "<=": return B("not", (a,))
        return B("not", (a,))
    return not a
def b_and(a, b):
    if not isinstance(a, B): return b if a else False
    if not isinstance(b, B): return a if b else False
    return B("and", (a, b))
def b_or(a, b):
    if not isinstance(a, B): return True if a else b
    if not isinstance(b, B): return True if b else a
    return B("or", (a, b))
def b_all(xs):
    r = True
    for x in xs: r = b_and(r, x)
    return r
def b_any(xs):
    r = False
    for x in xs: r = b_or(r, x)
    return r

def _cmp(a, b, rel):
    try: b2 = _co(b)
    except Unsupported:
        b2 = NotImplemented
    if b2 is NotImplemented: return NotImplemented
    return B_cmp(a, b2, rel)

def signs_of_poly(p):
    """possible signs of interned poly p (lead > 0) on the current path"""
    if P.ONE == p.d: return (1,)
    r = {-1, 0, 1}
    if CTX is not None:
        f = CTX.signs.get(p.id)
        if f is not None: r &= f
    if len(r) > 1 and syn_nonneg(p.d): r &= ({0, 1} if not syn_pos(p.d) else {1})
    return tuple(sorted(r))

def nonneg_gen(i):
    g = P.RING.gens[i]
    if g.kind in ("sqrt", "abs", "nonneg", "pos"): return True
    if CTX is not None:
        p = P.intern({1 << (P.B * i): 1})
        f = CTX.signs.get(p.id)
        if f is not None and -1 not in f: return True
    return False
def pos_gen(i):
    g = P.RING.gens[i]
    if g.kind == "pos": return True
    if CTX is not None:
        p = P.intern({1 << (P.B * i): 1})
        f = CTX.signs.get(p.id)
        if f is not None and f == {1}: return True
        if g.kind in ("sqrt", "abs") and g.rad is not None:
            # root of a known-positive radicand
            q = CTX.pos_rad(g)
            if q: return True
    return False
def syn_nonneg(d):
    cache = {}
    for m, c in d.items():
        if c < 0: return False
        i = 0
        while m:
            if m & 1:
                v = cache.get(i)
                if v is None: v = cache[i] = nonneg_gen(i)
                if not v: return False
            m >>= P.B; i += 1
    return True
def syn_pos(d):
    if d.get(0, 0) > 0: return True
    for m in d:
        i = 0; ok = True
        while m:
            if m & P.MASK:
                if not pos_gen(i): ok = False; break
            m >>= P.B; i += 1
        if ok: return True
    return False

def B_cmp(a, b, rel):
    if nonfinite(a) or nonfinite(b):
        x = a if nonfinite(a) else 0.0
        y = b if nonfinite(b) else 0.0
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[rel]
    d = P.rf_add(a.rf, b.rf, -1)
    return rel_rf(d, rel)

def rel_rf(d, rel):
    if d.is_const():
        v = d.const()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[rel]
    # factor the numerator by what is known to be nonzero/positive
    sgn = 1 if d.c > 0 else -1
    n = d.n
    odd = None
    for f, e in d.f:
        if e & 1:
            s = signs_of_poly(f)
            if -1 in s and rel not in ("==", "!="):
                odd = f.d if odd is None else P.pmul(odd, f.d)
            elif s == (-1,): sgn = -sgn
    if odd is not None:
        n = P.pmul(n, odd)
        if not n: return {"<": False, "<=": True, ">": False, ">=": True}[rel]
    g = P.content(n)
    if g < 0: sgn = -sgn
    if g != 1: n = {m: v // g for m, v in n.items()}
    p = P.intern(n)
    if rel in ("==", "!="):
        r = mk_atom(p, "=")
        return r if rel == "==" else b_not(r)
    flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
    if sgn < 0: rel = flip[rel]
    # canonical: only ">" and "<" atoms, others negations
    if rel == ">": return mk_atom(p, ">")
    if rel == "<": return mk_atom(p, "<")
    if rel == ">=": return b_not(mk_atom(p, "<"))
    return b_not(mk_atom(p, ">"))

def mk_atom(p, rel):
    s = signs_of_poly(p)
    want = {"=": 0, ">": 1, "<": -1}[rel]
    if want not in s: return False
    if len(s) == 1: return True
    # single even monomial / squares handled by signs
    return B("atom", (p, rel))

# ------------------------------------------------------------------ generators
class Tab: pass
T = Tab()
def reset_tables():
    P.reset(); P.reset_known(); _btab.clear(); _consts.clear(); _z3gen.clear(); _z3poly.clear()
    T.vars = {}; T.roots = {}; T.ufs = {}; T.floors = {}; T.abs = {}; T.signs = {}
    T.gen_node = {}

def var(name, kind="var"):
    s = T.vars.get(name)
    if s is None:
        g = P.RING.new_gen(name, kind)
        s = T.vars[name] = S("g", (g.idx,), P.rf_gen(g.idx))
        T.gen_node[g.idx] = s
    return s

def fresh_sign(prefix):
    """an arbitrary sign (value +1 or -1), one per use on the path"""
    k = CTX.counters.get(prefix, 0); CTX.counters[prefix] = k + 1
    name = f"{prefix}.{k}"
    s = T.signs.get(name)
    if s is None:
        g = P.RING.new_gen(name, "sign", rad={0: 1})
        s = T.signs[name] = S("g", (g.idx,), P.rf_gen(g.idx))
        T.gen_node[g.idx] = s
    return s

def fresh_input(prefix):
    k = CTX.counters.get(prefix, 0); CTX.counters[prefix] = k + 1
    name = f"{prefix}.{k}"
    s = var(name); CTX.inputs[name] = s
    return s

def gen_S(g, defn=None):
    """scalar for generator g; defn = (op, args) used for numeric evaluation"""
    s = T.gen_node.get(g.idx)
    if s is None:
        s = T.gen_node[g.idx] = S("g", (g.idx,), P.rf_gen(g.idx))
    return s

_sf = {}
def split_int(n):
    """n = s*s*r, r squarefree -> (s, [primes of r])"""
    v = _sf.get(n)
    if v: return v
    s, ps, m, p = 1, [], n, 2
    while p * p <= m and p < 100000:
        e = 0
        while m % p == 0: m //= p; e += 1
        s *= p ** (e // 2)
        if e & 1: ps.append(p)
        p += 1 if p == 2 else 2
    r = math.isqrt(m)
    if r * r == m: s *= r
    elif m > 1: ps.append(m)
    _sf[n] = (s, ps)
    return _sf[n]

def root_gen(d, kind="sqrt", name=None):
    """generator g >= 0 with g*g == d (primitive poly dict)"""
    p = P.intern(d)
    g = P.RING.radtab.get(p.id)
    if g is None:
        g = P.RING.new_gen(name or f"rt{len(P.RING.gens)}", kind, rad=d, info=p)
        P.RING.radtab[p.id] = g
        if len(d) > 1 and p not in P.KNOWN_FACTORS: P.KNOWN_FACTORS.append(p)
    return g

def sqrt_int(n):
    s, ps = split_int(n)
    r = P.rf_const(s)
    for p in ps: r = P.rf_mul(r, P.rf_gen(root_gen({0: p}).idx))
    return r

def abs_poly_rf(p):
    """|p| for an interned poly"""
    sg = signs_of_poly(p)
    if -1 not in sg: return P.mk(Fraction(1), dict(p.d), {})
    if 1 not in sg: return P.mk(Fraction(-1), dict(p.d), {})
    if len(p.d) == 1:
        # product of |gen|
        (m, c), = p.d.items()
        r = P.rf_const(c); i = 0
        while m:
            e = m & P.MASK
            if e:
                for _ in range(e // 2): r = P.rf_mul(r, P.rf_mul(P.rf_gen(i), P.rf_gen(i)))
                if e & 1:
                    if nonneg_gen(i): r = P.rf_mul(r, P.rf_gen(i))
                    else:
                        g = root_gen({2 << (P.B * i): 1} if i not in P.RING.sq else dict(P.RING.sq[i]), "abs")
                        r = P.rf_mul(r, P.rf_gen(g.idx))
            m >>= P.B; i += 1
        return r
    sq = P.pmul(p.d, p.d)
    g = abs(P.content(sq))         # the sign is that of a leading term, not of the value
    if g != 1: sq = {m: v // g for m, v in sq.items()}
    if len(sq) == 1 and 0 in sq: return sqrt_int(g)
    gg = root_gen(sq, "abs")
    return P.rf_mul(sqrt_int(g), P.rf_gen(gg.idx))

def s_abs(x):
    if nonfinite(x): return abs(x)
    x = to_S(x)
    if x.is_const(): return const(abs(x.cval()))
    d = x.rf
    r = P.rf_mul(P.rf_const(abs(d.c)), P.rf_const(1))
    k, fs = P.split_known(d.n)
    r = P.rf_const(abs(d.c * k))
    for f, e in fs.items():
        a = abs_poly_rf(f) if e & 1 else None
        for _ in range(e - (1 if a is not None else 0)):
            r = P.rf_mul(r, P.mk(Fraction(1), dict(f.d), {}))
        if a is not None: r = P.rf_mul(r, a)
    den = P.rf_const(1)
    for f, e in d.f:
        a = abs_poly_rf(f) if e & 1 else P.mk(Fraction(1), dict(f.d), {})
        den = P.rf_mul(den, a)
        for _ in range(e - 1): den = P.rf_mul(den, P.mk(Fraction(1), dict(f.d), {}))
    r = P.rf_mul(r, P.rf_inv(den))
    s = S("abs", (x,), r, x.df)
    return s

def s_sqrt(x):
    if nonfinite(x): return float("nan") if not x > 0 else x
    x = to_S(x)
    if x.is_const():
        v = x.cval()
        if v < 0: return float("nan")
        s = math.isqrt(v.numerator); t = math.isqrt(v.denominator)
        if s * s == v.numerator and t * t == v.denominator: return const(Fraction(s, t))
    d = x.rf
    df = x.df
    if not x.is_const():
        c = rel_rf(d, ">=")
        if c is False: return float("nan")
        if c is not True: df = df | {c}
    else:
        c = True
    # d = c * n / prod f^e ; all odd parts into the root
    num, den = abs(d.c).numerator, abs(d.c).denominator
    out = P.rf_mul(sqrt_int(num * den), P.rf_const(Fraction(1, den)))
    k, fs = P.split_known(d.n) if d.n != P.ONE else (Fraction(1), {})
    num, den = abs(k).numerator, abs(k).denominator
    sg = 1 if (d.c * k) > 0 else -1
    out = P.rf_mul(out, P.rf_mul(sqrt_int(num * den), P.rf_const(Fraction(1, den))))
    rest = None         # product of odd factors of unknown sign
    nunk = 0
    invrest = {}
    for f, e, inn in [(f, e, True) for f, e in fs.items()] + [(f, e, False) for f, e in d.f]:
        F = P.mk(Fraction(1), dict(f.d), {})
        h = e // 2
        if h:
            if e % 4 >= 2:            # |f|^h with h odd
                a = P.rf_mul(abs_poly_rf(f), pow_rf(F, h - 1))
            else: a = pow_rf(F, h)
            out = P.rf_mul(out, a if inn else P.rf_inv(a))
        if e & 1:
            s = signs_of_poly(f)
            if -1 not in s:
                g = root_of_poly(f)
                out = P.rf_mul(out, g if inn else P.rf_inv(g))
            elif 1 not in s:
                sg = -sg
                nd = {m: -v for m, v in f.d.items()}
                g = P.rf_gen(root_gen_neg(nd).idx)
                out = P.rf_mul(out, g if inn else P.rf_inv(g))
            else:
                rest = f.d if rest is None else P.pmul(rest, f.d)
                if not inn: out = P.rf_mul(out, P.rf_inv(abs_poly_rf(f)))
    if rest is not None:
        g = P.content(rest)
        if sg < 0: rest = {m: -v for m, v in rest.items()}
        else: rest = dict(rest)
        g = abs(g)
        if g != 1: rest = {m: v // g for m, v in rest.items()}; out = P.rf_mul(out, sqrt_int(g))
        gg = root_gen_any(rest)
        out = P.rf_mul(out, P.rf_gen(gg.idx))
    elif sg < 0:
        # value is <= 0 everywhere on this path
        return float("nan") if c is not True else const(0)
    return S("sqrt", (x,), out, df)

def pow_rf(r, k):
    o = P.rf_const(1)
    for _ in range(k): o = P.rf_mul(o, r)
    return o

def root_of_poly(f):
    """sqrt of a nonneg interned poly, monomials split"""
    if len(f.d) == 1:
        (m, c), = f.d.items()
        r = sqrt_int(c); i = 0
        while m:
            e = m & P.MASK
            if e:
                if e // 2: r = P.rf_mul(r, pow_rf(P.rf_gen(i), e // 2))
                if e & 1: r = P.rf_mul(r, P.rf_gen(root_gen({1 << (P.B * i): 1}).idx))
            m >>= P.B; i += 1
        return r
    return P.rf_gen(root_gen(f.d).idx)

def root_gen_neg(d): return root_gen_any(d)
def root_gen_any(d):
    p = P.intern(d)
    g = P.RING.radtab.get(p.id)
    if g is None:
        g = P.RING.new_gen(f"rt{len(P.RING.gens)}", "sqrt", rad=d, info=p)
        P.RING.radtab[p.id] = g
    return g

# uninterpreted functions (congruence by normal form), with optional axioms attached
UF_AXIOMS = {}
def rfkey(s):
    r = s.rf
    return (r.c, P.intern(r.n).id if r.n else -1, tuple((f.id, e) for f, e in r.f))
def s_uf(name, *args, axiom=None):
    args = tuple(to_S(a) for a in args)
    if any(nonfinite(a) for a in args): raise Unsupported(f"{name} of non-finite")
    if name in UF_CONST:
        v = UF_CONST[name](args)
        if v is not None: return v
    key = (name,) + tuple(rfkey(a) for a in args)
    s = T.ufs.get(key)
    if s is None:
        g = P.RING.new_gen(f"{name}#{len(T.ufs)}", "uf", info=(name, args))
        s = T.ufs[key] = S("g", (g.idx,), P.rf_gen(g.idx), NODEF.union(*[a.df for a in args]))
        T.gen_node[g.idx] = s
    ax = axiom or UF_AXIOMS.get(name)
    if ax and CTX is not None: CTX.add_axiom(key, lambda: ax(s, args, T.ufs))
    return s
UF_CONST = {
    "exp": lambda a: const(1) if a[0].is_const() and a[0].cval() == 0 else None,
    "log": lambda a: const(0) if a[0].is_const() and a[0].cval() == 1 else None,
}
def _exp_ax(s, args, ufs):
    out = [B_cmp(s, const(0), ">")]
    return out
UF_AXIOMS["exp"] = _exp_ax

def coin(b):
    """sign generator (+1 iff b) for an undecided threshold on a single uniform draw; None for any other condition"""
    if not isinstance(b, B) or CTX is None: return None
    if b.op == "not":
        s = coin(b.a[0])
        return None if s is None else -s
    if b.op != "atom": return None
    p, rel = b.a
    gens = P.p_gens(p.d)
    if rel == "=" or len(gens) != 1 or gens[0] not in CTX.udraws: return None
    i = gens[0]; one = 1 << (P.B * i)
    if any(m not in (0, one) for m in p.d) or atom_truth(b) is not None: return None
    hit = CTX.coins.get(b)
    if hit is not None: return hit if hit != "none" else None
    if CTX.feasible(b) == z3.unsat or CTX.feasible(b_not(b)) == z3.unsat:
        CTX.coins[b] = "none"
        return None
    up = rel == ">"
    a, c = Fraction(p.d[one]), Fraction(p.d.get(0, 0))
    g = T.floors.get(("coin", b))
    if g is None:
        gen = P.RING.new_gen(f"sg{len(P.RING.gens)}", "sign", rad={0: 1}, info=None)
        g = S("g", (gen.idx,), P.rf_gen(gen.idx))
        x = gen_S(P.RING.gens[i])
        gen.info = (x * const(a) + const(c), 0.0, up)     # "<": +1 iff not below;  ">": +1 iff above
        T.gen_node[gen.idx] = g
        T.floors[("coin", b)] = g
    CTX.link_sign(g, b if up else b_not(b))
    s = g if up else -g
    CTX.coins[b] = s
    return s

def s_floor(x):
    """floor; needs a bounded range on the current path: forks over the integer value, two-valued ranges become a sign generator"""
    if nonfinite(x): return x
    x = to_S(x)
    if x.is_const(): return const(math.floor(x.cval()))
    key = rfkey(x)
    hit = CTX.floors.get(key)
    if hit is not None: return hit
    rng = CTX.int_range(x)
    if rng is None: raise Unsupported("floor of an unbounded symbolic value")
    lo, hi = rng
    if lo == hi: r = const(lo)
    elif hi == lo + 1:
        b = B_cmp(x, const(lo + 1), ">=")
        sgn = coin(b); linked = sgn is not None
        if not linked: sgn = T.floors.get((key, lo))
        if sgn is None:
            g = P.RING.new_gen(f"sg{len(P.RING.gens)}", "sign", rad={0: 1}, info=None)
            sgn = S("g", (g.idx,), P.rf_gen(g.idx))
            g.info = (x, lo + 1, False)     # sign = +1  iff  x >= lo+1
            T.gen_node[g.idx] = sgn
            T.floors[(key, lo)] = sgn
        if not linked: CTX.link_sign(sgn, b)
        r = const(lo) + (const(1) + sgn) / 2
        r = S(r.op, r.a, r.rf, x.df | r.df)
    else:
        r = None
        for k in range(lo, hi):
            if decide(B_cmp(x, const(k + 1), "<")): r = const(k); break
        if r is None: r = const(hi)
    CTX.floors[key] = r
    return r

def concretize_int(x):
    """fork over the integer values of x on this path (bounded range)"""
    rng = CTX.int_range(x)
    if rng is None: raise Unsupported("symbolic value used as an index without a bounded range")
    lo, hi = rng
    for k in range(lo, hi + 1):
        if k == hi or decide(B_cmp(x, const(k), "==")): return k

# ------------------------------------------------------------------ z3
_z3gen = {}
_z3poly = {}
def z3_of_gen(i):
    v = _z3gen.get(i)
    if v is None: v = _z3gen[i] = z3.Real(f"g{i}_{P.RING.gens[i].name}")
    return v
def z3_of_poly(d):
    ts = []
    for m, c in d.items():
        fs = []
        i = 0
        while m:
            e = m & P.MASK
            if e: fs += [z3_of_gen(i)] * e
            m >>= P.B; i += 1
        if not fs: ts.append(z3.RealVal(c))
        else:
            t = fs[0] if len(fs) == 1 else z3.Product(fs)
            ts.append(t if c == 1 else z3.RealVal(c) * t)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)
def z3_of_interned(p):
    v = _z3poly.get(p.id)
    if v is None: v = _z3poly[p.id] = z3_of_poly(p.d)
    return v
def z3_of_B(b, gens):
    if not isinstance(b, B): return z3.BoolVal(bool(b))
    if b.op == "atom":
        p, r = b.a
        gens.update(P.p_gens(p.d))
        e = z3_of_interned(p)
        return e == 0 if r == "=" else (e > 0 if r == ">" else e < 0)
    if b.op == "not": return z3.Not(z3_of_B(b.a[0], gens))
    if b.op == "and": return z3.And(*[z3_of_B(x, gens) for x in b.a])
    if b.op == "or": return z3.Or(*[z3_of_B(x, gens) for x in b.a])
    raise AssertionError(b.op)

def gen_constraints(gens, links):
    """definitions of the generators in `gens`, transitively"""
    out = []; todo = list(gens); seen = set(gens)
    def need(s):
        for j in s:
            if j not in seen: seen.add(j); todo.append(j)
    while todo:
        i = todo.pop()
        g = P.RING.gens[i]
        v = z3_of_gen(i)
        if g.kind == "sign":
            out.append(z3.Or(v == 1, v == -1))
            l = links.get(i)
            if l is not None:
                gs = set(); e = z3_of_B(l, gs); need(gs)
                out.append((v == 1) == e)
        elif g.rad is not None:
            need(P.p_gens(g.rad))
            out += [v >= 0, v * v == z3_of_poly(g.rad)]
        elif g.kind == "pos": out.append(v > 0)
        elif g.kind == "nonneg": out.append(v >= 0)
    return out, seen

def z3_dag(x, memo, side, gens, limit):
    """the expression as the code computed it (no normal form): z3 term; side conditions of roots and divisions in `side`"""
    st = [x]
    while st:
        t = st[-1]
        if id(t) in memo: st.pop(); continue
        if len(memo) > limit: return None
        op = t.op
        if op == "c": memo[id(t)] = z3.RealVal(t.a[0]); st.pop(); continue
        if op == "g": memo[id(t)] = z3_of_gen(t.a[0]); gens.add(t.a[0]); st.pop(); continue
        need = [a for a in t.a if id(a) not in memo]
        if need: st.extend(need); continue
        a = [memo[id(k)] for k in t.a]
        if op == "+": r = a[0] + a[1]
        elif op == "-": r = a[0] - a[1]
        elif op == "neg": r = -a[0]
        elif op == "*": r = a[0] * a[1]
        elif op == "/":
            r = z3.FreshReal("q"); side += [a[1] != 0, r * a[1] == a[0]]
        elif op == "sqrt":
            r = z3.FreshReal("r"); side += [r >= 0, r * r == a[0]]
        elif op == "abs": r = z3.If(a[0] >= 0, a[0], -a[0])
        else: return None
        memo[id(t)] = r; st.pop()
    return memo[id(x)]

class Stats:
    def __init__(self): self.q = 0; self.t = 0.0; self.unk = 0; self.sat = 0; self.unsat = 0; self.dec = 0; self.obl = 0
STATS = Stats()

def z3_check(fs, timeout_ms, want_model=False, nra=True):
    t = time.time()
    s = z3.SolverFor("QF_NRA") if nra else z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*fs)
    r = s.check()
    STATS.q += 1; STATS.t += time.time() - t
    if r == z3.sat: STATS.sat += 1
    elif r == z3.unsat: STATS.unsat += 1
    else: STATS.unk += 1
    if want_model: return r, (s.model() if r == z3.sat else None)
    return r

# ------------------------------------------------------------------ path context
def draw_name(key, i, kind): return f"{kind}|{':'.join(str(k) for k in key)}|{i}"

class Ctx:
    def __init__(self, prefix, opts):
        self.prefix = list(prefix); self.pos = 0
        self.decisions = []          # (B, taken, forced)
        self.pc = []                 # list of B that hold on this path
        self.signs = {}              # poly id -> set of possible signs
        self.links = {}
        self.floors = {}; self.coins = {}; self.udraws = set()
        self.axkeys = set()
        self.pending = []            # alternative prefixes
        self.opts = opts
        self.inputs = {}             # name -> S
        self.fixed = {}              # name of a draw -> its value, given by the harness
        self.choices = {}            # name -> value
        self.obs = []                # (label, S) observations for validation
        self.notes = []
        self.z3pc = []; self.z3gens = set()
        self.depth = 0
        self.stop = False
        self.counters = {}
        self.calls = []
        self.streams = 0
        self.drawn = set(); self.nsched = 0; self.sched_limit = 10 ** 9; self.consumed = {}; self.log = []; self.fixfn = None
        self.events = []

    def record_call(self, name, args=()): self.calls.append((name, args))
    def fresh_stream(self):
        self.streams += 1
        return self.streams - 1
    def draw(self, key, i, kind):
        name = draw_name(key, i, kind)
        if name in self.fixed: return self.fixed[name]
        if self.fixfn is not None:
            v = self.fixfn(key, i, kind)
            if v is not None: return to_S(v)
        s = var(name)
        if kind == "u": self.udraws.update(s.a)
        if name not in self.drawn:
            self.drawn.add(name); self.inputs[name] = s
            if kind == "u":
                self.add(B_cmp(s, const(0), ">=")); self.add(B_cmp(s, const(1), "<"))
        return s

    def pos_rad(self, g):
        p = g.info
        if p is None or not hasattr(p, "id"): return False
        f = self.signs.get(p.id)
        return f == {1}

    def add(self, b):
        """assume b on this path"""
        if not isinstance(b, B):
            if not b: raise PathAbort("false assumption")
            return
        if b.op == "and":
            for x in b.a: self.add(x)
            return
        neg = False; a = b
        if b.op == "not":
            a = b.a[0]; neg = True
            if a.op == "or":
                for x in a.a: self.add(b_not(x))
                return
            if a.op == "not": return self.add(a.a[0])
        self.pc.append(b)
        self.z3pc.append(z3_of_B(b, self.z3gens))
        if a.op == "atom":
            p, r = a.a
            s = {"=": {0}, ">": {1}, "<": {-1}}[r]
            if neg: s = {-1, 0, 1} - s
            self.signs[p.id] = self.signs.get(p.id, {-1, 0, 1}) & s
            self._fact_consequences(p, self.signs[p.id])

    def _fact_consequences(self, p, s):
        # a root generator's sign fact carries to its radicand and back
        if len(p.d) == 1:
            (m, c), = p.d.items()
            gens = P.p_gens(p.d)
            if len(gens) == 1:
                g = P.RING.gens[gens[0]]
                if 0 not in s and g.kind in ("sqrt", "abs") and g.info is not None and hasattr(g.info, "id"):
                    self.signs[g.info.id] = {1}
            if 0 not in s and len(gens) > 1:
                for i in gens:
                    q = P.intern({1 << (P.B * i): 1})
                    self.signs[q.id] = self.signs.get(q.id, {-1, 0, 1}) & {-1, 1}
            elif 0 not in s:
                q = P.intern({1 << (P.B * gens[0]): 1})
                self.signs[q.id] = self.signs.get(q.id, {-1, 0, 1}) & {-1, 1}
                if q.id == p.id: self.signs[q.id] &= s
        if 0 not in s:
            g = P.RING.radtab.get(p.id)
            if g is not None:
                q = P.intern({1 << (P.B * g.idx): 1})
                self.signs[q.id] = {1}
            # p != 0 and syntactically nonneg -> positive
            if syn_nonneg(p.d): self.signs[p.id] = {1}

    def add_axiom(self, key, thunk):
        if key in self.axkeys: return
        self.axkeys.add(key)
        for b in thunk(): self.add(b)

    def link_sign(self, sgn, b):
        i = sgn.a[0]
        if isinstance(b, B): self.links[i] = b
        else: self.add(B_cmp(sgn, const(1 if b else -1), "=="))

    def formulas(self, extra=(), extragens=()):
        gens = set(self.z3gens) | set(extragens)
        cs, allg = gen_constraints(gens, self.links)
        self._allgens = allg
        return list(self.z3pc) + cs + list(extra)

    def feasible(self, b, timeout=None):
        gs = set()
        e = z3_of_B(b, gs)
        return z3_check(self.formulas([e], gs), timeout or self.opts["branch_ms"])

    def int_range(self, x):
        """integer range [floor(min), floor(max)] of x on this path, by solver queries"""
        f = lambda k, rel: self.feasible(B_cmp(x, const(k), rel)) if isinstance(B_cmp(x, const(k), rel), B) else (z3.sat if B_cmp(x, const(k), rel) else z3.unsat)
        lo = hi = None
        for k in (0, 1, 2, 3, 4, 6, 8, 12, 16, 32, 64):
            if f(-k, "<") == z3.unsat: lo = -k; break
        for k in (1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128):
            if f(k, ">=") == z3.unsat: hi = k - 1; break
        if lo is None or hi is None: return None
        while lo < hi and f(lo + 1, "<") == z3.unsat: lo += 1
        while lo < hi and f(hi, ">=") == z3.unsat: hi -= 1
        return lo, hi

CTX = None

def atom_truth(b):
    """truth from recorded facts only"""
    if not isinstance(b, B): return bool(b)
    if b.op == "atom":
        p, r = b.a
        s = signs_of_poly(p)
        w = {"=": 0, ">": 1, "<": -1}[r]
        if w not in s: return False
        if len(s) == 1: return True
        return None
    if b.op == "not":
        t = atom_truth(b.a[0]); return None if t is None else not t
    return None

def decide(b):
    if not isinstance(b, B): return bool(b)
    if CTX is None: raise Unsupported("symbolic truth value outside a run")
    if b.op == "and":
        for x in b.a:
            if not decide(x): return False
        return True
    if b.op == "or":
        for x in b.a:
            if decide(x): return True
        return False
    if b.op == "not": return not decide(b.a[0])
    t = atom_truth(b)
    if t is not None: return t
    c = CTX
    if c.pos < len(c.prefix):
        v = c.prefix[c.pos]; c.pos += 1
        c.decisions.append(v)
        c.add(b if v else b_not(b))
        return v
    STATS.dec += 1
    c.depth += 1
    if len(c.decisions) > c.opts["max_depth"]: raise Unsupported("path too deep")
    rt = c.feasible(b)
    if rt == z3.unsat: v = False
    else:
        rf_ = c.feasible(b_not(b))
        if rf_ == z3.unsat: v = True
        else:
            c.pending.append(list(c.decisions) + [False])
            v = True
    c.decisions.append(v); c.pos += 1; c.prefix.append(v)
    c.add(b if v else b_not(b))
    return v

def choose(n):
    """fork over range(n); recorded like binary decisions"""
    c = CTX
    if c.pos < len(c.prefix):
        v = c.prefix[c.pos]; c.pos += 1
        c.decisions.append(v)
        return v
    for k in range(n - 1, 0, -1): c.pending.append(list(c.decisions) + [k])
    c.decisions.append(0); c.pos += 1; c.prefix.append(0)
    return 0

# ------------------------------------------------------------------ numeric evaluation of nodes under a model
def _t_ppf(p, df):
    import scipy.stats
    return scipy.stats.t.ppf(p, df)
def _erfinv(x):
    import scipy.special
    return scipy.special.erfinv(x)
UF_NUM = {"t_ppf": _t_ppf, "erfinv": _erfinv, "exp": math.exp, "log": math.log, "pow": math.pow, "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "expm1": math.expm1, "log1p": math.log1p, "log2": math.log2, "log10": math.log10, "exp2": math.exp2}
def uf_inputs(i):
    """generators the arguments of the uninterpreted application i depend on"""
    out, todo, seen = set(), [x for x in P.RING.gens[i].info[1]], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, S) or id(x) in seen: continue
        seen.add(id(x))
        if x.op == "g":
            g = P.RING.gens[x.a[0]]
            if g.kind == "uf" and g.info is not None: todo += list(g.info[1])
            elif g.rad is not None: out |= set(P.p_gens(g.rad))
            else: out.add(x.a[0])
        else: todo += list(x.a)
    return out

def eval_float(s, env, cache):
    """float value of scalar s with input values env (gen idx -> float)"""
    if not isinstance(s, S): return float(s)
    stack = [s]
    while stack:
        t = stack[-1]
        if id(t) in cache: stack.pop(); continue
        op = t.op
        if op == "c": cache[id(t)] = float(t.a[0]); stack.pop(); continue
        if op == "g":
            i = t.a[0]
            if i in env: cache[id(t)] = float(env[i]); stack.pop(); continue
            g = P.RING.gens[i]
            if g.kind == "sign" and g.info is not None:
                x, thr, strict = g.info
                if id(x) not in cache: stack.append(x); continue
                v = cache[id(x)]
                cache[id(t)] = 1.0 if (v > thr if strict else v >= thr) else -1.0; stack.pop(); continue
            if g.rad is not None:
                cache[id(t)] = math.sqrt(max(0.0, eval_poly(g.rad, env, cache))); stack.pop(); continue
            if g.kind == "uf" and g.info is not None and g.info[0] in UF_NUM:
                need = [x for x in g.info[1] if id(x) not in cache]
                if need: stack.extend(need); continue
                v = float(UF_NUM[g.info[0]](*[cache[id(x)] for x in g.info[1]]))
                if v != v or v in (math.inf, -math.inf): raise ValueError("non-finite")
                cache[id(t)] = v; stack.pop(); continue
            raise KeyError(g.name)
        need = [x for x in t.a if isinstance(x, S) and id(x) not in cache]
        if need: stack.extend(need); continue
        v = [cache[id(x)] if isinstance(x, S) else float(x) for x in t.a]
        try:
            r = {"+": lambda: v[0] + v[1], "-": lambda: v[0] - v[1], "*": lambda: v[0] * v[1], "/": lambda: v[0] / v[1],
                 "neg": lambda: -v[0], "abs": lambda: abs(v[0]), "sqrt": lambda: math.sqrt(v[0]) if v[0] >= 0 else float("nan")}[op]()
        except ZeroDivisionError: r = float("nan")
        cache[id(t)] = r; stack.pop()
    return cache[id(s)]

def eval_poly(d, env, cache):
    t = 0.0
    for m, c in d.items():
        v = float(c); i = 0
        while m:
            e = m & P.MASK
            if e: v *= eval_float(gen_S(P.RING.gens[i]), env, cache) ** e
            m >>= P.B; i += 1
        t += v
    return t
