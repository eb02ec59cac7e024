"""Exact multivariate rational functions over generators (inputs, square roots, absolute values, signs, uninterpreted values).

A monomial is one Python int (16 bits of exponent per generator); a polynomial a dict monomial -> int.
A rational function is  c * num / prod(f**e)  with c a Fraction, num primitive, the f's interned primitive polynomials.
Generators with a square relation (g*g = rad) are reduced on every product, so g appears at most linearly.
"""
from fractions import Fraction
from math import gcd, isqrt
import heapq

B = 16
MASK = (1 << B) - 1

class Gen:
    __slots__ = ("idx", "name", "kind", "rad", "info", "rel")
    def __init__(self, idx, name, kind, rad=None, info=None):
        self.idx, self.name, self.kind, self.rad, self.info = idx, name, kind, rad, info

class Budget(Exception):
    """the exact normal form grew beyond the stated budget"""

MAXTERMS = 60000

class Ring:
    def __init__(self):
        self.gens = []
        self.sq = {}            # gen idx -> rad dict  (g*g == rad)
        self.sqmask = 0         # bits >=2 of exponents of square gens
        self.intern_tab = {}
        self.radtab = {}        # interned radicand poly id -> gen
        self.terms_peak = 0

    def new_gen(self, name, kind, rad=None, info=None):
        g = Gen(len(self.gens), name, kind, rad, info)
        self.gens.append(g)
        if rad is not None:
            self.sq[g.idx] = rad
            self.sqmask |= (MASK ^ 1) << (B * g.idx)
        return g

    def mono(self, idx, e=1): return e << (B * idx)

RING = Ring()

def reset():
    global RING
    RING.__init__()

class Poly:
    """interned, primitive, leading coefficient positive"""
    __slots__ = ("d", "id", "lead", "_sos", "_sqrt")
    def __repr__(self): return pstr(self.d)

def intern(d):
    key = frozenset(d.items())
    p = RING.intern_tab.get(key)
    if p is None:
        p = Poly(); p.d = d; p.id = len(RING.intern_tab); p.lead = max(d); p._sos = None; p._sqrt = 0
        RING.intern_tab[key] = p
    return p

def pstr(d):
    if not d: return "0"
    out = []
    for m in sorted(d, reverse=True):
        s = [str(d[m])] if d[m] != 1 or m == 0 else []
        i = 0
        while m:
            e = m & MASK
            if e: s.append(RING.gens[i].name + (f"^{e}" if e > 1 else ""))
            m >>= B; i += 1
        out.append("*".join(s))
    return " + ".join(out)

def padd(a, b, ka=1, kb=1):
    if ka == 1: r = dict(a)
    else: r = {m: ka * c for m, c in a.items()}
    for m, c in b.items():
        v = r.get(m, 0) + kb * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}

def pmul_raw(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 40_000_000: raise Budget(f"product of {len(a)}x{len(b)} terms")
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    r = {m: c for m, c in r.items() if c}
    if len(r) > RING.terms_peak: RING.terms_peak = len(r)
    if len(r) > MAXTERMS: raise Budget(f"{len(r)} terms")
    return r

def preduce(d):
    """rewrite g*g -> rad for every square generator"""
    sqm = RING.sqmask
    while True:
        acc = 0
        for m in d: acc |= m
        if not (acc & sqm): return d
        # highest square generator with exponent >= 2 in some monomial
        best = None
        for i in RING.sq:
            if (acc >> (B * i)) & (MASK ^ 1) and (best is None or i > best):
                best = i
        i = best; sh = B * i
        groups = {}
        for m, c in d.items():
            e = (m >> sh) & MASK
            q, r = e >> 1, e & 1
            mm = m - ((e - r) << sh)
            g = groups.setdefault(q, {})
            v = g.get(mm, 0) + c
            if v: g[mm] = v
            else: g.pop(mm, None)
        rad = RING.sq[i]
        res = groups.pop(0, {})
        if groups:
            pw = {0: 1}; k = 0
            for q in sorted(groups):
                while k < q: pw = preduce(pmul_raw(pw, rad)); k += 1
                res = padd(res, pmul_raw(groups[q], pw))
        d = res

def pmul(a, b): return preduce(pmul_raw(a, b))

def content(d):
    g = 0
    for c in d.values():
        g = gcd(g, c)
        if g == 1: break
    if d and d[max(d)] < 0: g = -g
    return g

PR = (1 << 61) - 1
_pt = {}
def _point(i):
    v = _pt.get(i)
    if v is None:
        v = _pt[i] = (i * 0x9E3779B97F4A7C15 + 0x1234567) * 0xBF58476D1CE4E5B9 % PR
    return v
def pevalmod(d):
    t = 0
    for m, c in d.items():
        i = 0; v = c
        while m:
            e = m & MASK
            if e: v = v * pow(_point(i), e, PR) % PR
            m >>= B; i += 1
        t += v
    return t % PR

def _le(a, b):
    """monomial a divides b"""
    while a:
        if (a & MASK) > (b & MASK): return False
        a >>= B; b >>= B
    return True

def pdivexact(a, f):
    """a / f as plain polynomials (no square relations used) or None; f primitive"""
    if not a: return {}
    if len(f) == 1:
        (mf, cf), = f.items()
        r = {}
        for m, c in a.items():
            if c % cf or not _le(mf, m): return None
            r[m - mf] = c // cf
        return r
    lf = max(f); cf = f[lf]
    la = max(a)
    if a[la] % cf or not _le(lf, la): return None
    # trailing test
    tf = min(f); ta = min(a)
    if a[ta] % f[tf] or not _le(tf, ta): return None
    accf = 0
    for m in f: accf |= m
    acca = 0
    for m in a: acca |= m
    # every variable of f must occur in a
    x, y = accf, acca
    while x:
        if (x & MASK) and not (y & MASK): return None
        x >>= B; y >>= B
    if len(a) * len(f) > 30_000_000: return None
    rem = dict(a)
    heap = [-m for m in rem]; heapq.heapify(heap)
    q = {}
    fit = [(m, c) for m, c in f.items() if m != lf]
    steps = 0
    while rem:
        m = -heapq.heappop(heap)
        c = rem.get(m)
        if c is None: continue
        if c % cf or not _le(lf, m): return None
        qm, qc = m - lf, c // cf
        q[qm] = qc
        del rem[m]
        for fm, fc in fit:
            k = qm + fm
            v = rem.get(k)
            if v is None:
                rem[k] = -qc * fc; heapq.heappush(heap, -k)
            else:
                v -= qc * fc
                if v: rem[k] = v
                else: del rem[k]
        steps += 1
        if len(rem) > 4 * (len(a) + len(f)) + 2000: return None
    return q

def psqrt(d):
    """polynomial p with p*p == d (no relations), or None"""
    if not d: return {}
    l = max(d); c = d[l]
    if c < 0: return None
    r = isqrt(c)
    if r * r != c: return None
    m = l; i = 0; h = 0
    while m:
        e = m & MASK
        if e & 1: return None
        h |= (e >> 1) << (B * i)
        m >>= B; i += 1
    p = {h: r}
    rem = padd(d, pmul_raw(p, p), 1, -1)
    while rem:
        l2 = max(rem); c2 = rem[l2]
        if not _le(h, l2) or c2 % (2 * r): return None
        t = {l2 - h: c2 // (2 * r)}
        if (l2 - h) >= h: return None
        # rem -= 2 p t + t^2
        rem = padd(rem, pmul_raw(p, t), 1, -2)
        rem = padd(rem, pmul_raw(t, t), 1, -1)
        p.update(t)
        if len(p) > len(d): return None
    return p

def p_gens(d):
    acc = 0
    for m in d: acc |= m
    i = 0; out = []
    while acc:
        if acc & MASK: out.append(i)
        acc >>= B; i += 1
    return out

# ---------------------------------------------------------------- rational functions
class RF:
    __slots__ = ("c", "n", "f")
    def __init__(self, c, n, f):
        self.c, self.n, self.f = c, n, f      # Fraction, dict (primitive, lead>0; {} for zero), tuple((Poly,e))
    def is_zero(self): return not self.n
    def is_const(self): return not self.n or (len(self.n) == 1 and 0 in self.n and not self.f)
    def const(self): return Fraction(0) if not self.n else self.c
    def __repr__(self):
        return f"{self.c}*({pstr(self.n)})/" + "*".join(f"({pstr(f.d)})^{e}" for f, e in self.f) if self.f else f"{self.c}*({pstr(self.n)})"

ONE = {0: 1}
def rf_const(c):
    c = Fraction(c)
    return RF(c, ONE, ()) if c else RF(Fraction(0), {}, ())
ZERO = rf_const(0)
def rf_gen(idx): return RF(Fraction(1), {1 << (B * idx): 1}, ())

def mk(c, n, fd):
    """normalise: primitive numerator, cancel denominator factors (fd: dict Poly -> exp)"""
    if not n: return ZERO
    g = content(n)
    if g != 1:
        n = {m: v // g for m, v in n.items()}
        c = c * g
    if fd:
        for f in list(fd):
            e = fd[f]
            while e > 0:
                q = pdivexact(n, f.d)
                if q is None: break
                n = q; e -= 1
            if e: fd[f] = e
            else: del fd[f]
        g = content(n)
        if g != 1:
            n = {m: v // g for m, v in n.items()}
            c = c * g
    return RF(c, n, tuple(sorted(fd.items(), key=lambda t: t[0].id)))

def rf_add(a, b, sb=1):
    if not a.n: return b if sb == 1 else rf_neg(b)
    if not b.n: return a
    if a.f == b.f:
        na, nb = a.n, b.n; fd = dict(a.f)
    else:
        fa, fb = dict(a.f), dict(b.f)
        fd = dict(fa)
        for f, e in fb.items():
            if fd.get(f, 0) < e: fd[f] = e
        na, nb = a.n, b.n
        for f, e in fd.items():
            for _ in range(e - fa.get(f, 0)): na = pmul(na, f.d)
            for _ in range(e - fb.get(f, 0)): nb = pmul(nb, f.d)
    ca, cb = a.c, sb * b.c
    # common denominator of ca, cb
    den = ca.denominator * cb.denominator // gcd(ca.denominator, cb.denominator)
    n = padd(na, nb, int(ca * den), int(cb * den))
    if len(n) > MAXTERMS: raise Budget("sum")
    return mk(Fraction(1, den), n, fd)

def rf_neg(a): return RF(-a.c, a.n, a.f)

def rf_mul(a, b):
    if not a.n or not b.n: return ZERO
    if b.n == ONE and not b.f: return RF(a.c * b.c, a.n, a.f)
    if a.n == ONE and not a.f: return RF(a.c * b.c, b.n, b.f)
    na, nb = a.n, b.n
    fa, fb = dict(a.f), dict(b.f)
    for f in list(fb):
        while fb.get(f):
            q = pdivexact(na, f.d)
            if q is None: break
            na = q; fb[f] -= 1
            if not fb[f]: del fb[f]
    for f in list(fa):
        while fa.get(f):
            q = pdivexact(nb, f.d)
            if q is None: break
            nb = q; fa[f] -= 1
            if not fa[f]: del fa[f]
    for f, e in fb.items(): fa[f] = fa.get(f, 0) + e
    n = pmul(na, nb)
    return mk(a.c * b.c, n, fa)

def square_free_gens(d):
    return [i for i in p_gens(d) if i in RING.sq]

def rf_inv(a):
    """1/a; monomial and square-root generators are split off the numerator, single roots rationalised"""
    assert a.n
    num = {0: 1}
    for f, e in a.f:
        for _ in range(e): num = pmul(num, f.d)
    c = 1 / a.c
    n = a.n
    fd = {}
    # split monomial content
    ms = list(n)
    i = 0; common = None
    gm = ms[0]
    for m in ms[1:]:
        x, y, z, j = gm, m, 0, 0
        while x and y:
            e = min(x & MASK, y & MASK)
            if e: z |= e << (B * j)
            x >>= B; y >>= B; j += 1
        gm = z
        if not gm: break
    if gm:
        n = {m - gm: v for m, v in n.items()}
        j = 0; x = gm
        while x:
            e = x & MASK
            if e:
                if j in RING.sq:
                    assert e == 1
                    num = pmul(num, {1 << (B * j): 1})
                    rad = RING.sq[j]
                    fd2 = split_known(rad)
                    for f, ee in fd2[1].items(): fd[f] = fd.get(f, 0) + ee
                    c = c / fd2[0]
                else:
                    p = intern({1 << (B * j): 1}); fd[p] = fd.get(p, 0) + e
            x >>= B; j += 1
    if n != ONE:
        k, fs = split_known(n)
        c = c / k
        for f, ee in fs.items(): fd[f] = fd.get(f, 0) + ee
    return mk(c, num, fd)

KNOWN_FACTORS = []   # interned polys (denominators, radicands) tried as factors

def reset_known(): KNOWN_FACTORS.clear()

def split_known(d):
    """(const, {factor: exp}) with d == const * prod; tries monomials and known factors"""
    fd = {}
    g = content(d); k = Fraction(g)
    n = {m: v // g for m, v in d.items()} if g != 1 else d
    # monomial content
    gm = None
    for m in n:
        if gm is None: gm = m; continue
        x, y, z, j = gm, m, 0, 0
        while x and y:
            e = min(x & MASK, y & MASK)
            if e: z |= e << (B * j)
            x >>= B; y >>= B; j += 1
        gm = z
        if not gm: break
    if gm:
        n = {m - gm: v for m, v in n.items()}
        j = 0; x = gm
        while x:
            e = x & MASK
            if e: fd[intern({1 << (B * j): 1})] = e
            x >>= B; j += 1
    for f in KNOWN_FACTORS:
        if n == ONE: break
        while True:
            q = pdivexact(n, f.d)
            if q is None or len(f.d) == 1: break
            n = q; fd[f] = fd.get(f, 0) + 1
    if n != ONE:
        g = content(n)
        if g != 1:
            n = {m: v // g for m, v in n.items()}; k *= g
    if n != ONE:
        p = intern(n)
        # perfect square?
        if p._sqrt == 0: p._sqrt = psqrt(n)
        if p._sqrt is not None and len(n) > 1:
            r = p._sqrt
            if r[max(r)] < 0: r = {m: -v for m, v in r.items()}
            q = intern(r)
            if q not in KNOWN_FACTORS: KNOWN_FACTORS.append(q)
            fd[q] = fd.get(q, 0) + 2
        else:
            if p not in KNOWN_FACTORS: KNOWN_FACTORS.append(p)
            fd[p] = fd.get(p, 0) + 1
    return k, fd

def even_positive(d):
    """all monomials even (or in nonneg square-root generators squared away), all coefficients positive -> sum of squares"""
    odd = 0
    for i in range(len(RING.gens)): odd |= 1 << (B * i)
    for m, c in d.items():
        if c < 0 or (m & odd): return False
    return True
