"""C26: the native integer helpers for all machine integers, from clang's LLVM IR."""
import os, subprocess, tempfile, shutil, time
from vsym.reg import harness
ASSUMPTIONS = ["clang's unoptimised IR is the code's meaning (two's complement, nsw marks signed overflow)", "preconditions: positive modulus; operator size from 1 to 2^31 - 1; degree and width as returned by the preceding helper",
               "machine integers, not exact ones: every 32-bit value is covered; the statement on exact real arithmetic does not apply here"]
PRE = "#include <utility>\n#include <cmath>\n#include <cstddef>\n#include \"lanczos.h\"\n"
DIM = "std::pair<size_t, size_t>(n, m)"
WRAP = {
 "mod": ("int h_mod(int a, int b)", "return mod(a, b);"),
 "degree": ("int h_degree(int deg, unsigned long n, unsigned long m)", f"return param_deg(deg, {DIM});"),
 "width": ("int h_width(int ncv, int deg, unsigned long n, unsigned long m)", f"return param_ncv(ncv, deg, {DIM});"),
 "orth": ("int h_orth(int orth, int deg, int ncv, unsigned long n, unsigned long m)", f"return param_orth(orth, deg, ncv, {DIM});"),
 "chain": ("int h_chain(int deg, int ncv, int orth, unsigned long n, unsigned long m, int which)",
           f"int d = param_deg(deg, {DIM}); int w = param_ncv(ncv, d, {DIM}); int o = param_orth(orth, d, w, {DIM}); return which == 0 ? d : which == 1 ? w : o;"),
 "cycle": ("int h_cycle(int i, int b, int back)", "return mod(i + (back ? -1 : 1), b);"),
}
ARGS = {"mod": "ab", "degree": ["deg", "n", "m"], "width": ["ncv", "deg", "n", "m"], "orth": ["orth", "deg", "ncv", "n", "m"], "chain": ["deg", "ncv", "orth", "n", "m", "which"], "cycle": ["i", "b", "back"]}
LONG = ("n", "m")

class Z:
    """claims over bit-vectors"""
    def __init__(self):
        import z3
        self.z3 = z3
        self.and_, self.or_, self.not_ = z3.And, z3.Or, z3.Not
        self.implies = z3.Implies
    def w(self, x): return self.z3.SignExt(64, x) if x.size() == 32 else self.z3.ZeroExt(32, x)      # everything to 96 bits
    def k(self, v): return self.z3.BitVecVal(v, 96)
    def rem(self, a, b):       # both are sign-extended 32-bit values and b is positive: the remainder at 32 bits is the same number
        lo = lambda x: self.z3.Extract(31, 0, x)
        return self.z3.SignExt(64, self.z3.SRem(lo(a), lo(b)))
    def ite(self, c, a, b): return self.z3.If(c, a, b)
    def min(self, a, b): return self.z3.If(a < b, a, b)

class P:
    """the same claims over Python integers"""
    and_ = staticmethod(lambda *a: all(a)); or_ = staticmethod(lambda *a: any(a)); not_ = staticmethod(lambda a: not a)
    implies = staticmethod(lambda a, b: (not a) or b)
    w = staticmethod(lambda x: x); k = staticmethod(lambda v: v)
    rem = staticmethod(lambda a, b: (abs(a) % abs(b)) * (1 if a >= 0 else -1))
    ite = staticmethod(lambda c, a, b: a if c else b)
    min = staticmethod(min)

def pre(L, fn, a):
    one, top = L.k(1), L.k(2 ** 31 - 1)
    out = []
    if "n" in a: out += [a["n"] >= one, a["n"] <= top, a["m"] == a["n"]]
    if fn in ("mod", "cycle"): out += [a["b"] >= one]
    if fn == "cycle": out += [a["i"] >= L.k(0), a["i"] < a["b"], L.or_(a["back"] == L.k(0), a["back"] == one)]
    if fn == "width": out += [a["deg"] >= one, a["deg"] <= a["n"]]
    if fn == "orth": out += [a["deg"] >= one, a["deg"] <= a["n"], a["ncv"] >= L.min(L.k(2), a["deg"]), a["ncv"] <= a["deg"]]
    if fn == "chain": out += [a["which"] >= L.k(0), a["which"] <= L.k(2)]
    return out

def post(L, fn, a, r):
    """[(label, claim)]"""
    z, one, two = L.k(0), L.k(1), L.k(2)
    if fn == "mod":
        t = L.rem(a["a"], a["b"])
        return [("in [0, b)", L.and_(r >= z, r < a["b"])), ("the true modulus", r == L.ite(t < z, t + a["b"], t))]
    if fn == "cycle":
        return [("in [0, b)", L.and_(r >= z, r < a["b"])), ("the neighbouring index, cyclically", r == L.ite(a["back"] == one, L.ite(a["i"] == z, a["b"] - one, a["i"] - one), L.ite(a["i"] == a["b"] - one, z, a["i"] + one)))]
    if fn == "degree":
        return [("in [1, n]", L.and_(r >= one, r <= a["n"])), ("admissible degrees are kept", L.implies(L.and_(a["deg"] >= one, a["deg"] <= a["n"]), r == a["deg"]))]
    if fn == "width":
        lo = L.min(two, a["deg"])
        return [("at least two where the size allows, never above the degree", L.and_(r >= lo, r <= a["deg"])), ("admissible widths are kept", L.implies(L.and_(a["ncv"] >= two, a["ncv"] <= a["deg"]), r == a["ncv"]))]
    if fn == "orth":
        top = a["ncv"] - one
        return [("between 0 and one less than the width", L.and_(r >= z, r <= top)), ("admissible counts are kept", L.implies(L.and_(a["orth"] >= z, a["orth"] <= top), r == a["orth"])),
                ("everything available when negative or too large", L.implies(L.or_(a["orth"] < z, a["orth"] > a["deg"]), r == top))]
    return [("degree in [1, n], width up to the degree, count below the width", L.and_(r >= z, r <= a["n"], L.implies(a["which"] == z, r >= one), L.implies(a["which"] == one, r >= L.min(two, a["n"]) - L.ite(a["deg"] <= one, one, z)),
             L.implies(a["which"] == two, r <= a["n"] - one)))]

def source(fn):
    sig, body = WRAP[fn]
    return PRE + f'extern "C" {sig} {{ {body} }}\n'

def native(fn, include):
    """executable evaluating the helper with overflow traps; None if it does not compile"""
    d = tempfile.mkdtemp(prefix="vhelp.")
    main = "#include <cstdio>\n#include <cstdlib>\nint main(int c, char** v){ printf(\"%d\\n\", h_" + fn + "(" + ", ".join(f"({'unsigned long' if a in LONG else 'int'})atoll(v[{i + 1}])" for i, a in enumerate(ARGS[fn])) + ")); }\n"
    open(d + "/h.cpp", "w").write(source(fn) + main)
    r = subprocess.run(["g++", "-std=c++20", "-O0", "-w", "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,unreachable,return", "-fsanitize-undefined-trap-on-error", "-I/usr/include/eigen3", "-I" + include, d + "/h.cpp", "-o", d + "/h"], capture_output=True, text=True)
    if r.returncode: shutil.rmtree(d, ignore_errors=True); return None, r.stderr
    return d, ""

def fails(fn, d, values):
    """what the real code does wrong on these arguments"""
    a = dict(zip(ARGS[fn], values))
    if not all(pre(P, fn, a)): return []
    r = subprocess.run([d + "/h"] + [str(v) for v in values], capture_output=True, text=True, timeout=60)
    if r.returncode: return [f"{fn}({', '.join(map(str, values))}): undefined behaviour (signed overflow or division by zero)"]
    x = int(r.stdout)
    return [f"{fn}({', '.join(map(str, values))}) = {x}: not {lab}" for lab, c in post(P, fn, a, x) if not c]

EDGE = [0, 1, 2, 3, 7, -1, -2, -8, 2 ** 30, 2 ** 30 + 1, 2 ** 31 - 1, 2 ** 31 - 2, -2 ** 31, -2 ** 31 + 1]

@harness(quick=[dict(which=k) for k in WRAP], bounds="all 32-bit integers satisfying the preconditions (sizes up to 2^31 - 1)")
def helper(E=None, which=None, src=None, rsrc=None, so=None, server=None, modname=None, tier="quick"):
    """value ranges, exactness and absence of signed overflow"""
    if E is not None:      # replay of a counterexample
        inc = os.path.join(os.environ.get("VERIF_SRC", "/repo/src/primate"), "include")
        d, err = native(which, inc)
        if d is None: raise RuntimeError(err)
        try:
            for f in fails(which, d, [int(E.inputs[k]) for k in ARGS[which]]): E._fail("helper", f)
            E.nclaims += 1
        finally: shutil.rmtree(d, ignore_errors=True)
        return
    import z3
    from vsym import core, llvmbv
    res = dict(paths=0, obligations=0, trivial=0, discharged=0, violations=[], inconclusive=[], witnesses=0, obs_checked=0, obs_mismatch=[], samples=[], aborted=0, funcs=[])
    inc = os.path.join(src, "include")
    ir, err = llvmbv.compile_ir(source(which), inc, ["h_" + which])
    d, err2 = native(which, inc)
    try:
        if ir is None or d is None:
            res["inconclusive"].append(f"{which}: the helper is not available under its name and signature: {(err or err2)[:150]}"); return res
        def check(fs, model=False, ms=60000):
            t = time.time(); s = z3.SolverFor("QF_BV"); s.set("timeout", ms); s.add(*fs); r = s.check()
            core.STATS.q += 1; core.STATS.t += time.time() - t
            if r == z3.sat: core.STATS.sat += 1
            elif r == z3.unsat: core.STATS.unsat += 1
            else: core.STATS.unk += 1
            return (r, s.model() if r == z3.sat else None) if model else r
        L = Z()
        bv = {k: z3.BitVec(k, 64 if k in LONG else 32) for k in ARGS[which]}
        wide = {k: L.w(v) for k, v in bv.items()}
        pc0 = pre(L, which, wide)
        ex = llvmbv.Exec(llvmbv.parse(ir), check)
        def numbers(m):
            out = []
            for k in ARGS[which]:
                x = m.eval(bv[k], model_completion=True)
                out.append(x.as_long() if k in LONG else x.as_signed_long())
            return out
        def claim(label, f, pc):
            res["obligations"] += 1
            r, m = check(pc + [z3.Not(f)], True)
            if r == z3.unsat: res["discharged"] += 1; return
            if r == z3.sat:
                vals = numbers(m); bad = fails(which, d, vals)
                if bad: res["violations"].append(dict(label=label, why="claim fails", inputs=dict(zip(ARGS[which], vals)), choices={}, result=dict(fails=bad))); return
                res["inconclusive"].append(f"unreproduced counterexample: {label}: {vals}"); return
            small = [z3.And(v >= -1024, v <= 1024) for v in bv.values()]      # undecided at full width: decide it for small values at least
            r, m = check(pc + small + [z3.Not(f)], True)
            if r == z3.sat:
                vals = numbers(m); bad = fails(which, d, vals)
                if bad: res["violations"].append(dict(label=label, why="claim fails", inputs=dict(zip(ARGS[which], vals)), choices={}, result=dict(fails=bad))); return
            res["inconclusive"].append(f"undecided: {label}" + (" (decided for values up to 1024)" if r == z3.unsat else ""))
        try:
            for pc, obl, r in ex.run("h_" + which, list(bv.values()), pc0):
                res["paths"] += 1
                for what, f, at in obl: claim(what, f, at)
                for lab, f in post(L, which, wide, L.w(r)): claim(lab, f, pc)
                q, m = check(pc, True)
                if q == z3.sat:       # one model per path against the real code
                    vals = numbers(m); got = subprocess.run([d + "/h"] + [str(v) for v in vals], capture_output=True, text=True, timeout=60)
                    want = m.eval(r, model_completion=True).as_signed_long()
                    res["witnesses"] += 1; res["obs_checked"] += 1
                    res["samples"].append(dict(inputs=dict(zip(ARGS[which], vals)), result=want))
                    if got.returncode == 0 and int(got.stdout) != want: res["obs_mismatch"].append(f"{which}{tuple(vals)}: model {want}, real {got.stdout.strip()}")
                if res["violations"]: break
        except llvmbv.Unsupported as e: res["inconclusive"].append(f"Unsupported: {e}")
        if res["inconclusive"] and not res["violations"]:     # not decided: the real code is still run on edge values
            import itertools, random
            rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
            for _ in range(300):
                vals = [rng.choice([e for e in EDGE if e >= 0] if k in LONG else EDGE) for k in ARGS[which]]
                if "m" in ARGS[which]: vals[ARGS[which].index("m")] = vals[ARGS[which].index("n")]
                bad = fails(which, d, vals); res["witnesses"] += 1
                if bad: res["violations"].append(dict(label="undecided path", why=res["inconclusive"][0], inputs=dict(zip(ARGS[which], vals)), choices={}, result=dict(fails=bad))); break
        res["funcs"] = sorted("lanczos.h:" + f for f in ex.visited)
        return res
    finally:
        if d: shutil.rmtree(d, ignore_errors=True)
helper.custom = True
