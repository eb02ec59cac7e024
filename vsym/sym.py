"""Symbolic harness environment, path exploration, obligation discharge, counterexample search."""
import time, random, sys, os, json, math, traceback, itertools
from fractions import Fraction
import numpy as np
import z3
from . import core, arr, stubs, poly as P
from .core import S, B, const, to_S, B_cmp, b_and, b_or, b_not, b_all, nonfinite, Unsupported, PathAbort, Violation, Engine, Budget
from .arr import SA, obj, base, sa, wrap

DEFAULT = dict(branch_ms=2500, max_depth=60, qr_signs=True, eig_signs=True, lapack_fail=False, schedules=True, max_paths=400, obl_ms=20000, time=700)

class AssertFail(Exception): pass

class SymE:
    """what a harness sees when it runs on symbolic values"""
    sym = True
    def __init__(self, loader, ctx, run):
        self.loader, self.ctx, self.run = loader, ctx, run
        self.np = stubs.NP
        self.cfg = run.cfg
    # ---- code under test
    def mod(self, name): return self.loader.get("primate." + name if name else "primate")
    def sp(self, name): return self.loader.spm.get(name)
    # ---- inputs
    def real(self, name, lo=None, hi=None, nonzero=False, pos=False, nonneg=False):
        s = core.var(name, "pos" if pos else "nonneg" if nonneg else "var")
        self.ctx.inputs[name] = s
        self.run.ranges[name] = (lo, hi, "pos" if pos else "nonneg" if nonneg else "nonzero" if nonzero else None)
        if lo is not None: self.ctx.add(B_cmp(s, to_S(lo), ">="))
        if hi is not None: self.ctx.add(B_cmp(s, to_S(hi), "<="))
        if nonzero: self.ctx.add(B_cmp(s, const(0), "!="))
        return s
    def nat(self, name, lo=0):
        """an integer >= lo (over-approximated by a real in proofs, integral in counterexamples)"""
        s = self.real(name, lo=lo)
        self.run.ints.add(name)
        return s
    def reals(self, name, shape, order="C", dtype="float64", **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object, order=order)
        for i in np.ndindex(*shape): o[i] = self.real(f"{name}[{','.join(map(str, i))}]", **kw)
        r = np.ndarray.view(o, SA); r._dt = np.dtype(dtype)
        return r
    def sym_matrix(self, name, n, order="C", dtype="float64", **kw):
        o = np.empty((n, n), dtype=object, order=order)
        for i in range(n):
            for j in range(i, n): o[i, j] = o[j, i] = self.real(f"{name}[{i},{j}]", **kw)
        r = np.ndarray.view(o, SA); r._dt = np.dtype(dtype)
        return r
    def array(self, xs, dtype="float64", order="C"):
        o = obj(xs)
        o = np.array(o, dtype=object, order=order, copy=True)
        r = np.ndarray.view(o, SA); r._dt = np.dtype(dtype)
        return r
    def const(self, v): return to_S(v)
    def frac(self, a, b): return const(Fraction(a, b))
    def choice(self, name, options):
        options = list(options)
        k = core.choose(len(options)) if len(options) > 1 else 0
        self.ctx.choices[name] = k
        return options[k]
    def sign(self, name):
        """an arbitrary sign, as one symbolic value"""
        s = core.T.signs.get("in:" + name)
        if s is None:
            g = P.RING.new_gen("in:" + name, "sign", rad={0: 1})
            s = core.T.signs["in:" + name] = S("g", (g.idx,), P.rf_gen(g.idx))
            core.T.gen_node[g.idx] = s
        self.ctx.inputs[name] = s; self.run.signs_in.add(name)
        return s
    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond: raise PathAbort("assumption")
            return
        self.ctx.add(self._b(cond))
        if self.ctx.pos >= len(self.ctx.prefix) and not self.run.no_assume_check:
            fs = self.ctx.formulas()
            if core.z3_check(fs, 1500) == z3.unsat: raise PathAbort("infeasible assumption")
    def register(self, d, e, w, V): stubs.register_eig(sa(list(d)), sa(list(e)), sa(list(w)), sa([list(r) for r in V]))
    def register_sym(self, M, w, V): stubs.register_sym(M, list(w), [list(r) for r in V])
    def lapack(self, fails): self.ctx.opts["lapack_fail"] = bool(fails)
    def opt(self, **kw): self.ctx.opts.update(kw)
    # ---- logic usable on both sides
    def sqrt(self, x): return core.s_sqrt(to_S(x)) if not isinstance(x, np.ndarray) else np.sqrt(x)
    def abs(self, x): return abs(x)
    def uf(self, name, *a): return core.s_uf(name, *a)
    def lt(self, a, b): return B_cmp(self.sc(a), self.sc(b), "<")
    def le(self, a, b): return B_cmp(self.sc(a), self.sc(b), "<=")
    def gt(self, a, b): return B_cmp(self.sc(a), self.sc(b), ">")
    def ge(self, a, b): return B_cmp(self.sc(a), self.sc(b), ">=")
    def eqv(self, a, b): return B_cmp(self.sc(a), self.sc(b), "==")
    def and_(self, *xs): return b_all([self._b(x) for x in xs])
    def or_(self, *xs): return core.b_any([self._b(x) for x in xs])
    def not_(self, x): return b_not(self._b(x))
    def iff(self, x, y): return self._iff(x, y)
    def skip(self, why): raise Unsupported("not applicable: " + why)
    def is_true(self, b): return core.decide(self._b(b))
    def sc(self, x):
        if isinstance(x, np.ndarray):
            x = obj(x)
            if x.size != 1: raise AssertFail(f"scalar expected, got shape {x.shape}")
            x = x.ravel()[0]
        return arr._num(x) if isinstance(x, (B, bool, np.bool_)) else to_S(x)
    def _b(self, x):
        if isinstance(x, np.ndarray):
            x = obj(x)
            if x.size != 1: raise AssertFail("truth value of an array")
            x = x.ravel()[0]
        if isinstance(x, (B, bool)): return x
        if isinstance(x, np.bool_): return bool(x)
        if isinstance(x, S): return B_cmp(x, const(0), "!=")
        return bool(x)
    # ---- claims
    def eq(self, a, b, label, shape=True, obs=True):
        """a (from the code) equals b (from the oracle), element by element, both defined"""
        if _scalarish(a): ao = obj(a)
        else:
            try: ao = obj(a)
            except Unsupported: return self.run.fail(self, label, f"not numeric: {type(a).__name__}")
        bo = obj(b)
        if ao.shape != bo.shape:
            if shape or ao.size != bo.size: return self.run.claim(self, label, False, f"shape {ao.shape} instead of {bo.shape}")
            ao, bo = ao.reshape(-1), bo.reshape(-1)
        if obs: self.observe(label, a)
        cl = []; idents = []
        for i in np.ndindex(*ao.shape):
            x, y = ao[i], bo[i]
            if isinstance(x, (B, bool)) or isinstance(y, (B, bool)):
                cl.append(self._iff(x, y)); continue
            x, y = (x if isinstance(x, S) or nonfinite(x) else to_S(x)), (y if isinstance(y, S) or nonfinite(y) else to_S(y))
            if nonfinite(x) or nonfinite(y):
                ok = nonfinite(x) and nonfinite(y) and ((x != x and y != y) or x == y)
                cl.append(bool(ok)); continue
            for c in x.df | y.df: cl.append(c)
            cl.append(B_cmp(x, y, "=="))
            if cl[-1] is True or (isinstance(cl[-1], B) and core.atom_truth(cl[-1]) is True): idents.append((x, y))
        self.run.claims(self, label, cl)
        self.run.confirm(self, label, idents)
    def _iff(self, x, y):
        x, y = self._b(x), self._b(y)
        if not isinstance(x, B): return y if x else b_not(y)
        if not isinstance(y, B): return x if y else b_not(x)
        if x is y: return True
        return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
    def same(self, got, want, label):
        """the code's truth value agrees with the oracle's"""
        self.run.claims(self, label, [self._iff(got, want)])
    def true(self, cond, label):
        if isinstance(cond, np.ndarray): cl = [self._b(x) for x in obj(cond).ravel()]
        else: cl = [self._b(cond)]
        self.run.claims(self, label, cl)
    def holds_le(self, a, b, label):
        a, b = self.sc(a), self.sc(b)
        cl = []
        if isinstance(a, S): cl += list(a.df)
        if isinstance(b, S): cl += list(b.df)
        self.run.claims(self, label, cl + [B_cmp(a, b, "<=")])
    def defined(self, a, label):
        cl = []
        for x in obj(a).ravel():
            if nonfinite(x): cl.append(False)
            elif isinstance(x, S): cl += list(x.df)
        self.run.claims(self, label, cl or [True])
    def is_nan(self, a, label):
        ok = all(nonfinite(x) and x != x for x in obj(a).ravel())
        self.run.claims(self, label, [ok])
    def raises(self, fn, label, exc=Exception):
        try: fn()
        except exc: self.run.claims(self, label, [True]); return True
        self.run.claims(self, label, [False], "no exception raised")
        return False
    def attempt(self, fn):
        """(result, exception)"""
        try: return fn(), None
        except Exception as e: return None, e
    def fail(self, label, why=""): self.run.claims(self, label, [False], why)
    def ok(self, label): self.run.claims(self, label, [True])
    def observe(self, label, a):
        self.ctx.obs.append((label, [x for x in obj(a).ravel()]))
    def is_array(self, x): return isinstance(x, np.ndarray)
    def shares(self, a, b): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(base(a), base(b))
    def snapshot(self, a): return [x for x in obj(a).ravel()]
    def unchanged(self, a, snap, label):
        now = [x for x in obj(a).ravel()]
        if len(now) != len(snap): return self.run.claims(self, label, [False], "size changed")
        self.run.claims(self, label, [True if x is y else (B_cmp(to_S(x), to_S(y), "==") if not (nonfinite(x) or nonfinite(y)) else (x == y or x != x and y != y)) for x, y in zip(now, snap)])
    def draws(self, key, kind="u"): return [n for n in self.ctx.consumed if n.startswith(kind + "|" + ":".join(map(str, key)) + "|")]
    def draw(self, seed, i, kind): return self.ctx.draw(("seed", seed), i, kind)
    def draw_of(self, key, i, kind): return self.ctx.draw(tuple(key), i, kind)
    def fix_draw(self, seed, i, kind, value): self.ctx.fixed[core.draw_name(("seed", seed), i, kind)] = to_S(value)
    def draw_named(self, name):
        kind, key, i = name.split("|")
        if name in self.ctx.fixed: return self.ctx.fixed[name]
        if name in self.ctx.inputs: return self.ctx.inputs[name]
        raise AssertFail("no such draw")
    def all_draws(self): return list(self.ctx.consumed)
    def free_schedules(self, k):
        """only the first k scheduling decisions are arbitrary; later tasks run in submission order"""
        self.ctx.sched_limit = k
    def fix_draws(self, fn):
        """fn(stream, position, kind) -> the value of a draw, or None to leave it arbitrary"""
        self.ctx.fixfn = fn
    def drawlog(self):
        """every draw so far, repeats included: (stream, position, kind)"""
        return list(self.ctx.log)
    def ite(self, c, a, b): return a if self.is_true(c) else b
    def operator(self, M, dtype="float64"):
        """matrix-free operator over a dense matrix"""
        return stubs_operator(self, M, dtype)

    def orth_vector(self, v, U, start, p, reverse=False): self.loader.get("primate._lanczos").orth_vector(v, U, start, p, reverse)
    def sparse(self, M, dtype="float64"): return stubs.CSC(M, dtype)

def _scalarish(a): return isinstance(a, (S, B, float, int, bool, np.number, np.ndarray))

def stubs_operator(E, M, dtype):
    LO = E.sp("scipy.sparse.linalg").LinearOperator
    class Op(LO):
        def __init__(s): 
            s.M = M; s.calls = 0
            super().__init__(dtype=np.dtype(dtype), shape=M.shape)
        def _matvec(s, x): s.calls += 1; return s.M @ x
        def _matmat(s, X): s.calls += 1; return s.M @ X
    return Op()

class Run:
    """one harness configuration: all paths"""
    def __init__(self, fn, cfg, loader_factory, opts=None, replay=None, log=None):
        self.fn, self.cfg = fn, cfg
        self.opts = dict(DEFAULT); self.opts.update(opts or {})
        self.lf = loader_factory
        self.replay = replay
        self.ranges = {}; self.ints = set(); self.signs_in = set()
        self.res = dict(paths=0, obligations=0, trivial=0, discharged=0, violations=[], inconclusive=[], witnesses=0, witness_fail=[], confirmed=0, confirm_n=0, confirm_s=0.0, confirm_skipped=0, obs_checked=0, obs_mismatch=[], samples=[], aborted=0)
        self.t0 = time.time()
        self.no_assume_check = False
        self.funcs = set()
        self.stop = False

    # ---- exploration
    def explore(self):
        core.reset_tables()
        stack = [[]]
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        n = 0
        first = True
        while stack and not self.stop:
            if time.time() - self.t0 > self.opts["time"]:
                self.res["inconclusive"].append(f"time budget: {len(stack)} path prefixes not explored"); break
            if self.res["paths"] >= self.opts["max_paths"]:
                self.res["inconclusive"].append(f"path budget: {len(stack)} path prefixes not explored"); break
            prefix = stack.pop()
            n += 1
            ctx = core.Ctx(prefix, dict(self.opts)); core.CTX = ctx
            loader = self.lf()
            E = SymE(loader, ctx, self)
            self.E = E
            self.npath_claims = 0
            if first: sys.setprofile(self._prof)
            try:
                self.fn(E, **self.cfg)
                self.end_path(E)
            except PathAbort as e:
                self.res["aborted"] += 1
            except Violation as v:
                self.fail(E, "engine", v.msg)
            except (Unsupported, Budget) as e:
                self.inconclusive(E, f"{type(e).__name__}: {e}")
            except RecursionError as e:
                self.inconclusive(E, "recursion limit")
            except Stop: pass
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
                self.exception(E, e, where, "".join(traceback.format_tb(e.__traceback__)[-6:]))
            finally:
                if first: sys.setprofile(None); first = False
                core.CTX = ctx
                stack.extend(ctx.pending)
        core.CTX = None
        return self.res

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/primate/" in f:
                self.funcs.add(os.path.basename(f) + ":" + frame.f_code.co_qualname)

    def end_path(self, E):
        self.res["paths"] += 1
        if self.npath_claims == 0: self.inconclusive(E, "path without any claim")
        if self.replay is not None and self.res["witnesses"] < self.opts.get("max_witnesses", 12): self.witness(E)

    def inconclusive(self, E, why, concrete=True):
        """nothing is claimed for this path; the real code is still run on a few of its inputs"""
        self.res["inconclusive"].append(why[:300])
        self.res["paths"] += 1
        if self.replay is not None and self.res.setdefault("fallback", 0) < 4:
            self.res["fallback"] += 1
            for env in itertools.islice(self.models([], [], quick=True), 3):
                r = self.replay(self.payload(E, env))
                if r.get("fails") or r.get("exc"):
                    self.record("undecided path", why, env, r, E); return

    def confirm(self, E, label, idents):
        """identities found by normalisation are put to the solver once more, as the code computed them (within a budget)"""
        R = self.res
        if not idents or R["confirm_s"] > 12 or R["confirm_n"] >= 60: return
        t = time.time(); memo, side, gens, bad = {}, [], set(), []
        for x, y in idents:
            if x is y: continue
            a, b = core.z3_dag(x, memo, side, gens, 600), core.z3_dag(y, memo, side, gens, 600)
            if a is None or b is None: R["confirm_skipped"] += 1; return
            if not a.eq(b): bad.append(a != b)
        if not bad: return
        R["confirm_n"] += 1
        r = core.z3_check(E.ctx.formulas(side + [z3.Or(*bad)], gens), 400)
        if r == z3.unsat: R["confirmed"] += 1
        elif r == z3.sat: self.inconclusive(E, f"{label}: normal form and solver disagree", concrete=False)
        else: core.STATS.unk -= 1; R["confirm_skipped"] += 1
        R["confirm_s"] += time.time() - t

    # ---- claims
    def claim(self, E, label, c, why=""): self.claims(E, label, [c], why)
    def claims(self, E, label, cl, why=""):
        self.npath_claims += 1
        self.res["obligations"] += 1
        neg = []
        for c in cl:
            if isinstance(c, B):
                t = core.atom_truth(c)
                if t is True: continue
                if t is False: neg.append(False)
                else: neg.append(c)
            elif not c: neg.append(False)
        if not neg:
            self.res["trivial"] += 1
            # the normalised claim is an identity; the solver still confirms path & false is what is left
            return
        bad = core.b_any([b_not(c) for c in neg])
        gs = set()
        e = core.z3_of_B(bad, gs) if isinstance(bad, B) else z3.BoolVal(bool(bad))
        fs = E.ctx.formulas([e], gs)
        r = core.z3_check(fs, self.opts["obl_ms"]) 
        if r == z3.unsat:
            self.res["discharged"] += 1
            return
        # try claims one by one when the disjunction is too hard
        if r == z3.unknown and len(neg) > 1:
            left = []
            for c in neg:
                if c is False: left.append(c); continue
                gs = set(); e = core.z3_of_B(b_not(c), gs)
                if core.z3_check(E.ctx.formulas([e], gs), self.opts["obl_ms"]) != z3.unsat: left.append(c)
            if not left:
                self.res["discharged"] += 1
                return
            neg = left
        self.fail(E, label, why or "claim fails", neg, definite=r == z3.sat)

    def fail(self, E, label, why, neg=(False,), definite=True):
        """look for inputs on which the real code shows the violation"""
        if len(self.res["violations"]) >= 3: raise Stop()
        bad = core.b_any([b_not(c) for c in neg])
        tried = 0
        if self.replay is not None:
            for env in self.models([bad] if isinstance(bad, B) else [], neg):
                tried += 1
                r = self.replay(self.payload(E, env))
                if r.get("fails") or (r.get("exc") and not r.get("nomatch")):
                    self.record(label, why, env, r, E)
                    raise Stop()
                if tried >= self.opts.get("max_replays", 14): break
        self.res["inconclusive"].append(f"{'unreproduced counterexample' if definite else 'undecided'}: {label}: {why} ({tried} replays)"[:300])

    def exception(self, E, e, where, tb):
        self.res["paths"] += 1
        if self.replay is not None:
            for k, env in enumerate(self.models([], [])):
                r = self.replay(self.payload(E, env))
                if r.get("fails") or r.get("exc"):
                    self.record(f"exception {type(e).__name__}", f"{e} at {where}", env, r, E)
                    return
                if k > 5: break
        self.res["inconclusive"].append(f"exception not reproduced: {type(e).__name__}: {e} at {where}"[:300])
        self.res.setdefault("tracebacks", []).append(tb[-1500:])

    def record(self, label, why, env, r, E):
        self.res["violations"].append(dict(label=label, why=why, inputs={k: v for k, v in env.items()}, choices=dict(E.ctx.choices), result=r))

    def payload(self, E, env):
        return dict(cfg=self.cfg, inputs={k: env[k] for k in env if isinstance(k, str)}, choices=dict(E.ctx.choices))

    # ---- models
    def models(self, extra, neg, quick=False):
        """input assignments of the current path that (try to) satisfy `extra`"""
        E = self.E; ctx = E.ctx
        names = list(ctx.inputs)
        rng = random.Random(len(names) * 7919 + self.res["obligations"] + int(os.environ.get("VERIF_SEED", "1")))
        seen = set()
        def emit(env):
            k = tuple(round(v, 9) for v in env.values())
            if k in seen: return False
            seen.add(k); return True
        gs = set(); ex = []
        for b in extra:
            if isinstance(b, B): ex.append(core.z3_of_B(b, gs))
        gidx = {}
        for n_ in names:
            s = ctx.inputs[n_]
            gidx[n_] = s.a[0]
        vs = {n_: core.z3_of_gen(i) for n_, i in gidx.items()}
        box = []
        for n_, v in vs.items():
            if n_ in self.signs_in: box.append(z3.Or(v == 1, v == -1))
            elif n_[:2] == "u|": box.append(z3.And(v >= 0, v < 1))
            elif n_ in self.ints: box.append(z3.And(z3.IsInt(v), v <= 12))
            else: box.append(z3.And(v >= -6, v <= 6))
        allg = set(gs) | set(gidx.values())
        fs = ctx.formulas(ex, allg)
        def attempt(cons, ms):
            r, m = core.z3_check(cons, ms, want_model=True)
            if r != z3.sat: return None
            env = {}
            for n_, v in vs.items():
                env[n_] = z3num(m.eval(v, model_completion=True))
            return env
        ufs = [i for i in ctx._allgens if P.RING.gens[i].kind == "uf"]
        def refine(cons, env):
            """the arguments of uninterpreted functions fixed as in `env`, and their values to what the real functions return there"""
            if not ufs: return None
            genv = {gidx[n_]: env[n_] for n_ in names}; more = []; cache = {}
            for i in ufs:
                dep = core.uf_inputs(i)
                if not dep <= set(genv): return None
                try: v = core.eval_float(core.T.gen_node[i], genv, cache)
                except (KeyError, ZeroDivisionError, OverflowError, ValueError): return None
                g = core.z3_of_gen(i); w = 1e-9 * (1 + abs(v))
                more += [g >= z3.RealVal(str(Fraction(v - w))), g <= z3.RealVal(str(Fraction(v + w)))]
                more += [core.z3_of_gen(j) == z3.RealVal(str(Fraction(genv[j]))) for j in dep]
            return attempt(cons + more, 4000)
        # 1 generic numeric sampling inside the path
        cond = [b for b in ctx.pc] + [b for b in extra if isinstance(b, B)]
        hits = 0
        for t in range(400 if not quick else 200):
            env = {n_: self.sample(n_, rng) for n_ in names}
            if numeric_ok(cond, {gidx[n_]: env[n_] for n_ in names}, ctx):
                if emit(env): yield env; hits += 1
                if hits >= 4: break
        if not quick or hits == 0:
            for k in range(4):
                if k == 0: cons = fs + box
                else:
                    fixed = [n_ for n_ in names if rng.random() < (0.5 if k < 3 else 0.8)]
                    cons = fs + box + [vs[n_] == z3.RealVal(str(Fraction(self.sample(n_, rng)).limit_denominator(16))) for n_ in fixed]
                env = attempt(cons, 4000)
                if env is None: continue
                if emit(env): yield env
                env = refine(cons, env)
                if env is not None and emit(env): yield env
            if hits == 0:
                env = attempt(fs, 6000)
                if env is not None and emit(env): yield env

    def sample(self, n_, rng):
        lo, hi, kind = self.ranges.get(n_, (None, None, None))
        if n_[:2] == "u|": return rng.choice([0, 1, 2, 3, 4, 5, 6, 7]) / 8 + 1 / 32
        if n_ in self.signs_in: return float(rng.choice([-1, 1]))
        if n_ in self.ints: return float((lo or 0) + rng.randrange(0, 8))
        den = rng.choice([1, 2, 4])
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            return lo + (hi - lo) * rng.randrange(0, 17) / 16
        v = rng.randrange(-12, 13) / den / rng.choice([1, 2])
        if lo is not None: v = float(lo) + abs(v)
        if hi is not None: v = float(hi) - abs(v)
        if kind in ("pos", "nonzero") and v == 0: v = 0.75
        if kind in ("pos", "nonneg"): v = abs(v)
        return v

    # ---- validation of the translation on one input per path
    def witness(self, E):
        ctx = E.ctx
        got = False
        for env in itertools.islice(self.models([], [], quick=True), 1):
            got = True
            r = self.replay(self.payload(E, env))
            self.res["witnesses"] += 1
            if r.get("fails") or r.get("exc"):
                # confirm on further inputs of the same path before believing it
                bad = 1
                for env2 in itertools.islice(self.models([], [], quick=True), 1, 4):
                    r2 = self.replay(self.payload(E, env2))
                    if r2.get("fails") or r2.get("exc"): bad += 1
                self.res["witness_fail"].append(dict(inputs=env, choices=dict(ctx.choices), result=r, confirmed=bad))
                if bad >= 2 or r.get("exc") or not ctx.inputs: self.record("real run of a decided path", "the real code fails a claim that holds in exact arithmetic", env, r, E)
                return
            if len(self.res["samples"]) < 3:
                self.res["samples"].append(dict(inputs={k: round(v, 6) for k, v in list(env.items())[:12]}, choices=dict(ctx.choices), claims=r.get("nclaims")))
            self.compare(E, env, r)

    def compare(self, E, env, r):
        genv = {E.ctx.inputs[n_].a[0]: v for n_, v in env.items()}
        co = r.get("obs", [])
        if len(co) != len(E.ctx.obs): return
        cache = {}
        for (lab, xs), (lab2, ys) in zip(E.ctx.obs, co):
            if lab != lab2 or len(xs) != len(ys): return
            for x, y in zip(xs, ys):
                if not isinstance(x, S) or y is None: continue
                try: v = core.eval_float(x, genv, cache)
                except (KeyError, OverflowError, RecursionError, ValueError): continue
                if v != v: continue
                self.res["obs_checked"] += 1
                if abs(v - y) > 1e-5 * (1 + abs(v)):
                    if len(self.res["obs_mismatch"]) < 5: self.res["obs_mismatch"].append(f"{lab}: symbolic {v:.9g}, real {y:.9g}")

class Stop(Engine): pass

def z3num(v):
    try:
        if z3.is_rational_value(v): return float(v.as_fraction())
        if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    except Exception: pass
    return 0.0

def numeric_ok(bs, env, ctx, margin=1e-7):
    cache = {}
    try:
        for b in bs:
            if not eval_B(b, env, cache, margin): return False
    except (KeyError, ZeroDivisionError, OverflowError, ValueError): return False
    return True
def eval_B(b, env, cache, margin):
    if not isinstance(b, B): return bool(b)
    if b.op == "atom":
        p, r = b.a
        k = ("p", p.id)
        v = cache.get(k)
        if v is None: v = cache[k] = core.eval_poly(p.d, env, cache)
        if r == "=": return abs(v) <= 1e-12
        return v > margin if r == ">" else v < -margin
    if b.op == "not":
        a = b.a[0]
        if a.op == "atom":
            p, r = a.a
            k = ("p", p.id)
            v = cache.get(k)
            if v is None: v = cache[k] = core.eval_poly(p.d, env, cache)
            if r == "=": return abs(v) > margin
            return v <= -margin or v == 0 if r == ">" else v >= margin or v == 0
        return not eval_B(a, env, cache, margin)
    if b.op == "and": return all(eval_B(x, env, cache, margin) for x in b.a)
    return any(eval_B(x, env, cache, margin) for x in b.a)
