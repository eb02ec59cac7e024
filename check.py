#!/usr/bin/env python3
"""Decide one property of /repo symbolically.   python3-vt check.py C01 [--tier quick|thorough] [--only harness] [--src DIR]"""
import sys, os, json, time, argparse, importlib, subprocess, select, signal, multiprocessing as mp, traceback, resource, re, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.unraisablehook = lambda *a: None
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"; sys.dont_write_bytecode = True
SRC = "/repo/src/primate"
VENV = "/opt/venv/bin/python"

class Server:
    """the real code, in the project's own interpreter"""
    def __init__(self, src, so): self.src, self.so, self.p = src, so, None
    def start(self):
        env = dict(os.environ); env.pop("PYTHONPATH", None); env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([VENV, os.path.join(HERE, "vsym", "con.py"), "serve", self.src, self.so or ""], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
    def ask(self, req, timeout=25):
        if self.p is None:
            self.start()
            try:
                self.p.stdin.write(b'{"ping": 1}\n'); self.p.stdin.flush()
                if not select.select([self.p.stdout], [], [], 120)[0] or not self.p.stdout.readline(): raise OSError("the real-code server did not start")
            except OSError as e:
                self.kill(); self.broken = str(e)
                return dict(fails=[], error=self.broken)
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode()); self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r: self.kill(); return dict(fails=[], exc=f"no answer within {timeout} s (does not terminate)", hang=True)
            line = self.p.stdout.readline()
            if not line:
                rc = self.p.wait(5); self.p = None
                return dict(fails=[], exc=f"process died (status {rc})")
            return json.loads(line)
        except (BrokenPipeError, OSError) as e:
            self.kill(); return dict(fails=[], error=str(e))
    def kill(self):
        if self.p is not None:
            try: os.killpg(self.p.pid, signal.SIGKILL); self.p.wait(5)
            except Exception: pass
            self.p = None

def worker(task, q):
    prop, modname, hname, cfg, src, rsrc, so, native_sym, opts = task
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = dict(harness=hname, cfg=cfg)
    srv = None
    try:
        import z3
        z3.set_param("memory_max_size", 3500)
        from vsym import core, stubs, sym
        hm = importlib.import_module(modname)
        h = [x for x in hm.HARNESSES if x.name == hname][0]
        srv = Server(rsrc, so)
        if getattr(h.fn, "custom", False):
            res = h.fn(src=src, rsrc=rsrc, so=so, server=srv, modname=modname, tier=opts["tier"], **cfg)
        else:
            native = None
            if h.native == "sym":
                from vsym import native as nat
                native = nat.load(native_sym)
            def lf():
                for k in [k for k in sys.modules if k.split(".")[0] == "primate"]: del sys.modules[k]
                L = stubs.Loader(src)
                L.native = native if native is not None else stubs.mod("primate._lanczos", lanczos=_nonative)
                return L
            def replay(pl):
                return srv.ask(dict(module=modname, fn=hname, **pl))
            o = dict(h.opts); o.update({k: v for k, v in opts.items() if k not in ("tier",)})
            run = sym.Run(h.fn, cfg, lf, o, replay)
            res = run.explore()
            res["funcs"] = sorted(run.funcs)
        S = core.STATS
        res["queries"], res["solver_s"], res["unknown"], res["sat"], res["unsat"] = S.q, S.t, S.unk, S.sat, S.unsat
        from vsym import poly
        res["peak_terms"] = poly.RING.terms_peak
        out["res"] = res
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"; out["tb"] = traceback.format_exc()[-3000:]
    finally:
        if srv is not None: srv.kill()
    try: q.send(json.dumps(out, default=str))
    except Exception as e: q.send(json.dumps(dict(harness=hname, cfg=cfg, error=f"result: {e}")))
    q.close()
    os._exit(0)

def _nonative(*a): raise RuntimeError("native Lanczos not built for this check")

def run_tasks(tasks, jobs, deadline):
    known = known_findings()
    pend = list(tasks); live = {}; done = []
    ctx = mp.get_context("fork")
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(t, w)); p.start(); w.close()
            live[r] = (p, t, time.time())
        ready = mp.connection.wait(list(live), timeout=1.0)
        for r in ready:
            p, t, t0 = live.pop(r)
            try: res = json.loads(r.recv())
            except (EOFError, ValueError): res = dict(harness=t[2], cfg=t[3], error="worker died")
            res["wall"] = round(time.time() - t0, 2)
            p.join(5)
            if p.is_alive(): p.kill()
            done.append(res)
            if any(not listed(known, tasks[0][0], res, v) for v in (res.get("res") or {}).get("violations", [])): deadline = min(deadline, time.time() + 25)      # answered: a little time for the rest
        now = time.time()
        if now > deadline:
            for r, (p, t, t0) in live.items():
                p.kill(); done.append(dict(harness=t[2], cfg=t[3], error="deadline", wall=now - t0))
            for t in pend: done.append(dict(harness=t[2], cfg=t[3], error="deadline (not started)"))
            subprocess.run(["pkill", "-9", "-f", HERE + "/vsym/con.py serve " + tasks[0][5]], check=False) if tasks else None
            return done
    return done

def known_findings():
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) cfg=(\{.*?\}) label=\"(.*?)\" (.*)", l.strip())
            if m: out.append(dict(prop=m[1], harness=m[2], cfg=json.loads(m[3]), label=m[4], text=m[5], hit=False))
    return out

def listed(known, prop, r, v):
    """the known finding a violation is, if any"""
    return next((f for f in known if f["prop"] == prop and f["harness"] == r["harness"] and f["cfg"] == r["cfg"] and f["label"] == v["label"]), None)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--src", default=SRC); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true"); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop; modname = "props." + prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hm = importlib.import_module(modname)
    from vsym import replayenv
    need_native = any(h.native for h in hm.HARNESSES)
    src, so, clean = replayenv.prepare(a.src, False)
    rsrc = src
    native_sym = None
    rc = 2
    try:
        builderr = None
        if need_native:
            from vsym import nativebuild
            try: native_sym, so = nativebuild.build(a.src, os.path.dirname(src))
            except subprocess.CalledProcessError as e:
                print("native build failed:", (e.stderr or b"")[-2000:].decode(errors="replace") if isinstance(e.stderr, bytes) else e.stderr); sys.exit(2)
        budget = 780 if a.tier == "quick" else 5400
        tasks = []
        for h in hm.HARNESSES:
            if a.only and not re.search(a.only, h.name): continue
            for cfg in (h.quick if a.tier == "quick" else h.thorough):
                o = dict(time=500 if a.tier == "quick" else 3000, tier=a.tier)
                if a.tier == "thorough": o["obl_ms"] = 120000
                tasks.append((prop, modname, h.name, cfg, src, rsrc, so if h.native else "", native_sym if h.native else None, o))
        res = run_tasks(tasks, a.jobs, t0 + budget)
        rc = report(prop, a, hm, res, t0, seed)
    finally: clean()
    sys.exit(rc)

def report(prop, a, hm, res, t0, seed):
    known = known_findings()
    viol = []; incon = []; funcs = set(); samples = []
    tot = dict(paths=0, obligations=0, trivial=0, discharged=0, witnesses=0, obs_checked=0, queries=0, unknown=0, solver_s=0.0, aborted=0, confirmed=0, confirm_skipped=0)
    per = []
    for r in sorted(res, key=lambda r: (r["harness"], json.dumps(r["cfg"], sort_keys=True))):
        x = r.get("res")
        if x is None:
            incon.append(f"{r['harness']} {r['cfg']}: {r.get('error')}")
            if a.v: print(r.get("tb"))
            per.append(dict(harness=r["harness"], cfg=r["cfg"], error=r.get("error")))
            continue
        for k in tot: tot[k] += x.get(k, 0)
        funcs |= set(x.get("funcs", []))
        for s in x.get("samples", [])[:2]:
            if len(samples) < 12: samples.append(dict(harness=r["harness"], cfg=r["cfg"], **s))
        per.append(dict(harness=r["harness"], cfg=r["cfg"], paths=x["paths"], claims=x["obligations"], witnesses=x.get("witnesses", 0), queries=x["queries"], solver_s=round(x["solver_s"], 2), wall=r.get("wall"), undecided=len(x["inconclusive"]), mismatches=len(x.get("obs_mismatch", []))))
        for v in x["violations"]:
            k = listed(known, prop, r, v)
            if k: k["hit"] = True; continue
            viol.append((r, v))
        if x["paths"] == 0 and not x["inconclusive"] and not x["violations"]: incon.append(f"{r['harness']} {r['cfg']}: vacuous: no feasible path")
        for s in x["inconclusive"]: incon.append(f"{r['harness']} {r['cfg']}: {s}")
        for s in x.get("obs_mismatch", []): print(f"NOTE translation differs from the real run: {r['harness']} {r['cfg']}: {s}")
        if a.v:
            print(f"{r['harness']} {r['cfg']}: paths {x['paths']} (+{x['aborted']} infeasible) claims {x['obligations']} identity {x['trivial']} solver {x['discharged']} witnesses {x['witnesses']} obs {x['obs_checked']} queries {x['queries']} unk {x['unknown']} solver {x['solver_s']:.1f}s wall {r.get('wall')}s peak {x['peak_terms']} viol {len(x['violations'])} incon {len(x['inconclusive'])}")
            for t in x.get("tracebacks", []): print(t)
            for w in x.get("witness_fail", []): print("   witness:", json.dumps(w)[:700])
    for f in known:
        if f["hit"]: print(f"KNOWN-FINDING: property={prop} {f['text']}")
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
    first = None
    for i, (r, v) in enumerate(viol[:5]):
        path = os.path.join(evd, f"replay_{prop}_{i}.json")
        h = [x for x in hm.HARNESSES if x.name == r["harness"]][0]
        with open(path, "w") as f: json.dump(dict(property=prop, module=hm.__name__, fn=r["harness"], cfg=r["cfg"], inputs=v["inputs"], choices=v["choices"], native=bool(h.native), label=v["label"], why=v["why"], result={k: v["result"].get(k) for k in ("fails", "exc")}, command=f"/opt/venv/bin/python /verif/vsym/con.py replay {path}"), f, indent=1)
        print(f"  {r['harness']} {r['cfg']}: {v['label']}: {v['why']}; real code: {(v['result'].get('fails') or [v['result'].get('exc')])[0]}")
        print(f"VIOLATION property={prop} replay={path}")
    for s in incon[:12]: print("UNDECIDED:", s[:400])
    if len(incon) > 12: print(f"UNDECIDED: {len(incon) - 12} more")
    decided = tot["obligations"]
    ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=tot["paths"], transitions=tot["queries"], traces_validated_against_impl=tot["witnesses"], samples=samples or [dict(note="no witness run")],
            paths=tot["paths"], infeasible_paths=tot["aborted"], claims=tot["obligations"], claims_reduced_to_identities=tot["trivial"], claims_closed_by_solver_query=tot["discharged"], identities_put_to_the_solver_unnormalised_and_proved=tot["confirmed"], identities_left_to_the_normal_form_alone=tot["confirm_skipped"],
            solver_queries=tot["queries"], solver_unknown=tot["unknown"], solver_seconds=round(tot["solver_s"], 2), values_compared_with_real_runs=tot["obs_checked"],
            functions_encoded=sorted(funcs), bounds=[dict(harness=h.name, what=h.title, bounds=h.bounds, configurations=len(h.quick if a.tier == "quick" else h.thorough)) for h in hm.HARNESSES],
            per_configuration=per[:60], undecided=incon[:20], rule="states = feasible symbolic paths; transitions = solver queries; each path stands for all inputs that satisfy its path condition"),
        assumptions=list(getattr(hm, "ASSUMPTIONS", [])) + ["exact real arithmetic: rounding, overflow and subnormal effects are outside the claim", "numpy/scipy routines are modelled by their documented contracts (vsym/arr.py, vsym/stubs.py), validated by replaying one model per path on the real libraries"])
    if not a.no_evidence:
        s = json.dumps(ev)
        while len(s) > 60000 and ev["coverage"]["per_configuration"]:
            ev["coverage"]["per_configuration"] = ev["coverage"]["per_configuration"][: len(ev["coverage"]["per_configuration"]) // 2]; ev["coverage"]["samples"] = ev["coverage"]["samples"][:3]; s = json.dumps(ev)
        with open(os.path.join(evd, f"{prop}.json"), "w") as f: f.write(s)
    print(f"{prop} {a.tier}: {len(res)} configurations, {tot['paths']} paths, {tot['obligations']} claims, {tot['queries']} solver queries ({tot['solver_s']:.1f} s), {tot['witnesses']} real runs, {len(viol)} violations, {len(incon)} undecided, {time.time() - t0:.1f} s")
    if viol: return 1
    if decided == 0 or tot["obligations"] == 0: return 2
    # nothing decided in some configuration and nothing run for real either: no answer
    if any(r.get("res") is None for r in res) and not any(r.get("res") for r in res): return 2
    return 0

if __name__ == "__main__": main()
