"""Exploration of one harness, replay of its counterexamples, and the per-property driver."""
from __future__ import annotations

import gc
import importlib
import json
import os
import pickle
import subprocess
import sys
import threading
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from multiprocessing.connection import wait

from symx import core, shims
from symx.core import ConcCtx, EngineLimit, PathEnd, PathInfeasible, Stats, SymCtx

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAILFAST = bool(os.environ.get("SYMX_FAILFAST"))  # for mutation campaigns: stop at the first confirmed counterexample
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class H:
    """One harness: fn(ctx, **params)."""

    def __init__(self, fn, budget=25, max_paths=4000, timeout_ms=4000, tier="quick", name=None, bounds="", stubs="", weight=1, expect_complete=True,
                 witnesses=6, thorough_budget=None, **params):
        self.fn, self.budget, self.max_paths, self.timeout_ms, self.tier = fn, budget, max_paths, timeout_ms, tier
        self.name = name or fn.__name__
        self.params = params
        self.bounds = bounds
        self.stubs = stubs
        self.witnesses = witnesses
        self.thorough_budget = thorough_budget or budget * 4


# ------------------------------------------------------------------------------------------------- code under test
_hit = {}


def _start_monitor():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if REPO_SRC and fn.startswith(REPO_SRC):
            _hit[(fn[len(REPO_SRC) + 1:], code.co_qualname)] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def load_sources_only():
    """/repo is always compiled from its current source, never from cached bytecode"""
    import importlib.machinery as im

    orig = im.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(REPO_SRC):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    im.SourceFileLoader.get_code = get_code


class Watch(threading.Thread):
    """Keeps a checkpoint of an exploration whose path takes long, and ends the process when the solver does not come
    back from a query (it does not check its own time limit everywhere)."""

    def __init__(self, path, deadline):
        super().__init__(daemon=True)
        self.path, self.deadline = path, deadline
        self.lock = threading.Lock()
        self.state = self.saved = None
        self.since = time.time()
        self.stop = False

    def begin(self, n, *state):
        self.state, self.since = (n, *state), time.time()

    def dump(self):
        n, out, work, candn, stats, ctx = self.state
        out["functions"] = sorted(set(out.get("functions", [])) | hit_functions())
        with open(self.path + ".tmp", "wb") as f:
            pickle.dump((n, out, work + list(ctx.alternatives), candn, stats, list(ctx.results)), f)
        os.replace(self.path + ".tmp", self.path)
        self.saved = n

    def run(self):
        while not self.stop:
            time.sleep(0.5)
            now, b = time.time(), core.BEAT[0]
            stuck = now > self.deadline + 45 or (b is not None and now > b + 12)
            if self.state is None or not stuck and (self.saved == self.state[0] or now < self.since + 2):
                continue
            with self.lock:
                if self.stop or self.state is None:
                    continue
                try:
                    self.dump()
                except Exception:
                    self.saved = self.state[0]
                if stuck:
                    os._exit(3)


def tally(out, candn, results):
    for r in results:
        a = out["asserts"].setdefault(r["name"], {"unsat": 0, "sat": 0, "unknown": 0})
        a[r["status"]] += 1
        if r["status"] == "sat" and candn.get(r["name"], 0) < 3:
            candn[r["name"]] = candn.get(r["name"], 0) + 1
            out["cands"].append({"name": r["name"], "inputs": r["inputs"], "sym": "sat"})
        elif r["status"] == "unknown" and r.get("path_inputs") and len(out["fallback"]) < 20:
            out["fallback"].append(r["path_inputs"])


def resumed(path, why):
    """the state of an exploration whose process ended: its last path counts as undecided"""
    n, out, work, candn, stats, results = pickle.load(open(path, "rb"))
    tally(out, candn, results)
    out["limits"].append(why)
    out["paths"] += 1
    return n, out, work, candn, stats


def hit_functions():
    return {f"{f}:{q_}" for f, q_ in list(_hit) if "<lambda>" not in q_ and "<locals>" not in q_ and "<genexpr>" not in q_ and "<module>" not in q_}


def finish(out, work, stats, wall):
    out["complete"] = not work
    out["left"] = len(work)
    out["functions"] = sorted(set(out.get("functions", [])) | hit_functions())
    out["queries"], out["solver_s"], out["qres"] = stats.queries, round(stats.solver_s, 3), stats.results
    out["wall_s"] = round(wall, 2)
    return out


def run_symbolic(h: H, seed=1, budget=None, save=None, resume=None):
    t0 = time.time()
    budget = budget or h.budget
    deadline = t0 + budget
    shims.restore()
    shims.snapshot()
    if resume is not None:
        n, out, work, candn, stats = resume
    else:
        n, work, candn, stats = 0, [[]], {}, Stats()
        out = {
            "harness": h.name, "paths": 0, "infeasible": 0, "limits": [], "asserts": {}, "cands": [], "witness": [],
            "reached": [], "complete": False, "exceptions": {}, "decisions": 0, "fallback": [], "unknown_branches": 0, "concretised": 0,
            "max_depth": 0,
        }
    _start_monitor()
    watch = None
    if save:
        watch = Watch(save, deadline)
        watch.start()
    lock = watch.lock if watch else threading.Lock()
    while work:
        if n >= h.max_paths or time.time() > deadline or (FAILFAST and len(out["cands"]) > 2):
            break
        prefix = work.pop()
        n += 1
        ctx = SymCtx(prefix, stats, h.timeout_ms, deadline)
        if watch:
            watch.begin(n, out, work, candn, stats, ctx)
        shims.restore()
        shims.install()
        core.CUR = ctx
        status, exc = "done", None
        try:
            try:
                h.fn(ctx, **h.params)
            finally:
                core_cur = core.CUR
                shims.uninstall()
            ctx.reach("end")
        except PathInfeasible:
            status = "infeasible"
        except EngineLimit as e:
            status, exc = "limit", str(e)
        except PathEnd as e:
            status, exc = "limit", type(e).__name__
        except RecursionError as e:
            status, exc = "limit", "RecursionError"
        except Exception as e:
            status, exc = "exception", e
        try:
            if status == "exception":
                tb = traceback.extract_tb(exc.__traceback__)
                where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
                key = f"exception:{type(exc).__name__}"
                out["exceptions"].setdefault(f"{key} {str(exc)[:160]} @ {where}", 0)
                out["exceptions"][f"{key} {str(exc)[:160]} @ {where}"] += 1
                try:
                    r, m = ctx.solve()
                except EngineLimit:
                    r, m = "unknown", None
                if r == "unsat":
                    status = "infeasible"
                elif candn.get(key, 0) < 4:
                    candn[key] = candn.get(key, 0) + 1
                    if m is not None:
                        m = ctx.polish(m, core.TRUE)
                        out["cands"].append({"name": key, "inputs": ctx.extract(m), "sym": str(exc)[:300] + " @ " + where})
            elif status == "limit":
                out["limits"].append(exc)
                if len(out["fallback"]) < 12 and exc != "deadline":
                    try:
                        r, m = ctx.solve(timeout_ms=1000)
                        if m is not None:
                            out["fallback"].append(ctx.extract(ctx.polish(m, core.TRUE)))
                    except PathEnd:
                        pass
            elif status == "done":
                out["reached"] = sorted(set(out["reached"]) | ctx.reached)
                if "end" in ctx.reached and ctx.model is not None and (len(out["witness"]) < h.witnesses or (n % 17 == 0 and len(out["witness"]) < 3 * h.witnesses)):
                    out["witness"].append(ctx.extract(ctx.polish(ctx.model, core.TRUE, 2.0) if len(out["witness"]) < 12 else ctx.model))
        except PathEnd:
            pass
        except Exception as e:  # a defect of the engine itself: the path is undecided, never a verdict
            out["limits"].append(f"engine: {type(e).__name__}: {e}"[:200])
        core.CUR = None
        if status == "infeasible":
            out["infeasible"] += 1
        else:
            out["paths"] += 1
            out["decisions"] += len(ctx.decisions)
            out["max_depth"] = max(out["max_depth"], len(ctx.decisions))
            out["unknown_branches"] += ctx.unknown_branches
            out["concretised"] += ctx.concretised
        with lock:
            if watch:
                watch.state = None
            tally(out, candn, ctx.results)
            work.extend(ctx.alternatives)
        del ctx
    if watch:
        with lock:
            watch.stop, watch.state = True, None
    return finish(out, work, stats, time.time() - t0)


# --------------------------------------------------------------------------------------------------------- replay
def stand_in_gap(e, tb):
    """whether a stand-in of the harness was asked for something it does not offer (which says nothing about the code)"""
    ours = [f.filename.startswith(os.path.join(ROOT, "harness")) or f.filename.startswith(os.path.join(ROOT, "symx")) for f in tb]
    real = [f.filename.startswith(REPO_SRC) for f in tb]
    if ours and ours[-1] and any(real) and isinstance(e, (AssertionError, NotImplementedError)):
        return True
    if isinstance(e, AttributeError) and any(real):
        c = type(getattr(e, "obj", None))
        return c.__name__ == "SimpleNamespace" or c.__module__.startswith(("harness", "symx")) and not any(b.__module__.startswith("dg_commons") for b in c.__mro__)
    if isinstance(e, TypeError) and any(real) and "unexpected keyword argument" in str(e):
        name = str(e).split("(")[0]
        return name == "<lambda>" or any(name == q for m in list(sys.modules) if m.startswith(("harness", "symx")) for q in qualnames(sys.modules[m]))
    return False


def qualnames(m):
    for n, x in vars(m).items():
        if getattr(x, "__module__", None) == m.__name__:
            yield n
            for k, y in (vars(x).items() if isinstance(x, type) else ()):
                yield getattr(y, "__qualname__", k)


def replay_one(h: H, inputs):
    ctx = ConcCtx(inputs)
    shims.restore()
    try:
        h.fn(ctx, **h.params)
    except core.AssumptionNotMet:
        return {"status": "assume", "failed": []}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if stand_in_gap(e, tb):
            return {"status": "stand-in", "failed": ctx.failed}
        where = f"{tb[-1].filename}:{tb[-1].lineno}"
        return {"status": "exception", "failed": ctx.failed + [{"assertion": f"exception:{type(e).__name__}", "detail": f"{e} at {where}"[:400]}]}
    return {"status": "ok", "failed": ctx.failed, "checked": ctx.checked}


def replay_main(argv):
    """python -m symx.engine replay FILE : FILE holds {property, harness, cases:[inputs...]}"""
    spec = json.load(open(argv[0]))
    mod = load_property(spec["property"])
    import warnings

    warnings.simplefilter("ignore")
    shims.snapshot()
    jobs = spec["jobs"] if "jobs" in spec else [[spec["harness"], [spec["inputs"]]]]
    res = []
    for hname, cases in jobs:
        h = next(x for x in mod.HARNESSES if x.name == hname)
        res.append([replay_one(h, c) for c in cases])
        if len(argv) > 1:
            json.dump(res, open(argv[1] + ".tmp", "w"))
            os.replace(argv[1] + ".tmp", argv[1])
    if len(argv) > 1:
        return 0
    res = res[0]
    print(json.dumps(res, indent=1))
    return 1 if any(r["failed"] for r in res) else 0


def load_property(pid):
    load_once()
    return importlib.import_module(f"harness.{pid.lower()}")


_loaded = False


def load_once():
    global _loaded
    if _loaded:
        return
    _loaded = True
    load_sources_only()
    sys.path.insert(0, REPO_SRC)
    sys.setrecursionlimit(5000)
    import logging

    logging.disable(logging.CRITICAL)
    from zuper_commons.logs import ZLogger

    ZLogger._log = lambda self, *a, **k: None  # silent
    import warnings

    warnings.simplefilter("ignore")


def batch_replay(pid, jobs, scratch, tag, timeout=200):
    """jobs: [[harness, [inputs...]]...] -> [[result...]...], run on the unpatched code in a fresh process"""
    jobs = [j for j in jobs]
    out, todo, part = [], jobs, 0
    while todo:
        f = os.path.join(scratch, f"{tag}.{part}.json")
        o = f + ".out"
        json.dump({"property": pid, "jobs": todo}, open(f, "w"))
        try:
            subprocess.run([sys.executable, "-m", "symx.engine", "replay", f, o], cwd=ROOT, timeout=timeout, capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            pass
        done = json.load(open(o)) if os.path.exists(o) else []
        out += done
        if len(done) < len(todo):  # the process died or hung in this job: skip it
            out.append([{"status": "replay did not finish", "failed": []} for _ in todo[len(done)][1]])
        todo = todo[len(done) + 1:]
        part += 1
        if part > 8:
            out += [[{"status": "replay skipped", "failed": []} for _ in j[1]] for j in todo]
            break
    return out


RESTARTS = 3


def child(h, tier, seed, path, resume, budget):
    try:
        try:
            import ctypes

            ctypes.CDLL(None).prctl(1, 9)  # ends with its parent
        except Exception:
            pass
        mem_guard()
        r = run_symbolic(h, seed, budget, path + ".ck", resume)
    except BaseException as e:
        r = {"harness": h.name, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(r, f)
    os.replace(path + ".tmp", path)
    sys.stdout.flush()
    os._exit(0)


def explore(mod, idxs, tier, seed, scratch, workers, limit):
    """one process per harness, a few at a time; a process that ends or hangs resumes behind the path it was on"""
    ctx = mp.get_context("fork")
    t0 = time.time()
    queue, running, results, used, tries = list(idxs), {}, {}, {}, {}

    def start(i, resume=None):
        h = mod.HARNESSES[i]
        budget = (h.budget if tier == "quick" else h.thorough_budget) - used.get(i, 0)
        path = os.path.join(scratch, f"h{i}")
        p = ctx.Process(target=child, args=(h, tier, seed, path, resume, max(budget, 1)), daemon=True)
        p.start()
        running[p.sentinel] = (i, p, path, time.time(), budget)

    def ended(i, p, path, began, budget, killed=False):
        h = mod.HARNESSES[i]
        used[i] = used.get(i, 0) + time.time() - began
        if os.path.exists(path):
            results[i] = pickle.load(open(path, "rb"))
            results[i]["wall_s"] = round(used[i], 2) if "error" not in results[i] else 0
            return
        tries[i] = tries.get(i, 0) + 1
        why = "the check's time is up" if killed else ("the solver did not come back" if p.exitcode == 3 else f"worker ended ({p.exitcode})")
        st = None
        if os.path.exists(path + ".ck"):
            try:
                st = resumed(path + ".ck", why)
                os.remove(path + ".ck")
            except Exception:
                st = None
        left = (h.budget if tier == "quick" else h.thorough_budget) - used[i]
        if not killed and tries[i] <= RESTARTS and left > 2:
            start(i, st)
        elif st is not None:
            results[i] = finish(st[1], st[2] or [[]], st[4], used[i])
        else:
            results[i] = {"harness": h.name, "error": f"worker: {why}"}

    while queue or running:
        while queue and len(running) < workers:
            start(queue.pop(0))
        for snt in wait(list(running), timeout=5):
            rec = running.pop(snt)
            rec[1].join()
            ended(*rec)
            if FAILFAST and rec[0] in results and results[rec[0]].get("cands"):
                r = results[rec[0]]
                if any(x["failed"] for x in batch_replay(mod.META["id"], [[r["harness"], [c["inputs"] for c in r["cands"]]]], scratch, f"ff{rec[0]}")[0]):
                    limit = 0
        if time.time() - t0 > limit:
            for rec in list(running.values()):
                rec[1].kill()
                rec[1].join()
                ended(*rec, killed=True)
            running.clear()
            for i in queue:
                results[i] = {"harness": mod.HARNESSES[i].name, "error": "not started: the check's time is up"}
            queue = []
    return [results[i] for i in idxs]


def replay_batch_job(args):
    pid, jobs, scratch, tag = args
    return batch_replay(pid, jobs, scratch, tag)


def evaluate(outs, pid, scratch, ex):
    good = [o for o in outs if "error" not in o]
    metas, jobs = [], []
    for o in good:
        meta = [("cand", c["name"], c["inputs"]) for c in o["cands"]] + [("witness", None, w) for w in o["witness"]] + [("fallback", None, w) for w in o["fallback"]]
        metas.append(meta)
        jobs.append([o["harness"], [m[2] for m in meta]])
    nb = min(4, max(1, len(jobs) // 3))
    groups = [list(range(i, len(jobs), nb)) for i in range(nb)]
    res = [None] * len(jobs)
    for g, rr in zip(groups, ex.map(replay_batch_job, [(pid, [jobs[i] for i in g], scratch, f"b{n}") for n, g in enumerate(groups)])):
        for i, r in zip(g, rr):
            res[i] = r
    for out, meta, rs in zip(good, metas, res):
        out["confirmed"], out["unconfirmed"], out["validated"], out["witness_bad"], out["fallback_run"] = [], [], 0, 0, 0
        for (k, name, c), r in zip(meta, rs):
            if r["failed"]:
                out["confirmed"].append({"via": k, "assertion": name or r["failed"][0]["assertion"], "inputs": c, "failed": r["failed"][:5]})
            elif k == "cand":
                out["unconfirmed"].append({"assertion": name, "inputs": c, "status": r["status"]})
            elif k == "witness":
                if r["status"] == "ok":
                    out["validated"] += 1
                else:
                    out["witness_bad"] += 1
            elif r["status"] == "ok":
                out["fallback_run"] += 1


def mem_guard():
    import resource

    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def main(pid, tier="quick", workers=None, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load_property(pid)
    idxs = [i for i, h in enumerate(mod.HARNESSES) if (tier == "thorough" or h.tier == "quick") and (not only or h.name in only)]
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix=f"symx_{pid}_")
    results = []
    try:
        ctx = mp.get_context("fork")
        results = explore(mod, idxs, tier, seed, scratch, min(workers or 7, len(idxs)), 600 if tier == "quick" else 6 * 3600)
        with ProcessPoolExecutor(max_workers=4, mp_context=ctx) as ex:
            evaluate(results, pid, scratch, ex)
        known = load_known(pid)
        kf_lines = run_known(pid, known, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, mod, tier, seed, results, idxs, t0, kf_lines, verbose)


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def run_known(pid, known, scratch):
    """replay every listed finding; it is announced when it still fails"""
    lines = []
    for k in known:
        res = batch_replay(pid, [[k["harness"], [k["inputs"]]]], scratch, "known_" + k["id"])
        if res and any(f["assertion"] == k["assertion"] for f in res[0][0]["failed"]):
            lines.append(f"KNOWN-FINDING: property={pid} {k['id']} {k['what']}")
    return lines


def report(pid, mod, tier, seed, results, idxs, t0, kf_lines, verbose):
    rdir = os.path.join(ROOT, "replays")
    violations, inconclusive, errors = [], [], []
    tot = dict(paths=0, infeasible=0, queries=0, solver_s=0.0, decisions=0, unsat=0, sat=0, unknown=0, validated=0)
    funcs, hrep = set(), []
    vacuous = []
    for i, r in zip(idxs, results):
        h = mod.HARNESSES[i]
        if "error" in r:
            errors.append(f"{r['harness']}: {r['error']}")
            if verbose:
                print(r.get("tb", ""))
            continue
        for k in ("paths", "infeasible", "queries", "decisions", "validated"):
            tot[k] += r[k]
        tot["solver_s"] += r["solver_s"]
        a_un = sum(a["unsat"] for a in r["asserts"].values())
        a_sat = sum(a["sat"] for a in r["asserts"].values())
        a_unk = sum(a["unknown"] for a in r["asserts"].values())
        tot["unsat"] += a_un
        tot["sat"] += a_sat
        tot["unknown"] += a_unk
        funcs.update(r["functions"])
        seen = set()
        for c in r["confirmed"]:
            key = (r["harness"], c["failed"][0]["assertion"])
            if key in seen:
                continue
            seen.add(key)
            violations.append((r["harness"], c))
        if a_unk:
            inconclusive.append(f"{r['harness']}: {a_unk} assertion queries undecided ({', '.join(n for n, a in r['asserts'].items() if a['unknown'])[:200]})")
        if r["unconfirmed"]:
            inconclusive.append(f"{r['harness']}: {len(r['unconfirmed'])} solver counterexamples did not reproduce on the real code ({', '.join(sorted({u['assertion'] for u in r['unconfirmed']}))[:200]})")
        if r["limits"]:
            inconclusive.append(f"{r['harness']}: {len(r['limits'])} paths left undecided ({'; '.join(sorted(set(map(str, r['limits']))))[:300]})")
        if not r["complete"]:
            inconclusive.append(f"{r['harness']}: exploration stopped at its budget, {r['left']} branches left")
        if not (a_un or a_sat) or "end" not in r["reached"] and not r["confirmed"]:
            vacuous.append(r["harness"])
        hrep.append({"harness": r["harness"], "bounds": h.bounds, "stubs": h.stubs, "params": {k: str(v)[:80] for k, v in h.params.items()}, "paths": r["paths"], "infeasible_prefixes": r["infeasible"],
                     "complete": r["complete"], "branches_left": r["left"], "max_depth": r["max_depth"],
                     "assertion_queries": {"holds": a_un, "counterexample": a_sat, "undecided": a_unk},
                     "assertions": sorted(r["asserts"])[:60],
                     "solver_queries": r["queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"], "reachability_witness": "end" in r["reached"],
                     "witnesses_validated": r["validated"], "witnesses_outside_assumptions": r["witness_bad"], "fallback_concrete_runs": r["fallback_run"],
                     "undecided_paths": len(r["limits"]), "unknown_branches": r["unknown_branches"], "concretised": r["concretised"]})
        if verbose:
            print(f"[{r['harness']}] paths={r['paths']} inf={r['infeasible']} complete={r['complete']} left={r['left']} q={r['queries']} solver={r['solver_s']:.1f}s wall={r['wall_s']}s asserts holds={a_un} cex={a_sat} unk={a_unk} wit={r['validated']}/{len(r['witness'])} bad={r['witness_bad']} ub={r['unknown_branches']} conc={r['concretised']}")
            for e, n in r["exceptions"].items():
                print("    exception path:", n, e)
            for l in sorted(set(map(str, r["limits"]))):
                print("    limit:", l)
            for n, a in r["asserts"].items():
                if a["sat"] or a["unknown"]:
                    print("    assert", n, a)
            for u in r["unconfirmed"][:4]:
                print("    unconfirmed", u)
    viol_lines = []
    if violations:
        os.makedirs(rdir, exist_ok=True)
        for n, (hn, c) in enumerate(violations[:8]):
            path = os.path.join(rdir, f"{pid}_{n}.json")
            json.dump({"property": pid, "harness": hn, "inputs": c["inputs"], "assertion": c["failed"][0]["assertion"], "found_by": c["via"],
                       "failed": c["failed"], "how": f"cd {ROOT} && ./check {pid} --replay {path}"}, open(path, "w"), indent=1)
            viol_lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"  {hn}: {c['failed'][0]['assertion']}: {c['failed'][0].get('detail', '')}"[:300])
    samples = []
    for r in results:
        if "error" not in r:
            for w in r["witness"][:1]:
                samples.append({"harness": r["harness"], "path_witness": w})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": tot["validated"],
            "samples": samples[:8] or ["none"],
            "exhaustive": bool(results) and not inconclusive and not errors,
            "functions_encoded": sorted(funcs),
            "queries_discharged": tot["unsat"], "queries_with_counterexample": tot["sat"], "queries_undecided": tot["unknown"],
            "solver_queries_total": tot["queries"], "solver_s": round(tot["solver_s"], 2),
            "solver": "z3 " + ".".join(map(str, __import__("z3").get_version())),
            "harnesses": hrep, "inconclusive": inconclusive, "errors": errors,
            "known_findings": kf_lines,
            "explanation": "states = symbolic execution paths of the real code completed within the bounds; transitions = solver-decided branch decisions on them; traces_validated_against_impl = solver models of paths re-run concretely on the unpatched code with every assertion holding",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + GENERAL_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    for l in kf_lines:
        print(l)
    for l in inconclusive:
        print("INCONCLUSIVE", l)
    for l in errors:
        print("ERROR", l)
    for l in viol_lines:
        print(l)
    print(f"{pid} {tier}: {len(results)} harnesses, {tot['paths']} paths, {tot['unsat']} assertion queries hold, {tot['sat']} counterexamples ({len(viol_lines)} confirmed), {tot['unknown']} undecided; {tot['queries']} solver queries {tot['solver_s']:.1f}s; wall {time.time()-t0:.1f}s")
    if viol_lines:
        return 1
    if len(errors) + len(vacuous) >= len(idxs):
        print("NO VERDICT", errors or f"nothing decided in {vacuous}")
        return 3
    if vacuous:
        print("INCONCLUSIVE vacuous harnesses:", vacuous)
    return 0


GENERAL_ASSUMPTIONS = [
    "Python floats, numpy floats and Decimals are modelled as exact reals (decimal literals denote their decimal value); a violation must exceed the stated margin, so rounding-size deviations are outside the claim",
    "NaN inputs are outside the claim; infinities only where the harness uses them",
    "sine/cosine are any point of the unit circle consistent with the sign in each quadrant; inverse functions and roots are tied by their defining equations",
    "a counterexample is reported only after it reproduces on the unpatched code",
]

if __name__ == "__main__":
    # run under the canonical module name so that classes are not duplicated
    from symx import engine

    if sys.argv[1] == "replay":
        sys.exit(engine.replay_main(sys.argv[2:]))
