"""Path exploration: depth-first over decision prefixes, spread over processes.

Every path re-executes the harness (and through it the real code) from the
start with a fixed prefix of branch decisions; new branches are decided by the
SMT solver and the unexplored sides are queued.
"""
import gc
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import time
import traceback

from . import core, state
from .core import NeedFork, PathCtx, PathStop, Stats, SymbolicLimit

sys.setrecursionlimit(20000)


def _where(tb, roots):
    for fr in reversed(traceback.extract_tb(tb)):
        if any(fr.filename.startswith(r) for r in roots):
            return "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return "?"


class _Profile(object):
    """records which functions of the repository are executed symbolically"""

    def __init__(self, repo, out):
        self.repo = repo.rstrip("/") + "/"
        self.out = out

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.repo):
                self.out.add("%s:%s" % (co.co_filename[len(self.repo):],
                                        getattr(co, "co_qualname", co.co_name)))


def run_path(case, prefix, stats, want_sample):
    """explore one path; returns (pending prefixes, result dict)"""
    opts = case.get("opts", {})
    state.restore()
    ctx = PathCtx(prefix, stats, opts)
    core.set_ctx(ctx)
    res = {"violations": [], "covers": (), "incomplete": None, "sample": None, "unknown": []}
    aborted = None
    try:
        try:
            case["fn"](ctx, **case.get("params", {}))
            ctx.flush()
        except PathStop as e:
            if ctx.todo:
                ctx.flush()
            aborted = "stop:" + str(e)
        except SymbolicLimit as e:
            aborted = "limit"
            ctx.flush()
            res["incomplete"] = ("limit: %s" % (e,), _witness(ctx))
        except NeedFork:
            aborted = "limit"
            res["incomplete"] = ("merge escaped", _witness(ctx))
        except Exception as e:
            aborted = "exc"
            w = _where(e.__traceback__, ("/repo/",))
            ctx.flush()
            m = ctx.any_model()
            if m is not None:
                v = ctx.witness(m, "exception %s in %s" % (type(e).__name__, w))
                v["exception"] = repr(e)[:300]
                v["tb"] = traceback.format_exc()[-1500:]
                res["violations"].append(v)
    except PathStop as e:
        aborted = "stop:" + str(e)
    finally:
        pass
    if aborted != "stop:infeasible" and not str(aborted).startswith("stop"):
        stats["paths"] += 1
    res["violations"] += ctx.violations
    res["unknown"] = ctx.unknown_checks
    res["covers"] = tuple(ctx.covers)
    if aborted is None and want_sample and not res["violations"]:
        try:
            m = ctx.any_model()
            if m is not None:
                s = ctx.witness(m, "sample")
                s["log"] = [[k, ctx.eval_value(m, v)] for k, v in ctx.logs]
                s["decisions"] = len(ctx.trace)
                res["sample"] = s
        except SymbolicLimit:
            pass
    core.set_ctx(None)
    return ctx.pending, res


def _witness(ctx):
    try:
        m = ctx.any_model()
        return ctx.witness(m, "incomplete") if m is not None else None
    except Exception:
        return None


def KNOWN(case, v):
    """whether a violation is a listed finding; those do not end the search"""
    return False


def _slice(cases, repo, ci, prefixes, budget, seed, sample_rate):
    rnd = random.Random(seed)
    stats = Stats()
    out = {"case": ci, "violations": [], "covers": set(), "incomplete": [], "samples": [],
           "unknown": [], "n": 0, "functions": set()}
    t0 = time.time()
    stack = list(prefixes)
    while stack and (time.time() - t0 < budget or out["n"] == 0):
        p = stack.pop()
        if out["n"] == 0:
            sys.setprofile(_Profile(repo, out["functions"]))
        try:
            pend, res = run_path(cases[ci], p, stats, rnd.random() < sample_rate or p[0] == ())
        finally:
            sys.setprofile(None)
        stack.extend(pend)
        out["n"] += 1
        for k in ("violations", "unknown"):
            out[k] += res[k]
        out["covers"].update(res["covers"])
        if res["incomplete"]:
            out["incomplete"].append(res["incomplete"])
        if res["sample"]:
            out["samples"].append(res["sample"])
        if len([v for v in out["violations"] if not KNOWN(cases[ci]["name"], v)]) >= 6:
            break
    out["stats"] = dict(stats)
    out["left"] = stack
    return out


def _worker(conn, cases, repo):
    gc.disable()
    state.snapshot([m for k, m in list(sys.modules.items())
                    if k == "clubs" or k.startswith("clubs.")])
    n = 0
    while True:
        msg = conn.recv()
        if msg is None:
            break
        try:
            out = _slice(cases, repo, *msg)
        except BaseException:
            out = {"error": traceback.format_exc(), "case": msg[0]}
        conn.send(out)
        n += 1
        if n % 20 == 0:
            gc.collect()
    conn.close()
    os._exit(0)


def explore(cases, seed=1, workers=None, limit=600, sample_rate=0.02, max_violations=12,
            slice_s=1.5, progress=False, repo="/repo"):
    """explores all cases; returns aggregated results (per case)."""
    workers = workers or max(1, os.cpu_count() or 1)
    t0 = time.time()
    agg = [{"stats": Stats(), "violations": [], "covers": set(), "incomplete": [], "samples": [],
            "unknown": [], "n_incomplete": 0, "functions": set(), "left": 0, "t": 0.0} for _ in cases]
    queue = [(i, [((), None)]) for i in range(len(cases))]
    ctxm = mp.get_context("fork")
    procs, idle, busy = [], [], {}
    for _ in range(min(workers, 64)):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b, cases, repo), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
        idle.append(a)
    nviol, errors, stopped = 0, [], None
    task = 0
    last = t0
    try:
        while queue or busy:
            now = time.time()
            if stopped is None and now - t0 > limit:
                stopped = "time limit"
            if stopped is None and nviol >= max_violations:
                stopped = "violations"
            if errors:
                break
            if stopped and not busy:
                break
            while idle and queue and not stopped:
                ci, prefs = queue.pop(0)
                c = idle.pop()
                task += 1
                few = len(queue) + len(busy) < workers
                c.send((ci, prefs, 0.15 if few else slice_s, seed * 1000003 + task, sample_rate))
                busy[c] = (ci, now)
            ready = mpc.wait(list(busy), timeout=1.0)
            for c in ready:
                out = c.recv()
                ci, ts = busy.pop(c)
                idle.append(c)
                if "error" in out:
                    errors.append((out["case"], out["error"]))
                    continue
                a = agg[ci]
                a["t"] += time.time() - ts
                a["stats"].addall(out["stats"])
                a["violations"] += out["violations"]
                nviol += len([v for v in out["violations"] if not KNOWN(cases[ci]["name"], v)])
                a["unknown"] += out["unknown"]
                a["covers"] |= out["covers"]
                a["functions"] |= out["functions"]
                a["n_incomplete"] += len(out["incomplete"])
                a["incomplete"] += out["incomplete"][:max(0, 20 - len(a["incomplete"]))]
                a["samples"] += out["samples"][:max(0, 60 - len(a["samples"]))]
                left = out["left"]
                if left:
                    # split the leftover so that idle workers get a share
                    need = max(1, len(idle) - len(queue))
                    k = min(len(left), need + 1)
                    for j in range(k):
                        queue.append((ci, left[j::k]))
            if progress and time.time() - last > 5:
                last = time.time()
                print("  .. %.0fs paths=%d queue=%d busy=%d viol=%d" % (
                    last - t0, sum(a["stats"]["paths"] for a in agg), len(queue), len(busy), nviol),
                    file=sys.stderr, flush=True)
    finally:
        for p, a in procs:
            try:
                if a in idle:
                    a.send(None)
            except OSError:
                pass
        for p, a in procs:
            if a in busy:
                p.kill()
        for p, a in procs:
            p.join(1)
            if p.is_alive():
                p.kill()
    for ci, prefs in queue:
        agg[ci]["left"] += len(prefs)
    for c, (ci, _) in busy.items():
        agg[ci]["left"] += 1
    return agg, {"wall": time.time() - t0, "stopped": stopped, "errors": errors}
