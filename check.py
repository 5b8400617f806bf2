#!/usr/bin/env python3
"""Decides one property:   python3-vt check.py C01   (environment: VERIF_TIER, VERIF_SEED)

exit 0  held on everything explored        exit 1  VIOLATION line printed
exit 2  the check itself failed (counterexample that does not replay, nothing
        reached, internal error)
"""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_IMPL = [p for p in ("/opt/pypyvenv/bin/python", "/usr/bin/python3", sys.executable)
           if os.path.exists(p)][0]


def run_replay(module, tier, items, timeout=600):
    """runs items on the plain sources under the product's interpreter; several
    processes when there are many"""
    if not items:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
    k = max(1, min(8, len(items) // 12))
    parts = [items[i::k] for i in range(k)]
    procs = []
    for part in parts:
        p = subprocess.Popen([PY_IMPL, "-m", "sx.replay"], cwd=HERE, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.append((p, json.dumps({"repo": REPO, "module": module, "tier": tier,
                                     "items": part}).encode()))
    import threading
    outs = [None] * k

    def go(i):
        p, inp = procs[i]
        try:
            outs[i] = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[i] = (b"", b"timeout")
    ts = [threading.Thread(target=go, args=(i,)) for i in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(items)
    for i in range(k):
        try:
            r = json.loads(outs[i][0].decode())
        except ValueError:
            raise RuntimeError("replay failed: %s" % outs[i][1].decode()[-2000:])
        res[i::k] = r
    return res


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "known":
                        out.append(d)
    return out


def norm(x):
    return json.loads(json.dumps(x))


def matches(known, case, inputs, label):
    """a listed finding suppresses only its own case, label and input region"""
    for k in known:
        if k.get("cases") and case not in k["cases"]:
            continue
        if k.get("label") and k["label"] != label:
            continue
        if k.get("inputs") and any(inputs.get(n) != v for n, v in k["inputs"].items()):
            continue
        return k
    return None


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    from sx import explore, instrument
    finder = instrument.install(REPO, HERE)
    modname = "harness." + pid.lower()
    mod = importlib.import_module(modname)
    cases = mod.cases(tier)
    if os.environ.get("VERIF_CASES"):
        want = os.environ["VERIF_CASES"].split(",")
        cases = [c for c in cases if c["name"] in want]
    for c in cases:
        c.setdefault("opts", {})
    known = known_findings(pid)
    explore.KNOWN = lambda case, v: matches(known, case, v["inputs"], v["label"]) is not None
    limit = float(os.environ.get("VERIF_LIMIT", 480 if tier == "quick" else 3000))
    workers = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 1))
    agg, info = explore.explore(cases, seed=seed, workers=workers, limit=limit,
                                sample_rate=0.05, repo=REPO,
                                progress=bool(os.environ.get("VERIF_PROGRESS")))
    problems = []
    for ci, e in info["errors"]:
        problems.append("internal error in case %s: %s" % (cases[ci]["name"], e[-1500:]))

    # counterexamples: replay on the real code
    cex, seen = [], {}
    for c, a in zip(cases, agg):
        for v in a["violations"]:
            m = matches(known, c["name"], v["inputs"], v["label"])
            k = (c["name"], v["label"]) if m is None else m["id"]
            if seen.get(k, 0) < 6:
                seen[k] = seen.get(k, 0) + 1
                cex.append((c["name"], v))
    inc, samples = [], []
    for c, a in zip(cases, agg):
        for why, w in a["incomplete"]:
            if w is not None:
                inc.append((c["name"], why, w))
        samples += [(c["name"], s) for s in a["samples"][:30 if len(cases) < 20 else 6]]
    items = [{"case": n, "inputs": v["inputs"]} for n, v in cex] \
        + [{"case": n, "inputs": w["inputs"]} for n, _, w in inc] \
        + [{"case": n, "inputs": s["inputs"]} for n, s in samples]
    try:
        rep = run_replay(modname, tier, items)
    except RuntimeError as e:
        problems.append(str(e))
        rep = []
    confirmed, unconfirmed, validated, mismatched = [], [], 0, []
    if rep:
        for (n, v), r in zip(cex, rep):
            if r["exception"]:
                confirmed.append((n, "exception %s in %s" % (r["exception"].split(":")[0],
                                                             r.get("where")), v, r))
            elif r["failed"]:
                lab = v["label"] if v["label"] in r["failed"] else r["failed"][0]
                confirmed.append((n, lab, v, r))
            else:
                unconfirmed.append((n, v, r))
        off = len(cex)
        # paths the encoding could not follow: their witness is judged concretely
        for (n, why, w), r in zip(inc, rep[off:]):
            if r["exception"] or r["failed"]:
                lab = r["failed"][0] if r["failed"] else "exception %s in %s" % (
                    r["exception"].split(":")[0], r.get("where"))
                confirmed.append((n, lab, dict(w, label=lab), r))
        off += len(inc)
        for (n, s), r in zip(samples, rep[off:]):
            if r["exception"] or r["failed"] or r["stopped"]:
                # the real code misbehaves where the encoding saw nothing
                if r["failed"] or r["exception"]:
                    lab = r["failed"][0] if r["failed"] else "exception %s in %s" % (
                        r["exception"].split(":")[0], r.get("where"))
                    confirmed.append((n, lab, dict(s, label=lab), r))
                else:
                    mismatched.append((n, s, r))
            elif norm(s["log"]) != norm(r["log"]):
                mismatched.append((n, s, r))
            else:
                validated += 1

    printed = set()
    viol = []
    for n, lab, v, r in confirmed:
        k = matches(known, n, v["inputs"], lab)
        if k:
            if k["id"] not in printed:
                printed.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            viol.append((n, lab, v, r))
    soft = []
    for n, v, r in unconfirmed:
        msg = "case %s: %s %s does not reproduce on the real code (%s)" % (
            n, v["label"], v["inputs"], v.get("exception", ""))
        if v["label"].startswith("exception "):
            soft.append(msg)    # the encoding could not follow the code here
        else:
            problems.append(msg)
    for n, s, r in mismatched[:5]:
        problems.append("case %s: encoding and real code disagree on %s: %s vs %s %s" % (
            n, s["inputs"], s["log"], r["log"], r["stopped"]))

    # vacuity: every case must reach what it claims to check
    if not viol and info["stopped"] != "violations":
        for c, a in zip(cases, agg):
            miss = [x for x in c.get("covers", ()) if x not in a["covers"]]
            if miss and not (a["left"] and info["stopped"]):
                problems.append("case %s never reached: %s" % (c["name"], ", ".join(miss)))

    tot = explore.Stats()
    for a in agg:
        tot.addall(a["stats"])
    n_inc = sum(a["n_incomplete"] for a in agg) + len(soft)
    left = sum(a["left"] for a in agg)
    unk = sum(len(a["unknown"]) for a in agg)
    if tot["paths"] == 0 or tot["checks"] == 0:
        problems.append("nothing explored")
    funcs = sorted(set(f for a in agg for f in a["functions"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": validated,
            "samples": [dict(case=n, inputs=s["inputs"], observed=s["log"])
                        for n, s in samples[:6]] or [dict(case=n, inputs=v["inputs"])
                                                     for n, v in cex[:3]],
            "explanation": "symbolic execution of the sources in %s; states = feasible paths "
                           "completed, transitions = solver-relevant branch decisions taken; every "
                           "property assertion on a path is one obligation decided for all values "
                           "satisfying the path condition" % REPO,
            "exhaustive": not (left or n_inc or unk or tot["unknown"]),
            "functions_encoded": funcs,
            "cases": [dict(case=c["name"], bounds=c.get("bounds", ""), paths=a["stats"]["paths"],
                           obligations=a["stats"]["checks"], cpu_s=round(a["t"], 1), unexplored_prefixes=a["left"],
                           reached=sorted(a["covers"])) for c, a in zip(cases, agg)],
            "queries": tot["queries"],
            "solver_s": round(tot["solver_s"], 2),
            "obligations_stated": tot["checks"],
            "obligations_decided_without_solver": tot["checks_trivial"],
            "inconclusive_queries": tot["unknown"],
            "undecided_obligations": unk,
            "paths_not_encodable": n_inc,
            "unexplored_prefixes": left,
            "stopped": info["stopped"],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % pid))

    print("%s %s: %d paths, %d branch decisions, %d obligations (%d queries, %.1f s solver), "
          "%d traces validated, %.1f s" % (
              pid, tier, tot["paths"], tot["branches"], tot["checks"], tot["queries"],
              tot["solver_s"], validated, time.time() - t0))
    if left or info["stopped"]:
        print("%s: stopped (%s), %d unexplored prefixes" % (pid, info["stopped"], left))
    if n_inc or unk or tot["unknown"]:
        print("%s: %d paths not encodable, %d obligations undecided, %d inconclusive queries" % (
            pid, n_inc, unk, tot["unknown"]))
        for a in agg:
            for why, _ in a["incomplete"][:2]:
                print("   not encodable:", str(why)[:300])
        for m in soft[:3]:
            print("   not encodable:", m[:400])
    if viol:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        done = set()
        for n, lab, v, r in viol:
            if lab in done:
                continue
            done.add(lab)
            path = os.path.join(d, "%s-%d.json" % (pid, len(done)))
            with open(path, "w") as f:
                json.dump({"property": pid, "module": modname, "tier": tier, "case": n, "label": lab,
                           "inputs": v["inputs"], "result": r,
                           "how": "python3-vt check.py --replay %s" % path}, f, indent=1)
            print("  case %s: %s\n    inputs %s\n    %s" % (
                n, lab, v["inputs"], (r["exception"] or "failed: %s" % r["failed"])))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems[:10]:
            print("ERROR", p[:3000])
        return 2
    return 0


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    r = run_replay(d["module"], d["tier"], [{"case": d["case"], "inputs": d["inputs"]}])[0]
    print(json.dumps(r, indent=1))
    bad = bool(r["failed"] or r["exception"])
    if bad:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
